"""Classification of every byte."""
import itertools
import random

from checks.common import *

REPS = [0x00, 0x01, 0x08, 0x09, 0x0a, 0x0d, 0x1b, 0x20, 0x28, 0x2f, 0x30, 0x3b, 0x3f, 0x40, 0x4f, 0x5b, 0x5c, 0x60, 0x6d,
        0x7e, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5,
        0xff]
UREPS = [0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xed, 0xf0, 0xf4]
EREPS = [0x1b, 0x20, 0x2f, 0x30, 0x3b, 0x3f, 0x40, 0x5b, 0x6d, 0x7e, 0x7f, 0x80, 0x0a]


class CHECK(Cli):
    ID = 'C04'
    HI = 900
    RULE = ('enumerated: all 1- and 2-byte strings, all strings of up to 4 class representatives of escape sequences and '
            'UTF-8 (joined with separators), sampled (thorough: all) code points; random mixes biased to malformed '
            'sequences; both modes, with class colours; non-trivial: contains a multi-byte or escape token, or a '
            'malformed one')

    def enumerated(self):
        """Byte strings, covering families of near sentences."""
        for n in range(1, 3):
            yield 'all strings of %d bytes' % n, itertools.product(range(256), repeat=n)
        yield 'class representatives, 3', itertools.product(REPS, repeat=3)
        yield 'utf-8 lead and 3', itertools.product([0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5],
                                                    UREPS, UREPS, UREPS)
        yield 'escape and 3', itertools.product([0x1b], EREPS, EREPS, EREPS)
        yield 'csi and 3', itertools.product([0x1b], [0x5b], EREPS, EREPS, EREPS)
        yield 'escape and any', itertools.product([0x1b], range(256))
        yield 'csi and any final', itertools.product([0x1b], [0x5b], [0x30, 0x31, 0x3b, 0x3f, 0x20], range(256))

    def fixed(self):
        res = []
        part = 2500
        seps = [b'', b'\n', b'A\n', b'\n']
        total = 0
        for name, it in self.enumerated():
            items = [bytes(x) for x in it]
            if not self.thorough and len(items) > 12000:
                rng = random.Random('c04:%s:%s' % (self.seed, name))
                items = rng.sample(items, 12000)
            for p in range(0, len(items), part):
                sep = seps[(p // part) % len(seps)] if name.startswith('class') else b'\n'
                d = b''.join(x + (sep or b'\n') for x in items[p:p + part])
                res.append({'o': Opt(b=bool((p // part) % 2), w=64), 'data': d, 'family': name})
        if self.thorough:
            cps = [c for c in range(0x80, 0x110000) if not 0xd800 <= c < 0xe000]
        else:
            rng = random.Random('c04cp:%s' % self.seed)
            cps = sorted(set([c for b in (0x80, 0x800, 0xd800, 0xe000, 0x10000, 0x40000, 0x100000, 0x110000) for c in range(b - 40, b + 40)
                              if 0x80 <= c < 0x110000 and not 0xd800 <= c < 0xe000] +
                             [c for c in (rng.randrange(0x80, 0x110000) for _ in range(12000)) if not 0xd800 <= c < 0xe000]))
        for p in range(0, len(cps), 4000):
            d = ''.join(chr(c) + ('' if c % 3 else 'x') + ('\n' if c % 50 == 0 else '') for c in cps[p:p + 4000]).encode()
            res.append({'o': Opt(b=bool((p // 4000) % 2), w=64, d=bool((p // 8000) % 2)), 'data': d, 'family': 'code points'})
        # long sequences, the complete ones and those that lack the final byte
        for n in (33, 129, 1025, 5000, 20000):
            for t in (b'\x1b[' + b'1;' * n, b'\x1b[' + b'?' * n, b'\x1b[1' + b' !' * n, b'\x1b(' + b'#' * n, b'\x1b[' + b';' * n + b'/' * n):
                for b in (False, True):
                    res.append({'o': Opt(b=b, w=64, f=1 << 20), 'data': b'a' + t + b'm' + t + b'H\n' + t + b'B' + t + b'\n' + t + b'\xd1' + t + t + b'q', 'family': 'long', 'big': True})
        return [{**c, 'o': Opt({k: v for k, v in c['o'].items() if not (k == 'w' and not c['o'].b)})} for c in res]

    def generate(self, rng, i):
        o = Opt(b=rng.random() < .5)
        if o.b:
            o['w'] = gen.pick(rng, 1, 5, 16, 64)
            o['d'] = rng.random() < .5
        else:
            o['m'] = rng.randrange(3)
        if rng.random() < .3:
            o['focus'], o['ignore'] = gen.classes(rng)
        if rng.random() < .25:
            o['f'] = gen.pick(rng, 1, 2, 3, 5, 7, 16, 100)
        prefer = gen.pick(rng, gen.UTF_FRAGS, gen.ESC_FRAGS, None)
        d = gen.data(rng, self.HI, prefer=prefer)
        return {'o': o, 'data': d, **({'real': True} if i % self.CROSS == 0 else {})}

    def judge(self, case):
        o, data = case['o'], case['data']
        s = self.screen(case)
        kinds = set()
        if o.b:
            want = model.binary_cells(data, o)
            got = []
            rows = s.lines[:-2]
            for r in rows[:-1]:
                line = ''.join(t for t, _ in r)
                p1 = line.find(SEP)
                p2 = line.find(SEP, p1 + 1)
                got += cells(r)[p2 + 1:]
            self.match(data, got, want)
        else:
            want = model.text_screen(data, o)
            self.compare_lines(s.lines, want, 'classification')
        for k, t in model.tokens(data):
            self.count('tokens_' + k)
            kinds.add(k)
        if case.get('family'):
            self.count('enumerated_inputs')
        if kinds & {'utf8', 'bin', 'esc', 'csi', 'sgr', 'sgr0', 'nf', 'fp', 'fe', 'fs'}:
            self.nontrivial(o.b, data)

    def match(self, data, got, want):
        if got == want:
            return
        for p, (g, w) in enumerate(zip(got, want)):
            if g != w:
                lo = max(0, p - 6)
                self.fail('byte %02x at offset %d (context %s) is shown as %s, expected %s' % (
                    data[p], p, data[lo:p + 8].hex(' '), _c(g), _c(w)))
        self.fail('%d characters shown for %d bytes' % (len(got), len(want)))


def _c(c):
    from lib.term import show_state
    return '%r{%s}' % (c[0], show_state(c[1]))
