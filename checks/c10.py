"""Focus and ignore options."""
import itertools

from checks.common import *

SAMPLE = (b'word \tx\r\x0b\x0c\n\x01\x02\x00\x08\x7f\x1b\x1b[31;1mA\x1b[0m\x1b[38;5;9m\x1b[2J\x1b(B\x1bM\x1b7\x1bc '
          b'\xc3\xa9\xe6\x97\xa5\xf0\x9f\x98\x80\xff\xfe\x80z\n\n  end')


class CHECK(Cli):
    ID = 'C10'
    RULE = ('all 729 combinations of default/focused/ignored classes on an input with every token kind (both modes), and '
            'random inputs with random combinations; compared with the run without these options (classes not named keep '
            'every cell) and with the documented look of focused and ignored tokens; non-trivial: input has a token of a '
            'named class')

    def fixed(self):
        res = []
        for n, combo in enumerate(itertools.product('dfi', repeat=6)):
            foc = ''.join(c for c, x in zip('cesuip', combo) if x == 'f')
            ign = ''.join(c for c, x in zip('cesuip', combo) if x == 'i')
            modes = (0, 1) if self.thorough else (n % 2,)
            for b in modes:
                for m in ((0, 1, 2) if self.thorough and not b else (n % 3,)):
                    o = {'focus': foc, 'ignore': ign}
                    if b:
                        o.update(b=True, w=8)
                    else:
                        o['m'] = m
                    res.append({'o': Opt({k: v for k, v in o.items() if v != Opt.DEFAULTS[k]}), 'data': SAMPLE, 'long': n % 5 == 0})
        # long runs of one kind
        for t, c in ((b'a', 'p'), (b' ', 's'), (b'\n', 's'), (b'\t', 's'), (b'\r', 's'), (b'\x01', 'c'), (b'\0', 'c'), (b'\x1bM', 'e'), (b'\x1b[31m', 'e'), (b'\x1b[m', 'e'),
                     (b'\x1b(B', 'e'), (b'\xc3\xa9', 'u'), (b'\xff', 'i')):
            for o in ({'ignore': c}, {'focus': c}):
                for n in (5100, 41000) if self.thorough else (5100,):
                    res.append({'o': Opt(**o), 'data': t * n + b'x\n', 'long': False, 'big': True})
                    res.append({'o': Opt(b=True, w=16, **o), 'data': t * (n // len(t)) + b'x', 'long': False, 'big': True})
        return res

    def generate(self, rng, i):
        o = self.opts(rng, i)
        while not o.focus and not o.ignore:
            o['focus'], o['ignore'] = gen.classes(rng)
        return {'o': o, 'data': gen.data(rng, 300), 'long': rng.random() < .3}

    def argv(self, o, long):
        if not long:
            return model.argv(o)
        rest = Opt({k: v for k, v in o.items() if k not in ('focus', 'ignore')})
        return model.argv(rest) + ['--focus-' + model.LONG[c] for c in o.focus] + ['--ignore-' + model.LONG[c] for c in o.ignore]

    def cells(self, screen, o):
        """Cells of the character part, one list for the whole output (line breaks dropped, prefixes removed)."""
        res = []
        if not o.b:
            for n, ln in enumerate(screen.lines[:-2]):
                c = cells(ln)
                if not o.nolines:
                    c = c[[x[0] for x in c].index(SEP) + 1:]
                res.append(c)
            return res
        rows = screen.lines[:-2]
        if not o.nooff:
            rows = rows[:-1]
        skip = 0
        for r in rows:
            c = cells(r)
            if not o.nooff:
                c = c[[x[0] for x in c].index(SEP) + 1:]
            res.append(c)
        return res

    def judge(self, case):
        o, data = case['o'], case['data']
        if not o.b and o.nolines is False and data == b'':
            return
        s = Screen(self.run_ok(self.argv(o, case['long']), data).out)
        base_o = Opt({k: v for k, v in o.items() if k not in ('focus', 'ignore')})
        b = Screen(self.run_ok(model.argv(base_o), data).out)
        if len(s.lines) != len(b.lines):
            self.fail('%d lines with the options, %d without' % (len(s.lines), len(b.lines)))
        toks = list(model.tokens(data))
        kinds = {k for k, _ in toks}
        if o.b:
            cols = o.w or None
            got, base = self.cells(s, o), self.cells(b, o)
            if cols is None:
                cols = next((len(re.match(r'(?: [0-9a-f]{2})*', ''.join(x[0] for x in r)).group()) // 3 for r in base), 1) or 1
                if len(base) == 1:
                    cols = max(cols, len(data))
            flat_mode = [(k, t) for k, t in toks for _ in t]
            pos = 0
            for n, (gr, br) in enumerate(zip(got, base)):
                k = min(cols, len(data) - pos)
                if len(gr) != len(br):
                    self.fail('row %d has %d positions with the options, %d without' % (n + 1, len(gr), len(br)))
                for q in range(k):
                    kind, tok = flat_mode[pos + q]
                    for at in (3 * q, 3 * q + 1, 3 * q + 2):
                        self.cell(kind, gr[at], br[at], o, hexcol=True)
                    self.cell(kind, gr[len(gr) - k + q], br[len(br) - k + q], o)
                if gr[3 * k:len(gr) - k] != br[3 * k:len(br) - k]:
                    self.fail('padding or separators of row %d differ' % (n + 1))
                pos += k
            # exact look
            want = model.binary_cells(data, o)
            flat = [c for n, gr in enumerate(got) for c in gr[len(gr) - min(cols, len(data) - n * cols):]]
            self.compare_cells(flat, want)
        else:
            # per line, token by token; the base run must be laid out as the tokens are
            got, base = self.cells(s, o), self.cells(b, base_o)
            line = 0
            gp = bp = 0
            for kind, tok in toks:
                bw = sum(len(t) for t, _ in model.unit_text(kind, tok, base_o))
                want = [(ch, st) for t, st in model.unit_text(kind, tok, o) for ch in t]
                if line >= len(got):
                    self.fail('lines are missing')
                g = got[line][gp:gp + len(want)]
                self.compare_cells(g, want, 'token %s' % tok.hex(' '))
                if model.mode_of(o, kind) == 'default':
                    w = base[line][bp:bp + bw]
                    if g != w:
                        self.fail('token %s of a class not named looks different: %s, without the options %s' % (
                            tok.hex(' '), clip(g), clip(w)))
                gp += len(want)
                bp += bw
                if kind == 'nl':
                    if gp != len(got[line]):
                        self.fail('extra text at the end of line %d: %s' % (line + 1, clip(got[line][gp:])))
                    line, gp, bp = line + 1, 0, 0
            if line < len(got) and gp != len(got[line]):
                self.fail('extra text at the end of line %d: %s' % (line + 1, clip(got[line][gp:])))
        named = {k for k in kinds if model.mode_of(o, k) != 'default'}
        for k in named:
            self.count(model.mode_of(o, k) + '_' + model.CLASS_OF[k])
        if named:
            self.nontrivial(sorted(o.items()), data)

    def cell(self, kind, g, b, o, hexcol=False):
        mode = model.mode_of(o, kind)
        if mode == 'default' and g != b:
            self.fail('cell of a class not named (%s) is %s, without the options %s' % (kind, g, b))
        if hexcol and g[0] != b[0]:
            self.fail('hexadecimal column differs: %r, without the options %r' % (g[0], b[0]))

    def compare_cells(self, got, want, what='cell'):
        if got != want:
            for p, (g, w) in enumerate(zip(got, want)):
                if g != w:
                    self.fail('%s: position %d is %s, expected %s' % (what, p + 1, g, w))
            self.fail('%s: %d positions, expected %d: %s' % (what, len(got), len(want), clip(got)))
