"""Nothing in the output can control the terminal."""
from checks.common import *

# parameters of colour sequences the application generates by itself
OWN = {0, 1, 2, 3, 4, 7, 22, 23, 24, 27, 39, 49, *range(30, 38), *range(40, 48), *range(90, 98), *range(100, 108)}
PERMITTED = OWN | {9, 29, 53, 55}
SGRX = re.compile(r'\x1b\[([0-9;]*)m')


class CHECK(Cli):
    ID = 'C08'
    RULE = ('random inputs biased to control characters, C1 controls in both encodings, control strings and malformed '
            'sequences x modes, options and debug levels 0-4; every byte of output is lexed as a terminal would; '
            'non-trivial: input contains control characters or escape sequences')

    def fixed(self):
        res = []
        c1 = ''.join(chr(c) for c in range(0x80, 0xa0)).encode()
        every = bytes(range(256)) + c1
        esc = b''.join(b'\x1b' + bytes([c]) for c in range(256)) + b''.join(b'\x1b[' + bytes([c]) for c in range(256))
        osc = b'\x1b]0;x\x07\x1bP1$q\x1b\\\x9d0;y\x9c\xc2\x9d52;c;QQ==\xc2\x9c\x1b[5m\x1b[8mhid\x1b[3J'
        for d in (every, esc, osc):
            for D in range(5):
                for b in (False, True):
                    for m in range(3):
                        for k in ({}, {'ignore': 'cesuip'}, {'focus': 'cesuip'}, {'d': True, 'color': True}):
                            o = Opt({**k, 'D': D, 'b': b, 'm': m})
                            if b:
                                o['w'] = 16
                            else:
                                o.pop('d', None)
                            res.append({'o': Opt({x: v for x, v in o.items() if v != Opt.DEFAULTS[x]}), 'data': d})
        return res

    def generate(self, rng, i):
        o = gen.opt(rng, limits=True, buffer=True)
        if rng.random() < .6:
            o['D'] = rng.randint(1, 4)
        prefer = gen.pick(rng, [gen.f_c0, gen.f_osc, gen.f_cut_esc, gen.f_csi], [gen.f_c1u, gen.f_bad_utf8], [gen.f_sgr_odd, gen.f_sgr_ext], None)
        return {'o': o, 'data': gen.data(rng, 250, prefer=prefer), **({'real': True} if i % self.CROSS == 0 else {})}

    def judge(self, case):
        o, data = case['o'], case['data']
        s = self.screen(case)
        if s.bad:
            self.fail(s.bad[0])
        if '\t' in s.text:
            if o.b:
                self.fail('horizontal tab in the output of binary mode')
            if s.text.count('\t') != s.text.count('⇥\t'):
                p = re.search('(?<!⇥)\t', s.text).start()
                self.fail('horizontal tab without tab marker: %r' % s.text[max(0, p - 20):p + 5])
        for m in SGRX.finditer(s.text):
            ps = [int(x) if x else 0 for x in m.group(1).split(';')] if m.group(1) else [0]
            self.check_params(ps, o, m.group())
        self.count('colour_sequences_observed', s.sgrs)
        if any(b < 32 or b == 127 for b in data) or b'\xc2' in data:
            self.nontrivial(sorted(o.items()), data)

    def check_params(self, ps, o, seq):
        i = 0
        allowed = PERMITTED if o.color or o.D >= 3 else OWN
        while i < len(ps):
            p = ps[i]
            i += 1
            if p in (38, 48) and i + 1 < len(ps) and ps[i] == 5:
                i += 2
            elif p in (38, 48) and i + 3 < len(ps) and ps[i] == 2:
                if not o.color:
                    self.fail('colour sequence %r was not generated by the application' % seq)
                i += 4
            elif p not in allowed:
                self.fail('colour sequence %r was not generated by the application (parameter %d)' % (seq, p))
