"""SGR markers: parameter lists and own colours."""
from checks.common import *


class CHECK(Cli):
    ID = 'C12'
    RULE = ('histories of SGR sequences with arbitrary parameter lists (named, extended complete and truncated, private, '
            'sub-parameters, oversized, empty) x both modes, marker levels, colour markers; every marker and detail cell is '
            'compared with the parameter list of its own sequence; non-trivial: at least two SGR sequences with '
            'parameters')

    def fixed(self):
        res = []
        every = [b'\x1b[%dm' % n for n in range(1, 260)]
        ext = [b'\x1b[38;5;%dm\x1b[48;5;%dm' % (n, 255 - n) for n in range(256)] + \
              [b'\x1b[%d;2;%d;%d;%dm' % (t, a, b, c) for t in (38, 48) for a in (0, 9, 255) for b in (0, 53, 128) for c in (1, 31, 255)]
        trunc = [b'\x1b[' + b';'.join(x) + b'm' for t in (b'38', b'48') for x in
                 ([t], [t, b'5'], [t, b'2'], [t, b'2', b'1'], [t, b'2', b'1', b'2'], [t, b'5', b'?'], [t, b'9', b'31'], [t, t], [t, b'1', b'3'],
                  [b'3', t, b'5'], [t, b'5', b'3', b'9'], [t, b'2', b'3', b'9', b'31', b'3'], [t, b'', b'5', b'9'], [t, b'3', b'5', b'2'],
                  [b'', t, b'5', b'', b'7', b''], [t, b'5', b'300'], [t, b'2', b'300', b'300', b'999999'])]
        odd = [b'\x1b[?25m', b'\x1b[>4;2m', b'\x1b[4:3m', b'\x1b[38:5:9m', b'\x1b[;m', b'\x1b[;;31m', b'\x1b[01;031m', b'\x1b[0;0m', b'\x1b[00m',
               b'\x1b[' + b'9' * 5000 + b'm', b'\x1b[31 m', b'\x1b[31!m', b'\x1b[1;2;3;4;7;9;53;21;5m', b'\x1b[=1m', b'\x1b[<m', b'\x1b[:m']
        long_ = [b'\x1b[' + b';'.join(b'%d' % ((k * 7 + n) % 108) for k in range(n)) + b'm' for n in list(range(5, 41)) + [63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 600]] + \
                [b'\x1b[' + b';'.join([b'1'] * n + [b'38', b'5', b'200', b'4']) + b'm' for n in (13, 14, 15, 16, 28, 29, 30, 31, 60, 125)]
        for m in range(3):
            for b in (False, True):
                for color in (False, True):
                    o = Opt({k: v for k, v in dict(m=m, color=color, b=b, w=24 if b else None).items() if v})
                    for fam in (every, ext, trunc, odd, long_):
                        if b and m and not self.thorough:
                            continue
                        res.append({'o': o, 'data': b'x'.join(fam)})
        return res

    def generate(self, rng, i):
        o = gen.opt(rng)
        o['color'] = rng.random() < .6
        if not o.b:
            o['m'] = rng.randrange(3)
        if rng.random() < .8:
            o['focus'] = o['ignore'] = ''
        o = Opt({k: v for k, v in o.items() if v != Opt.DEFAULTS[k]})
        d = gen.data(rng, 250, frags=gen.SGR_FRAGS + [gen.f_word, gen.f_nl, gen.f_csi_real], prefer=gen.SGR_FRAGS)
        return {'o': o, 'data': d, **({'real': True} if i % self.CROSS == 0 else {})}

    def judge(self, case):
        o, data = case['o'], case['data']
        s = self.screen(case)
        n = 0
        if o.b:
            got = []
            want = model.binary_cells(data, o)
            rows = s.lines[:-2] if o.nooff else s.lines[:-3]
            cols, pos = o.w, 0
            for r in rows:
                c = cells(r)
                if cols is None:
                    from checks.c11 import CHECK as C11
                    cols = C11.cols(self, text(r), o)
                k = min(cols, len(want) - pos)
                got += c[len(c) - k:]
                pos += k
            p = 0
            for kind, tok in model.tokens(data):
                w = want[p:p + len(tok)]
                if kind in ('sgr', 'sgr0') and got[p:p + len(tok)] != w:
                    self.differ(tok, got[p:p + len(tok)], w)
                n += kind == 'sgr'
                p += len(tok)
        else:
            lines = [cells(x) for x in s.lines[:-2]]
            line, p = 0, None
            for kind, tok in model.tokens(data):
                if line >= len(lines):
                    self.fail('line %d is missing' % (line + 1))
                if p is None:
                    p = 0 if o.nolines else [x[0] for x in lines[line]].index(SEP) + 1
                w = [(ch, st) for t, st in model.unit_text(kind, tok, o) for ch in t]
                g = lines[line][p:p + len(w)]
                if g != w:
                    self.differ(tok, g, w)
                n += kind == 'sgr'
                p += len(w)
                if kind == 'nl':
                    line, p = line + 1, None
        self.count('sgr_sequences_observed', n)
        if n > 1:
            self.nontrivial(sorted(o.items()), data)

    def differ(self, tok, got, want):
        for g, w in zip(got, want):
            if g != w:
                self.fail('%s is shown with cell %s, expected %s (text %s, expected %s)' % (
                    clip(repr(tok), 100), g, w, clip(''.join(x[0] for x in got)), clip(''.join(x[0] for x in want))))
        self.fail('%s is shown as %s, expected %s' % (clip(repr(tok), 100), clip(''.join(x[0] for x in got)), clip(''.join(x[0] for x in want))))
