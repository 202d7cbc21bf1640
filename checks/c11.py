"""Marker details."""
from checks.common import *


class CHECK(Cli):
    ID = 'C11'
    RULE = ('control characters and escape sequences of every kind in random contexts x marker levels, separators, both '
            'modes; every unit of output text is compared with what its token contains; non-trivial: has an escape '
            'sequence or generic control character that is not ignored')

    def fixed(self):
        res = []
        ctl = bytes([*range(1, 8), *range(0xe, 0x1b), *range(0x1c, 0x20)])
        seqs = [b'\x1b' + bytes([c]) for c in range(0x30, 0x7f)] + [b'\x1b(' + bytes([c]) for c in range(0x30, 0x7f)] + \
               [b'\x1b' + bytes([c]) + b'0' for c in range(0x20, 0x30)] + \
               [b'\x1b[' + bytes([c]) for c in range(0x40, 0x7f)] + [b'\x1b[1' + bytes([c]) for c in range(0x40, 0x7f)] + \
               [b'\x1b[' + bytes([c]) + b'm' for c in range(0x20, 0x40)] + [b'\x1b[%dm' % n for n in range(0, 120)] + \
               [b'\x1b[' + b'1;' * n + b'2m' for n in range(0, 40, 3)] + [b'\x1b[' + b'0' * n + b'J' for n in (1, 10, 300, 3000)]
        for m in (0, 1, 2, 3):
            for nosep in (False, True):
                o = {k: v for k, v in dict(m=m, nosep=nosep).items() if v}
                res.append({'o': Opt(o), 'data': ctl + b'\n' + b' '.join(bytes([c]) for c in ctl)})
                for p in range(0, len(seqs), 60):
                    res.append({'o': Opt(o), 'data': b'\n'.join(seqs[p:p + 60])})
                    res.append({'o': Opt(o), 'data': b''.join(seqs[p:p + 60])})
        for p in range(0, len(seqs), 60):
            res.append({'o': Opt(b=True, w=32, m=p // 60 % 3), 'data': b''.join(seqs[p:p + 60])})
        for m in (1, 2):
            for n in (130, 255, 256, 257, 513, 1025, 2049):
                res.append({'o': Opt(m=m, f=1 << 16), 'data': b'a' + b'\x01' * n + b'b' + (ctl * n)[:n] + b'\n'})
                res.append({'o': Opt(m=m), 'data': b'\x1b[' + b'1;31;' * n + b'2mx\x1b[' + b'0' * n + b'3m\x1b[' + b'7;' * n + b'H\n'})
        return res

    def generate(self, rng, i):
        o = gen.opt(rng, rng.random() < .25)
        if rng.random() < .1 and not o.b:
            o['m'] = gen.pick(rng, 3, 7)
        if rng.random() < .3:
            o['f'] = gen.pick(rng, 1, 3, 7, 32)
        prefer = gen.ESC_FRAGS + [gen.f_ctl] * 3
        return {'o': o, 'data': gen.data(rng, 300, frags=prefer + [gen.f_word, gen.f_nl, gen.f_utf8, gen.f_bin, gen.f_c0, gen.f_space]),
                **({'real': True} if i % self.CROSS == 0 else {})}

    def judge(self, case):
        o, data = case['o'], case['data']
        s = self.screen(case)
        if o.b:
            rows = s.lines[:-2] if o.nooff else s.lines[:-3]
            want = model.binary_cells(data, o)
            pos = 0
            got = []
            cols = o.w
            for r in rows:
                c = cells(r)
                if cols is None:
                    cols = self.cols(text(r), o)
                k = min(cols, len(want) - pos)
                got += c[len(c) - k:]
                pos += k
            txt = ''.join(c[0] for c in got)
            p = 0
            for kind, tok in model.tokens(data):
                if kind in model.ESC_KINDS and model.mode_of(o, kind) != 'ignored':
                    exp = model.GLYPH[kind] + tok[1:].decode()
                    if txt[p:p + len(tok)] != exp:
                        self.fail('sequence %r is shown as %r, expected %r' % (tok, txt[p:p + len(tok)], exp))
                    self.count('sequences_' + kind)
                    self.nontrivial(sorted(o.items()), data)
                p += len(tok)
            return
        lines = s.plain()[:-2]
        line, p = 0, 0
        pre = lambda n: '' if o.nolines else '%2d│' % (n + 1)
        cur = None
        for kind, tok in model.tokens(data):
            if cur is None:
                if line >= len(lines):
                    self.fail('line %d is missing' % (line + 1))
                cur = lines[line]
                if not cur.startswith(pre(line)):
                    self.fail('line %d has no line number: %s' % (line + 1, clip(cur)))
                p = len(pre(line))
            exp = ''.join(t for t, _ in model.unit_text(kind, tok, o))
            if cur[p:p + len(exp)] != exp:
                self.fail('%s %r is shown as %r, expected %r (line %d: %s)' % (
                    kind, tok, cur[p:p + max(len(exp), 8)], exp, line + 1, clip(cur)))
            p += len(exp)
            if (kind in model.ESC_KINDS or kind == 'ctl') and model.mode_of(o, kind) != 'ignored':
                self.count('markers_%s_level%d' % (kind, min(o.m, 2)))
                self.nontrivial(sorted(o.items()), data)
            if kind == 'nl':
                if p != len(cur):
                    self.fail('extra text at the end of line %d: %s' % (line + 1, clip(cur[p:])))
                cur, line = None, line + 1
        if cur is not None and p != len(cur):
            self.fail('extra text at the end of line %d: %s' % (line + 1, clip(cur[p:])))

    def cols(self, row, o):
        body = row if o.nooff else row.split(SEP, 1)[-1]
        if not o.nooff:
            return max(1, (body.find(SEP) - 1) // 3)
        n = len(re.match(r'(?: [0-9a-f]{2})*', body).group()) // 3
        return n or 1
