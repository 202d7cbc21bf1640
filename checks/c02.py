"""Binary layout: alignment, columns, width, decoding fill."""
from checks.common import *
from checks.c01 import pick_width


class CHECK(Cli):
    ID = 'C02'
    MODE = True
    RULE = ('random byte strings x columns (auto, non-positive, explicit), terminal widths, offset formats, decode, class '
            'display; non-trivial: at least two rows with at least two token kinds')

    def fixed(self):
        res = []
        d = bytes(range(256)) + 'Жя😀日\u0301\x9b'.encode() * 7 + b'\x1b[31;1mtext\x1b[0m'
        for width in list(range(1, 140)) + [150, 200, 256, 300, 500, 1000, 1100, 2100, 4200, 4400, 9000, 20000]:
            for extra in ({}, {'decoff': True}, {'nooff': True}):
                o = Opt(b=True, **extra)
                if width % 3 == 0:
                    o['w'] = gen.pick(self.rng(width), 0, -1, -5)
                res.append({'o': o, 'data': d, 'width': width})
        for w in (255, 256, 257, 500, 1000, 1023, 1024, 1025, 1100, 2048, 2500, 5000, 10000):
            for n in (1, 200, 60000):
                res.append({'o': Opt(b=True, w=w, nooff=bool(n % 7)), 'data': (d * 100)[:w + n]})
        for t in gen.SIGNATURES:
            res.append({'o': Opt(b=True, w=8), 'data': t + d[32:120]})
        for w in range(1, 41):
            res.append({'o': Opt(b=True, w=w, d=bool(w % 2)), 'data': d})
        # rows still fit when offset labels grow wider (in an automatically chosen layout as well)
        for extra in ({}, {'decoff': True}):
            res.append({'o': Opt(b=True, **extra), 'data': b'\0' * 1002000, 'width': 2000})
        return res

    def generate(self, rng, i):
        o = self.opts(rng, i)
        if rng.random() < .4:
            o.pop('w', None)
            if rng.random() < .2:
                o['w'] = gen.pick(rng, 0, -1, -16)
        case = {'o': o, 'data': gen.data(rng, self.HI, prefer=gen.UTF_FRAGS if rng.random() < .4 else None)}
        if rng.random() < .7:
            case['width'] = pick_width(rng)
        if i % self.CROSS == 0:
            case['real'] = True
        return case

    def judge(self, case):
        o, data = case['o'], case['data']
        width = case.get('width', 80)
        s = self.screen(case, env={'COLUMNS': str(width)} if 'width' in case else None)
        rows = s.plain()[:-2]
        if not o.nooff and rows:
            rows.pop()
        explicit = o.w if o.w and o.w > 0 else None
        if not rows:
            if data:
                self.fail('no rows for %d bytes' % len(data))
            return
        # prefix lengths
        pre = []
        for r in rows:
            if o.nooff:
                pre.append(0)
            else:
                lab = label(r, o.decoff)
                if lab is None:
                    self.fail('no offset label: %s' % clip(r))
                pre.append(lab[1])
        if any(b < a for a, b in zip(pre, pre[1:])) or pre[0] != 9 and not o.nooff:
            self.fail('offset labels have widths %s' % sorted(set(pre)))
        bodies = [r[p:] for r, p in zip(rows, pre)]
        # selected number of columns
        if explicit:
            cols = explicit
        else:
            cands = [c for c in range(4, 4 * 400, 4) if (len(data) + c - 1) // c == len(rows)]
            if len(rows) == 1:
                # one row: columns are seen from the padding
                sep = self.sep_pos(bodies[0], o)
                cands = [(sep - 1) // 3] if sep is not None and (sep - 1) % 3 == 0 else []
            else:
                n = self.hex_count(bodies[0])
                cands = [n]
            if not cands or cands[0] <= 0 or cands[0] % 4:
                self.fail('automatically chosen number of columns is not a positive multiple of four: %s' % clip(bodies[0]))
            cols = cands[0]
            if o.w is not None:
                self.count('nonpositive_columns')
            self.count('automatic_layouts')
        if (len(data) + cols - 1) // cols != len(rows):
            self.fail('%d rows for %d bytes in %d columns' % (len(rows), len(data), cols))
        cellmap = []
        for kind, tok in model.tokens(data):
            cellmap += [(kind, tok, k) for k in range(len(tok))]
        glue = '  ' if o.nooff else ' ' + SEP
        for n, b in enumerate(bodies):
            k = min(cols, len(data) - n * cols)
            pad = b[3 * k:3 * cols]
            if pad.strip(' ') or len(pad) != 3 * (cols - k):
                self.fail('row %d is not padded to %d columns: %s' % (n + 1, cols, clip(rows[n])))
            if b[3 * cols:3 * cols + 2] != glue:
                self.fail('separator is not at column %d in row %d: %s' % (3 * cols + 2, n + 1, clip(rows[n])))
            chars = b[3 * cols + 2:]
            if len(chars) != k:
                self.fail('row %d shows %d characters for %d bytes: %s' % (n + 1, len(chars), k, clip(rows[n])))
            if not o.d and not chars.isprintable():
                self.fail('row %d has a non-printable character: %s' % (n + 1, clip(repr(chars))))
            if o.d and 'u' not in o.ignore:
                for p, ch in enumerate(chars):
                    kind, tok, q = cellmap[n * cols + p]
                    if kind == 'utf8':
                        u = tok.decode()
                        want = '▯' if '\x80' <= u <= '\x9f' else u
                        want = want.rjust(len(tok), '_')[q]
                        if ch != want:
                            self.fail('decoded character of %s: position %d shows %r, expected %r' % (tok.hex(), q + 1, ch, want))
                        self.count('decoded_cells')
        if not explicit:
            four = max(pre) + 3 * 4 + 2 + 4
            longest = max(len(r) for r in rows)
            if longest > width and four <= width:
                self.fail('rows take %d positions of %d' % (longest, width))
        self.count('rows_observed', len(rows))
        if len(rows) > 1 and len({c[0] for c in cellmap}) > 1:
            self.nontrivial(sorted(o.items()), data, width)

    def sep_pos(self, body, o):
        if not o.nooff:
            return body.find(SEP)
        # single unlabelled row: the characters end the row, and take as many positions as there are bytes
        k = 0
        best = None
        for k in range(1, len(body) // 4 + 1):
            if re.fullmatch(r'(?: [0-9a-f]{2}){%d} *' % k, body[:len(body) - k]):
                best = (k, len(body) - k - 1)
        return best[1] if best else None

    def hex_count(self, body):
        m = re.match(r'(?: [0-9a-f]{2})+', body)
        return len(m.group()) // 3 if m else 0
