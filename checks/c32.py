"""The legend."""
from checks.common import *

CSI24 = b'\x1b[24d'
SGR = {n: b'\x1b[%sm' % n for n in (b'', b'34', b'33', b'93;1', b'38;5;88;48;5;16', b'38;2;170;106;106')}
# words of the row, [examples without highlighting, highlighted ones], label shown, text column shown, hex column shown
D, F, DF = (0,), (1,), (0, 1)
ROWS = [
    ('horizontal tab', b'\t', b'\t', DF, 1, 1), ('line feed', b'\n', b'\n', DF, 1, 1), ('vertical tab', b'\v', b'\v', DF, 1, 1),
    ('form feed', b'\f', b'\f', DF, 1, 1), ('carriage return', b'\r', b'\r', DF, 1, 1), ('> space', b' ', b' ', DF, 1, 1),
    ('generic control char', b'\x03', b'\x1e', DF, 1, 1), ('char from caret notation', b'\x03', b'\x1e', DF, 0, 0),
    ('real char hexadecimal value', b'\x03', b'\x1e', DF, 0, 0), ('null byte', b'\0', b'\0', DF, 1, 1), ('> backspace', b'\b', b'\b', DF, 1, 1),
    ('> delete', b'\x7f', b'\x7f', DF, 1, 1), ('> escape', b'\x1b', b'\x1b', DF, 1, 1), ('> ASCII printable char', b'!"', b'12', DF, 1, 1),
    ('AB }~', b'AB', b'}~', DF, 0, 1), ('<I> binary data  -t', b'\xc0\xff', b'\xee\xda', DF, 1, 1), ('-b     ssified as', b'\xee\xb0', b'\xc0\xcc', DF, 1, 1),
    ('<U> UTF-8 sequence  --text', '🐍'.encode(), None, D, 1, 1), ('--binary --decode', 'ы'.encode(), '世'.encode(), DF, 1, 1),
    ('d1 85', b'\xd1\x85', b'\xd0\xb9', DF, 1, 1),
    ('SGR reset sequence', SGR[b''], None, D, 1, 1), ('separators become visible', SGR[b''], None, D, 0, 1), ('real SGR contents except ESC', SGR[b''], None, D, 0, 1),
    ('<E> SGR sequence', SGR[b'34'], None, D, 1, 1), ('marker colors match', SGR[b'33'], None, D, 0, 1), ('index-16 fg', SGR[b'93;1'], None, D, 0, 1),
    ('index-256 fg', SGR[b'38;5;88;48;5;16'], None, D, 0, 1), ('true color RGB', SGR[b'38;2;170;106;106'], None, D, 0, 1),
    ('real SGR contents; same data', SGR[b'38;2;170;106;106'], None, D, 0, 0), ('CSI sequence', CSI24, None, D, 1, 1),
    ('nF sequence', None, b'\x1b(B', F, 1, 1), ('Fp sequence', None, b'\x1b2', F, 1, 1), ('Fe sequence', b'\x1bG', None, D, 1, 1), ('Fs sequence', b'\x1bs', None, D, 1, 1),
]
TAG = re.compile(r'<([A-Z])>')
OPTION = re.compile(r'(?<!\S)(--[a-z][a-z-]*(?:=\d)?|-[a-z]\d?)')
CLASS = re.compile(r'^ +<([A-Z])> +(.*?) +([0-9a-f, .\[\]-]+|various) +(-\w) (-\w)$')
FILL = 'abcxyzKLM'


class CHECK(Cli):
    ID = 'C32'
    BUDGET = {'quick': 20, 'thorough': 300}
    RULE = ('every row of the legend, its options applied as they are written in it, with the example embedded in random contexts, in both modes '
            'where the row does not name one, together with random other options; cells and styles of the example are compared with those of the row; '
            'non-trivial: distinct (row, mode, context, options)')
    _legend = None

    def fixed(self):
        res = [{'kind': k} for k in ('version', 'classes', 'rows')]
        for n in range(len(ROWS)):
            for b in (False, True):
                res.append({'kind': 'row', 'row': n, 'o': Opt(b=b, w=16 if b else None), 'pre': b'', 'post': b'', 'before': b''})
        return res

    def generate(self, rng, i):
        o = gen.opt(rng, rng.random() < .5)
        o.update(L=0, B=0, D=0)
        n = rng.randrange(len(ROWS))
        if o.b and (o.w is None or o.w < 1):
            o['w'] = rng.randint(1, 40)
        before = gen.data(rng, 200) if rng.random() < .5 else b''
        return {'kind': 'row', 'row': n, 'o': o, 'before': before + b'\n' if before else b'', 'pre': ''.join(rng.choice(FILL) for _ in range(rng.randint(0, 20))).encode(),
                'post': ''.join(rng.choice(FILL) for _ in range(rng.randint(0, 20))).encode() + rng.choice((b'', b'\n', b'\n' + gen.data(rng, 50)))}

    def legend(self):
        if self._legend is None:
            self._legend = Screen(self.run_ok(['-l'], b'').out).lines
        return self._legend

    def row(self, words):
        """(cells of the left part, its class, options it names)"""
        lines = self.legend()
        found = [k for k, ln in enumerate(lines) if words in text(ln) and not CLASS.match(text(ln))]
        if len(found) != 1:
            self.fail('the legend has %d rows %r' % (len(found), words))
        k = found[0]
        cl = cells(lines[k])
        t = text(lines[k])
        ends = [m.start() for m in (TAG.search(t), OPTION.search(t)) if m]
        if ends:
            left = min(ends)
        else:
            left = len(t)
        options = OPTION.findall(t[left:])
        while k and not TAG.search(text(lines[k])):
            k -= 1
        return [c for c in cl[:left] if c[0] != ' '], TAG.search(text(lines[k])).group(1), options

    def class_options(self):
        res = {}
        for ln in self.legend():
            m = CLASS.match(text(ln))
            if m:
                res[m.group(1)] = (m.group(3), m.group(4), m.group(5))
        return res

    def judge(self, case):
        k = case['kind']
        if k == 'version':
            v = self.run_ok(['-v'], b'').out.decode()
            shown = ''.join(text(ln) + '\n' for ln in self.legend())
            v = re.search(r'\d+(\.\d+)+\S*', re.sub(r'\x1b\[[0-9;]*m', '', v)).group()
            got = re.findall(r'\bv(\d+(?:\.\d+)+\S*)', shown)
            if got != [v]:
                self.fail('the legend is the one of version %s, the program is version %s' % (got, v))
        elif k == 'classes':
            self.classes()
        elif k == 'rows':
            # every row that has an example is one of those that are compared
            known = [self.row(r[0]) for r in ROWS]
            tagged = [ln for ln in self.legend() if TAG.search(text(ln)) and not CLASS.match(text(ln)) and cells(ln)[0][0] == ' ']
            self.peak('rows_compared', len(known))
            if len(tagged) > sum(bool(TAG.search(text(ln))) and any(r[0] in text(ln) for r in ROWS) for ln in tagged):
                self.count('rows_without_comparison')
        else:
            self.example(case)

    def classes(self):
        letters = self.class_options()
        if len(letters) != 6:
            self.fail('the legend describes the classes %s' % sorted(letters))
        for c, (rng_, on, off) in letters.items():
            members = []
            for part in re.findall(r'\b([0-9a-f]{2})(?:-([0-9a-f]{2}))?\b', rng_ if '[' not in rng_ else ''):
                members += range(int(part[0], 16), int(part[1] or part[0], 16) + 1)
            data = b''.join({'P': b'\x01', 'C': b'\x80'}.get(c, b'a') + bytes([v]) for v in members)
            if not data:
                continue
            plain = self.cells(data, [])
            for c2, (_, on2, off2) in letters.items():
                for x in (on2, off2):
                    for v, got, was in zip(members, self.cells(data, [x]), plain):
                        if (got != was) != (c2 == c):
                            self.fail('byte %02x is listed in class <%s>, option %s of <%s> %s it' % (v, c, x, c2, 'changes' if got != was else 'does not change'))
            self.count('listed_bytes', len(members))

    def cells(self, data, argv):
        """What is displayed for every second byte."""
        lines = [cells(ln) for ln in Screen(self.run_ok(['-b', '-w2'] + argv, data).out).lines[:len(data) // 2]]
        return [ln[13:15] + ln[-1:] for ln in lines]

    def example(self, case):
        words, plain, focused, shown, label, hexes = ROWS[case['row']]
        left, cls, options = self.row(words)
        letters = self.class_options()
        if cls not in letters:
            self.fail('no class <%s> in the legend' % cls)
        on, off = letters[cls][1:]
        modes = [m for m in ('--text', '--binary', '-t', '-b') if m in options]
        mode = modes[0][-1 if len(modes[0]) == 2 else 2] if modes else 'b' if case['o'].b else 't'
        markers = any(re.match('(-m|--marker)', x) for x in options)
        if markers or cls == 'E':
            # the column is the one of text mode
            mode = 't'
        o = Opt(case['o'])
        o.update(b=mode == 'b', d=mode == 'b' and o.d and cls != 'U', m=0 if cls in 'CE' else o.m, color=cls != 'E' and o.color, nosep=not markers and o.nosep)
        o['focus'] = ''.join(c for c in o.focus if c != on[1])
        o['ignore'] = ''.join(c for c in o.ignore if c != on[1])
        o['w'] = (o.w if o.w and o.w > 0 else 16) if o.b else None
        wants = []
        for part in ('text', 'hex'):
            for dm, raw in ((0, plain), (1, focused)):
                if dm not in shown or part == 'hex' and not hexes:
                    continue
                args = [x for x in options if x != on]
                if dm:
                    args.append(on)
                p = Opt(o)
                if part == 'hex':
                    # marker details are for text mode only, and classes are shown in the same colours in both modes
                    p.update(b=True, d='--decode' in options or p.d, w=o.w or 16)
                    args = [x for x in args if x not in ('-t', '--text', '-b', '--binary')] + ['-b']
                wants.append((part, raw, self.displayed(case, raw, p, args, part)))
        n = 0
        if label and left:
            texts = [w for w in wants if w[0] == 'text']
            if text_of(left[:3]) == '(*)':
                n = 3
            else:
                first = []
                for w in texts:
                    ch = w[2][0][0] if w[2][0][0] != '⢸' else w[2][1][0]
                    if ch not in first:
                        first.append(ch)
                if text_of(left[:len(first)]) != ''.join(first):
                    self.fail('row %r shows the labels %r, displayed are %r' % (words, text_of(left[:len(first)]), ''.join(first)))
                n = len(first)
        rest = left[n:]
        want = []
        for part in ('text', 'hex'):
            cs = [c for w in wants if w[0] == part for c in w[2]]
            if part == 'hex' and len(cs) > 8:
                if rest and rest[-1][0] == '‥' and text_of(rest[-8:-1]) == text_of(cs[:7]):
                    cs = cs[:7]
                    rest = rest[:-1]
            want += cs
        if rest != want:
            for a, (x, y) in enumerate(zip(rest + [None] * len(want), want + [None] * (len(rest) - len(want)))):
                if x != y:
                    break
            self.fail('row %r of the legend shows %r, displayed is %r (first difference at %d: legend %r, displayed %r; example in %s, %s)' % (
                words, text_of(rest), text_of(want), a, x, y, clip(case['before'] + case['pre']), o))
        self.count('rows_in_' + ('binary' if o.b else 'text'))
        self.nontrivial((case['row'], o.b, bytes(case['before'][-6:]), case['pre'], case['post'], tuple(model.argv(o))))

    def displayed(self, case, raw, o, args, part):
        """Cells (without blank ones) by which the application shows the example."""
        pre, post, before = case['pre'], case['post'], case['before']
        if raw == b'\x1b' and post[:1] != b'\n':
            post = b'\n' + post
        data = before + pre + raw + post
        out = Screen(self.run_ok(model.argv(o) + args, data).out)
        self.count('examples_displayed')
        if o.b:
            res = []
            w = o.w
            for k in range(len(before + pre), len(before + pre + raw)):
                ln = cells(out.lines[k // w])
                p0 = 0 if o.nooff else 9
                c = k % w
                res += ln[p0 + 3 * c + 1:p0 + 3 * c + 3] if part == 'hex' else [ln[p0 + 3 * w + 2 + c]]
            return res
        n = before.count(b'\n')
        ln = cells(out.lines[n])
        if not o.nolines:
            p = text_of(ln).index(SEP) + 1
            ln = ln[p:]
        ln = ln[len(pre):]
        tail = post.split(b'\n')[0]
        if raw == b'\n':
            tail = b''
        elif b'\n' in post:
            tail += b'\n'
        if tail:
            ln = ln[:-len(tail)]
        return [c for c in ln if c[0] not in '\t ']


def text_of(cs):
    return ''.join(c[0] for c in cs)
