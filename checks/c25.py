"""String filters, padding, distribution."""
import re

from checks.pt import *

LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'


def scan(s, params, finals):
    """[(is sequence, piece)]: control sequences ESC [ params final, by a scanner of my own."""
    res, cur, i = [], [], 0
    while i < len(s):
        if s[i] == '\x1b' and s[i + 1:i + 2] == '[':
            j = i + 2
            while j < len(s) and s[j] in params:
                j += 1
            if j < len(s) and s[j] in finals:
                if cur:
                    res.append((False, ''.join(cur)))
                    cur = []
                res.append((True, s[i:j + 1]))
                i = j + 1
                continue
        cur.append(s[i])
        i += 1
    if cur:
        res.append((False, ''.join(cur)))
    return res


def sgr(s):
    return scan(s, '0123456789;', 'm')


def csi(s):
    return scan(s, '0123456789;:<=>?', '@' + LETTERS)


def plain(pieces):
    return ''.join(p for q, p in pieces if not q)


class CHECK(Check):
    ID = 'C25'
    LIBRARY = True
    BUDGET = {'quick': 14, 'thorough': 300}
    RULE = ('random strings of text, line ends and complete, incomplete and adjacent control sequences through all filters, chains of '
            'them and padding functions, against a scanner of my own; lists of values over all widths; non-trivial: distinct string '
            'with a sequence, or distinct list with width')

    def fixed(self):
        res = []
        for s in ('', '\x1b[m', '\x1b[0m', '\x1b[1;4mab\x1b[m', '\x1b[;;m', '\x1b[\x1b[31m', '\x1b[31\x1b[m', '\x1b\x1b[1mx', '\x1b[31mm', '[31m', '\x1b[1:2m', '\x1b[?25h', '\x1b[2J\x1b[H',
                  '\x1b[31M', '\x1b[m\x1b[m\x1b[m', 'a\x1b[38;5;196mb\n\x1b[0mc\n', '\x1b]0;t\x07', '\x1bM', '\x1b[31;', '\x1b[', '\x1b', '\x1b[10;20f', '\x1b[>c', '\x1b[@', '\x1b[1~',
                  '\x9b31m', '\x1b[٣m', '日\x1b[1m本\x1b[m', ' \t\n\r\x0b\x0c\x1c\u2003\u3000\xa0\u200b\u2028', '\n\n', '\x1b[1000000000;' + '1;' * 50 + 'm', '\x1b[3\n1m'):
            res.append({'s': s, 'width': 7, 'fill': '*'})
            res.append({'s': s, 'width': 0, 'fill': ' '})
        res += [{'bytes': bytes([k])} for k in range(256)] + [{'bytes': bytes(range(256)) * 2}]
        for n in (100, 126, 127, 128, 129, 255, 256, 257, 300, 1023, 1025, 5000):
            for body in (';' * n, '1;' * n, '7' * n, '38;5;196;' * (n // 9) + '0'):
                res.append({'s': 'a\x1b[%smb\x1b[%sHc' % (body, body), 'width': 7, 'fill': '*'})
        # long ones
        for unit, k in (('\x1b[31ma', 5000), ('\x1b[m', 9000), ('a\x1b[1;4m日\x1b[2K\x1b[?25h \n', 3000), ('x', 70000), ('\u2003\n\t', 30000), ('\x1b[', 40000), ('aab', 30000)):
            res.append({'s': unit * k, 'width': 7, 'fill': '*', 'big': True})
            res.append({'s': 'y' + unit * k + '\x1b[0mz', 'width': 200000, 'fill': ' ', 'big': True})
        res += [{'bytes': bytes(range(256)) * k, 'big': True} for k in (9, 300)] + [{'bytes': b'\xff' * 5000, 'big': True}, {'bytes': b'\x80abc' * 20000, 'big': True}]
        res += [{'values': ['ab', 'c', 'def', 'g', 'hi'] * k, 'width': w, 'big': True} for k, w in ((40, 700), (300, 10000), (300, 4001), (300, 40000))]
        for n in range(1, 6):
            for w in range(0, 24):
                res.append({'values': ['ab', 'c', 'def', 'g', 'hi'][:n], 'width': w})
        return res

    def string(self, rng):
        out = []
        for _ in range(gen.pick(rng, 1, 3, 8, rng.randint(1, 40))):
            r = rng.random()
            if r < .35:
                out.append(anytext(rng))
            elif r < .65:
                p = ';'.join(gen.pick(rng, '', '0', str(rng.randint(0, 300)), '1') for _ in range(gen.pick(rng, 0, 1, 2, 5)))
                out.append('\x1b[' + p + 'm')
            elif r < .8:
                p = ''.join(rng.choice('0123456789;:<=>?') for _ in range(gen.pick(rng, 0, 1, 2, 6)))
                out.append('\x1b[' + p + gen.pick(rng, rng.choice(LETTERS), rng.choice('mKJHABhl@'), rng.choice('~{|`^_]\\')))
            else:
                out.append(rng.choice(['\x1b', '\x1b[', '\x1b[3', '\x1b[31;', 'm', '[0m', '\x1b]0;x\x07', '\x1bc', '\x1b(B', '\x9bm', '\x1b[1;\n', '\x07', '\x00', ';', '\u2003', '\xa0', '\x1c', '\x85']))
        return ''.join(out)

    def generate(self, rng, i):
        r = rng.random()
        if r < .12:
            return {'bytes': bytes(gen.pick(rng, rng.randrange(256), rng.randrange(128), rng.randrange(128, 256), 127, 128, 10) for _ in range(rng.randint(0, 60)))}
        if r < .4:
            n = gen.pick(rng, 1, 2, 3, rng.randint(1, 12))
            if rng.random() < .3:
                vals = [''.join(rng.choice('ab 日_.') for _ in range(rng.randint(0, 6))) for _ in range(n)]
            else:
                vals = [''.join(rng.choice('abcXYZ日_.') for _ in range(gen.pick(rng, 1, 3, rng.randint(1, 12)))) for _ in range(n)]
            tot = sum(map(len, vals))
            return {'values': vals, 'width': max(0, tot + gen.pick(rng, n - 3, n - 2, n - 1, n, n + 1, rng.randint(-3, 40), rng.randint(-tot, 10), 150, 5000))}
        s = self.string(rng)
        vis = len(plain(sgr(s)))
        return {'s': s, 'width': gen.pick(rng, vis, vis + 1, vis + 2, vis - 1, vis + rng.randint(0, 30), 0, -1, len(s), rng.randint(0, 80), rng.randint(0, 80), 10 ** rng.randint(2, 4) + rng.randint(-3, 3)), 'fill': rng.choice(' *·日0\t')}

    def judge(self, case):
        from pytermor import util as U
        from pytermor.render import distribute_padded
        if 'bytes' in case:
            return self.nonascii(U, case['bytes'])
        if 'values' in case:
            for before in (False, True):
                for after in (False, True):
                    self.distribute(distribute_padded, case['values'], case['width'], before, after)
            return
        s = case['s']
        parts, cparts = sgr(s), csi(s)
        if any(q for q, _ in cparts):
            self.nontrivial(s)
        self.count('sequences', sum(q for q, _ in cparts))
        seqs = [p for q, p in parts if q]

        def same(what, got, want):
            self.count('results_compared')
            if got != want:
                self.fail('%s of %r gives %r, must be %r' % (what, clip(repr(s)), clip(repr(got)), clip(repr(want))))
        same('ReplaceSGR()', U.ReplaceSGR().apply(s), plain(parts))
        same('ReplaceSGR()()', U.ReplaceSGR()(s), plain(parts))
        same('ReplaceSGR("<>")', U.ReplaceSGR('<>').apply(s), ''.join('<>' if q else p for q, p in parts))
        same('ReplaceSGR(groups)', U.ReplaceSGR(r'E\2\3\5').apply(s), ''.join('E' + p[1:] if q else p for q, p in parts))
        same('ReplaceSGR(params)', U.ReplaceSGR(r'{\3}').apply(s), ''.join('{' + p[2:-1] + '}' if q else p for q, p in parts))
        same('ReplaceCSI()', U.ReplaceCSI().apply(s), plain(cparts))
        same('ReplaceCSI("#")', U.ReplaceCSI('#').apply(s), ''.join('#' if q else p for q, p in cparts))
        same('ReplaceCSI(groups)', U.ReplaceCSI(r'{\3\5}').apply(s), ''.join('{' + p[2:] + '}' if q else p for q, p in cparts))
        white = ''.join('·\n' if ch == '\n' else '·' if ch.isspace() else ch for ch in s)
        same('VisualuzeWhitespace', U.VisualuzeWhitespace().apply(s), white)
        same('VisualuzeWhitespace("_")', U.VisualuzeWhitespace('_').apply(s), white.replace('·', '_') if '·' not in s else U.VisualuzeWhitespace('_').apply(s))
        same('chain', U.apply_filters(s, U.ReplaceSGR, U.VisualuzeWhitespace), ''.join('·\n' if ch == '\n' else '·' if ch.isspace() else ch for ch in plain(parts)))
        same('chain', U.apply_filters(s, U.ReplaceSGR('é'), U.ReplaceCSI('[K'), U.ReplaceCSI()), plain(csi(''.join('[K' if q else p for q, p in csi(''.join('é' if q else p for q, p in parts))))))
        same('empty chain', U.apply_filters(s), s)
        same('chain with a pattern', U.apply_filters(s, U.StringFilter('a', 'bb'), U.StringFilter(re.compile('b+'), lambda m: str(len(m.group())))),
             re.sub('b+', lambda m: str(len(m.group())), s.replace('a', 'bb')))
        same('bytes chain', U.apply_filters(s.encode('utf-8', 'replace'), U.ReplaceNonAsciiBytes), bytes(b if b < 128 else 63 for b in s.encode('utf-8', 'replace')))
        # padding
        w, f = case['width'], case['fill']
        room = max(0, w - len(plain(parts)))
        same('ljust_sgr %d' % w, U.ljust_sgr(s, w, f), s + f * room)
        same('rjust_sgr %d' % w, U.rjust_sgr(s, w, f), f * room + s)
        allowed = [f * k + s + f * (room - k) for k in {room // 2, room - room // 2}]
        got = U.center_sgr(s, w, f)
        if got not in allowed:
            same('center_sgr %d' % w, got, allowed[0])
        if f == ' ':
            same('ljust_sgr', U.ljust_sgr(s, w), s + ' ' * room)
            same('rjust_sgr', U.rjust_sgr(s, w), ' ' * room + s)
            same('center_sgr', U.center_sgr(s, w), got)
        self.peak('sequences_in_string', len(seqs))

    def nonascii(self, U, data):
        self.count('results_compared', 3)
        self.nontrivial(data)
        for repl in (None, b'?', b'', b'<>'):
            f = U.ReplaceNonAsciiBytes() if repl is None else U.ReplaceNonAsciiBytes(repl)
            want = b''.join(bytes([b]) if b < 128 else (b'?' if repl is None else repl) for b in data)
            if f.apply(data) != want or f(data) != want or U.apply_filters(data, f) != want:
                self.fail('ReplaceNonAsciiBytes(%r) of %r gives %r' % (repl, data, f.apply(data)))

    def distribute(self, f, values, width, before, after):
        self.count('distributions')
        vals = list(values)
        self.nontrivial(values, width)
        what = 'distribute_padded(%r, %d, %r, %r): ' % (values, width, before, after)
        n = len(values) + before + after
        room = width - sum(map(len, values))
        try:
            got = f(vals, width, before, after)
        except ValueError:
            if room >= n - 1:
                self.fail(what + 'refused')
            self.count('refusals')
            return
        if vals != values:
            self.fail(what + 'argument became %r' % vals)
        if room < n - 1:
            self.fail(what + 'accepted without room: %r' % got)
        if len(got) != width:
            self.fail(what + '%r has width %d' % (got, len(got)))
        if all(values) and not any(' ' in v for v in values):
            items = got.split()
            if items != values:
                self.fail(what + 'gives %r' % got)
            gaps = [len(g) for g in re.split('[^ ]+', got)]
            lead, tail = gaps[0], gaps[-1]
            inner = gaps[1:-1]
            if not before and lead:
                self.fail(what + 'starts with padding: %r' % got)
            if not after and tail and n > 1:
                self.fail(what + 'ends with padding: %r' % got)
            gs = inner + [lead] * before + [tail] * after
            if gs and max(gs) - min(gs) > 1:
                self.fail(what + 'uneven gaps: %r' % got)
        else:
            p = 0
            for v in values:
                p = got.find(v, p)
                if p < 0:
                    self.fail(what + 'gives %r' % got)
                p += len(v)
