"""Debug mode."""
import os

from checks.common import *

NAMES = {'s': 'space', 'c': 'control', 'p': 'printable', 'e': 'esc', 'u': 'utf8', 'i': 'binary'}
CC = {'s': 'WHITESPACE', 'c': 'CONTROL_CHAR', 'p': 'PRINTABLE_CHAR', 'e': 'ESCAPE_SEQ', 'u': 'UTF_8_SEQ', 'i': 'BINARY_DATA'}
SAFE_WS = {9, 10, 11, 12, 13, 32}


def safe(data):
    return ''.join('·' if b in SAFE_WS else chr(b) if 0x21 <= b <= 0x7e else '▯' for b in data)


class CHECK(Cli):
    ID = 'C14'
    RULE = ('inputs x modes x options x debug levels 1-4 x automatic and explicit buffers; the debug log is parsed: result '
            'rows against the ordinary run, dump rows and read/match reports against the input, numbers told by the '
            'parts of the application against each other and the input, settings dump against the command line; non-trivial: at least two rows or lines')

    def fixed(self):
        res = []
        d = b'ab \x1b[31;1mred\x1b[0m\n\xc3\xa9\xff\x01\x02 text\n\x1b(Bz' + bytes(range(256))
        for D in range(1, 5):
            for b in (False, True):
                for m in range(3):
                    for k in ({}, {'focus': 'cs'}, {'ignore': 'e'}, {'decoff': True}, {'nooff': True, 'nolines': True}, {'f': 5}, {'f': 4096}):
                        o = Opt({**k, 'D': D, 'b': b, 'm': m, **({'w': 7} if b else {})})
                        if not b:
                            for x in ('nooff', 'decoff'):
                                if D % 2:
                                    o.pop(x, None)
                        res.append({'o': Opt({x: v for x, v in o.items() if v != Opt.DEFAULTS[x]}), 'data': d, **({'src': 'file'} if m == 1 else {})})
            for k in ({'L': 0}, {'B': 0}, {'L': -1}, {'B': -1}, {'B': 12}, {'L': 2}, {'w': 0, 'b': True}):
                res.append({'o': Opt({**k, 'D': D}), 'data': d})
            # long lines and rows
            for b in (False, True):
                for t in (b'ab' * 6000 + b'\n' + b'c' * 5000 + b'\x1b[1mx', b'\x01\xc3\xa9 ' * 3000):
                    res.append({'o': Opt(D=D, b=True, w=2500) if b else Opt(D=D), 'data': t})
            # input that ends within a sequence
            for t in (b'\x1b', b'\x1b[', b'\x1b[1;3', b'\x1b(', b'\xd1', b'\xe2\x82', b'\xf0\x9f\x98'):
                for b in (False, True):
                    for f in (None, 3):
                        res.append({'o': Opt({k: v for k, v in {'D': D, 'b': b, 'f': f, 'w': 5 if b else None}.items() if v}), 'data': b'abc\n\x01' + t})
        # offsets of more digits
        for D in range(1, 5):
            for k in ({'decoff': True}, {}):
                t = b'ab \x1b[31mred\x1b[m' + b'0123456789 abcd\n\xd1\x8b\x00' * 60
                for data in ([t * 12] if D < 3 or k else []) + ([t * 70] if D == 1 and k or self.thorough else []):
                    res.append({'o': Opt({**k, 'D': D, 'b': True, 'w': 64}), 'data': data, 'big': True})
                    if not k or D == 1:
                        res.append({'o': Opt({**k, 'D': D}), 'data': data, 'big': True})
        return res

    def generate(self, rng, i):
        o = gen.opt(rng, buffer=True)
        o['D'] = rng.randint(1, 4)
        if o.b:
            o['nolines'] = rng.random() < .2
        elif rng.random() < .2:
            o['decoff'] = True
        if rng.random() < .1:
            o['B'] = gen.pick(rng, rng.randint(1, 200), rng.randint(1, 200), 0, -1, 1 << 40)
        if rng.random() < .1:
            o['L'] = gen.pick(rng, rng.randint(1, 5), rng.randint(1, 5), 0, -2, 1 << 40)
        o = Opt({k: v for k, v in o.items() if v != Opt.DEFAULTS[k]})
        return {'o': o, 'data': gen.data(rng, 300), 'src': 'file' if rng.random() < .3 else 'stdin'}

    def judge(self, case):
        o, full = case['o'], case['data']
        data = model.cut(full, o)
        self.filename = 'None'
        if case.get('src') == 'file':
            self.filename = os.path.join(harness.scratch(), 'debugged')
            with open(self.filename, 'wb') as h:
                h.write(full)
            s = Screen(self.run_ok(model.argv(o) + [self.filename], b'').out)
        else:
            s = self.screen(case)
        plain_o = Opt({k: v for k, v in o.items() if k not in ('D', 'nolines', 'nooff', 'f')})
        ref = Screen(self.run_ok(model.argv(plain_o), full).out)
        rows = [(text(ln), cells(ln)) for ln in s.lines]
        final, dump, other = [], [], []
        for t, c in rows:
            m = re.match(r' *(0x)?([0-9a-f]+)│', t)
            if m:
                st = next((st for ch, st in c if ch != ' '), DEFAULT)
                val = m.group(1), m.group(2), t[m.end():], c[m.end():], m.end(), t
                if st[0] == ('p', 2) and st[1] is None:
                    final.append(val)
                elif st[0] == ('p', 3):
                    dump.append(val)
                elif st[0] == ('p', 6) and st[1] is None:
                    final.append(val)
                else:
                    other.append(val)
        off = lambda v: self.offset(v, o)
        if o.b:
            n = self.binary(case, o, data, ref, final, dump, off)
        else:
            n = self.text_mode(case, o, data, ref, final, dump, off)
        self.reports(o, full, data, other, off)
        self.figures(case, o, full, data, rows)
        if o.D >= 3:
            self.settings(o, rows)
        self.count('result_rows', len(final))
        self.count('dump_rows', len(dump))
        self.count('report_rows', len(other))
        if n > 1:
            self.nontrivial(sorted(o.items()), data)

    def offset(self, v, o):
        if bool(v[0]) == bool(o.decoff):
            self.fail('offset %s has the wrong format' % clip(v[5][:12]))
        return int(v[1], 10 if o.decoff else 16)

    def uncolored(self, cs, idx):
        """Cells with style of separators at given positions dropped."""
        return [(ch, None) if p in idx else (ch, st) for p, (ch, st) in enumerate(cs)]

    def binary(self, case, o, data, ref, final, dump, off):
        lines = ref.lines[:-2]
        if len(final) != len(lines):
            self.fail('%d result rows, the ordinary run prints %d' % (len(final), len(lines)))
        cols = None
        starts = []
        for n, (v, ln) in enumerate(zip(final, lines)):
            lab = label(text(ln), o.decoff)
            if lab is None or lab[0] != off(v):
                self.fail('result row %d is labelled %s, ordinary one %s' % (n + 1, off(v), clip(text(ln)[:12])))
            c = cells(ln)[lab[1]:]
            if n < len(lines) - 1:
                starts.append(lab[0])
                p = text(ln)[lab[1]:].find(SEP)
                cols = (p - 1) // 3
                if self.uncolored(c, {p}) != self.uncolored(v[3], {p}):
                    self.fail('result row %d is %s, ordinary one %s' % (n + 1, clip(v[5]), clip(text(ln))))
            elif v[3] or c:
                self.fail('last row is %s, ordinary one %s' % (clip(v[5]), clip(text(ln))))
        starts.append(len(data))
        it = iter(dump)
        for n in range(len(starts) - 1):
            part = data[starts[n]:starts[n + 1]]
            if o.D >= 3:
                v = next(it, None)
                if v is None or off(v) != starts[n]:
                    self.fail('style dump of row %d: %s' % (n + 1, clip(v and v[5])))
            v = next(it, None)
            want = ''.join(' %02x' % b for b in part).ljust(3 * cols) + ' ' + SEP + safe(part)
            if v is None or off(v) != starts[n] or v[2] != want:
                self.fail('dump of row %d is %s, expected %s at offset %d' % (n + 1, clip(v and v[5]), clip(want), starts[n]))
        v = next(it, None)
        if v is not None:
            self.fail('extra dump row %s' % clip(v[5]))
        return len(starts) - 1

    def text_mode(self, case, o, data, ref, final, dump, off):
        lines = ref.lines[:-2]
        if len(final) != len(lines):
            self.fail('%d result lines, the ordinary run prints %d' % (len(final), len(lines)))
        for n, (v, ln) in enumerate(zip(final, lines)):
            c = cells(ln)
            p = [x[0] for x in c].index(SEP)
            if v[0] or v[1] != str(n + 1):
                self.fail('result line %d is labelled %s' % (n + 1, clip(v[5][:14])))
            if c[p + 1:] != v[3]:
                self.fail('result line %d is %s, ordinary one %s' % (n + 1, clip(v[5]), clip(text(ln))))
        # expected input of every line: split at line feeds
        parts = [x + b'\n' for x in data.split(b'\n')]
        parts[-1] = parts[-1][:-1]
        if not parts[-1]:
            parts.pop()
        pos = 0
        it = iter(dump)
        for n, part in enumerate(parts):
            for lv, want in ((3, None), (2, ''.join(' %02x' % b for b in part)), (1, safe(part))):
                if o.D < lv:
                    continue
                v = next(it, None)
                if v is None or off(v) != pos or want is not None and v[2] != want:
                    self.fail('dump of line %d is %s, expected %s at offset %d' % (n + 1, clip(v and v[5]), clip(want), pos))
            pos += len(part)
        v = next(it, None)
        if v is not None:
            self.fail('extra dump line %s' % clip(v[5]))
        return len(parts)

    def reports(self, o, full, data, other, off):
        """Read and match reports."""
        pos = rd = 0
        for v in other:
            m = re.match(r'Read chunk #(\d+): len (\d+)', v[2])
            if m:
                if off(v) != rd:
                    self.fail('chunk %s is reported at offset %d, it starts at %d' % (m.group(1), off(v), rd))
                rd += int(m.group(2))
                continue
            m = re.match(r'Match group #\d+: Seg <[^>]*>: len (\d+)(?: \[([0-9a-f ]*)(\.\. ([0-9a-f]{2}))?\])?', v[2])
            if m:
                k = int(m.group(1))
                if off(v) != pos:
                    self.fail('match is reported at offset %d, it starts at %d: %s' % (off(v), pos, clip(v[2])))
                if m.group(2) is not None:
                    part = data[pos:pos + k].hex(' ')
                    shown = m.group(2)
                    if o.D >= 4 and shown != part or not part.startswith(shown.strip()):
                        self.fail('match at %d is reported with contents %s, input has %s' % (pos, clip(shown), clip(part)))
                    if m.group(3) and (len(shown.split()) >= k or m.group(4) != part[-2:]) or not m.group(3) and shown.strip() != part:
                        self.fail('match at %d is reported with contents %s, input has %s' % (pos, clip(shown + (m.group(3) or '')), clip(part)))
                pos += k
            elif v[2].startswith('Encountered EOF') and not o.L and not o.B:
                if off(v) != len(data):
                    self.fail('end of input is reported at %d, it is at %d' % (off(v), len(data)))
        if o.D >= 2 and pos != len(data):
            self.fail('matches of %d bytes are reported, input has %d' % (pos, len(data)))
        if not o.L and not o.B and rd != len(full):
            self.fail('reading of %d bytes is reported, input has %d' % (rd, len(full)))

    def figures(self, case, o, full, data, rows):
        """Numbers told by the parts of the application: chunks, sizes of buffers, limits."""
        chunks, appended, detached, states, matched, sizes = [], [], [], [], 0, []
        for t, _ in rows:
            m = re.match(r' *(?:0x[0-9a-f]+|\d+|[a-z]+)│(Read chunk #|Read buffer: size |Current position: |Appending |Detached |Match group #\d+: Seg <[^>]*>: len |Buffer state: len |'
                         r'Requested |Line limit exceeded: |Byte limit exceeded: )(\S+)(.*)$', t)
            if not m:
                continue
            kind, val, rest = m.groups()
            num = int(val.split('+')[0].rstrip(':')) if val[0].isdigit() else None
            self.count('figures')
            if kind == 'Read chunk #':
                if num != len(chunks):
                    self.fail('chunk %d of the input is reported as #%s' % (len(chunks), val))
                chunks.append(int(re.match(r' len (\d+)', rest).group(1)))
            elif kind == 'Read buffer: size ':
                if num != (o.f or 128):
                    self.fail('read buffer of %s is reported, it is %d' % (val, o.f or 128))
            elif kind == 'Current position: ':
                if num is not None and num != sum(chunks) or num is None and val != 'n/a' or (num is None) == (case.get('src') == 'file'):
                    self.fail('current position is reported as %s after reading of %d (%s)' % (val, sum(chunks), case.get('src') or 'stdin'))
            elif kind == 'Appending ':
                appended.append(num)
            elif kind == 'Detached ':
                detached.append(num)
            elif kind.startswith('Match'):
                matched += num
            elif kind.startswith('Buffer') and 'chainbuf' in t:
                states.append((num, matched, len(detached)))
                m = re.match(r' \[(.*)\]', rest.split('. Active', 1)[0])
                if m:
                    self.contents('waiting for output', o, data[max(0, matched - num):matched], m.group(1))
            elif kind.startswith('Buffer'):
                m = re.match(r' \[(.*)\]', rest)
                if m and num and sum(appended) >= num:
                    self.contents('waiting in the parser', o, data[sum(appended) - num:sum(appended)], m.group(1))
                sizes.append((num, sum(appended), matched))
            elif kind == 'Requested ':
                if val != 'line' and (not o.b or o.w and o.w > 0 and num > o.w):
                    self.fail('request of %s bytes is reported' % val)
            elif num != (o.L if kind[0] == 'L' else o.B) or kind[0] == 'L' and full.count(b'\n') < num or kind[0] == 'B' and len(full) <= num:
                self.fail('%s%s is reported' % (kind, val))
        if o.D >= 3 and (sum(appended) != len(data) or not (o.L or o.B) and [x for x in appended if x] != chunks):
            self.fail('chunks of %s are reported as taken over, chunks of %s as read, input has %d' % (clip(appended), clip(chunks), len(data)))
        if o.D < 2:
            return
        if o.b:
            ends = [o.w] * (len(data) // o.w) + [len(data) % o.w] * (len(data) % o.w > 0) if o.w and o.w > 0 else None
        else:
            ends = [len(x) + 1 for x in data.split(b'\n')]
            ends[-1] -= 1
            if not ends[-1]:
                ends.pop()
        if ends is not None and detached != ends or sum(detached) != len(data):
            self.fail('detached lengths %s are reported, rows or lines have %s' % (clip(detached), clip(ends)))
        for num, got, n in states:
            if num not in [got - sum(detached[:k]) for k in (n - 1, n, n + 1) if k >= 0]:
                self.fail('%d bytes waiting for output are reported, %d are matched, %d printed' % (num, got, sum(detached[:n])))
        if o.D >= 3:
            for num, put, got in sizes:
                if num not in (put - got, 0) and not any(num == put - g for _, _, g in sizes):
                    self.fail('%d bytes waiting in the parser are reported, %d are taken over, %d matched' % (num, put, got))

    def contents(self, what, o, want, shown):
        """The bytes that a state lists are the ones that are pending: all of them, or the first ones (and the last one)."""
        head, more, tail = shown.partition('..')
        head = ''.join(re.findall('(?<![0-9a-zǝ;])[0-9a-f]{2}(?![0-9a-f])', re.sub(r'\[ǝ[^\]]*\]', ' ', head)))
        if not want.hex().startswith(head) or (not more or o.D >= 4) and head != want.hex() or tail.strip() and tail.strip() != want.hex()[-2:]:
            self.fail('bytes %s are reported as %s, the input has %s there' % (clip(shown), what, clip(want.hex(' '))))
        self.count('states_with_contents')

    def settings(self, o, rows):
        want = {'binary': str(o.b), 'buffer': str(o.f), 'color_markers': str(o.color), 'columns': str(o.w) if o.w is not None else 'None',
                'debug': str(o.D), 'decimal_offsets': str(o.decoff), 'demo': 'False', 'filename': self.filename, 'legend': 'False',
                'marker': str(o.m), 'no_line_numbers': str(o.nolines), 'no_offsets': str(o.nooff), 'no_separators': str(o.nosep),
                'version': 'False', 'max_bytes': str(o.B or 'None'), 'max_lines': str(o.L or 'None'), 'decode': 'True' if o.d else ('None', 'False')}
        for k, n in NAMES.items():
            want['focus_' + n] = str(k in o.focus)
            want['ignore_' + n] = str(k in o.ignore)
        if o.D >= 4:
            want['effective_print_offsets'] = 'True'
            want['read_mode'] = 'ReadMode.BINARY' if o.b else 'ReadMode.TEXT'
            want['effective_marker_details'] = 'MarkerDetailsEnum.' + (
                'BINARY_STRICT' if o.b else ['NO', 'BRIEF', 'FULL'][min(o.m, 2)] + '_DETAILS')
            for k, n in CC.items():
                want['CharClass.' + n] = 'DisplayMode.' + ('IGNORED' if k in o.ignore else 'FOCUSED' if k in o.focus else 'DEFAULT')
        seen = {}
        for t, _ in rows:
            m = re.match(r'   *([A-Za-z_][\w.]*)│(\S+)(?: \[(\S+)\])?$', t)
            if m and m.group(1) in want and m.group(1) not in seen:
                seen[m.group(1)] = m.group(2)
        for k, w in want.items():
            if k not in seen:
                self.fail('setting %s is not dumped' % k)
            if seen[k] not in (w if isinstance(w, tuple) else (w,)):
                self.fail('setting %s is dumped as %s, it is %s' % (k, seen[k], w))
        self.count('settings_observed', len(want))
