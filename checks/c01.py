"""Binary dump: bytes, offsets, total, row lengths."""
import fcntl
import json
import os

from checks.common import *


class CHECK(Cli):
    ID = 'C01'
    MODE = True
    RULE = ('random and boundary-aimed byte strings x binary-mode options (columns, buffer size, offset format, class '
            'display, decode, terminal width); non-trivial: at least two rows, or a token cut by a row end')

    def fixed(self):
        res = []
        pat = bytes(range(256))
        for dec in (False, True):
            res.append({'far': sorted({max(0, (1 << k) + d) for k in range(0, 71) for d in (-1, 0, 1)} | {10 ** k + d for k in range(0, 22) for d in (-1, 0, 5)}), 'dec': dec})
        # offsets of more than six hexadecimal digits
        res.append({'o': Opt(b=True, w=100000), 'big': (1 << 24) + 150001, 'byte': b' ', 'data': b''})
        for dec in (False, True):
            for w, f, n in ((1000, None, 1003000), (4099, 70000, 1004000), (5000, 3000000, 1503000)):
                o = Opt(b=True, w=w)
                if dec:
                    o['decoff'] = True
                if f:
                    o['f'] = f
                res.append({'o': o, 'big': n, 'byte': b'\0' if dec else b'a', 'data': b''})
        # many pieces waiting at once
        res.append({'o': Opt(b=True, w=50000, f=100000), 'data': b'a \xff' * 24000 + b'end'})
        for n in (0, 1, 2, 3, 4, 15, 16, 17, 4095, 4096, 4097, 8191, 8192, 8193):
            for w in (1, 3, 16, 4096, 5000):
                if n // w < 1500:
                    res.append({'o': Opt(b=True, w=w), 'data': (pat * (n // 256 + 1))[:n]})
        if self.thorough:
            res.append({'o': Opt(b=True, w=500000, f=1 << 20, decoff=True), 'big': 101 * 10 ** 6, 'byte': b'\0', 'data': b''})
            res.append({'o': Opt(b=True, w=300000, f=99991), 'big': 40 * 10 ** 6, 'byte': b' ', 'data': b''})
        return res

    def generate(self, rng, i):
        o = gen.opt(rng, True, buffer=True)
        case = {'o': o, 'data': self.data(rng, i, o)}
        if rng.random() < .03:
            case['data'] = gen.data(rng, 20000)
        if o.w is None:
            case['width'] = pick_width(rng)
        if rng.random() < .3:
            case['file'] = True
        if i % self.CROSS == 0 and 'file' not in case:
            case['real'] = True
        return case

    def judge(self, case):
        if 'far' in case:
            return self.far(case)
        o, data = case['o'], case['data']
        env = {'COLUMNS': str(case['width'])} if 'width' in case else None
        if 'big' in case:
            return self.big(case)
        if case.get('file'):
            path = harness.scratch() + '/in'
            with open(path, 'wb') as f:
                f.write(data)
            s = Screen(self.run_ok(model.argv(o) + [path], b'', env=env).out)
        else:
            s = self.screen(case, env=env)
        rows = s.plain()
        if rows[-2:] != ['', '']:
            self.fail('output does not end with an empty line: %s' % clip(rows[-2:]))
        rows = rows[:-2]
        total = None
        if not o.nooff:
            if not rows:
                self.fail('no total size line')
            total = label(rows.pop(), o.decoff)
            if total is None:
                self.fail('malformed total size line: %s' % clip(s.plain()[-3]))
        # hexadecimal column: up to the separator, or up to two spaces after the hex pairs
        pos, w = 0, o.w
        lens = []
        for n, row in enumerate(rows):
            if not o.nooff:
                lab = label(row, o.decoff)
                if lab is None:
                    self.fail('row %d has no proper offset label: %s' % (n + 1, clip(row)))
                if lab[0] != pos:
                    self.fail('row %d is labelled with offset %d, its first byte is at %d: %s' % (n + 1, lab[0], pos, clip(row)))
                row = row[lab[1]:]
                hexpart = row.split(SEP, 1)[0]
            else:
                hexpart = row
            got = bytearray()
            p = 0
            while hexpart[p:p + 1] == ' ' and len(hexpart) >= p + 3 and hexpart[p + 1] != ' ' and \
                    (w is None or len(got) < w):
                pair = hexpart[p + 1:p + 3]
                try:
                    if len(pair.strip()) != 2:
                        raise ValueError
                    got.append(int(pair, 16))
                except ValueError:
                    self.fail('row %d: malformed hexadecimal column: %s' % (n + 1, clip(row)))
                p += 3
            if o.nooff and w is None and lens and len(got) > lens[0]:
                self.fail('row %d is longer than row 1' % (n + 1))
            want = data[pos:pos + len(got)]
            if bytes(got) != want or not got:
                self.fail('row %d at offset %d shows bytes %s, input has %s' % (
                    n + 1, pos, clip(bytes(got).hex(' ')), clip(data[pos:pos + max(len(got), 1)].hex(' '))))
            pos += len(got)
            lens.append(len(got))
        if pos != len(data):
            self.fail('%d bytes shown of %d' % (pos, len(data)))
        if total and total[0] != len(data):
            self.fail('total size is shown as %d, it is %d' % (total[0], len(data)))
        full = w or (lens[0] if lens else 1)
        if any(n != full for n in lens[:-1]) or (lens and lens[-1] > full):
            self.fail('row lengths are %s, selected number of columns is %s' % (clip(lens), full))
        self.count('rows_observed', len(lens))
        self.count('bytes_observed', len(data))
        if len(lens) > 1:
            self.nontrivial(sorted(o.items()), data, case.get('width'))

    def far(self, case):
        """Offsets that would need terabytes of input: the function making the labels is called in the application itself."""
        rd, wr = os.pipe()
        w2 = fcntl.fcntl(wr, fcntl.F_DUPFD, 100)
        offsets, dec = case['far'], case['dec']

        def before(*_):
            try:
                from kolombos.console import Console
                from kolombos.settings import SettingsManager
                SettingsManager.init()
                SettingsManager.app_settings.binary = True
                SettingsManager.app_settings.decimal_offsets = dec
                got = [[n, str(f(n))] for n in offsets for f in (Console.format_prefix_with_offset, Console.format_total_size)]
            except (ImportError, AttributeError, TypeError):
                got = []            # it is not made there
            data = json.dumps(got).encode()
            fcntl.fcntl(w2, 1031, 1 << 20)      # F_SETPIPE_SZ
            os.write(w2, data)
        try:
            self.run_ok(['--version'], b'', before=before)
            os.set_blocking(rd, False)
            try:
                got = json.loads(os.read(rd, 1 << 20) or b'[]')
            except BlockingIOError:
                got = []
        finally:
            for fd in (rd, wr, w2):
                os.close(fd)
        for n, lab in got:
            line = Screen(lab).plain()[0]
            vals = [v[0] for v in (label(line, True), label(line, False)) if v]
            if vals != [n]:
                self.fail('offset %d is shown as %r' % (n, line))
            self.count('far_offsets_observed')
            self.peak('largest_offset_label', n)
        self.nontrivial('far', dec)

    def big(self, case):
        """Long input of a single byte value: labels, row lengths and total only (hexadecimal digits by count)."""
        o, n, b = case['o'], case['big'], case['byte']
        r = self.run_ok(model.argv(o), b * n, cpu=1200, wall=1500)
        off, digits = 0, 0
        sgr = re.compile(rb'\x1b\[[0-9;]*m')
        total = None
        hx = b' %02x' % b[0]
        start = 0
        out = r.out
        while True:
            e = out.find(b'\n', start)
            if e < 0:
                break
            head = sgr.sub(b'', out[start:min(e, start + 80)]).decode(errors='replace')
            if head:
                lab = label(head, o.decoff)
                if lab is None or lab[0] != off:
                    self.fail('row at offset %d is labelled %s' % (off, clip(head[:30])))
                k = out.count(hx, start, e)
                if k == 0:
                    total = lab[0]
                else:
                    if total is not None:
                        self.fail('rows after the total size line')
                    if k != min(o.w, n - off):
                        self.fail('row at offset %d has %d bytes, expected %d' % (off, k, min(o.w, n - off)))
                    off += k
            start = e + 1
        if off != n or total != n:
            self.fail('%d bytes shown, total %s, input has %d' % (off, total, n))
        self.count('bytes_observed', n)
        self.peak('largest_offset', n)
        self.nontrivial('big', n, sorted(o.items()))


def pick_width(rng):
    return gen.pick(rng, 1, 10, 27, 40, 60, 80, 100, 132, 200, 317, rng.randint(1, 400))
