"""Text preview: content of every line."""
import fcntl
import io
import json
import os
import sys

from checks.common import *


class CHECK(Cli):
    ID = 'C03'
    MODE = False
    RULE = ('random and boundary-aimed byte strings x text-mode options; non-trivial: at least two lines, or a last line '
            'without line feed that ends with a marker')

    def fixed(self):
        res = [{'far': sorted({(1 << k) + d for k in range(1, 71) for d in (-1, 0, 1)} | {10 ** k + d for k in range(0, 22) for d in (-1, 0, 5)})}]
        tails = [b'', b'a', b'\x01', b'\x1b[31m', b'\x1b[0m', b'\x1b', b'\xff', b'\xc3\xa9', b' ', b'\t', b'\r', b'\x00', b'\x1bM',
                 b'\x1b(B', b'\x1b[2J', b'\x1b7', b'\x1bc', b'\n', b'\x7f', b'\xc3', b'\x1b[', b'\x1b[3', b'\x1b(']
        for m in range(3):
            for nosep in (False, True):
                for t in tails:
                    for h in (b'', b'x\n', b'y'):
                        res.append({'o': Opt(m=m, nosep=nosep), 'data': h + t})
        # what other programs take for line ends
        for t in (b'\r', b'\r\n', b'\v', b'\f', b'\x1c', b'\x1d', b'\x1e', b'\x85', b'\xc2\x85', '\u2028'.encode(), '\u2029'.encode()):
            for c in ('', 'c', 'u', 'i', 's'):
                res.append({'o': Opt(ignore=c), 'data': b'a' + t + b'b\n' + t + t + b'\nc' + t})
        res.append({'o': Opt(), 'data': b'\n' * 1234})
        for t in gen.SIGNATURES:
            for body in (b'word \xc3\xa9 \x01' * 30, b'a\n', b''):
                res.append({'o': Opt(m=1), 'data': t + body})
        res.append({'o': Opt(), 'data': b'\n' * 9990 + b'a\nb\n' * 10 + b'c'})
        res.append({'o': Opt(ignore='s'), 'data': b'\n' * 99999 + b'a\nb\n' * 10 + b'c'})
        res.append({'o': Opt(m=1), 'data': b'a' * 10000 + b'\n' + b'b' * 5000})
        res.append({'o': Opt(m=2), 'data': b'\x1b[1;31m' * 900 + b'\n\x01'})
        # runs of one byte
        for c in (0, 1, 7, 8, 9, 0xb, 0xc, 0xd, 0x1a, 0x1b, 0x1f, 0x20, 0x41, 0x7f, 0x80, 0xff):
            for n in (255, 256, 257, 513, 1025, 2049, 9000):
                res.append({'o': Opt(m=n % 3, f=1 << 16) if n < 4096 else Opt(m=c % 3), 'data': b'%c' % c * n + b'\nz'})
        for n in (70000, 300000):
            for o in (Opt(), Opt(m=2, f=1 << 20), Opt(m=1, nolines=True)):
                res.append({'o': o, 'data': b'word \x01' * (n // 6) + b'\n' + b'x' * n})
        return res

    def opts(self, rng, i):
        return gen.opt(rng, False, buffer=True)

    def far(self, case):
        """Line numbers that would need gigabytes of input: what prints them is called in the application itself."""
        rd, wr = os.pipe()
        w2 = fcntl.fcntl(wr, fcntl.F_DUPFD, 100)

        def before(*_):
            saved, got = sys.stdout, []
            try:
                from kolombos.console import ConsoleOutputBuffer
                from kolombos.settings import SettingsManager
                SettingsManager.init()
                for n in case['far']:
                    sys.stdout = io.StringIO()
                    ConsoleOutputBuffer().write_with_line_num('mark\n', line_num=n)
                    got.append([n, sys.stdout.getvalue()])
            except (ImportError, AttributeError, TypeError):
                got = []            # it is not made there
            finally:
                sys.stdout = saved
            fcntl.fcntl(w2, 1031, 1 << 20)      # F_SETPIPE_SZ
            os.write(w2, json.dumps(got).encode())
        try:
            self.run_ok(['--version'], b'', before=before)
            os.set_blocking(rd, False)
            try:
                got = json.loads(os.read(rd, 1 << 20) or b'[]')
            except BlockingIOError:
                got = []
        finally:
            for fd in (rd, wr, w2):
                os.close(fd)
        for n, out in got:
            line = Screen(out).plain()[0]
            num, _, rest = line.partition(SEP)
            if num.strip() != str(n) or rest != 'mark':
                self.fail('line number %d is shown as %r' % (n, line))
            self.count('far_line_numbers_observed')
            self.peak('largest_line_number', n)
        self.nontrivial('far')

    def judge(self, case):
        if 'far' in case:
            return self.far(case)
        o, data = case['o'], case['data']
        s = self.screen(case)
        got = s.plain()
        want = [text(ln) for ln in model.text_screen(data, o)]
        if got != want:
            for n, (g, w) in enumerate(zip(got, want)):
                if g != w:
                    self.fail('line %d is %s, expected %s' % (n + 1, clip(g), clip(w)))
            self.fail('%d lines, expected %d' % (len(got), len(want)))
        self.tokens_seen(data, o)
        if len(want) > 3 or (data and data[-1:] != b'\n'):
            self.nontrivial(sorted(o.items()), data)
