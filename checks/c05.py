"""Independence of delivery: buffer size, source, write boundaries."""
import os
import pty
import socket
import termios
import tty

from checks.common import *


class CHECK(Cli):
    ID = 'C05'
    RULE = ('each input is run once as a redirected file with the default buffer, then with several buffer sizes, as a file '
            'argument, and through a pipe (also opened by name) cut into writes with pauses; screens are compared cell by cell; non-trivial: a '
            'read boundary of some variant lies inside a multi-byte token')

    def fixed(self):
        res = []
        for d in (b'', b'a', b'ab\n', b'\x1b[1;31mred\x1b[0m\r\n\x00\x01\x02\x03\x05\x1b \xd1\x8b\xff' * 9, b'line\n' * 200, b'\n\n', b'\x7f\x15\x17\x16\x11\x13\x1a\x1c\x0f\x12', b'x' * 1500):
            for b in (False, True):
                res.append({'o': Opt(b=b, w=7) if b else Opt(m=2), 'data': d, 'sizes': [], 'pipe': [1], 'file': True})
        toks = [b'\x1b[31;1m', b'\x1b[0m', b'\x1b(B', b'\x1b#8', b'\x1bM', b'\x1b7', b'\x1bc', 'é'.encode(), '日'.encode(), '😀'.encode(),
                b'\x1b[38;5;100m', b'\x1b[?25l', b'\x1b[ q', b'\xe2\x82', b'\xf0\x9f\x98', b'\x1b[', b'\x1b[1', b'\x1b(', b'\x1b', b'\r\n',
                b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xe0\x80\x80', b'\xc3\xc3\xa9', b'\x1b\x1b[m', b'\x1b[1\x1b[m', b'\x1b[ \x80']
        for t in toks:
            for after in (b'', b'x', b'\n', b'\xa9', b'm'):
                for b in (False, True):
                    o = Opt(b=b, w=3) if b else Opt(m=2)
                    res.append({'o': o, 'data': b'ab' + t + after, 'sizes': [1, 2, 3, 4, 5, 6, 7], 'pipe': []})
        # every range of well-formed UTF-8, its ends and their neighbours
        for cp in (0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff):
            t = chr(cp).encode()
            for t in (t, t[:-1], t[:1] + bytes([t[1] ^ 0x20]) + t[2:], t[:-1] + bytes([t[-1] ^ 0x40])):
                for b in (False, True):
                    res.append({'o': Opt(b=b, d=True, w=3) if b else Opt(m=2), 'data': b'ab' + t + b'x', 'sizes': [3, 4, 5], 'pipe': []})
        # every kind of introducer and final of escape sequences
        for t in [b'\x1b' + bytes([c]) for c in range(0x1f, 0x80, 5)] + [b'\x1b[' + bytes([c]) + b'm' for c in range(0x1f, 0x80, 6)] + [b'\x1b[' + bytes([c]) for c in range(0x3f, 0x80, 8)] + [
                b'\x1b[ !q', b'\x1b[1;2 !/\x7e', b'\x1b[>1 $#p', b'\x1b !B', b'\x1b !"#0', b'\x1b[1;2 !/m', b'\x1b[ !\x80', b'\x1b[ 1m', b'\x1b( \n']:
            res.append({'o': Opt(m=2), 'data': b'ab' + t + b'x', 'sizes': list(range(3, 3 + len(t))), 'pipe': []})
        for b in (False, True):
            for D in range(5):
                o = Opt({k: v for k, v in dict(b=b, D=D, w=5 if b else None).items() if v})
                res.append({'o': o, 'data': b'ab\x1b[1mc\n\xc3\xa9' * 9, 'sizes': [], 'pipe': [3, 11], 'named': True})
        for n in (25, 40, 70, 140, 300, 1200):
            for t in (b'\x1b[' + b'1;' * n + b'm', b'\x1b[' + b'1;' * n + b'H', b'\x1b[' + b'7' * n + b'd', b'\x1b(' + b'!' * n + b'B', b'\x1b[' + b'1;' * n):
                for b in (False, True):
                    res.append({'o': Opt(b=b, w=16) if b else Opt(m=2), 'data': b'ab' + t + b'c\n', 'sizes': [7, 32, 64, 100, 128, 200], 'pipe': []})
        for n in (4000, 30000):
            for t in (b'\x1b[' + b'1;' * n + b'm', b'\x1b[' + b'7' * n + b'd', b'\x1b[' + b'!' * n + b'd', b'\x1b(' + b'!' * n + b'B', b'\x1b[' + b'1;' * n):
                for b in (False, True):
                    res.append({'o': Opt(b=b, w=16) if b else Opt(m=2), 'data': b'ab' + t + b'c\n', 'sizes': [999, 7000, 50000, 100000], 'pipe': [], 'big': True})
        # the default buffer size and large ones, tokens across the boundary
        for t in toks:
            for back in range(1, len(t)):
                d = b'a' * (4096 - back) + t + b'z\n'
                res.append({'o': Opt(m=1), 'data': d, 'sizes': [5000], 'pipe': []})
        return res

    def generate(self, rng, i):
        o = gen.opt(rng, limits=rng.random() < .15)
        r = rng.random()
        if r < .1:
            f = gen.pick(rng, 64, 100, 4096)
            d = gen.boundary_data(rng, [f, 2 * f, 3 * f][:rng.randint(1, 3)])
            sizes = [f, f - 1, f + 1, 100000]
        else:
            d = gen.data(rng, 250, prefer=gen.pick(rng, gen.ESC_FRAGS, gen.UTF_FRAGS, None))
            sizes = [1] + [size for size in (rng.randint(2, 40) for _ in range(3))] + [gen.pick(rng, len(d), len(d) + 1, max(1, len(d) - 1))]
        cuts = sorted(rng.randrange(len(d) + 1) for _ in range(rng.randint(0, 6))) if rng.random() < .5 else []
        return {'o': o, 'data': d, 'sizes': sorted(set(max(1, x) for x in sizes)), 'pipe': cuts, 'file': rng.random() < .3, 'named': rng.random() < .3,
                'pipesize': gen.pick(rng, None, 1, 3, 16) if len(d) < 2000 else gen.pick(rng, None, 128)}

    def judge(self, case):
        o, data = case['o'], case['data']
        ref = self.screen({**case, 'real': False})
        bounds = set()
        for f in case['sizes']:
            s = Screen(self.run_ok(model.argv(Opt({**o, 'f': f})), data).out)
            self.compare_lines(s.lines, ref.lines, 'buffer size %d, compared with the default one' % f)
            bounds |= set(range(f, len(data), f))
            self.count('buffer_size_variants')
        if case.get('file'):
            path = harness.scratch() + '/in'
            with open(path, 'wb') as fh:
                fh.write(data)
            s = Screen(self.run_ok(model.argv(o) + [path], b'unrelated').out)
            self.compare_lines(s.lines, ref.lines, 'file argument, compared with redirected input')
            self.count('file_variants')
            # a file that somebody has read a part of
            fd = harness.memfile(b'header \x1b[1m\xd1\n' + data)
            try:
                os.lseek(fd, 13, os.SEEK_SET)
                s = Screen(self.run_ok(model.argv(o), fds=(fd, None, None)).out)
            finally:
                os.close(fd)
            self.compare_lines(s.lines, ref.lines, 'the rest of a file, compared with the same redirected input')
            self.count('rest_of_file_variants')
            if len(data) < 100000:
                a, b = socket.socketpair()
                try:
                    a.sendall(data)
                    a.shutdown(socket.SHUT_WR)
                    s = Screen(self.run_ok(model.argv(o), fds=(b.fileno(), None, None)).out)
                finally:
                    a.close()
                    b.close()
                self.compare_lines(s.lines, ref.lines, 'standard input from a socket, compared with redirected input')
                self.count('socket_variants')
            if len(data) < 2000 and b'\x04' not in data:
                # typed at a terminal, which ends the input on request only
                m, sl = pty.openpty()
                try:
                    tty.setraw(sl)
                    t = termios.tcgetattr(sl)
                    t[3] |= termios.ICANON
                    t[6] = [b'\0'] * len(t[6])
                    t[6][termios.VEOF] = b'\x04'
                    termios.tcsetattr(sl, termios.TCSANOW, t)
                    os.write(m, data + b'\x04' * 4)
                    s = Screen(self.run_ok(model.argv(o), fds=(sl, None, None)).out)
                finally:
                    os.close(m)
                    os.close(sl)
                self.compare_lines(s.lines, ref.lines, 'input typed at a terminal, compared with redirected input')
                self.count('terminal_variants')
        if case['pipe']:
            cuts = [0] + [c for c in sorted(case['pipe']) if c <= len(data)] + [len(data)]
            chunks = [(0.002, data[a:b]) for a, b in zip(cuts, cuts[1:])]
            po = Opt({**o, 'f': case['pipesize']}) if case.get('pipesize') else o
            s = Screen(self.run_ok(model.argv(po), chunks=chunks).out)
            self.compare_lines(s.lines, ref.lines, 'pipe written in %d parts, compared with redirected input' % len(chunks))
            self.count('pipe_variants')
            if case.get('named'):
                # the same pipe, opened by its name
                s = Screen(self.run_ok(model.argv(po) + ['/dev/stdin'], chunks=chunks).out)
                if not o.get('D'):
                    self.compare_lines(s.lines, ref.lines, 'pipe opened by name, compared with redirected input')
                self.count('named_pipe_variants')
        pos = 0
        for k, t in model.tokens(data):
            if k != 'pr' and len(t) > 1 and any(pos < b < pos + len(t) for b in bounds):
                self.count('tokens_across_boundary_' + k)
                self.nontrivial(sorted(o.items()), data, case['sizes'])
            pos += len(t)
