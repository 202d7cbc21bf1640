"""Memory and progress of output."""
import gc
import io
import os
import struct
import sys
import tracemalloc

from checks.common import *


class WatchedRaw(io.RawIOBase):
    """Delivers the data in pieces; at every request notes what has been delivered, printed and allocated by then."""

    def __init__(self, data, piece, mem, log):
        self.data, self.piece, self.mem, self.log, self.pos = data, piece, mem, log, 0
        self.first = True

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        self.pos = pos if whence == 0 else self.pos + pos if whence == 1 else len(self.data) + pos
        return self.pos

    def readinto(self, b):
        n = min(len(b), self.piece, len(self.data) - self.pos)
        if self.mem:
            gc.collect(1)       # a full collection would empty the free lists
        cur, peak = (tracemalloc.get_traced_memory() if self.mem else (0, 0))
        self.log.append((self.pos, sys.stdout.buffer.raw.written, cur, peak))
        if self.mem:
            tracemalloc.reset_peak()
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class CountingRaw(io.RawIOBase):
    written = 0

    def writable(self):
        return True

    def fileno(self):
        return 1

    def write(self, b):
        n = os.write(1, b)
        self.written += n
        return n


class Log:
    """Fixed-size binary log outside of traced memory."""

    def __init__(self, fd):
        self.fd = fd

    def append(self, t):
        os.write(self.fd, struct.pack('4q', *t))


def before(data, piece, mem, src, logfd):
    out = io.TextIOWrapper(io.BufferedWriter(CountingRaw(), 1), encoding='utf-8', write_through=True)
    sys.stdout = out
    raw = WatchedRaw(data, piece, mem, Log(logfd))
    if src == 'stdin':
        sys.stdin = io.TextIOWrapper(io.BufferedReader(raw, piece), encoding='utf-8')
    else:
        import builtins
        real = builtins.open

        def fake(file, mode='r', *a, **k):
            return io.BufferedReader(raw, piece) if str(file) == 'watched-file' else real(file, mode, *a, **k)
        builtins.open = io.open = fake
    if mem:
        gc.collect()
        gc.disable()
        # free lists of the interpreter count as used memory: fill them in advance
        x = [[tuple(range(k)) for _ in range(2500)] for k in range(1, 20)]
        x += [[[k] for k in range(200)], [{k: k} for k in range(200)], [float(k) for k in range(300)]]
        del x
        tracemalloc.start()


class CHECK(Cli):
    ID = 'C18'
    REACH = False
    RULE = ('stationary random inputs with bounded lines, any options, through standard input and files; at every read request the '
            'amount of output and (in part of the runs) the traced memory are recorded: all complete rows and lines must be out, '
            'and the floor of used memory must not rise; non-trivial: at least three read requests')
    NOSHRINK = ('piece', 'mem', 'src', 'o', 'data')
    SLACK = 6000

    def stationary(self, rng, n, frags=None):
        out = bytearray()
        line = 0
        while len(out) < n:
            t = gen.data(rng, 60, frags=frags)
            t = t[:60]
            out += t
            p = t.rfind(b'\n')
            line = line + len(t) if p < 0 else len(t) - p - 1
            if line > 120:
                out += b'z\n'
                line = 0
        return bytes(out[:n])

    def fixed(self):
        res = []
        import random
        rng = random.Random(5)
        for b in (False, True):
            for k in ({}, {'m': 2, 'color': True}, {'ignore': 'cesuip'}, {'d': True, 'focus': 'su'}):
                o = {**k, 'b': b}
                if b:
                    o['w'] = 16
                o = Opt({x: v for x, v in o.items() if v != Opt.DEFAULTS[x]})
                d = self.stationary(rng, 14000)
                res.append({'o': Opt(o, f=100), 'data': d, 'piece': 100, 'mem': True, 'src': 'stdin'})
                for f in (None, 1, 7, 64, 4096):
                    res.append({'o': Opt(o, f=f) if f else o, 'data': d[:12000 if not f or f > 50 else 1500], 'piece': f or 4096, 'mem': False, 'src': 'file' if f else 'stdin'})
            # inputs of one kind
            for fs in ([gen.f_sgr, gen.f_sgr_odd], [gen.f_csi], [gen.f_fe, gen.f_nf, gen.f_esc], gen.UTF_FRAGS, [gen.f_bin], [gen.f_ctl, gen.f_ws]):
                res.append({'o': Opt(b=True, w=7, f=64) if b else Opt(f=64), 'data': self.stationary(rng, 9000, fs), 'piece': 64, 'mem': True, 'src': 'stdin'})
            # long tokens
            for t in (b'a' * 110 + b'\n', b' ' * 110 + b'\n', b'\x01' * 110 + b'\n', b'\xff' * 110 + b'\n', b'\x1b[' + b'1;' * 55 + b'm\n', b'\x1b[' + b'1;' * 55 + b'H\n'):
                res.append({'o': Opt(b=True, w=112, f=112) if b else Opt(f=112), 'data': t * (14000 // len(t)), 'piece': 112, 'mem': True, 'src': 'stdin'})
        return res

    def generate(self, rng, i):
        o = gen.opt(rng)
        mem = rng.random() < .3
        if mem:
            if o.b:
                o['w'] = rng.choice([1, 4, 7, 16])      # the unfinished row should not differ much
            f = rng.choice([20, 33, 64, 100, 256])
            n = rng.choice([9000, 15000, 24000]) * (3 if self.thorough else 1)
        else:
            f = gen.pick(rng, 1, 2, 5, 16, 50, 100, 1000, None, 4096, 5000)
            n = rng.randint(0, min(12000, 40 * f if f else 12000))
        if f:
            o['f'] = f
        frags = None
        if rng.random() < .5:
            fs = [getattr(gen, x) for x in dir(gen) if x.startswith('f_')]
            frags = rng.sample(fs, rng.randint(1, 4))
        d = self.stationary(rng, n, frags) if mem or rng.random() < .5 else gen.data(rng, n)
        return {'o': o, 'data': d, 'piece': f or 4096, 'mem': mem, 'src': rng.choice(['stdin', 'file'])}

    def judge(self, case):
        o, data = case['o'], case['data']
        log = os.memfd_create('log')
        hi = __import__('fcntl').fcntl(log, 0, 80)
        try:
            r = self.run_ok(model.argv(o) + (['watched-file'] if case['src'] == 'file' else []),
                            before=before, args=(data, case['piece'], case['mem'], case['src'], hi), cpu=120, wall=180)
            raw = harness.readall(log)
        finally:
            os.close(log)
            os.close(hi)
        ev = [struct.unpack_from('4q', raw, p) for p in range(0, len(raw), 32)]
        if not ev:
            raise harness.HarnessError('no read requests seen')
        if case['piece'] > 1 or len(data) < 3000:
            self.progress(case, r.out, ev)
        else:
            self.progress(case, r.out, ev[::7])
        if case['mem']:
            self.memory(case, ev)
        self.count('read_requests_observed', len(ev))
        if len(ev) > 3:
            self.nontrivial(sorted(o.items()), data)

    def progress(self, case, out, ev):
        o, data = case['o'], case['data']
        f = o.f or 4096
        cols = None
        if o.b:
            if o.w:
                cols = o.w
            else:
                cols = model.auto_cols(80, o.decoff)
        nl = pos = 0
        for delivered, printed, _, _ in ev:
            nl += out.count(b'\n', pos, printed)
            pos = printed
            got = data[:delivered // f * f]
            done = len(got) - model.incomplete_tail(got[-4000:])
            want = done // cols if o.b else got[:done].count(b'\n')
            self.peak('most_lines_due', want)
            if nl < want:
                self.fail('when byte %d was requested %d of %d complete %s were printed' % (
                    delivered, nl, want, 'rows' if o.b else 'lines'))

    def memory(self, case, ev):
        cur = [e[2] for e in ev]
        peak = [e[3] for e in ev]
        n = len(ev)
        a, b = n // 4, n - n // 4
        if n < 40:
            return
        low = min(cur[a:a + n // 4]), min(cur[b:])
        top = max(peak[2:a + n // 4]), max(peak[b:])
        grown = low[1] - low[0]
        size = ev[b][0] - ev[a][0]
        self.peak('memory_floor_growth', grown)
        self.peak('memory_floor_growth_permille', grown * 1000 // size)
        self.peak('memory_peak', top[1])
        self.count('memory_series')
        if grown > self.SLACK + size // 8:
            self.fail('memory in use at read requests grew by %d bytes at least while %d more bytes were read (%d to %d)' % (grown, size, *low))
        if top[1] > 3 * top[0] + 200000:
            self.fail('peak of memory between reads grew from %d to %d' % top)
