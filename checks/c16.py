"""I/O faults and interrupts."""
import errno
import fcntl
import io
import os
import resource
import signal
import struct
import sys
import termios
import time

from checks.common import *

FLT = ('EIO', 'ECONNRESET', 'ESTALE', 'EBADF', 'ENOMEM', 'EAGAIN', 'EISDIR', 'ETIMEDOUT')


class FaultyRaw(io.RawIOBase):
    """Raw stream: delivers pieces one by one, then raises."""

    def __init__(self, pieces, exc, note):
        self.pieces, self.exc, self.note = list(pieces), exc, note
        self.left = b''
        self.pos = 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        return self.pos         # only tells the position

    def readinto(self, b):
        if not self.left and self.pieces:
            self.left = self.pieces.pop(0)
        if not self.left:
            os.write(self.note, b'x')
            raise self.exc
        n = min(len(b), len(self.left))
        b[:n] = self.left[:n]
        self.left = self.left[n:]
        self.pos += n
        return n


class FaultySink(io.RawIOBase):
    """Raw stream: writes limit bytes to the real output, then raises (forever or once)."""

    def __init__(self, limit, exc, once):
        self.limit, self.exc, self.once, self.done = limit, exc, once, False

    def writable(self):
        return True

    def fileno(self):
        return 1

    def isatty(self):
        return False

    def write(self, b):
        b = bytes(b)
        if self.limit <= 0 and not (self.once and self.done):
            self.done = True
            raise self.exc
        if self.done:
            return os.write(1, b)
        n = os.write(1, b[:self.limit])
        self.limit -= n
        return n


def make_exc(name):
    if name == 'KeyboardInterrupt':
        return KeyboardInterrupt()
    n = getattr(errno, name)
    return OSError(n, os.strerror(n))


def before_stdin(pieces, exc, note):
    sys.stdin = io.TextIOWrapper(io.BufferedReader(FaultyRaw(pieces, exc, note)), encoding='utf-8')


def before_file(pieces, exc, note):
    import builtins
    real = builtins.open

    def fake(file, mode='r', *a, **k):
        if file == 'faulty-file' or str(file) == 'faulty-file':
            raw = FaultyRaw(pieces, exc, note)
            return io.BufferedReader(raw) if not (a and a[0] == 0 or k.get('buffering') == 0) else raw
        return real(file, mode, *a, **k)
    builtins.open = io.open = fake


def before_sink(limit, exc, once):
    sys.stdout = io.TextIOWrapper(io.BufferedWriter(FaultySink(limit, exc, once)), encoding='utf-8')


def before_fsize(limit):
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))


def before_nobody():
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)


class CHECK(Cli):
    ID = 'C16'
    LEVEL = 'exploration'
    RULE = ('inputs and options x {file faults: missing, directory, unreadable, broken paths; read errors of several kinds and '
            'keyboard interrupts after any number of delivered pieces, through standard input and files; real interrupt signals; '
            'output failing after any number of bytes: full device, size limit, closed pipe, error from the stream, closed '
            'descriptor}; non-trivial: the fault was really delivered, distinct (fault, point, options)')
    NOSHRINK = ('err', 'parts', 'pause', 'kind', 'fault', 'src', 'cuts', 'limit', 'once', 'argv', 'name', 'delay')

    def fixed(self):
        res = []
        d = b'ab\x1b[31mc\nsecond \xd1\x8b\xff\n\x00third line\nfourth'
        for name in ('missing', 'dir', 'noperm', 'notdir', 'loop', 'long', 'mem', 'dirnoperm'):
            for b in (False, True):
                for D in (0, 1, 4):
                    res.append({'kind': 'file', 'name': name, 'o': Opt({k: v for k, v in dict(b=b, D=D).items() if v}), 'data': d})
        for name in ('writeonly', 'closed'):
            for b in (False, True):
                res.append({'kind': 'stdin', 'name': name, 'o': Opt({k: v for k, v in dict(b=b, w=4 if b else None).items() if v}), 'data': d})
        for b in (False, True):
            for f in (1, 4, None):
                o = Opt({k: v for k, v in dict(b=b, f=f, w=4 if b else None).items() if v})
                for n in range(0, len(d) + 1, 3):
                    for fault in ('EIO', 'KeyboardInterrupt'):
                        for src in ('stdin', 'file'):
                            res.append({'kind': 'read', 'o': o, 'data': d[:n], 'cuts': list(range(0, n, 5)), 'fault': fault, 'src': src})
                res.append({'kind': 'signal', 'o': o, 'data': d})
        for b in (False, True):
            o = Opt({k: v for k, v in dict(b=b, w=4 if b else None).items() if v})
            for n in (0, 1, 2, 5, 10, 20, 40, 60, 80, 100, 150, 200):
                res.append({'kind': 'fsize', 'o': o, 'data': d, 'limit': n})
                for once in (False, True):
                    res.append({'kind': 'sink', 'o': o, 'data': d, 'limit': n, 'fault': 'EIO', 'once': once})
            for name in ('full', 'epipe', 'closed', 'ascii', 'eagain', 'rdonly'):
                res.append({'kind': 'out', 'name': name, 'o': o, 'data': d * 400})
                res.append({'kind': 'out', 'name': name, 'o': o, 'data': b'x'})
                for err in ('full', 'epipe', 'closed'):
                    for name in ('full', 'missing', 'dir'):
                        for D in (0, 2):
                            res.append({'kind': 'mute', 'err': err, 'name': name, 'o': Opt({**o, **({'D': D} if D else {})}), 'data': d})
            for pause in (0, 1):
                for parts in ([d], [d, d], [b'', d], [d * 200, d], [d * 100, b'', d * 300]):
                    for f in (None, 16, 5000):
                        res.append({'kind': 'nonblock', 'o': Opt({**o, **({'f': f} if f else {})}), 'parts': parts, 'pause': pause, 'data': b''})
        for argv in (['-l'], ['-v'], ['-h'], ['-M'], ['-M', '-t'], ['--help'], ['-DDDD', '-v'], ['--nope'], ['-bt'], ['-w', 'x']):
            for err in ('full', 'epipe', 'closed'):
                res.append({'kind': 'mute', 'err': err, 'name': 'full', 'argv': argv, 'data': b''})
            if 'nope' in argv[0] or argv[0] in ('-bt', '-w'):
                continue
            for name in ('full', 'epipe', 'closed', 'rdonly'):
                res.append({'kind': 'out', 'name': name, 'argv': argv, 'data': b''})
            for n in (0, 1, 5, 20):
                res.append({'kind': 'fsize', 'argv': argv, 'data': b'', 'limit': n})
        return res

    def generate(self, rng, i):
        o = gen.opt(rng, buffer=True)
        if rng.random() < .1:
            o['D'] = rng.randint(1, 4)
        d = gen.data(rng, 400) if rng.random() < .9 else gen.data(rng, 9000)
        if o.get('D'):
            d = d[:DEBUG_HI]
        r = rng.random()
        if r < .5:
            f = o.f or 4096
            cuts = sorted({rng.randrange(len(d) + 1) for _ in range(rng.randrange(5))})
            if rng.random() < .3:
                cuts = list(range(0, len(d), f))[:3000]
            return {'kind': 'read', 'o': o, 'data': d, 'cuts': cuts, 'src': rng.choice(['stdin', 'file']),
                    'fault': rng.choice(FLT) if rng.random() < .6 else 'KeyboardInterrupt'}
        if r < .7:
            return {'kind': 'fsize', 'o': o, 'data': d, 'limit': rng.choice([rng.randrange(40), rng.randrange(400), rng.randrange(4 * len(d) + 10)])}
        if r < .85:
            return {'kind': 'sink', 'o': o, 'data': d, 'limit': rng.choice([rng.randrange(40), rng.randrange(400), rng.randrange(4 * len(d) + 10)]),
                    'fault': rng.choice(['EIO', 'ENOSPC', 'EPIPE', 'EDQUOT', 'EAGAIN']), 'once': rng.random() < .5}
        if r < .9:
            o.pop('D', None)
            return {'kind': 'signal', 'o': o, 'data': d, **({'delay': rng.random() * .05} if rng.random() < .5 else {})}
        if r < .92:
            o.pop('D', None)
            return {'kind': 'nonblock', 'o': o, 'data': b'', 'parts': [gen.data(rng, 300) for _ in range(rng.randint(1, 4))], 'pause': rng.randint(0, 1)}
        if r < .93:
            return {'kind': 'mute', 'err': rng.choice(('full', 'epipe', 'closed')), 'name': rng.choice(('full', 'missing', 'dir')), 'o': o, 'data': d}
        if r < .95:
            return {'kind': 'file', 'name': rng.choice(['missing', 'dir', 'noperm', 'notdir', 'loop', 'long', 'mem', 'dirnoperm']), 'o': o, 'data': d}
        return {'kind': 'out', 'name': rng.choice(['full', 'epipe', 'eagain', 'rdonly']), 'o': o, 'data': d}

    # ---------------------------------------------------------------- oracles
    def argv(self, case):
        return list(case['argv']) if 'argv' in case else model.argv(case['o'])

    def judge(self, case):
        self.what = '`kolombos %s`, %s: ' % (' '.join(self.argv(case)), ', '.join(
            '%s %s' % (k, clip(v, 100)) for k, v in case.items() if k not in ('o', 'argv')))
        delivered = getattr(self, 'k_' + case['kind'])(case)
        if delivered:
            self.count('faults_' + case['kind'] + '_' + str(case.get('name') or case.get('fault') or ''))
            self.nontrivial(case['kind'], case.get('name'), case.get('fault'), case.get('limit'), case.get('cuts'),
                            sorted((case.get('o') or {}).items()), len(case['data']))
        else:
            self.count('faults_not_reached')

    def reported(self, r, *words):
        if r.hung:
            self.fail(self.what + 'did not end')
        if r.rc == 0:
            self.fail(self.what + 'exit status 0, output %s, standard error %s' % (clip(r.out[-200:]), clip(r.err[-200:])))
        if r.rc < 0:
            self.fail(self.what + 'killed by signal %d' % -r.rc)
        e = r.err.decode(errors='replace')
        if not e.strip():
            self.fail(self.what + 'nothing on standard error')
        if words and not any(w in e for w in words):
            self.fail(self.what + 'problem is not named (%s) in: %s' % (' / '.join(words), clip(e)))

    def prefix(self, case, out, data, hint=True):
        """Printed lines are a prefix of those of the fault-free run on the same data."""
        if case['o'].D:
            return                     # the log itself tells about the fault
        ref = Screen(self.run_ok(self.argv(case), data).out).lines
        if ref[-2:] == [[], []]:
            ref = ref[:-2]
        if hint:
            got = Screen(out).lines
            while got and not got[-1]:
                got.pop()
            if got and '--debug' in text(got[-1]) and 'details' in text(got[-1]):
                got.pop()
            while got and not got[-1] and len(got) > len(ref):
                got.pop()
        else:
            got = Screen(out).lines
            while got and not got[-1]:
                got.pop()
        while len(got) > len(ref) and not got[-1]:
            got.pop()
        for n, ln in enumerate(got):
            if n >= len(ref):
                self.fail(self.what + 'printed line %d %s, the fault-free run prints %d' % (n + 1, clip(show(ln)), len(ref)))
            c, w = cells(ln), cells(ref[n])
            last = n == len(got) - 1
            if c != w and not (last and c == w[:len(c)]):
                self.fail(self.what + 'printed line %d is %s, the fault-free run prints %s' % (n + 1, clip(show(ln)), clip(show(ref[n]))))
        self.count('prefix_lines_compared', len(got))

    def k_file(self, case):
        base = harness.scratch()
        path = os.path.join(base, 'f')
        words = {'missing': errno.ENOENT, 'dir': errno.EISDIR, 'noperm': errno.EACCES, 'notdir': errno.ENOTDIR, 'loop': errno.ELOOP,
                 'long': errno.ENAMETOOLONG, 'mem': errno.EIO, 'dirnoperm': errno.EACCES}[case['name']]
        before = None
        name = case['name']
        import shutil
        sub = os.path.join(base, 'sub')
        shutil.rmtree(sub, ignore_errors=True)
        os.mkdir(sub)
        f = os.path.join(sub, 'in')
        with open(f, 'wb') as h:
            h.write(case['data'])
        if name == 'missing':
            f = os.path.join(sub, 'absent')
        elif name == 'dir':
            f = sub
        elif name == 'noperm':
            os.chmod(base, 0o755)
            os.chmod(sub, 0o755)
            os.chmod(f, 0)
            before = before_nobody
        elif name == 'dirnoperm':
            os.chmod(base, 0o755)
            os.chmod(sub, 0)
            before = before_nobody
        elif name == 'notdir':
            f += '/x'
        elif name == 'loop':
            f = os.path.join(sub, 'loop')
            os.symlink('loop', f)
        elif name == 'long':
            f = os.path.join(sub, 'x' * 300)
        elif name == 'mem':
            f = '/proc/self/mem'
        r = self.run(self.argv(case) + [f], case['data'], before=before)
        self.reported(r, os.strerror(words), errno.errorcode[words])
        if not case['o'].D and len([ln for ln in Screen(r.out).lines if ln]) > 1:
            self.fail(self.what + 'printed %s' % clip(r.out))
        return True

    def k_stdin(self, case):
        name = case['name']
        if name == 'closed':
            r = harness.run_real(self.argv(case), stdin=subprocess_closed(), preexec_fn=lambda: os.close(0))
            self.reported(r)
            return True
        fd = os.open('/dev/null', os.O_WRONLY)
        try:
            r = self.run(self.argv(case), fds=(fd, None, None))
        finally:
            os.close(fd)
        self.reported(r, os.strerror(errno.EBADF))
        return True

    def k_mute(self, case):
        """The problem cannot be reported: the status still has to tell about it."""
        argv = self.argv(case)
        close = []
        try:
            fin, fout = harness.memfile(case['data']), harness.memfile()
            close = [fin, fout]
            if case['name'] == 'full':
                fout = os.open('/dev/full', os.O_WRONLY)
                close.append(fout)
            else:
                argv.append('/' if case['name'] == 'dir' else os.path.join(harness.scratch(), 'absent'))
            if case['err'] == 'full':
                ferr = os.open('/dev/full', os.O_WRONLY)
            elif case['err'] == 'epipe':
                rd, ferr = os.pipe()
                os.close(rd)
            else:
                ferr = None
            if ferr is not None:
                close.append(ferr)
            if ferr is None:
                import subprocess
                p = subprocess.Popen([harness.PY, '-m', 'kolombos', *argv], stdin=fin, stdout=fout, env=harness.real_env({}), preexec_fn=lambda: os.close(2))
                try:
                    rc = p.wait(60)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    self.fail(self.what + 'did not end')
            else:
                r = self.run(argv, fds=(fin, fout, ferr))
                if r.hung:
                    self.fail(self.what + 'did not end')
                rc = r.rc
        finally:
            for fd in close:
                os.close(fd)
        if rc == 0:
            self.fail(self.what + 'exit status 0 (diagnostics cannot be written)')
        if rc < 0:
            self.fail(self.what + 'killed by signal %d' % -rc)
        return True

    def k_nonblock(self, case):
        """Standard input that has no data at the moment and says so."""
        rd, wr = os.pipe()
        os.set_blocking(rd, False)
        os.set_blocking(wr, False)
        data = b''.join(case['parts'])
        of = harness.memfile()
        waits = [0]
        fds = [wr]

        def feed(pid):
            end = time.monotonic() + 20
            for n, part in enumerate(case['parts']):
                if n or case['pause']:
                    time.sleep(.01 * case['pause'])
                left = memoryview(part)
                while left and time.monotonic() < end:
                    try:
                        left = left[os.write(wr, left):]
                    except BlockingIOError:
                        time.sleep(.0005)
                    except BrokenPipeError:
                        return
                    with open('/proc/%d/stat' % pid) as f:
                        if f.read().rsplit(')', 1)[1].split()[0] == 'Z':
                            left = b''
            os.close(wr)
            fds.clear()
        signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        try:
            r = self.run(self.argv(case), fds=(rd, of, None), parent=feed, wall=60)
            out = harness.readall(of)
        finally:
            os.close(rd)
            os.close(of)
            for fd in fds:
                os.close(fd)
        if r.hung:
            self.fail(self.what + 'did not end')
        if r.rc < 0:
            self.fail(self.what + 'killed by signal %d' % -r.rc)
        case = {**case, 'data': data}
        if r.rc == 0:
            ref = self.run_ok(self.argv(case), data).out
            if [cells(ln) for ln in Screen(out).lines] != [cells(ln) for ln in Screen(ref).lines]:   # colour codes may be repeated between reads
                self.fail(self.what + 'exit status 0 with output %s, the whole input gives %s' % (clip(out[-200:]), clip(ref[-200:])))
            self.count('nonblocking_complete')
            return True
        self.reported(r)
        self.prefix(case, out, data)
        self.count('nonblocking_refused')
        return True

    def pieces(self, case):
        cuts = [0] + [c for c in case['cuts'] if 0 < c < len(case['data'])] + [len(case['data'])]
        return [p for p in (case['data'][a:b] for a, b in zip(cuts, cuts[1:])) if p]

    def k_read(self, case):
        rd, wr = os.pipe()
        try:
            argv = self.argv(case)
            if case['src'] == 'file':
                argv.append('faulty-file')
            wr2 = fcntl.fcntl(wr, fcntl.F_DUPFD, 70)   # descriptors below 64 are closed in the child
            r = self.run(argv, before=before_file if case['src'] == 'file' else before_stdin,
                         args=(self.pieces(case), make_exc(case['fault']), wr2))
            os.close(wr2)
            os.set_blocking(rd, False)
            try:
                hit = os.read(rd, 100)
            except BlockingIOError:
                hit = b''
        finally:
            os.close(rd)
            os.close(wr)
        if not hit:
            return False
        if case['fault'] == 'KeyboardInterrupt':
            if r.hung:
                self.fail(self.what + 'did not end')
            if r.err:
                self.fail(self.what + 'standard error: %s' % clip(r.err[-400:]))
            if r.rc < 0:
                self.fail(self.what + 'killed by signal %d' % -r.rc)
        else:
            self.reported(r, os.strerror(getattr(errno, case['fault'])))
        self.prefix(case, r.out, case['data'])
        return True

    def k_signal(self, case):
        """A real SIGINT, sent while the application waits for more input (or, with delay, while it is at work)."""
        rd, wr = os.pipe()
        o = case['o']
        delay = case.get('delay')
        data = case['data'][:30000] if delay is None else (case['data'] + b'\n') * (1 + 12000 // (len(case['data']) + 1))
        data = data[:60000]
        of = harness.memfile()
        ok = []

        def feed(pid):
            end = time.monotonic() + (20 if delay is None else 2)
            os.set_blocking(wr, False)
            left = memoryview(data)
            while time.monotonic() < end:
                if left:
                    try:
                        left = left[os.write(wr, left):]
                    except BlockingIOError:
                        pass
                if delay is not None:
                    if os.fstat(of).st_size:
                        time.sleep(delay)
                        break
                elif not left:
                    n = struct.unpack('i', fcntl.ioctl(wr, termios.FIONREAD, b'\0' * 4))[0]
                    st = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()[0]
                    if n == 0 and st == 'S' and (os.fstat(of).st_size or not complete or time.monotonic() > end - 19.8):
                        break
                time.sleep(.001)
            else:
                os.kill(pid, signal.SIGKILL)
                return
            ok.append(1)
            os.kill(pid, signal.SIGINT)
        complete = len(data) > 100
        try:
            r = self.run(self.argv(case), fds=(rd, of, None), parent=feed, wall=40)
            out = harness.readall(of)
        finally:
            os.close(rd)
            os.close(wr)
            os.close(of)
        if not ok:
            return False
        if not r.hung and b'KeyboardInterrupt' in r.err and not out:
            return False          # interrupted before it began to read
        if r.hung:
            self.fail(self.what + 'did not end after an interrupt')
        if r.err:
            self.fail(self.what + 'standard error after an interrupt: %s' % clip(r.err[-400:]))
        if r.rc < 0:
            self.fail(self.what + 'killed by signal %d' % -r.rc)
        self.prefix({**case, 'data': data}, out, data)
        return True

    def out_run(self, case, fds=None, **kw):
        rd, wr = os.pipe()          # messages go to a pipe: file size limits do not apply to it
        fcntl.fcntl(wr, 1031, 1 << 20)
        try:
            fin = harness.memfile(case['data'])
            r = self.run(self.argv(case), fds=(fin, (fds or [None])[0], wr), **kw)
            os.close(fin)
            os.close(wr)
            wr = None
            parts = []
            while b := os.read(rd, 65536):
                parts.append(b)
            r.err = b''.join(parts)
        finally:
            os.close(rd)
            if wr is not None:
                os.close(wr)
        return r

    def reference(self, case):
        r = self.run_ok(self.argv(case), case['data'])
        return r.out

    def k_fsize(self, case):
        full = self.reference(case)
        r = self.out_run(case, before=before_fsize, args=(case['limit'],))
        if len(full) <= case['limit']:
            if r.out != full or r.rc:
                self.fail(self.what + 'output fits in the limit but is %s, status %d' % (clip(r.out), r.rc))
            return False
        self.reported(r, os.strerror(errno.EFBIG))
        if not full.startswith(r.out) or len(r.out) > case['limit']:
            self.fail(self.what + 'written %s, not a prefix of %s' % (clip(r.out), clip(full)))
        return True

    def k_sink(self, case):
        full = self.reference(case)
        r = self.out_run(case, before=before_sink, args=(case['limit'], make_exc(case['fault']), case['once']))
        if len(full) <= case['limit']:
            return False
        self.reported(r, os.strerror(getattr(errno, case['fault'])), 'BlockingIOError')
        if not full.startswith(r.out[:case['limit']]):
            self.fail(self.what + 'written %s, not a prefix of %s' % (clip(r.out), clip(full)))
        return True

    def k_out(self, case):
        name = case['name']
        full = self.reference(case)
        if name == 'closed':
            p = harness.run_real(self.argv(case), case['data'], preexec_fn=lambda: os.close(1))
            self.reported(p)
            return True
        if name == 'ascii':
            p = harness.run_real(self.argv(case), case['data'], env={'PYTHONIOENCODING': 'ascii'})
            if full.isascii():
                return False
            self.reported(p, 'codec')
            return True
        if name == 'full':
            fd = os.open('/dev/full', os.O_WRONLY)
            words = [os.strerror(errno.ENOSPC)]
        elif name == 'rdonly':
            fd = os.open('/dev/null', os.O_RDONLY)
            words = [os.strerror(errno.EBADF)]
        else:
            rd, fd = os.pipe()
            if name == 'epipe':
                os.close(rd)
                words = [os.strerror(errno.EPIPE)]
            else:
                os.set_blocking(fd, False)
                if len(full) < 70000:
                    os.write(fd, b'x' * 65536)
                words = ['could not complete', 'BlockingIOError', os.strerror(errno.EAGAIN)]
        try:
            r = self.out_run(case, fds=[fd])
        finally:
            os.close(fd)
            if name == 'eagain':
                os.close(rd)
        self.reported(r, *words)
        return True


def subprocess_closed():
    import subprocess
    return subprocess.DEVNULL
