"""Runs the real application. The calling process imports it once from the working tree; each run is a fork of it with
its own standard streams, argv and environment, which executes `python -m kolombos` (runpy) up to its real exit."""
import gc
import io
import os
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

REPO = '/repo'
PY = '/opt/venv/bin/python'
CPU_LIMIT = 30
WALL_LIMIT = 60
AS_LIMIT = 6 << 30
OUT_LIMIT = 1 << 30
FLUSH_ERROR_STATUS = 120


class HarnessError(Exception):
    pass


def setup():
    """Import the code under test from the working tree."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import kolombos
        import pytermor
    for m in (kolombos, pytermor):
        if not os.path.realpath(m.__file__).startswith(REPO + '/'):
            raise HarnessError('%s imported from %s' % (m.__name__, m.__file__))
    import importlib.resources, runpy, argparse, shutil, traceback  # noqa: imported lazily by the application
    gc.freeze()


class Result:
    __slots__ = ('rc', 'out', 'err', 'cpu', 'wall', 'hung', 'extra')

    def __init__(self, rc, out, err, cpu, wall, hung, extra=b''):
        self.rc, self.out, self.err, self.cpu, self.wall, self.hung, self.extra = rc, out, err, cpu, wall, hung, extra

    def bad(self):
        """Abnormal termination, or None."""
        if self.hung:
            return 'no end within limits (cpu %.1fs, wall %.1fs)' % (self.cpu, self.wall)
        if self.rc != 0:
            return 'exit status %d, stderr: %s' % (self.rc, self.err[-300:].decode(errors='replace'))
        return None


_dir = None


def scratch():
    global _dir
    if _dir is None or _dir[0] != os.getpid():
        _dir = (os.getpid(), tempfile.mkdtemp(prefix='kv-'))
    return _dir[1]


def cleanup():
    global _dir
    if _dir and _dir[0] == os.getpid():
        shutil.rmtree(_dir[1], ignore_errors=True)
        _dir = None


def memfile(data=b''):
    fd = os.memfd_create('kv')
    if data:
        view = memoryview(data)
        while view:
            view = view[os.write(fd, view):]
        os.lseek(fd, 0, 0)
    return fd


def readall(fd):
    size = os.fstat(fd).st_size
    parts, pos = [], 0
    while pos < size:
        b = os.pread(fd, size - pos, pos)
        if not b:
            break
        parts.append(b)
        pos += len(b)
    return b''.join(parts)


def child_main(argv, fds, env, before=None, at_exit=None, args=(), cpu=CPU_LIMIT):
    """In the forked child: never returns."""
    rc = 1
    try:
        for i, fd in enumerate(fds):
            if fd >= 0:
                os.dup2(fd, i)
            else:
                os.close(i)
        os.closerange(3, 64) if at_exit is None else None
        signal.signal(signal.SIGINT, signal.default_int_handler)
        signal.setitimer(signal.ITIMER_PROF, 0)
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
        resource.setrlimit(resource.RLIMIT_FSIZE, (OUT_LIMIT, OUT_LIMIT))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        for k in ('COLUMNS', 'LINES', 'PYTHONUNBUFFERED'):
            os.environ.pop(k, None)
        os.environ.update(env or {})
        sys.stdin = io.TextIOWrapper(io.BufferedReader(io.FileIO(0, 'rb', closefd=False)), encoding='utf-8', errors='strict')
        raw = io.FileIO(1, 'wb', closefd=False)
        sys.stdout = io.TextIOWrapper(io.BufferedWriter(raw), encoding='utf-8', errors='strict',
                                      line_buffering=raw.isatty())
        sys.stderr = io.TextIOWrapper(io.BufferedWriter(io.FileIO(2, 'wb', closefd=False)), encoding='utf-8',
                                      errors='backslashreplace', line_buffering=True)
        sys.__stdin__, sys.__stdout__, sys.__stderr__ = sys.stdin, sys.stdout, sys.stderr
        sys.argv = ['kolombos'] + list(argv)
        import runpy
        if before:
            before(*args)
        try:
            runpy.run_module('kolombos', run_name='__main__', alter_sys=True)
            rc = 0
        except SystemExit as e:
            c = e.code
            if c is None:
                rc = 0
            elif isinstance(c, int):
                rc = c & 0xff
            else:
                sys.stderr.write(str(c) + '\n')
                rc = 1
        except KeyboardInterrupt:
            import traceback
            traceback.print_exc()
            rc = 130
        except BaseException:
            import traceback
            traceback.print_exc()
            rc = 1
        try:
            sys.stdout.flush()
        except BaseException as e:
            if not getattr(sys.stdout, 'closed', False):
                try:
                    sys.stderr.write('Exception ignored in stdout flush: %r\n' % e)
                except BaseException:
                    pass
                rc = FLUSH_ERROR_STATUS
        try:
            sys.stderr.flush()
        except BaseException:
            pass
        if at_exit:
            at_exit(*args)
    except BaseException:
        import traceback
        try:
            os.write(2, b'HARNESS ' + traceback.format_exc().encode())
        except OSError:
            pass
        rc = 99
    os._exit(rc)


def run(argv, data=b'', env=None, chunks=None, fds=None, before=None, at_exit=None, args=(), parent=None, wall=WALL_LIMIT,
        cpu=CPU_LIMIT):
    """Run the application.

    data: standard input (memory file); chunks: instead, list of (delay, bytes) written to a pipe, closed at the end
    unless the last item is None. fds: explicit (stdin, stdout, stderr), None for the usual ones. parent(pid): called
    in the parent after the start (feeds pipes, sends signals).
    """
    own = []
    fin, fout, ferr = fds or (None, None, None)
    wfd = None
    if fin is None:
        if chunks is None:
            fin = memfile(data)
        else:
            fin, wfd = os.pipe()
        own.append(fin)
    of = ef = None
    if fout is None:
        fout = of = memfile()
        own.append(of)
    if ferr is None:
        ferr = ef = memfile()
        own.append(ef)
    sys.stdout.flush()
    sys.stderr.flush()
    t0 = time.monotonic()
    pid = os.fork()
    if pid == 0:
        if wfd is not None:
            os.close(wfd)
        # keep low descriptors free for the child
        src = [os.dup(fd) if 0 <= fd < 3 else fd for fd in (fin, fout, ferr)]
        child_main(argv, src, env, before, at_exit, args, cpu)
    hung = False
    try:
        pfd = os.pidfd_open(pid)
        try:
            if wfd is not None:
                hold = False
                signal.signal(signal.SIGPIPE, signal.SIG_IGN)
                try:
                    for item in chunks:
                        if item is None:
                            hold = True
                            break
                        delay, b = item
                        if delay:
                            time.sleep(delay)
                        hung = _write(wfd, b, pfd, t0 + wall) or hung
                except BrokenPipeError:
                    pass
                if not hold:
                    os.close(wfd)
                    wfd = None
            if parent:
                parent(pid)
            left = wall - (time.monotonic() - t0)
            if not select.select([pfd], [], [], max(0, left))[0]:
                hung = True
                os.kill(pid, signal.SIGKILL)
        finally:
            os.close(pfd)
            if wfd is not None:
                os.close(wfd)
        _, status, ru = os.wait4(pid, 0)
        pid = 0
    finally:
        if pid:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
        rc = None
        out = readall(of) if of is not None else b''
        err = readall(ef) if ef is not None else b''
        for fd in own:
            os.close(fd)
    if os.WIFSIGNALED(status):
        rc = -os.WTERMSIG(status)
        if rc in (-signal.SIGXCPU, -signal.SIGKILL):
            hung = True
    else:
        rc = os.WEXITSTATUS(status)
        if rc == 99 and err.startswith(b'HARNESS'):
            raise HarnessError(err.decode(errors='replace'))
    return Result(rc, out, err, ru.ru_utime + ru.ru_stime, time.monotonic() - t0, hung)


def _write(fd, b, pfd, deadline):
    """Write all to a pipe, giving up when the reader ends or at the deadline (True)."""
    os.set_blocking(fd, False)
    view = memoryview(b)
    while view:
        try:
            view = view[os.write(fd, view):]
        except BlockingIOError:
            left = deadline - time.monotonic()
            if left <= 0:
                return True
            r, w, _ = select.select([pfd], [fd], [], left)
            if r and not w:
                return False
    return False


def real_env(env=None):
    e = {k: v for k, v in os.environ.items() if k not in ('COLUMNS', 'LINES', 'PYTHONPATH')}
    e.update({'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONWARNINGS': 'ignore', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'PYTHONPATH': REPO, **(env or {})})
    return e


def run_real(argv, data=b'', env=None, timeout=WALL_LIMIT, **kw):
    """A separate interpreter process: python -m kolombos."""
    t0 = time.monotonic()
    try:
        if 'stdin' not in kw:
            kw['input'] = data
        p = subprocess.run([PY, '-m', 'kolombos', *argv], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=real_env(env), timeout=timeout, cwd=scratch(), **kw)
        return Result(p.returncode, p.stdout, p.stderr, 0, time.monotonic() - t0, False)
    except subprocess.TimeoutExpired as e:
        return Result(-9, e.stdout or b'', e.stderr or b'', 0, time.monotonic() - t0, True)
