"""Inspecting has no side effects."""
import fcntl
import json
import os
import pty
import signal
import sys
import sysconfig
import termios
import time

from checks.common import *

CHANGING = ('os.remove', 'os.rename', 'os.rmdir', 'os.mkdir', 'os.link', 'os.symlink', 'os.truncate', 'os.chmod', 'os.chown', 'os.lchown', 'os.utime',
            'os.mkfifo', 'os.mknod', 'os.setxattr', 'os.removexattr', 'os.system', 'os.exec', 'os.fork', 'os.forkpty', 'os.posix_spawn', 'os.spawn',
            'os.kill', 'os.killpg', 'os.lockf', 'fcntl.flock', 'fcntl.lockf', 'pty.spawn', 'resource.setrlimit', 'signal.pthread_kill', 'shutil.',
            'tempfile.', 'subprocess.', 'socket.', 'syslog.', 'webbrowser.', 'urllib.', 'sqlite3.', 'smtplib.', 'ftplib.', 'http.client')
# writing through descriptors that were opened elsewhere is no new opening
WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def watch(report, event, args):
    """Audit hook: report(event, argument) of everything that touches the world outside."""
    if event == 'open':
        path, mode, flags = args[:3]
        if isinstance(path, int):
            return
        path = os.fsdecode(path)
        flags = flags if isinstance(flags, int) else 0
        w = bool(flags & WRITING) or isinstance(mode, str) and any(c in mode for c in 'wax+')
        report('write' if w else 'read', path)
    elif event.startswith(CHANGING):
        report(event, repr(args)[:200])
    elif event in ('os.listdir', 'os.scandir'):
        report('list', str(args[0]))


class CHECK(Cli):
    ID = 'C29'
    MODE = None
    RULE = ('option sets (debug levels, limits, informational and invalid requests, faulty files included) on inputs given as files of all '
            'names and permissions, redirected files, pipes and terminals, standard streams included; an audit hook observes every opening, '
            'change of files, process and connection the application attempts, and the surroundings (files, descriptor modes, terminal '
            'settings) are compared before and after; non-trivial: distinct (options, input, kind of input)')
    KINDS = ('file', 'stdin', 'pipe', 'tty', 'readonly', 'symlink', 'missing', 'dir')
    NOSHRINK = ('argv', 'kind', 'name')

    def fixed(self):
        res = []
        d = b'a b\x1b[1;31mred\x1b[0m\x1b(B\n\xc3\xa9\xff\x01 \tlong\x00\x7f line\r\n\xf0\x9f\x90\x8d\x1bM end'
        for argv in ([], ['-b'], ['-b', '-d'], ['-m2'], ['-D'], ['-DDDD'], ['-DDDD', '-b'], ['-L1'], ['-B3', '-b'], ['-f2'], ['-f1', '-b'],
                     ['-h'], ['-l'], ['-v'], ['-M'], ['-x'], ['-w', 'q'], ['-v', '-D'], ['-l', '-DDD']):
            for k in self.KINDS:
                res.append({'argv': argv, 'kind': k, 'data': d, 'name': 'in', 'real': k in ('file', 'stdin')})
        res.append({'argv': ['-b'], 'kind': 'file', 'data': bytes(range(256)) * 800, 'name': 'in'})
        res.append({'argv': [], 'kind': 'pipe', 'data': bytes(range(256)) * 800, 'name': 'in'})
        for k in ('stdin', 'file'):
            res.append({'argv': ['-b', '-w256'], 'kind': k, 'data': bytes(1300000), 'name': 'in', 'big': True, 'real': k == 'stdin'})
            res.append({'argv': ['--no-line-numbers'], 'kind': k, 'data': b'line of text \x1b[1mb\x1b[m\n' * 20000, 'name': 'in', 'big': True})
        return res

    def generate(self, rng, i):
        o = gen.opt(rng, None, limits=True, buffer=True)
        if rng.random() < .25:
            o['D'] = rng.randint(1, 4)
        argv = model.argv(o)
        r = rng.random()
        if r < .1:
            argv = argv + gen.pick(rng, ['-l'], ['-v'], ['-h'], ['-M'], ['--nope'], ['-w'])
        return {'argv': argv, 'kind': gen.pick(rng, *self.KINDS, 'file', 'stdin', 'pipe'), 'data': gen.data(rng, 500), 'real': i % 41 == 0,
                'name': gen.pick(rng, 'in', 'in put', 'имя', '.hidden', 'in.log', '=1')}

    # ---------------------------------------------------------------- observation
    @staticmethod
    def tree(top):
        res = {}
        for base, dirs, files in os.walk(top):
            for n in dirs + files:
                p = os.path.join(base, n)
                st = os.lstat(p)
                data = None
                if os.path.isfile(p) and not os.path.islink(p):
                    with open(p, 'rb') as f:
                        data = f.read()
                res[os.path.relpath(p, top)] = (st.st_mode, st.st_uid, st.st_gid, st.st_nlink, st.st_mtime_ns, st.st_ino, data)
        return res

    def judge(self, case):
        top = os.path.join(harness.scratch(), 'top')
        old = os.getcwd()
        os.makedirs(top + '/home')
        try:
            os.chdir(top)
            self.observe(case, top)
        finally:
            os.chdir(old)
            harness.shutil.rmtree(top, ignore_errors=True)

    def observe(self, case, top):
        argv, kind, data = list(case['argv']), case['kind'], case['data']
        path = os.path.join(top, case['name'])
        informational = any(re.match('-[a-zA-Z]*[hlvM]|--(help|legend|version|demo)', a) for a in argv)
        isfile = kind in ('file', 'readonly', 'symlink', 'missing', 'dir')
        if isfile:
            if kind == 'dir':
                os.mkdir(path)
            elif kind != 'missing':
                with open(path + ('.target' if kind == 'symlink' else ''), 'wb') as f:
                    f.write(data)
                if kind == 'symlink':
                    os.symlink(path + '.target', path)
                if kind == 'readonly':
                    os.chmod(path, 0o444)
            if not any(re.match('-[a-zA-Z]*M|--demo', a) for a in argv):
                argv.append(path)
        for n in ('neighbour', 'in~', 'home/.kolombos', 'home/.config', '.kolombosrc', '.env'):
            with open(os.path.join(top, n), 'wb') as f:
                f.write(b'DEBUG=1\n')
        log, logw = os.pipe()
        os.set_inheritable(logw, True)
        close = [log, logw]
        try:
            chunks = slave = None
            if kind == 'pipe':
                fin, w = os.pipe()
                close.append(fin)
                if len(data) > 60000:
                    data = data[:60000]
                os.write(w, data)
                os.close(w)
            elif kind == 'tty':
                master, fin = pty.openpty()
                close += [master, fin]
                slave = fin
                attr = termios.tcgetattr(slave)
                os.write(master, b'abc def\n\x04\x04')
            else:
                fin = harness.memfile(b'' if isfile else data)
                close.append(fin)
            fout, ferr = harness.memfile(), harness.memfile()
            close += [fout, ferr]
            fl = [fcntl.fcntl(x, fcntl.F_GETFL) for x in (fin, fout, ferr)]
            before = self.tree(top)
            content = harness.readall(fin) if kind not in ('pipe', 'tty') else b''
            env = {'HOME': top + '/home', 'XDG_CONFIG_HOME': top + '/home', 'XDG_CACHE_HOME': top + '/home', 'TMPDIR': top}
            if case.get('real') and kind != 'tty':
                rc = self.real(argv, env, (fin, fout, ferr), logw)
            else:
                self.count('application_runs')

                def report(event, what):
                    os.write(900, (json.dumps([event, what]) + '\n').encode())

                def begin():
                    os.dup2(logw2, 900)
                    os.closerange(64, 900)
                    sys.addaudithook(lambda e, a: watch(report, e, a))
                logw2 = fcntl.fcntl(logw, fcntl.F_DUPFD, 200)
                close.append(logw2)
                r = harness.run(argv, fds=(fin, fout, ferr), env=env, before=begin)
                rc = r.rc
                if r.hung:
                    self.fail('`kolombos %s` (input: %s) hangs' % (' '.join(argv), kind))
            os.set_blocking(log, False)
            events = b''
            while True:
                try:
                    b = os.read(log, 65536)
                except BlockingIOError:
                    break
                if not b:
                    break
                events += b
            what = '`kolombos %s` (input: %s)' % (' '.join(argv), kind)
            self.events(what, [json.loads(x) for x in events.decode().splitlines()], top, path if isfile and not informational else None)
            for n, (x, y) in enumerate(zip(fl, (fin, fout, ferr))):
                if fcntl.fcntl(y, fcntl.F_GETFL) != x:
                    self.fail('%s leaves standard stream %d with flags %o, they were %o' % (what, n, fcntl.fcntl(y, fcntl.F_GETFL), x))
            if slave is not None and termios.tcgetattr(slave) != attr:
                self.fail('%s changes the terminal settings' % what)
            if content != (harness.readall(fin) if kind not in ('pipe', 'tty') else b''):
                self.fail('%s changes its standard input' % what)
            after = self.tree(top)
            if after != before:
                self.fail('%s changes files: %s' % (what, clip(repr(sorted((n, (before.get(n) or ('absent',))[:5], (after.get(n) or ('absent',))[:5]) for n in set(before) | set(after) if before.get(n) != after.get(n))))))
            self.count('status_%s' % rc)
            self.count('kind_' + kind)
            self.nontrivial(case['argv'], kind, data)
        finally:
            for fd in close:
                os.close(fd)

    def events(self, what, events, top, path):
        roots = [os.path.realpath(p) for p in (harness.REPO, sys.prefix, sys.base_prefix, sysconfig.get_path('stdlib'), os.path.dirname(sysconfig.get_path('stdlib')))]
        for e, p in events:
            self.count('events_observed')
            if e == 'read':
                full = os.path.abspath(os.path.join(top, p))
                if path is not None and full in (path, os.path.realpath(path)):     # the input, by any name
                    self.count('input_openings')
                    continue
                if full.startswith(top + '/') or full == top:
                    self.fail('%s reads %s' % (what, p))
                real = os.path.realpath(full)
                if not any(real.startswith(r + '/') for r in roots) and not real.startswith(('/usr/', '/etc/', '/proc/', '/dev/', '/sys/', '/lib/')):
                    self.fail('%s reads %s' % (what, p))
            elif e == 'write' and p == '/dev/null':
                continue
            elif e == 'list':
                full = os.path.abspath(os.path.join(top, p))
                if full.startswith(top + '/'):
                    self.fail('%s lists %s' % (what, p))
            else:
                self.fail('%s: %s %s' % (what, e, p))

    def real(self, argv, env, fds, logw):
        """A separate interpreter, imports of the application included."""
        code = ('import sys, os, json, importlib.util\n'
                'sys.path.insert(0, %r)\n'
                'from checks.c29 import watch\n'
                'sys.path.pop(0)\n'
                'sys.addaudithook(lambda e, a: watch(lambda e, p: os.write(%d, (json.dumps([e, p]) + "\\n").encode()), e, a))\n'
                'import runpy\n'
                'sys.argv[0] = "kolombos"\n'
                'runpy.run_module("kolombos", run_name="__main__", alter_sys=True)\n') % (os.path.dirname(os.path.dirname(os.path.abspath(__file__))), logw)
        self.count('real_process_runs')
        p = harness.subprocess.Popen([harness.PY, '-c', code, *argv], stdin=fds[0], stdout=fds[1], stderr=fds[2], pass_fds=(logw,), env=harness.real_env(env))
        try:
            return p.wait(60)
        except harness.subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            self.fail('`kolombos %s` hangs' % ' '.join(argv))
