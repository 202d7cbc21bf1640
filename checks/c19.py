"""The output depends on input, options and terminal width alone."""
import fcntl
import json
import os
import pty
import select
import struct
import subprocess
import termios
import time
import tty

from checks.common import *
from lib import world

# environments a run may be started in; all of them with the same terminal width
ENVS = [{'LANG': 'C', 'LC_ALL': 'C'}, {'LC_ALL': 'POSIX'}, {'LANG': 'ru_RU.UTF-8'}, {'LC_ALL': '', 'LANG': ''}, {'LC_CTYPE': 'C.UTF-8'},
        {'TERM': 'dumb'}, {'TERM': ''}, {'TERM': 'xterm-256color', 'COLORTERM': 'truecolor'}, {'TERM': 'linux'}, {'TERM': 'screen'},
        {'NO_COLOR': '1'}, {'FORCE_COLOR': '1'}, {'CLICOLOR': '0'}, {'CI': 'true'}, {'TMUX': '/tmp/tmux-0/default,1,0'},
        {'HOME': '/nonexistent'}, {'TZ': 'Asia/Tokyo'}, {'USER': 'nobody'}, {'LINES': '2'}, {'PYTHONUNBUFFERED': '1'},
        {'PYTHONUTF8': '1'}, {'PYTHONIOENCODING': 'utf-8'}, {'PYTHONHASHSEED': '0'}, {'PYTHONHASHSEED': '1'}, {'PYTHONHASHSEED': '4242'},
        {'PYTHONOPTIMIZE': '1'}, {'TERM': 'xterm-mono'}, {'TERM': 'vt100-m'}, {'TERM': 'ansi'}, {'TERM': 'emacs', 'INSIDE_EMACS': '29.1'}, {'TERM': 'tmux-256color', 'TMUX': '1'},
        {'TERM': 'vt52'}, {'TERM': 'xterm-kitty', 'KITTY_WINDOW_ID': '1'}, {'TERM': 'cygwin', 'MSYSTEM': 'MINGW64'}, {'WT_SESSION': '1', 'OS': 'Windows_NT'},
        {'COLORTERM': '24bit'}, {'COLORTERM': ''}, {'COLORFGBG': '0;15'}, {'CLICOLOR_FORCE': '1'}, {'LS_COLORS': ''}, {'GREP_COLOR': '1'}, {'TERM_PROGRAM': 'iTerm.app'},
        {'VTE_VERSION': '7000'}, {'STY': '1.pts'}, {'SSH_TTY': '/dev/pts/0', 'SSH_CONNECTION': '1 2 3 4'}, {'GITHUB_ACTIONS': 'true'}, {'JENKINS_URL': 'x'}, {'PYTEST_CURRENT_TEST': 'x'},
        {'LESS': '-R'}, {'LESSCHARSET': 'latin1'}, {'SHELL': '/bin/false'}, {'LOGNAME': 'x', 'USERNAME': 'x'}, {'XDG_CONFIG_HOME': '/nonexistent'}, {'EDITOR': 'vi'},
        {'LC_NUMERIC': 'de_DE.UTF-8'}, {'LC_MESSAGES': 'fr_FR.UTF-8', 'LANGUAGE': 'fr'}, {'PYTHONBREAKPOINT': '0'}, {'PYTHONNOUSERSITE': '1'}, {'PYTHONFAULTHANDLER': '1'},
        {'PYTHONCOERCECLOCALE': '0'}, {'SOURCE_DATE_EPOCH': '0'}, {'HOSTNAME': 'x'}, {'SHLVL': '9'}, {'WINDOWID': '1'}, {'DISPLAY': ':0'}, {'MANWIDTH': '60'}, {'WIDTH': '60'},
        {'FORCE_COLOR': '0'}, {'NO_COLOR': ''}, {'PYTHONTRACEMALLOC': '1'}, {'PYTHONMALLOC': 'malloc'}, {'KOLOMBOS': '-b', 'KOLOMBOS_OPTS': '-b', 'KOLOMBOS_OPTIONS': '-b'},
        {'PYTHONINTMAXSTRDIGITS': '640'}, {'ES7S_DEBUG': '1'}, {'PYTERMOR_DEBUG': '1', 'PYTERMOR_FORCE_OUTPUT_MODE': 'no_ansi'}, {'DEBUG': '1'}, {'KOLOMBOS_DEBUG': '1'}, {'VERBOSE': '1'}, {'PAGER': 'cat'}]
NAMES = ['in', 'name with spaces', 'имя', '=x', 'a\nb', '%s{0}', "quote'\"", '@in', 'x' * 200, 'in.txt.gz', '-', '--version', '~']
BASE = ('PATH', 'TMPDIR')


def set_size(fd, cols, rows=24):
    fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack('HHHH', rows, cols, 0, 0))


class CHECK(Cli):
    ID = 'C19'
    RULE = ('one input and option set (debug levels, limits and informational requests included) run as separate processes in '
            'different environments: hash seed, locale, terminal type, colour variables, home and current directory, interpreter '
            'options, entry point, file name and attributes, nature of the three standard streams, clock, ids and host, width given by the terminal or '
            'the variable; variables that the code is seen to read are then set to the values it compares them with; '
            'outputs and statuses are compared byte for byte; non-trivial: distinct (input, options, differing settings)')
    HI = 300
    BUDGET = {'quick': 35, 'thorough': 600}
    NOSHRINK = ('vars',)

    def fixed(self):
        res = []
        d = b'a b\x1b[1;31mred\x1b[0m\x1b(B\n\xc3\xa9\xff\x01 \tlong\x00\x7f line of text to have several rows\r\n\xf0\x9f\x90\x8d\x1bM end'
        for argv in (['-b'], ['-b', '-d', '--color-markers', '-seu'], ['-m2', '--color-markers'], ['-m1', '-SCpe'], ['-D', '-b'], ['-DDDD', '-b'],
                     ['-DDDD', '-m2'], ['-DD', '-t', '--no-separators'], ['-h'], ['-l'], ['-v'], ['-M'], ['-MDD'], ['-x'], ['-w', 'a'], ['-L2', '-b'], ['-B9']):
            merged = []
            for e in ENVS:
                for m in merged:
                    if not set(m) & set(e):
                        m.update(e)
                        break
                else:
                    merged.append(dict(e))
            if argv[-1][:2] not in ('-b', '-h', '-l') or len(argv) > 1:
                k = len(res)
                merged = merged[:2] + [merged[(k + j) % len(merged)] for j in (0, 3, 7)]
            res.append({'argv': argv, 'data': d, 'cols': 80, 'vars': [{'env': e} for e in merged]})
            res.append({'argv': argv, 'data': d, 'cols': 61, 'vars': [{'out': 'pty'}, {'out': 'pty', 'tty_width': True}, {'err': 'pty'}, {'out': 'file'}, {'err': 'closed'},
                                                                      {'file': 'in', 'stdin': 'closed'}]})
            res.append({'argv': argv, 'data': d, 'cols': 80, 'vars': [{'py': ['-OO', '-X', 'dev']}, {'entry': True}, {'cwd': '/'}, {'cwd': 'gone'}]})
            res.append({'argv': argv, 'data': d, 'cols': 80, 'vars': [{'file': n} for n in NAMES[:4]]})
            k = 5 * len(res)
            res.append({'argv': argv, 'data': d, 'cols': 80, 'vars': [{'world': (k + j) % len(world.WORLDS)} for j in range(5)]})
            res.append({'argv': argv, 'data': d, 'cols': 80, 'vars': [{'file': 'in', 'stat': n} for n in range(2)]})
            res.append({'argv': argv, 'data': d, 'cols': 80, 'vars': [{'nowidth': True, 'env': e} for e in merged[:3]] + [{'nowidth': True, 'out': 'file', 'env': {'TERM': 'xterm'}}]})
        res.append({'argv': ['-b'], 'data': d, 'cols': 80, 'vars': [{'file': n} for n in NAMES]})
        return res

    def generate(self, rng, i):
        o = gen.opt(rng, None, limits=True, buffer=True)
        r = rng.random()
        if r < .25:
            o['D'] = rng.randint(1, 4)
        argv = model.argv(o)
        if rng.random() < .05:
            argv = argv + gen.pick(rng, ['-l'], ['-v'], ['-h'], ['-M'])
        vars_ = [self.var(rng) for _ in range(rng.randint(2, 4))]
        return {'argv': argv, 'data': gen.data(rng, self.HI), 'cols': rng.choice((80, 80, rng.randint(20, 200))), 'vars': vars_}

    def var(self, rng):
        v = {'env': {}}
        for e in rng.sample(ENVS, rng.choice((0, 1, 2, 5))):
            v['env'].update(e)
        if rng.random() < .5:
            v['env']['PYTHONHASHSEED'] = str(rng.randrange(1 << 32))
        if rng.random() < .25:
            v['file'] = rng.choice(NAMES)
            if rng.random() < .3:
                v['stdin'] = rng.choice(('closed', 'null'))
        if rng.random() < .3:
            v['out'] = rng.choice(('pty', 'file', 'pty'))
            v['tty_width'] = v['out'] == 'pty' and rng.random() < .5
        if rng.random() < .15:
            v['err'] = rng.choice(('pty', 'closed', 'file'))
        if rng.random() < .15:
            v['py'] = rng.choice((['-O'], ['-OO'], ['-X', 'dev'], ['-u'], ['-B'], ['-s'], ['-X', 'utf8']))
        elif rng.random() < .1:
            v['entry'] = True
        if 'entry' not in v and rng.random() < .25:
            v['world'] = rng.randrange(len(world.WORLDS))
        if v.get('file') and rng.random() < .3:
            v['stat'] = rng.randrange(3)
        if v.get('out') != 'pty' and rng.random() < .15:
            v['nowidth'] = True
        if rng.random() < .15:
            v['cwd'] = rng.choice(('/', 'gone', 'sub'))
        return v

    # ----------------------------------------------------------------
    def one(self, case, v):
        """(status, output, diagnostics or None) of a run in a fresh process."""
        dir_ = harness.scratch()
        env = {k: os.environ[k] for k in BASE if k in os.environ}
        env.update(LANG='C.UTF-8', PYTHONPATH=harness.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
        if not v.get('tty_width') and not v.get('nowidth'):
            env['COLUMNS'] = str(case['cols'])
        env.update(v.get('env') or {})
        argv = list(case['argv'])
        close = []
        path = None
        work = None
        try:
            if v.get('file'):
                path = os.path.join(dir_, v['file'])
                with open(path, 'wb') as f:
                    f.write(case['data'])
                if v.get('stat') is not None:
                    mode, t, owner = ((0o400, 0, 0), (0o777, 1 << 32, 65534), (0o4755, 951782400, 1))[v['stat']]
                    os.chown(path, owner, owner)
                    os.chmod(path, mode)
                    os.utime(path, (t, t))
                argv.append(path)
                k = v.get('stdin') or 'null'
                fin = os.open('/dev/null', os.O_RDONLY) if k == 'null' else -1
            else:
                fin = harness.memfile(case['data'])
            close.append(fin)
            master = {}

            def sink(kind):
                if kind == 'closed':
                    return -1, None
                if kind == 'pty':
                    m, s = pty.openpty()
                    tty.setraw(s)
                    set_size(s, case['cols'])
                    close.append(m)
                    close.append(s)
                    return s, m
                if kind == 'file':
                    fd = harness.memfile()
                    close.append(fd)
                    return fd, None
                r, w = os.pipe()
                close.append(r)
                close.append(w)
                return w, r
            fout, mout = sink(v.get('out') or 'pipe')
            ferr, merr = sink(v.get('err') or 'pipe')
            cwd = dir_
            if v.get('cwd') == '/':
                cwd = '/'
            elif v.get('cwd'):
                cwd = work = os.path.join(dir_, 'work')
                os.makedirs(work, exist_ok=True)
            entry = os.path.dirname(harness.PY) + '/kolombos'
            entry = [entry] if os.access(entry, os.X_OK) else [harness.PY, '-c', 'from kolombos.__main__ import main; main()']
            cmd = entry if v.get('entry') else [harness.PY, *(v.get('py') or []), '-m', 'kolombos']
            if v.get('world') is not None:
                heard, tell = os.pipe()
                close += [heard, tell]
                cmd = [harness.PY, *(v.get('py') or []), world.__file__, str(v['world']), str(tell)]
            else:
                heard = tell = None
            gone = v.get('cwd') == 'gone'

            def prepare():
                # no descriptor of mine may survive in the low numbers
                for n, fd in enumerate(fds):
                    if fd < 0:
                        os.close(n)
                    else:
                        os.dup2(fd, n)
                if gone:
                    os.rmdir(os.getcwd())
            hi = lambda fd: fd if fd < 0 else fcntl.fcntl(fd, fcntl.F_DUPFD_CLOEXEC, 100)
            fds = [hi(fin), hi(fout), hi(ferr)]
            close += fds
            t0 = time.monotonic()
            p = subprocess.Popen(cmd + argv, env=env, cwd=cwd, preexec_fn=prepare, pass_fds=[tell] if tell else [])
            for fd in [fout, ferr] + fds:
                if fd >= 0 and fd not in (fout if v.get('out') in ('pty', 'file') else -1, ferr if v.get('err') in ('pty', 'file') else -1):
                    os.close(fd)
                    close.remove(fd)
            got = {mout: b'', merr: b''}
            # a terminal has no end as long as this process holds it: it is read until the application has ended
            opened = {m for m in (mout, merr) if m is not None}
            ended = False
            while opened:
                ready = select.select(list(opened), [], [], 0 if ended else .02)[0]
                for m in ready:
                    try:
                        b = os.read(m, 65536)
                    except OSError:
                        b = b''
                    if b:
                        got[m] += b
                    else:
                        opened.discard(m)
                if ended and not ready:
                    break
                if not ready and p.poll() is not None:
                    ended = True
                if time.monotonic() - t0 > 120:
                    p.kill()
                    p.wait()
                    return 'no end', b'', b''
            rc = p.wait()
            if heard is not None:
                os.set_blocking(heard, False)
                b = b''
                try:
                    while x := os.read(heard, 65536):
                        b += x
                except BlockingIOError:
                    pass
                self.consulted = [json.loads(x) for x in b.decode().splitlines()]
                self.count('runs_in_other_worlds')
            out = harness.readall(fout) if v.get('out') == 'file' else got[mout]
            err = None if v.get('err') == 'closed' else harness.readall(ferr) if v.get('err') == 'file' else got[merr]
            self.count('process_runs')
            self.count('output_bytes_observed', len(out))
            return rc, out, err
        finally:
            for fd in set(close):
                if fd >= 0:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
            if path:
                os.unlink(path)
            if work and os.path.isdir(work):
                os.rmdir(work)

    # what the code may consult: the width of the terminal
    WIDTH = ('COLUMNS', 'LINES')
    consulted = ()

    def read_variables(self, case, v):
        """Further settings to compare: variables that the code has read during the last run, with values it may be waiting for."""
        self.count('variable_lists_observed')
        known = {}
        tried = []
        for _ in range(2):
            names = [x[1] for x in self.consulted if x[0] == 'read' and x[1] not in self.WIDTH and not x[1].startswith(('PYTHON', 'COV_'))]
            for n in names:
                vals = known.setdefault(n, ['1', '0', '', 'true', '60', 'x', '-b', '/nonexistent'])
                vals += [x[2] for x in self.consulted if x[0] == 'value' and x[1] == n and x[2] not in vals and '\0' not in x[2]]
            for n, vals in sorted(known.items()):
                for x in vals:
                    if (n, x) not in tried and len(tried) < 60:
                        tried.append((n, x))
                        yield {**v, 'env': {**(v.get('env') or {}), n: x}}
            if not names:
                break

    def judge(self, case):
        plain = {}
        # debug output names the input file: compare runs with the same one
        for v in case['vars']:
            if v.get('out') == 'pty' and any(re.match('-[a-zA-CE-Z]*h|--help', a) for a in case['argv']):
                continue        # help has styles on a terminal
            if v.get('file') and any(re.match('-[a-zA-Z]*M|--demo', a) for a in case['argv']):
                continue        # conflicting options
            # without any terminal and variable some width is chosen, the same in all of such runs
            k = (v.get('file') if any(a.startswith('-D') or a == '--debug' for a in case['argv']) else None, v.get('nowidth'))
            if k not in plain:
                plain[k] = self.one(case, {'file': k[0], 'nowidth': k[1]})
            if v.get('err') == 'closed' and plain[k][0] == 2:
                continue        # the argument parser of Python then turns to standard output
            self.compare(case, v, plain[k])
            if v.get('world') is not None:
                for w in self.read_variables(case, v):
                    self.compare(case, w, plain[k])

    def compare(self, case, v, a):
        b = self.one(case, v)
        what = '`kolombos %s` on %s with %s' % (' '.join(case['argv']), clip(repr(case['data']), 150), v)
        if a[0] != b[0]:
            self.fail('%s: status %s, otherwise %s (%s / %s)' % (what, b[0], a[0], clip(repr((b[2] or b'')[-200:])), clip(repr((a[2] or b'')[-200:]))))
        for n, x, y in (('output', a[1], b[1]), ('diagnostics', a[2], b[2])):
            if y is not None and x != y:
                p = next((q for q in range(min(len(x), len(y))) if x[q] != y[q]), min(len(x), len(y)))
                self.fail('%s: %s differ from those of the plain run at byte %d: %s / %s' % (what, n, p, clip(repr(y[max(0, p - 30):p + 100])), clip(repr(x[max(0, p - 30):p + 100]))))
        for s in v:
            if v[s]:
                self.count('varied_' + s)
        self.nontrivial(case['argv'], case['data'], sorted(v.items(), key=str))
