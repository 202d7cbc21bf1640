"""Terminal helpers."""
import io
import os
import pickle
import pty
import select
import signal
import struct
import sys
import termios
import time
import fcntl

from checks.pt import *

KEYS = list('abyzQ019 ;~') + ['\n', '\t', '\x1b', '\x7f', '\x04', '\x00', 'é', 'ы', '世', '🐍', '\x1b[A', '\x1bOP', 'xyz', 'ыы']
FLAGS = {'icanon': (3, termios.ICANON), 'echo': (3, termios.ECHO), 'isig': (3, termios.ISIG), 'echoe': (3, termios.ECHOE), 'iexten': (3, termios.IEXTEN),
         'icrnl': (0, termios.ICRNL), 'ixon': (0, termios.IXON), 'opost': (1, termios.OPOST)}


class CHECK(Check):
    ID = 'C31'
    LIBRARY = True
    BUDGET = {'quick': 14, 'thorough': 200}
    NOSHRINK = ('ops', 'off')
    RULE = ('waiting for keys on pseudo terminals with random settings, keys delivered whole, together or split, interrupted by signals, ended by a '
            'hang-up, repeated; and on streams that are no terminals; settings are compared before, during and after; terminal widths from the '
            'variable and from real terminals; non-trivial: distinct (settings, keys, event)')

    def fixed(self):
        res = [{'kind': 'key', 'off': [], 'ops': [['key', k]]} for k in KEYS]
        for off in (['echo'], ['icanon'], ['icanon', 'echo'], ['icanon', 'echo', 'isig', 'iexten', 'icrnl', 'opost'], ['isig']):
            res += [{'kind': 'key', 'off': off, 'ops': [['key', 'q'], ['key', 'ы']]}, {'kind': 'key', 'off': off, 'ops': [['int']]},
                    {'kind': 'key', 'off': off, 'ops': [['int'], ['key', 'w'], ['int'], ['split', '世']]}]
        for k in ('q', 'ы', 'xyz', '\x1b[A', '\n', '世'):
            for off in (['icanon', 'echo'], ['icanon', 'echo', 'icrnl'], list(FLAGS)):
                res += [{'kind': 'key', 'off': off, 'ops': [['ahead', k]]}, {'kind': 'key', 'off': off, 'ops': [['key', 'a'], ['ahead', k], ['int'], ['ahead', 'b']]}]
        for k in ('file', 'pipe', 'null'):
            res.append({'kind': k, 'off': [], 'ops': []})
        for c in (1, 2, 3, 10, 79, 80, 81, 1000):
            res.append({'kind': 'width', 'off': [], 'ops': [], 'cols': c})
            res.append({'kind': 'width', 'off': [], 'ops': [], 'cols': c, 'env': str(c + 7)})
            res.append({'kind': 'width', 'off': [], 'ops': [], 'cols': None, 'env': str(c)})
        res.append({'kind': 'width', 'off': [], 'ops': [], 'cols': None})
        return res

    def generate(self, rng, i):
        r = rng.random()
        if r < .05:
            return {'kind': rng.choice(('file', 'pipe', 'null')), 'off': [], 'ops': []}
        if r < .15:
            return {'kind': 'width', 'off': [], 'ops': [], 'cols': rng.choice((None, rng.randint(1, 500))), 'env': rng.choice((None, '', '0', str(rng.randint(1, 500))))}
        off = [f for f in FLAGS if rng.random() < .3]
        ops = []
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if r < .1 and 'icanon' in off and 'echo' in off:
                ops.append(['ahead', rng.choice(KEYS)])
            elif r < .55:
                ops.append(['key', rng.choice(KEYS)])
            elif r < .75:
                ops.append(['split', rng.choice([k for k in KEYS if len(k.encode()) > 1 and len(k) == 1])])
            else:
                ops.append(['int'])
        if rng.random() < .1:
            ops.append(['hup'])
        return {'kind': 'key', 'off': off, 'ops': ops}

    def judge(self, case):
        signal.setitimer(signal.ITIMER_PROF, 0)
        if case['kind'] == 'width':
            self.width(case)
        elif case['kind'] == 'key':
            self.keys(case)
        else:
            self.stream(case)

    # ---------------------------------------------------------------- children
    def child(self, fn, fds, close=()):
        """Fork; fn(send) runs in the child with fds as standard streams. Returns pid and the read end of its reports."""
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                for n, fd in enumerate(fds):
                    if fd is not None:
                        os.dup2(fd, n)
                for fd in close:
                    os.close(fd)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                signal.alarm(60)
                sys.stdin = sys.__stdin__ = io.TextIOWrapper(io.BufferedReader(io.FileIO(0, 'rb', closefd=False)), encoding='utf-8', errors='strict')
                sys.stdout = sys.__stdout__ = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, 'wb', closefd=False)), encoding='utf-8')

                def send(x):
                    b = pickle.dumps(x)
                    os.write(wr, struct.pack('I', len(b)) + b)
                try:
                    fn(send)
                except BaseException as e:
                    send(('end', repr(e)))
            finally:
                os._exit(0)
        os.close(wr)
        return pid, rd

    @staticmethod
    def receive(rd, timeout=20):
        def exactly(n):
            r = b''
            while len(r) < n:
                if not select.select([rd], [], [], timeout)[0]:
                    return None
                b = os.read(rd, n - len(r))
                if not b:
                    return None
                r += b
            return r
        n = exactly(4)
        if n is None:
            return None
        b = exactly(struct.unpack('I', n)[0])
        return b and pickle.loads(b)

    def finish(self, pid, rd):
        os.close(rd)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)

    # ---------------------------------------------------------------- keys
    def keys(self, case):
        from pytermor.common import wait_key
        master, slave = pty.openpty()
        rd = go = begin = None
        m = master
        try:
            attr = termios.tcgetattr(slave)
            for f in case['off']:
                n, bit = FLAGS[f]
                attr[n] &= ~bit
            if 'icanon' in case['off']:
                attr[6][termios.VMIN] = 1
                attr[6][termios.VTIME] = 0
            termios.tcsetattr(slave, termios.TCSANOW, attr)
            attr = termios.tcgetattr(slave)
            canonical = 'icanon' not in case['off']
            echo = 'echo' not in case['off']
            steps = len(case['ops'])

            def body(send):
                for n in range(steps):
                    try:
                        send(('before',))
                        if case['ops'][n][0] == 'ahead':
                            os.read(go, 1)
                        k = wait_key()
                        send(('key', k, termios.tcgetattr(0) if not hup else None))
                    except KeyboardInterrupt:
                        send(('interrupted', None, termios.tcgetattr(0)))
                    except BaseException as e:
                        send(('exception', repr(e), None))
            hup = ['hup'] in case['ops']
            go, begin = os.pipe()
            pid, rd = self.child(body, (slave, None, None), close=(master,))
            pending = ''
            for step, op in enumerate(case['ops']):
                what = 'step %d of %s, terminal without %s' % (step + 1, case['ops'], case['off'])
                if self.receive(rd) != ('before',):
                    self.fail(what + ': the process has ended')
                want = None
                if op[0] == 'ahead':
                    # typed while nobody waits yet
                    if not pending:
                        os.write(master, op[1].encode())
                        end = time.monotonic() + 5
                        while not select.select([slave], [], [], .1)[0] and time.monotonic() < end:
                            pass
                    os.write(begin, b'.')
                elif not pending:
                    # the waiting must have begun: settings are changed, or (nothing to change) the process sleeps
                    if not self.waiting(slave, pid, canonical, echo):
                        self.fail(what + ': no key can be read, the terminal still has its settings (or the key is echoed)')
                if op[0] == 'int':
                    if pending:         # does not wait at all
                        want, pending = ('key', pending[0]), pending[1:]
                    else:
                        os.kill(pid, signal.SIGINT)
                        want = ('interrupted', None)
                elif op[0] == 'hup':
                    if not pending:
                        os.close(master)
                        m = None
                    got = self.receive(rd)
                    if got is None:
                        self.fail(what + ': no end after a hang-up')
                    self.count('hangups')
                    break
                else:
                    b = op[1].encode()
                    if pending:
                        # keys typed earlier together come first; this one is not typed
                        want, pending = ('key', pending[0]), pending[1:]
                    elif op[0] == 'ahead':
                        want, pending = ('key', op[1][0]), op[1][1:]
                        self.count('keys_typed_ahead')
                    else:
                        if op[0] == 'split':
                            os.write(master, b[:1])
                            time.sleep(.005)
                            os.write(master, b[1:])
                        else:
                            os.write(master, b)
                        want, pending = ('key', op[1][0]), op[1][1:]
                got = self.receive(rd)
                if got is None:
                    self.fail(what + ': no answer')
                if got[:2] != want:
                    self.fail('%s: gives %r, must be %r' % (what, got[:2], want))
                if got[2] is not None and got[2] != attr:
                    self.fail('%s: settings afterwards are %r, they were %r' % (what, got[2], attr))
                if termios.tcgetattr(slave) != attr and not (step + 1 < steps):
                    self.fail('%s: settings afterwards are %r, they were %r' % (what, termios.tcgetattr(slave), attr))
                self.count('interrupts' if want[0] == 'interrupted' else 'keys')
            if m is not None and select.select([master], [], [], 0)[0]:
                e = os.read(master, 1000)
                self.fail('%s, terminal without %s: keys are echoed: %r' % (case['ops'], case['off'], e))
            self.nontrivial(sorted(case['off']), case['ops'])
        finally:
            if rd is not None:
                self.finish(pid, rd)
            for fd in (go, begin):
                if fd is not None:
                    os.close(fd)
            if m is not None:
                os.close(master)
            os.close(slave)

    @staticmethod
    def waiting(slave, pid, canonical, echo):
        """The terminal passes single keys without echo, and the process sleeps."""
        end = time.monotonic() + 20
        calm = 0
        while time.monotonic() < end:
            a = termios.tcgetattr(slave)
            if not a[3] & (termios.ICANON | termios.ECHO):
                with open('/proc/%d/stat' % pid) as f:
                    calm = calm + 1 if f.read().rsplit(')', 1)[1].split()[0] == 'S' else 0
                if calm > 2:
                    return True
            time.sleep(.0005)
        return False

    # ---------------------------------------------------------------- no terminals
    def stream(self, case):
        from pytermor.common import wait_key
        k = case['kind']
        if k == 'file':
            fd = harness.memfile(b'abc')
        elif k == 'pipe':
            fd, w = os.pipe()
            os.write(w, b'abc')
            os.close(w)
        else:
            fd = os.open('/dev/null', os.O_RDONLY)

        def body(send):
            try:
                send(('key', wait_key()))
            except Exception as e:
                send(('refused', repr(e)))
        pid, rd = self.child(body, (fd, None, None))
        try:
            got = self.receive(rd)
            if got is None or got[0] != 'refused':
                self.fail('waiting for a key on a %s gives %r' % (k, got))
            if k == 'pipe' and os.read(fd, 10) != b'abc' or k == 'file' and os.lseek(fd, 0, 1):
                self.fail('waiting for a key on a %s reads it' % k)
            self.count('refusals')
            self.nontrivial(k)
        finally:
            self.finish(pid, rd)
            os.close(fd)

    # ---------------------------------------------------------------- width
    def width(self, case):
        from pytermor.common import get_terminal_width
        close = []
        if case['cols'] is None:
            fd = os.open('/dev/null', os.O_WRONLY)
        else:
            m, fd = pty.openpty()
            close.append(m)
            fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack('HHHH', 24, case['cols'], 0, 0))
        close.append(fd)
        env = case.get('env')

        def body(send):
            os.environ.pop('COLUMNS', None)
            if env is not None:
                os.environ['COLUMNS'] = env
            send(get_terminal_width())
        pid, rd = self.child(body, (None, fd, None))
        try:
            got = self.receive(rd)
            want = (int(env) if env and int(env) > 0 else case['cols'] or 80) - 2
            if got != want:
                self.fail('terminal of %s columns, COLUMNS=%s: width is %r, must be %d' % (case['cols'], env, got, want))
            self.count('widths')
            self.nontrivial(case['cols'], env)
        finally:
            self.finish(pid, rd)
            for fd in close:
                os.close(fd)
