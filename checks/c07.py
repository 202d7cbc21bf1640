"""Robustness on any input, and effort in proportion to its size."""
import mmap
import struct
import sys

from checks.common import *

STEP_RATIO = 5.2      # for four times the input
CPU_RATIO = 8.0


def count_steps(shared):
    """Count executed lines of the application and its library (in the child)."""
    mon = sys.monitoring
    n = 0

    def line(code, lineno):
        nonlocal n
        if '/repo/' not in code.co_filename:
            return mon.DISABLE
        n += 1
    mon.use_tool_id(3, 'kv')
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    shared.append(lambda: n)


class CHECK(Cli):
    ID = 'C07'
    REACH = False
    HI = 900
    BUDGET = {'quick': 30, 'thorough': 700}
    RULE = ('random, malformed and adversarial inputs x all options including debug levels and odd values; and growth cases: '
            'executed lines (hooked) and CPU time for n and 4n bytes of the same pattern; non-trivial: distinct '
            'input/option pair with at least three token kinds, or a growth case')
    NOSHRINK = ('n', 'kind', 'pattern')

    def fixed(self):
        res = []
        rng = self.rng('growth')
        pats = {'lines': b'The quick brown fox, 12345 lazy dogs.\n', 'empty lines': b'\n', 'sgr': b'\x1b[31mab\x1b[0m \x1b[1;38;5;9mc\n',
                'random': bytes(rng.randrange(256) for _ in range(499)) + b'\n', 'utf': 'Жé日😀'.encode() * 6 + b'\n', 'broken': b'\x1b(\x1b[3\xc3\n',
                'ctl': bytes(range(32)) * 3 + b'\n', 'alternating': b'a b\t\x01\xff' * 12 + b'\n'}
        for name, p in pats.items():
            for o in (Opt(m=1), Opt(b=True, w=16)):
                for f in (None, 1000000):
                    if f:
                        o = Opt({**o, 'f': f})
                    res.append({'kind': 'steps', 'o': o, 'pattern': p, 'n': 6000, 'data': b''})
        for p, o in ((b'\0', Opt(b=True, w=16)), (b'\xff', Opt(b=True, w=8)), (b'\x1b[1;', Opt(b=True, w=16)), (b' ', Opt(b=True, w=1))):
            res.append({'kind': 'steps', 'o': Opt({**o, 'f': 1000000}), 'pattern': p, 'n': 6000, 'data': b''})
        # cost hidden inside of single operations
        res.append({'kind': 'cpu', 'o': Opt(b=True, w=16, f=4000000), 'pattern': b'\0', 'n': 500000, 'data': b''})
        res.append({'kind': 'cpu', 'o': Opt(m=1, f=4000000), 'pattern': pats['lines'], 'n': 180000, 'data': b''})
        if self.thorough:
            for o in (Opt(m=2), Opt(b=True, w=64)):
                for f in (None, 4000000):
                    for name in pats:
                        o2 = Opt({**o, **({'f': f} if f else {})})
                        res.append({'kind': 'cpu', 'o': o2, 'pattern': pats[name], 'n': 60000, 'data': b''})
        # unusual values of options
        d = b'a b\t\x01\x1b[1;31mred\x1b[0m\x1b(B\n\xc3\xa9\xff\x00\r\nx'
        for b in (False, True):
            for k, vs in {'m': (-100, -1, 0, 3, 4, 9, 10, 11, 12, 99, 255, 256, 10 ** 6, 10 ** 30), 'w': (-10 ** 9, -1, 0, 1, 3, 999, 1000, 10 ** 5, 10 ** 7),
                          'f': (1, 2, 255, 256, 4095, 2 ** 16, 2 ** 20, 2 ** 24), 'L': (-10 ** 20, -1, 0, 1, 10 ** 9, 10 ** 20), 'B': (-10 ** 20, -1, 0, 1, 10 ** 9, 10 ** 20)}.items():
                for v in vs:
                    for rest in ({}, {'focus': 'scpeui'}, {'ignore': 'ce', 'focus': 's'}, {'D': 4}):
                        if rest and abs(v) in (2, 9, 11, 99, 255, 4095):
                            continue
                        res.append({'kind': 'any', 'o': Opt(**({'b': True} if b else {}), **{k: v}, **rest), 'data': d})
        # long runs and unfinished sequences on a single line
        k = 60000
        for d in (b'\x1b[' + b'0' * k, b'\x1b[' + b'0;' * k + b'm', b'\x1b' + b' ' * k, b'\x1b[' + b' ' * k + b'x', b'\x1b[' * k, b'\x1b' * k,
                  b'\xc3' * k, b'\xf0\x9f' * k, b'\xe0\x80' * k, b'a' * k, b'\n' * (k // 4), b'\x1b[38;2;' * (k // 4), b'\x1b[1m' * (k // 4),
                  b'\x1b[0' + b' 0' * k, b'\x1b[' + b'9' * k + b'm', b'\x1b[' + b'1:' * k + b'm'):
            for o in (Opt(m=1, f=1000000), Opt(b=True, w=64)):
                res.append({'kind': 'long', 'o': o, 'data': d, 'big': True})
        for argv in (['-b'], ['-m2'], ['-DD'], ['-v'], ['-l'], ['-M'], ['-h']):
            res.append({'kind': 'fresh', 'argv': argv, 'data': bytes(range(256)) + b'\x1b[1;31mabc\x1b[0m\n'})
        return sorted(res, key=lambda c: c['kind'] != 'cpu')

    def generate(self, rng, i):
        o = gen.opt(rng, limits=rng.random() < .2, buffer=True)
        if rng.random() < .3:
            o['D'] = rng.randint(1, 5)
        if rng.random() < .1:
            o['w'] = gen.pick(rng, 0, -1, 1, 100000, 10 ** 7)
        if rng.random() < .1:
            o['m'] = gen.pick(rng, 3, 100)
        if rng.random() < .1:
            o['f'] = gen.pick(rng, 10 ** 7, 2 ** 20)
        case = {'kind': 'any', 'o': o, 'data': self.data(rng, i, o), 'width': gen.pick(rng, None, None, 0, 1, 5, 20, 80, 1000)}
        if i % self.CROSS == 0:
            case['real'] = True
        return case

    def judge(self, case):
        if case['kind'] == 'fresh':
            return self.fresh(case)
        o, data = case['o'], case['data']
        if case['kind'] in ('steps', 'cpu'):
            return self.growth(case)
        env = {'COLUMNS': str(case['width'])} if case.get('width') is not None else None
        r = self.run_ok(model.argv(o), data, env=env, cpu=90 if case['kind'] == 'long' else 40, wall=180)
        if r.err:
            self.fail('standard error: %s' % clip(r.err.decode(errors='replace')))
        if b'ERROR: ' in r.out and b'ERROR: ' not in data:
            self.fail('error message in the output')
        if case.get('real'):
            q = harness.run_real(model.argv(o), data, env=env)
            self.count('real_process_runs')
            if q.rc or q.err or q.out != r.out:
                self.fail('separate process: status %s, stderr %s, output %s' % (
                    q.rc, clip(q.err.decode(errors='replace')), 'same' if q.out == r.out else 'different'))
        self.peak('cpu_seconds_of_a_run', round(r.cpu, 1))
        if case['kind'] == 'long' and r.cpu > 1.5:
            self.longer(model.argv(o), data, r.cpu)
        kinds = {k for k, _ in model.tokens(data[:5000])}
        if len(kinds) > 2 or case['kind'] == 'long':
            self.nontrivial(sorted(o.items()), data, case.get('width'))

    def fresh(self, case):
        """First run of an installation: nothing compiled yet, warnings as they are by default."""
        argv = case['argv']
        r = harness.run_real(argv, case['data'], env={'PYTHONPYCACHEPREFIX': harness.scratch() + '/none', 'PYTHONWARNINGS': ''})
        self.count('real_process_runs')
        if r.rc or r.err or r.hung:
            self.fail('first run of `kolombos %s`: status %s, stderr %s' % (' '.join(argv), r.rc, clip(r.err.decode(errors='replace'))))

    def longer(self, argv, data, t):
        small = self.run_ok(argv, data[:len(data) // 4], cpu=90, wall=180).cpu
        if t > CPU_RATIO * small:
            # measured again before it counts
            small = min(small, *[self.run_ok(argv, data[:len(data) // 4], cpu=90, wall=180).cpu for _ in range(2)])
            t = min(t, *[self.run_ok(argv, data, cpu=90, wall=180).cpu for _ in range(2)])
            if t > CPU_RATIO * small:
                self.fail('%.2f s for %d bytes, %.2f s for %d bytes' % (small, len(data) // 4, t, len(data)))
        self.peak('cpu_ratio_x100_for_4x_long_line', int(t / max(small, .01) * 100))

    def growth(self, case):
        p, n, o = case['pattern'], case['n'], case['o']
        small, large = ((p * (k // len(p) + 1))[:k] for k in (n, 4 * n))
        argv = model.argv(o)
        if case['kind'] == 'steps':
            s = [self.steps(argv, d) for d in (b'', small, large)]
            ratio = (s[2] - s[0]) / max(1, s[1] - s[0])
            if ratio > STEP_RATIO and s[2] - s[0] > 20000:
                self.fail('%d executed lines for %d bytes, %d for %d bytes (pattern %s)' % (s[1] - s[0], n, s[2] - s[0], 4 * n, clip(p, 60)))
            self.count('lines_of_code_executed', s[1] + s[2])
            self.peak('steps_ratio_x100_for_4x_input', int(ratio * 100))
        else:
            t = []
            for d in (small, large):
                t.append(min(self.run_ok(argv, d, cpu=100, wall=200).cpu for _ in range(1)))
            if t[1] > CPU_RATIO * t[0] and t[1] > 2:
                # measured again before it counts
                t = [min([t[k]] + [self.run_ok(argv, d, cpu=100, wall=200).cpu for _ in range(2)]) for k, d in enumerate((small, large))]
                if t[1] > CPU_RATIO * t[0]:
                    self.fail('%.2f s for %d bytes, %.2f s for %d bytes (pattern %s)' % (t[0], n, t[1], 4 * n, clip(p, 60)))
            self.peak('cpu_ratio_x100_for_4x_input', int(t[1] / max(t[0], .01) * 100))
        self.count('growth_cases')
        self.nontrivial(argv, p)

    def steps(self, argv, data):
        mem = mmap.mmap(-1, 8)
        shared = []

        def before(*_):
            count_steps(shared)

        def after(*_):
            mem[:8] = struct.pack('<q', shared[0]())
        self.run_ok(argv, data, before=before, at_exit=after, cpu=100, wall=150)
        v = struct.unpack('<q', mem[:8])[0]
        mem.close()
        return v
