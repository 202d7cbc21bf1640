"""Read limits."""
from checks.common import *


class CHECK(Cli):
    ID = 'C06'
    RULE = ('inputs x line and byte limits at, before and after line feeds, read boundaries and the end of input; compared '
            'with a run on the cut input; part of the runs get exactly enough whole read chunks through a pipe that is '
            'never closed; non-trivial: the limits cut something off')
    NOSHRINK = ('held',)

    def fixed(self):
        res = []
        d = b'ab\ncd\n\n\x1b[31m\xc3\xa9f\ng\n'
        for b in (False, True):
            base = {'b': True, 'w': 4} if b else {'m': 1}
            for L in range(0, 8):
                for B in (0, 1, 2, 3, 4, 6, 7, 8, 9, 12, 16, 17, 18, 19, 20, 50):
                    for f in (None, 1, 3):
                        o = Opt(base, L=L, B=B)
                        if f:
                            o['f'] = f
                        res.append({'o': Opt({k: v for k, v in o.items() if v}), 'data': d, 'held': False})
        # what precedes the line feed at the limit stays
        for t in (b'\r', b'\r\r', b' ', b'\t', b'\x00', b'\v', b'\f', b'\x1b', b'\x1b[', b'\xd1', b'\x85', b'\xe2\x80\xa8', b'\x7f', b'\x1a'):
            for L in (1, 2, 3):
                for b in (False, True):
                    for f in (None, 2):
                        res.append({'o': Opt({k: v for k, v in dict(b=b, L=L, f=f).items() if v}), 'data': (b'ab' + t + b'\n') * 3 + b'c', 'held': False})
        for L, B in ((-1, 0), (-3, 0), (0, -1), (0, -5), (-1, -1), (-1, 4), (2, -4), (2, -100), (-100, 0), (0, -1000)):
            for f in (None, 1, 3):
                for b in (False, True):
                    o = Opt(b=b, L=L, B=B, f=f)
                    res.append({'o': Opt({k: v for k, v in o.items() if v}), 'data': d, 'held': False})
        for L, B, f in ((1, 0, 1), (3, 0, 1), (0, 1, 1), (0, 7, 1), (2, 4, 1), (1, 100, 4), (0, 4, 4), (0, 8, 4), (0, 6, 4), (4, 0, 5), (3, 5, 2),
                        (0, 4096, 0), (1, 0, 0), (0, 5, 0)):
            for b in (False, True):
                o = Opt({k: v for k, v in dict(b=b, L=L, B=B, f=f).items() if v})
                res.append({'o': o, 'data': d * 300, 'held': True})
        # large limits
        lines = b'a\n' * 70010
        for L in (9999, 10001, 65535, 65537):
            res.append({'o': Opt(L=L, ignore='s', f=1 << 16), 'data': lines[:2 * L + 9], 'held': False, 'big': True})
        for L in (99999, 100000, 131073, 262145):
            res.append({'o': Opt(L=L, b=True, w=4096, nooff=True), 'data': b'\n' * (L + 5000), 'held': False, 'big': True})
        # limits that no input reaches
        for n in (1 << 15, 1 << 16, 1 << 31, (1 << 31) + 1, (1 << 32) + 1, (1 << 32) + 5, (1 << 63) + 3, (1 << 64) + 1, 10 ** 30):
            for o in (Opt(L=n), Opt(B=n), Opt(L=n, B=n + 1), Opt(L=2, B=n), Opt(L=n, B=7)):
                for f in (3, 0):
                    res.append({'o': Opt({**o, 'f': f} if f else o), 'data': d * (1 if f else 300), 'held': False})
        long = (b'x' * 8191 + b'\n') * 135
        for B in (65535, 65537, (1 << 20) - 1, (1 << 20) + 1, 1100000):
            res.append({'o': Opt(B=B, f=1 << 16), 'data': long[:B + 99], 'held': False, 'big': True})
        return res

    def generate(self, rng, i):
        o = gen.opt(rng, buffer=True)
        d = gen.data(rng, 400) if rng.random() < .93 else gen.data(rng, 9000)
        nl = d.count(b'\n')
        if rng.random() < .6:
            o['L'] = rng.randint(0, nl + 2) if rng.random() < .7 else rng.randint(1, 4)
        if rng.random() < .6:
            f = o.f or 4096
            o['B'] = gen.pick(rng, rng.randint(0, len(d) + 2), rng.randint(0, len(d) + 2), f, f + 1, max(f - 1, 1), 2 * f, len(d), len(d) + 1,
                              d.find(b'\n') + 1, max(0, d.find(b'\n')), 4096, 4097)
        if rng.random() < .5:
            o['f'] = gen.pick(rng, 1, 2, 3, 4, 5, 7, 8, 16, 64, 100)
        if rng.random() < .08:
            o[rng.choice('LB')] = -gen.pick(rng, 1, 2, rng.randint(1, len(d) + 1), 4096)
        o = Opt({k: v for k, v in o.items() if v != Opt.DEFAULTS[k]})
        held = bool(o.L > 0 or o.B > 0) and rng.random() < .25
        case = {'o': o, 'data': d, 'held': held}
        if not held and i % self.CROSS == 0:
            case['real'] = True
        return case

    def judge(self, case):
        o, data = case['o'], case['data']
        part = model.cut(data, o)
        free = Opt({k: v for k, v in o.items() if k not in ('L', 'B')})
        ref = Screen(self.run_ok(model.argv(free), part).out)
        s = self.screen(case)
        self.compare_lines(s.lines, ref.lines, 'limits cut %d bytes of %d, compared with a run on the first %d bytes' % (
            len(data) - len(part), len(data), len(part)))
        if case['held'] and (o.L > 0 or o.B > 0):
            # where the limit becomes known to be reached
            ends = []
            if o.B > 0:
                ends.append(o.B)
            if o.L > 0:
                p = -1
                for _ in range(o.L):
                    p = data.find(b'\n', p + 1)
                    if p < 0:
                        break
                if p >= 0:
                    ends.append(p + 1)
            if ends:
                f = o.f or 4096
                need = -(-min(ends) // f) * f
                if need <= len(data):
                    r = self.run(model.argv(o), chunks=[(0, data[:need]), None], wall=15)
                    if r.hung and r.cpu < 5:
                        self.fail('did not finish, although the limit is reached and %d bytes (%d read buffers) were delivered' % (need, need // f))
                    if r.bad():
                        self.fail('open pipe: %s' % r.bad())
                    self.compare_lines(Screen(r.out).lines, ref.lines, 'limited run on an open pipe')
                    self.count('open_pipe_runs')
        if len(part) < len(data):
            self.count('cut_runs')
            self.nontrivial(sorted(o.items()), data)
