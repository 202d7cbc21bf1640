"""Prefixed units."""
import math
from fractions import Fraction

from checks.c26 import exact, parse
from checks.pt import *

SI = ['y', 'z', 'a', 'f', 'p', 'n', 'μ', 'm', None, 'k', 'M', 'G', 'T', 'P', 'E', 'Z', 'Y']
METRIC = {'max_value_len': 4, 'unit_separator': ' ', 'mcoef': 1000.0, 'prefixes': SI, 'prefix_zero_idx': 8, 'unit': ''}
BINARY = {'max_value_len': 5, 'truncate_frac': True, 'unit': 'b', 'unit_separator': ' ', 'mcoef': 1024.0, 'prefixes': SI, 'prefix_zero_idx': 8}
EPS = Fraction(1, 10 ** 12)


class CHECK(Check):
    ID = 'C27'
    LIBRARY = True
    NOSHRINK = ('conf',)
    BUDGET = {'quick': 14, 'thorough': 300}
    RULE = ('values of magnitude 1e-30 to 1e30 of both signs, neighbours of prefix boundaries and rounding carries in particular, with '
            'the predefined and random custom formatters; non-trivial: distinct value and configuration')

    def fixed(self):
        res = []
        for conf in ('metric', 'binary', METRIC, BINARY, {**BINARY, 'truncate_frac': False}, {**METRIC, 'truncate_frac': True, 'max_value_len': 6}):
            base = 1024 if conf == 'binary' or isinstance(conf, dict) and conf['mcoef'] == 1024 else 1000
            for k in range(-9, 10):
                p = float(base) ** k
                vals = [p * f for f in (1, .5, .9, .99, .999, .9995, .9996, .99951, .99999, 1.001, 1.005, 1.2345, 9.99, 9.995, 9.9951, 99.94, 99.95, 99.96, 512, 999, 999.4, 999.5, 999.9, 1000)]
                vals += [math.nextafter(p, 0), math.nextafter(p, math.inf)]
                res.append({'conf': conf, 'values': vals})
            res.append({'conf': conf, 'values': [5e-324, 1e-320, 1e-308, 2.3e-308, 1e-301, 1e-299, 1e-200, 1e-100, 1e-40, 1e40, 1e100, 1e200, 1e299, 1e301, 1.7e308]})
            res.append({'conf': conf, 'values': [0, 0.0, 1, 5, 10, 100, 999, 1000, 1001, 1023, 1024, 1025, 10240, 1048575, 1048576, 12345678]})
        for prefixes in (None, [], [None], ['k'], [None, 'k']):
            res.append({'conf': {**METRIC, 'unit': 'b', 'prefixes': prefixes, 'prefix_zero_idx': 0}, 'values': [0, 1, 12, 999, 1000, 12345, 1e6, .5, .001, .0001]})
        return res

    def generate(self, rng, i):
        r = rng.random()
        if r < .3:
            conf, base = 'metric', 1000
        elif r < .6:
            conf, base = 'binary', 1024
        else:
            base = rng.choice((1000, 1024))
            lo, hi = rng.randint(0, 8), rng.randint(9, 17)
            prefixes = SI[lo:hi]
            if rng.random() < .2:
                prefixes = [p and p + 'i' for p in prefixes]
            conf = {'max_value_len': rng.randint(4 if base == 1000 else 5, 12), 'truncate_frac': rng.random() < .4, 'unit': gen.pick(rng, '', 'b', 'bps', 'm²', 'V'),
                    'unit_separator': gen.pick(rng, None, '', ' ', ' ', '\u2009', '_', ' × ', '  '), 'mcoef': gen.pick(rng, float(base), base), 'prefixes': prefixes, 'prefix_zero_idx': 8 - lo}
            if rng.random() < .05:
                # a formatter without prefixes
                conf['prefixes'], conf['prefix_zero_idx'] = gen.pick(rng, None, [], [None]), 0
        vals = []
        for _ in range(12):
            r = rng.random()
            k = rng.randint(-8, 8) if r < .5 else rng.randint(-2, 3)
            if r < .25:
                v = 10 ** rng.uniform(-30, 30)
            elif r < .6:
                v = float(base) ** k * gen.pick(rng, 10 ** rng.uniform(0, 3), rng.uniform(1, base), 1 - 10 ** -rng.uniform(1, 14))
            elif r < .7:
                v = float(base) ** k
                for _ in range(rng.randint(0, 3)):
                    v = math.nextafter(v, rng.choice((0, math.inf)))
            elif r < .85:
                v = rng.randint(0, 10 ** rng.randint(1, 27))
            else:
                v = float(base) ** k * (10 ** rng.randint(0, 2)) * (10 - rng.choice((.5, .05, .005, .0005)) * rng.choice((1, .99, 1.01)))
            if v == 0 or 1e-30 <= v <= 1e30:
                vals.append(v)
        return {'conf': conf, 'values': vals, 'unit': gen.pick(rng, None, None, 'g', 'Hz', 'm²')}

    def judge(self, case):
        from pytermor.util import PREFIXES_SI, PrefixedUnitFormatter, format_si_binary, format_si_metric
        if list(PREFIXES_SI) != SI:
            self.fail('PREFIXES_SI: %r' % PREFIXES_SI)
        conf = case['conf']
        unit = case.get('unit')
        if conf == 'metric':
            c, limit = METRIC, 7
            eff = 'm' if unit is None else unit
            call = (lambda v: format_si_metric(v)) if unit is None else (lambda v: format_si_metric(v, unit))
        elif conf == 'binary':
            c, limit = BINARY, 8
            eff = 'b' if unit is None else unit
            call = (lambda v: format_si_binary(v)) if unit is None else (lambda v: format_si_binary(v, unit))
        else:
            c = conf
            f = PrefixedUnitFormatter(**c)
            limit = f.max_len
            own = c['max_value_len'] + len(c['unit_separator'] or '') + len(c['unit']) + max([len(p) for p in c['prefixes'] or [] if p], default=1)
            if limit != own:
                self.fail('max_len of %r is %r' % (c, limit))
            eff = c['unit'] if unit is None else unit
            call = (lambda v: f.format(v)) if unit is None else (lambda v: f.format(v, unit))
        base = Fraction(c['mcoef'])
        for v in case['values']:
            for val in ((v, -v) if v else (v,)):
                self.one(call, val, c, eff, base, limit, len(eff) - len(c['unit'] if isinstance(conf, dict) else 'x'), conf)

    def one(self, call, v, c, unit, base, limit, extra, conf):
        self.count('calls')
        prefixes = c['prefixes'] or [None]
        what = '%r in %s, unit %r' % (v, conf if isinstance(conf, str) else {k: x for k, x in c.items() if k != 'prefixes'} | {'prefixes': ''.join(p or '.' for p in prefixes)}, unit)
        x = Fraction(exact(abs(v)))
        lo, hi = -c['prefix_zero_idx'], len(prefixes) - 1 - c['prefix_zero_idx']
        beyond = x != 0 and (x >= base ** (hi + 1) * (1 - EPS) or x <= base ** (lo - 1) * (1 + EPS))
        surely = x != 0 and (x >= base ** (hi + 1) * (1 + EPS) or x <= base ** (lo - 1) * (1 - EPS))
        try:
            s = call(v)
        except ValueError as e:
            # no room for the digits of a number beyond all prefixes
            if surely and x >= base ** (hi + 1) and x / base ** (hi + 1) >= 10 ** (c['max_value_len'] - (v < 0)) * (1 - EPS):
                self.count('refusals')
                return
            self.fail('%s: %r' % (what, e))
        if len(s) > limit + max(0, extra):
            self.fail('%s gives %r, longer than %d' % (what, s, limit))
        sep = c['unit_separator'] or ''
        # number part
        k = 0
        while k < len(s) and (s[k].isdigit() and s[k].isascii() or s[k] in '-.'):
            k += 1
        num, rest = s[:k], s[k:]
        if not rest.startswith(sep):
            self.fail('%s gives %r, separator is lost' % (what, s))
        rest = rest[len(sep):]
        if len(num) > c['max_value_len']:
            self.fail('%s gives %r, the number is longer than %d' % (what, s, c['max_value_len']))
        neg = num.startswith('-')
        p = parse(num[neg:])
        if p is None:
            self.fail('%s gives %r' % (what, s))
        shown, last, _ = p
        trunc_zero = c.get('truncate_frac')
        if neg != (v < 0) and not (v < 0 and shown == 0 and trunc_zero):
            self.fail('%s gives %r, wrong sign' % (what, s))
        if '?' in rest:
            if not beyond:
                self.fail('%s gives %r' % (what, s))
            if rest.lstrip('?') != unit:
                self.fail('%s gives %r, wrong unit' % (what, s))
            self.count('beyond_prefixes')
            return
        if surely:
            self.fail('%s gives %r, must have question marks' % (what, s))
        ks = [j - c['prefix_zero_idx'] for j, q in enumerate(prefixes) if ((q or '') + unit).strip() == rest]
        if not ks:
            self.fail('%s gives %r, wrong prefix or unit' % (what, s))
        msgs = []
        for pw in ks:
            scaled = x / base ** pw
            if pw == 0 and trunc_zero:
                ok = shown == int(scaled) and '.' not in num or abs(scaled - round(scaled)) < EPS * max(1, scaled) and shown == round(scaled)
            else:
                ok = abs(shown - scaled) <= last * (1 + EPS) + scaled / 10 ** 14
            if not ok:
                msgs.append('%s gives %r, must be %.6g of that unit' % (what, s, float(scaled)))
            elif not (scaled <= base * (1 + EPS) and (scaled >= 1 / base * (1 - EPS) or x == 0)):
                msgs.append('%s gives %r: %.6g is not between 1/%d and %d' % (what, s, float(scaled), base, base))
            elif not (pw == 0 and trunc_zero) and last > 1 or (last == 1 and len(num) < c['max_value_len'] - 1 and not (pw == 0 and trunc_zero) and x):
                msgs.append('%s gives %r, more digits fit' % (what, s))
            else:
                self.nontrivial(v, conf if isinstance(conf, str) else sorted((a, str(b)) for a, b in c.items()))
                self.count('prefix_%+d' % pw if abs(pw) < 3 else 'prefix_others')
                return
        self.fail(msgs[0])
