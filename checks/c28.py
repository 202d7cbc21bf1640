"""Time deltas, digit grouping."""
import math
import re
from fractions import Fraction

from checks.pt import *

S = [['s', 60], ['m', 60], ['h', 24]]
# (name, in next, custom short, collapsible after, overflow after); limits of the predefined formatters
P3 = {'units': [['s', 60], ['m', 60], ['h', 24], ['d', None, None, None, 99]], 'neg': False, 'sep': None, 'plural': None, 'over': 'ERR'}
P4 = {'units': [['s', 60], ['m', 60], ['h', 24], ['d', 30], ['M', 12], ['y', None, None, None, 99]], 'neg': False, 'sep': ' ', 'plural': None, 'over': 'ERRO'}
P6 = {'units': [['sec', 60], ['min', 60], ['hr', 24, None, 10], ['day', 30, None, 10], ['mon', 12], ['yr', None, None, None, 99]], 'neg': False, 'sep': ' ', 'plural': None,
      'over': 'OVERFLOW'}
P10 = {'units': [['sec', 60], ['min', 60, 'min'], ['hour', 24, None, 24], ['day', 30, None, 10], ['month', 12], ['year', None, None, None, 999]], 'neg': True, 'sep': ' ',
       'plural': 's', 'over': 'OVERFLOW'}
PRESETS = {3: P3, 4: P4, 6: P6, 10: P10}


def sizes(units):
    res, size = [], 1
    for u in units:
        res.append(size)
        size *= u[1] or 1
    return res


def get(u, k):
    return u[k] if len(u) > k else None


def rng_limit(s):
    return 51 + int(abs(s) * 7) % 400


class CHECK(Check):
    ID = 'C28'
    LIBRARY = True
    NOSHRINK = ('conf',)
    BUDGET = {'quick': 14, 'thorough': 300}
    RULE = ('durations around all unit boundaries and random ones (integer, fractional, negative, beyond the limits) with the predefined '
            'formatters for every maximum length and random custom formatters; numbers times separators; non-trivial: distinct '
            'duration of a second or more')

    def fixed(self):
        res = []
        marks = [0, 1, 59, 60, 61, 119, 120, 3599, 3600, 3601, 36000, 35999, 86399, 86400, 86401, 863999, 864000, 30 * 86400 - 1, 30 * 86400, 360 * 86400 - 1, 360 * 86400,
                 720 * 86400, 99 * 86400, 100 * 86400 - 1, 100 * 86400, 99 * 360 * 86400, 100 * 360 * 86400 - 1, 100 * 360 * 86400, 999 * 360 * 86400, 1000 * 360 * 86400 - 1,
                 1000 * 360 * 86400, 10 ** 12, 10 ** 15]
        for m in marks:
            res.append({'secs': [m, m + .5, max(0, m - .001), m + 1, m * 2, m * 10, -m, -m - .5]})
            if m > 1:
                res.append({'secs': [m - m * e for e in (1e-6, 1e-8, 1e-10, 1e-11, 1e-12, 1e-13)]})
        for k in range(0, 24):
            res.append({'secs': [k * 3600 + j * 60 + q for j in (0, 1, 9, 10, 59) for q in (0, 1, 59, 59.999)]})
        for k in range(0, 31):
            res.append({'secs': [k * 86400 + j * 3600 + q for j in (0, 1, 9, 23) for q in (0, 1799, 3599)]})
        res.append({'secs': [0, .0005, .001, .0011, .5, .999, .9999999, 1, 1.0001, -.5, -.0001, -1, -1.5]})
        res.append({'nums': [0, 1, 12, 123, 1234, 12345, 123456, 1234567, 10 ** 30, 999, 1000, 999999, 1000000, 0.1, 999.999, 1000.001, 1234567.891, 1e15, 1e16, 1e22, 1e-7, 123456.0001234,
                             1e300, float('inf')]})
        return res

    def generate(self, rng, i):
        if rng.random() < .15:
            return {'nums': [gen.pick(rng, rng.randint(0, 10 ** rng.randint(1, 40)), rng.uniform(0, 10 ** rng.randint(0, 20)), round(rng.uniform(0, 10 ** 9), 2)) for _ in range(8)],
                    'sep': gen.pick(rng, ' ', ',', "'", '\u2009', '', '__', '.', '_')}
        secs = []
        for _ in range(10):
            r = rng.random()
            if r < .3:
                s = 10 ** rng.uniform(-4, 12)
            elif r < .7:
                s = rng.choice([1, 60, 3600, 86400, 2592000, 31104000]) * rng.randint(1, 120) + rng.choice([0, 0, -1, 1, -.001, .001, 59, -60, 3599])
            elif r < .9:
                s = rng.randint(0, 10 ** rng.randint(1, 12))
            else:
                s = rng.choice([99 * 86400, 99 * 31104000, 999 * 31104000]) + rng.choice([0, 86400, 31104000]) * rng.randint(0, 2) + rng.choice([-1, 0, 1, -.5])
            if rng.random() < .3:
                s = math.floor(s)
            secs.append(s if rng.random() < .85 else -s)
        case = {'secs': secs}
        if rng.random() < .4:
            names = rng.choice([['s', 'm', 'h', 'd', 'w', 'M', 'y'], ['sec', 'min', 'hour', 'day', 'week', 'mon', 'year']])
            n = rng.randint(1, 7)
            units = []
            for k in range(n):
                last = k == n - 1
                nxt = None if last else gen.pick(rng, 60, 24, 30, 12, 10, rng.randint(2, 100))
                col = None
                if k and not last and rng.random() < .4:
                    col = rng.randint(2, nxt)
                if k and last and rng.random() < .2:
                    col = rng.randint(2, 20)
                units.append([names[k], nxt, gen.pick(rng, None, None, names[k]), col, rng.choice((None, 99, 999, 5)) if last else None])
            case['conf'] = {'units': units, 'neg': rng.random() < .4, 'sep': gen.pick(rng, None, ' ', '_'), 'plural': gen.pick(rng, None, 's'), 'over': 'OVERFLOW'}
        return case

    def judge(self, case):
        from pytermor.util import TimeDeltaFormatter, TimeUnit, format_thousand_sep, format_time_delta
        if 'nums' in case:
            return self.group(format_thousand_sep, case)
        conf = case.get('conf')
        if conf:
            units = [TimeUnit(u[0], u[1], get(u, 2), get(u, 3), get(u, 4)) for u in conf['units']]
            f = TimeDeltaFormatter(units, conf['neg'], conf['sep'], conf['plural'], conf['over'])
            for s in case['secs']:
                what = '%r s in custom formatter %r' % (s, conf)
                raw = f.format_raw(s)
                full = f.format(s)
                if raw is None:
                    if full != conf['over'][:f.max_len]:
                        self.fail('%s: overflow mark %r' % (what, full))
                elif raw != full:
                    self.fail('%s: format() gives %r, format_raw() %r' % (what, full, raw))
                pad = f.format(s, always_max_len=True)
                if pad != full.rjust(f.max_len):
                    self.fail('%s: padded %r' % (what, pad))
                self.one(raw, s, conf, what)
            return
        for s in case['secs']:
            shown = {}
            for limit in (3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 50, rng_limit(s), 100, 200, 1000, 10 ** 6, None):
                what = 'format_time_delta(%r, %r)' % (s, limit)
                key = 10 if limit is None else max(k for k in PRESETS if k <= limit)
                conf = PRESETS[key]
                r = format_time_delta(s) if limit is None else format_time_delta(s, limit)
                if limit is not None and len(r) > limit:
                    self.fail('%s gives %r, longer than %d' % (what, r, limit))
                over = r == conf['over'][:key]
                self.one(None if over else r, s, conf, what)
                shown[limit or math.inf] = over
            ls = sorted(shown)
            for a in ls:
                for b in ls:
                    if a < b and shown[b] and not shown[a]:
                        self.fail('%r s overflows in %s characters but not in %s' % (s, b, a))
        for limit in (2, 1, 0, -1):
            try:
                self.fail('length %d is accepted: %r' % (limit, format_time_delta(5, limit)))
            except ValueError:
                pass

    def one(self, r, s, conf, what):
        self.count('calls')
        units = conf['units']
        size = sizes(units)
        a = abs(Fraction(s))
        last_over = get(units[-1], 4)
        total = a // size[-1]
        overflow = bool(last_over) and (total if len(units) > 1 else a) > last_over
        if r is None:
            if not overflow:
                self.fail('%s: overflow mark' % what)
            self.count('overflows')
            return
        if overflow:
            self.fail('%s gives %r, must overflow' % (what, r))
        neg = conf['neg'] and s < 0
        sep = conf['sep'] or ''
        suffix = conf['plural'] or ''
        if a < 1:
            names = [units[0][0]]
            if neg:
                want = ['~0' + sep + units[0][0] + suffix]
            elif a <= Fraction(9, 10000):
                want = ['0' + sep + units[0][0] + suffix]
            elif a >= Fraction(11, 10000):
                want = ['<1' + sep + units[0][0]]
            else:
                want = ['0' + sep + units[0][0] + suffix, '<1' + sep + units[0][0]]
            if r not in want:
                self.fail('%s gives %r, must be %r' % (what, r, want[0]))
            return
        self.nontrivial(s)
        # the largest unit that is whole
        k = max(j for j in range(len(units)) if a >= size[j])
        n = int(a // size[k])
        u = units[k]
        sign = '-' if neg else ''
        short = get(u, 2) or u[0][0]
        col = get(u, 3)
        two = col is not None and n < col
        if two and k:
            v = units[k - 1]
            m = int((a - n * size[k]) // size[k - 1])
            want = sign + '%d' % n + short + sep + '%d' % m + (get(v, 2) or v[0][0])
            self.count('two_units')
        else:
            want = sign + '%d' % n + sep + u[0] + (suffix if n != 1 else '')
            self.count('one_unit')
        if r != want:
            self.fail('%s gives %r, must be %r' % (what, r, want))

    def group(self, f, case):
        for v in case['nums']:
            for val in (v, -v):
                sep = case.get('sep', ' ')
                self.count('calls')
                got = f(val, sep)
                plain = format(val, '')
                m = re.match(r'(-?)(\d+)(.*)$', plain)
                if m:
                    digits = m.group(2)
                    groups = []
                    while digits:
                        groups.insert(0, digits[-3:])
                        digits = digits[:-3]
                    want = m.group(1) + sep.join(groups) + m.group(3)
                else:
                    want = plain
                if got != want or sep == ' ' and f(val) != want:
                    self.fail('format_thousand_sep(%r, %r) gives %r, must be %r' % (val, sep, got, want))
                self.nontrivial(v, sep)
