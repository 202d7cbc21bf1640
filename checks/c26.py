"""Auto-precision numbers."""
import math
import re
from decimal import Decimal
from fractions import Fraction

from checks.pt import *


def exact(x):
    """The number meant (1e23 is not representable, but meant)."""
    return Decimal(x) if isinstance(x, int) and x < 1 << 53 else Decimal(repr(float(x)))


def parse(s):
    """(value, unit of the last digit, significant digits) of a displayed non-negative number; exact."""
    mant, _, exp = s.partition('e')
    ip, _, fp = mant.partition('.')
    if not ip.isdigit() or (fp and not fp.isdigit()) or '.' in mant and not fp:
        return None
    if exp and not exp.lstrip('-').isdigit():
        return None
    scale = Fraction(10) ** int(exp or 0)
    unit = Fraction(1, 10 ** len(fp)) * scale
    return Fraction(int(ip + fp)) * unit, unit, len((ip + fp).lstrip('0'))


class CHECK(Check):
    ID = 'C26'
    LIBRARY = True
    BUDGET = {'quick': 16, 'thorough': 400}
    RULE = ('numbers of magnitude 1e-300 to 1e300, neighbours of powers of ten and of rounding carries in particular, times lengths 0 to '
            '40, exponent form on and off, judged in exact rational arithmetic; non-trivial: distinct value whose digits do not all fit')

    def fixed(self):
        res = []
        for e in list(range(-25, 26)) + [-300, -299, -100, -99, 99, 100, 299]:
            p = float('1e%d' % e)
            vals = [p, math.nextafter(p, 0), math.nextafter(p, math.inf), p * 9.5, p * 9.95, p * 9.995, p * 9.99951, p * 9.49, p * 1.05, p * 4.5, p * 1.2345678, p * 9.87654321]
            res.append({'values': vals})
        res.append({'values': [0, 0.0, 1, 9, 10, 99, 100, 999, 1000, 12345, 10 ** 15, 10 ** 22, 123456789]})
        # long results
        huge = [1e50, 1.5e99, 1e100, 1e254, 1e255, 1e256, 1e298, 9.99e299, 1e300, 1e301, 1e305, 1.7e308, 3.0, 1 / 3, 1e-5, 2 ** 0.5, 123456.789]
        for ls in ((49, 50, 51, 52, 64, 65, 99, 100, 101, 102), (127, 128, 129, 200, 254, 255, 256, 257, 258, 260), (298, 299, 300, 301, 302, 303, 306, 308, 309, 310, 320, 400, 1000)):
            for v in huge:
                res.append({'values': [v], 'lengths': list(ls)})
        return res

    def generate(self, rng, i):
        vals = []
        for _ in range(4):
            e = gen.pick(rng, rng.randint(-6, 8), rng.randint(-6, 8), rng.randint(-30, 30), rng.randint(-300, 299))
            r = rng.random()
            if r < .3:
                v = rng.uniform(1, 10) * 10.0 ** e
            elif r < .5:
                v = float('%de%d' % (rng.randint(1, 99), e))
            elif r < .8:
                # just around a rounding carry
                k = rng.randint(0, 8)
                v = (10 - 10.0 ** -k * rng.choice((.5, .4999, .5001, .05, 1, 4, 6))) * 10.0 ** e
                v = abs(v)
            elif r < .9:
                v = 10.0 ** e
                for _ in range(rng.randint(0, 4)):
                    v = math.nextafter(v, rng.choice((0, math.inf)))
            else:
                v = rng.randint(0, 10 ** rng.randint(1, 20))
            if v == 0 or 1e-300 <= v <= 1e300:
                vals.append(v)
        return {'values': vals, 'seps': [gen.pick(rng, '', ' ', ',', "'", '\u2009', ', ', '_', '__', 'x')]}

    def judge(self, case):
        from pytermor.util import format_auto_float
        for v in case['values']:
            for neg in (False, True):
                if neg and v == 0:
                    continue
                self.grouped(-v if neg else v, case.get('seps') or [None, '', ' ', ',', ', ', '_'])
                for L in case.get('lengths') or list(range(0, 13)) + [15, 20, 27, 40]:
                    for exp in (True, False):
                        self.one(format_auto_float, -v if neg else v, L, exp)

    def grouped(self, v, seps):
        from pytermor.util import format_thousand_sep
        for sep in seps:
            s = format_thousand_sep(v) if sep is None else format_thousand_sep(v, sep)
            self.count('groupings')
            sign, digits, rest = re.match(r'(-?)(\d+)(.*)$', str(v), re.S).groups()
            parts = []
            while digits:
                parts.insert(0, digits[-3:])
                digits = digits[:-3]
            want = sign + (' ' if sep is None else sep).join(parts) + rest
            if s != want:
                self.fail('format_thousand_sep(%r, %r) gives %r, expected %r' % (v, sep, s, want))

    def one(self, f, v, L, exp):
        self.count('calls')
        what = 'format_auto_float(%r, %d, %r)' % (v, L, exp)
        room = L - (v < 0)
        a = abs(v)
        x = Fraction(exact(a))
        e = exact(a).adjusted() if a else 0
        try:
            s = f(v, L, exp)
            if exp and self.counts['calls'] % 7 == 0 and f(v, L) != s:
                self.fail(what + ': exponent form is not the default')
        except ValueError as err:
            self.count('refusals')
            if exp or x < Fraction(10) ** room:
                self.fail('%s refused: %s' % (what, err))
            return
        if not exp and room > 0 and x >= Fraction(10) ** room:
            self.fail('%s gives %r, must be refused' % (what, s))
        if len(s) != L:
            self.fail('%s gives %r of length %d' % (what, s, len(s)))
        elen = len('e%d' % e)
        t = s.lstrip()
        # fixed notation of tiny numbers is used only if nothing else is allowed
        fits = (room >= 1 and e < room and (e >= -2 or not exp)) or (exp and room >= 1 + elen)
        if set(t) <= {'!'}:
            if fits:
                self.fail('%s gives %r' % (what, s))
            if s != '!' * L:
                self.fail('%s gives %r' % (what, s))
            self.count('overflow_marks')
            return
        if v < 0:
            if t[0] != '-':
                self.fail('%s gives %r, sign is lost' % (what, s))
            t = t[1:]
        if t.startswith('e'):
            if fits or not exp or t != 'e%d' % e:
                self.fail('%s gives %r' % (what, s))
            self.count('bare_exponents')
            return
        p = parse(t)
        if p is None:
            self.fail('%s gives %r, not a number' % (what, s))
        if 'e' in t and not exp:
            self.fail('%s gives %r in exponent form' % (what, s))
        val, unit, sig = p
        if abs(val - x) > unit * (1 + Fraction(1, 10 ** 9)) + x / 10 ** 15:
            self.fail('%s gives %r, off by %.3g of the last digit' % (what, s, float(abs(val - x) / unit)))
        if v == 0:
            if val != 0:
                self.fail('%s gives %r' % (what, s))
            return
        # significant digits
        best = 0
        if 0 <= e < room:
            best = e + 1 + max(0, room - e - 2)
        elif e < 0:
            best = max(0, room - 1 + e)
        if exp:
            m = room - elen
            best = max(best, 0 if m <= 0 else 1 if m <= 2 else m - 1)
        if sig < min(best, 15):
            # exactly representable values may end earlier only in padding zeros, which are digits too
            self.fail('%s gives %r: %d significant digits, %d fit' % (what, s, sig, best))
        if abs(val - x) > 0:
            self.nontrivial(v)
        self.peak('digits_shown', sig)
