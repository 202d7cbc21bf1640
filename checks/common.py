"""Helpers of the checks that observe the command line application."""
import re

from lib import gen, harness, model
from lib.engine import Check
from lib.model import Opt
from lib.term import DEFAULT, Screen, add, cells, show, text

SEP = '│'
DEBUG_HI = 2000


def clip(s, n=300):
    s = repr(s) if not isinstance(s, str) else s
    return s if len(s) <= n else s[:n] + '...'


def describe(case):
    o = case.get('o') or Opt()
    return '`kolombos %s` on %s' % (' '.join(model.argv(o)), clip(repr(case.get('data', b'')), 200))


class Cli(Check):
    """Cases: {'o': Opt, 'data': bytes}. Every CROSS-th case is also run in a real interpreter process."""
    CROSS = 101
    HI = 500
    MODE = None

    def opts(self, rng, i):
        return gen.opt(rng, self.MODE)

    def data(self, rng, i, o):
        d = self.any_data(rng, i, o)
        # debug output describes the whole pending buffer at each step: its size is quadratic in the one of the input
        return d[:DEBUG_HI] if o.get('D', 0) > 1 else d

    def any_data(self, rng, i, o):
        r = rng.random()
        if r < .04:
            return gen.boundary_data(rng, [4096, 8192][:rng.randint(1, 2)])
        if r < .08:
            return gen.data(rng, 6000)
        return gen.data(rng, self.HI)

    def generate(self, rng, i):
        o = self.opts(rng, i)
        case = {'o': o, 'data': self.data(rng, i, o)}
        if i % self.CROSS == 0:
            case['real'] = True
        return case

    def screen(self, case, o=None, data=None, env=None):
        """Terminal contents after the run (which must end properly)."""
        o = case['o'] if o is None else o
        data = case['data'] if data is None else data
        argv = model.argv(o)
        r = self.run_ok(argv, data, env=env)
        if case.get('real'):
            q = harness.run_real(argv, data, env=env)
            self.count('real_process_runs')
            if (q.rc, q.out) != (r.rc, r.out):
                self.fail('separate process: status %s and %s..., forked run: status %s and %s...' % (
                    q.rc, clip(repr(q.out[-200:])), r.rc, clip(repr(r.out[-200:]))))
        s = Screen(r.out)
        self.count('lines_observed', len(s.lines))
        return s

    def tokens_seen(self, data, o):
        """Record which token kinds were observed in which display mode."""
        for k, t in model.tokens(data):
            self.count('tokens_' + k)

    def compare_lines(self, got, want, what, styles=True):
        """Cell by cell comparison of two lists of lines."""
        if styles:
            if got == want:
                return
        for n, (g, w) in enumerate(zip(got, want)):
            if not styles:
                g, w = text(g), text(w)
                if g != w:
                    self.fail('%s: line %d is %s, expected %s' % (what, n + 1, clip(g), clip(w)))
            elif g != w:
                gc, wc = cells(g), cells(w)
                for p in range(max(len(gc), len(wc))):
                    a = gc[p] if p < len(gc) else None
                    b = wc[p] if p < len(wc) else None
                    if a != b:
                        self.fail('%s: line %d differs at column %d: %s, expected %s (line: %s / expected %s)' % (
                            what, n + 1, p + 1, _cell(a), _cell(b), clip(show(g), 400), clip(show(w), 400)))
        if len(got) != len(want):
            self.fail('%s: %d lines, expected %d (first extra or missing: %s)' % (
                what, len(got), len(want),
                clip(show((got if len(got) > len(want) else want)[min(len(got), len(want))]))))


def _cell(c):
    from lib.term import show_state
    return 'nothing' if c is None else '%r{%s}' % (c[0], show_state(c[1]))


LABEL = re.compile(r'^( *)(0x)?([0-9a-fA-F]+)│')


def label(line, decimal):
    """(value, length of prefix) of an offset label or None."""
    m = LABEL.match(line)
    if not m or bool(m.group(2)) == decimal:
        return None
    return int(m.group(3), 10 if decimal else 16), m.end()


def cols_of(o, env=None):
    if o.w is not None and o.w > 0:
        return o.w
    return None
