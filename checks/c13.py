"""Presentation options."""
import random

from checks.common import *

SEPS = ('⢸', '⡇')
SEP_STYLE = model.SEP


class CHECK(Cli):
    ID = 'C13'
    RULE = ('pairs of runs differing in one presentation option on random inputs: without offsets, line numbers, '
            'separators, with decimal offsets, with options of the other mode, with the default mode given explicitly; '
            'non-trivial: distinct (option, base options, input with at least two rows or lines or separators to remove)')
    KINDS = ('nooff', 'decoff', 'nolines', 'nosep', 'other-text', 'other-binary', 'explicit')

    def fixed(self):
        res = []
        d = b'ab \x1b[31mred\x1b[0m\x1b(B\n\xc3\xa9\xff\x01 long line of text to have several rows\n\xe2\xa2\xb8\xe2\xa1\x87\x1bM end'
        for kind in self.KINDS:
            b = kind in ('nooff', 'decoff', 'other-binary')
            for w in (4, 7, 16) if b else (None,):
                for m in range(3):
                    o = Opt({k: v for k, v in dict(b=b, w=w, m=m).items() if v})
                    for extra in ({}, {'color': True}, {'focus': 'esp'}, {'ignore': 'eu'}):
                        for x in range(8 if kind.startswith("other") else 2):
                            res.append({'kind': kind, 'o': Opt({**o, **extra}), 'data': d, 'x': x})
        for n in (0, 1, 7, 16, 17, 4000):
            for kind in ('nooff', 'decoff', 'nolines'):
                res.append({'kind': kind, 'o': Opt(b=True, w=8) if kind != 'nolines' else Opt(), 'data': b'a\n' * (n // 2), 'x': 0})
        return res

    def generate(self, rng, i):
        kind = gen.pick(rng, *self.KINDS)
        b = {'nooff': True, 'decoff': True, 'other-binary': True, 'explicit': False}.get(kind, False)
        o = gen.opt(rng, b, buffer=True)
        for k in ('nooff', 'decoff', 'nosep', 'nolines'):
            if k == kind or k in ('nooff', 'decoff') and kind in ('nooff', 'decoff'):
                o.pop(k, None)
        if kind == 'nosep':
            o['m'] = rng.randint(1, 2)
        if kind in ('nooff', 'decoff') and not o.w:
            o['w'] = rng.randint(1, 40)
        if kind == 'other-binary':
            for k in ('m', 'nosep', 'nolines'):
                o.pop(k, None)
        return {'kind': kind, 'o': o, 'data': gen.data(rng, 300, prefer=gen.ESC_FRAGS if kind == 'nosep' else None), 'x': rng.randrange(1 << 16)}

    def pair(self, o, data, extra):
        a = Screen(self.run_ok(model.argv(o), data).out)
        b = Screen(self.run_ok(model.argv(o) + extra, data).out)
        self.count('pairs')
        return a, b

    def judge(self, case):
        getattr(self, 'k_' + case['kind'].replace('-', '_'))(case, case['o'], case['data'])
        self.count('kind_' + case['kind'])

    def strip(self, line, o):
        """Cells of a row after the offset label, label value (cells up to the first separator)."""
        lab = label(text(line), o.decoff)
        if lab is None:
            self.fail('no offset label: %s' % clip(text(line)))
        return cells(line)[lab[1]:], lab[0]

    def k_nooff(self, case, o, data):
        a, b = self.pair(o, data, ['--no-offsets'])
        n = len(a.lines) - 3
        if len(b.lines) - 2 != n:
            self.fail('%d rows without offsets, %d with' % (len(b.lines) - 2, n))
        w = o.w
        for k in range(n):
            ca, _ = self.strip(a.lines[k], o)
            cb = cells(b.lines[k])
            if ca[:3 * w + 1] != cb[:3 * w + 1] or ca[3 * w + 2:] != cb[3 * w + 2:]:
                self.fail('row %d without offsets is %s, with them %s' % (k + 1, clip(show(b.lines[k])), clip(show(a.lines[k]))))
            if cb[3 * w + 1][0] == SEP:
                self.fail('row %d still has the separator' % (k + 1))
        if n > 1:
            self.nontrivial('nooff', sorted(o.items()), data)

    def k_decoff(self, case, o, data):
        a, b = self.pair(o, data, ['--decimal-offsets'])
        if len(a.lines) != len(b.lines):
            self.fail('%d lines with decimal offsets, %d with hexadecimal ones' % (len(b.lines), len(a.lines)))
        for k in range(len(a.lines) - 2):
            ca, va = self.strip(a.lines[k], o)
            cb, vb = self.strip(b.lines[k], Opt({**o, 'decoff': True}))
            if va != vb:
                self.fail('line %d is labelled %d in decimal, %d in hexadecimal' % (k + 1, vb, va))
            if ca != cb:
                self.fail('line %d differs: %s / %s' % (k + 1, clip(show(b.lines[k])), clip(show(a.lines[k]))))
        if len(a.lines) > 4:
            self.nontrivial('decoff', sorted(o.items()), data)

    def k_nolines(self, case, o, data):
        a, b = self.pair(o, data, ['--no-line-numbers'])
        if len(a.lines) != len(b.lines):
            self.fail('%d lines without line numbers, %d with' % (len(b.lines), len(a.lines)))
        for k in range(len(a.lines) - 2):
            m = re.match(r' *(\d+)│', text(a.lines[k]))
            if not m:
                self.fail('no line number: %s' % clip(text(a.lines[k])))
            if cells(a.lines[k])[m.end():] != cells(b.lines[k]):
                self.fail('line %d without line numbers is %s, with them %s' % (k + 1, clip(show(b.lines[k])), clip(show(a.lines[k]))))
        if len(a.lines) > 3:
            self.nontrivial('nolines', sorted(o.items()), data)

    def k_nosep(self, case, o, data):
        a, b = self.pair(o, data, ['--no-separators'])
        if len(a.lines) != len(b.lines):
            self.fail('%d lines without separators, %d with' % (len(b.lines), len(a.lines)))
        removed = 0
        for k in range(len(a.lines)):
            ca = cells(a.lines[k])
            keep = [c for c in ca if not (c[0] in SEPS and c[1] == SEP_STYLE)]
            removed += len(ca) - len(keep)
            if keep != cells(b.lines[k]):
                self.fail('line %d without separators is %s, with them %s' % (k + 1, clip(show(b.lines[k])), clip(show(a.lines[k]))))
        want = 2 * sum(1 for kd, _ in model.tokens(data) if kd in model.ESC_KINDS and model.mode_of(o, kd) != 'ignored') \
            if o.m >= 1 and not o.nosep else 0
        if removed != want:
            self.fail('%d separators, expected %d' % (removed, want))
        self.count('separators_removed', removed)
        if removed:
            self.nontrivial('nosep', sorted(o.items()), data)

    def same(self, case, extra):
        o, data = case['o'], case['data']
        a, b = self.pair(o, data, extra)
        self.compare_lines(b.lines, a.lines, 'with %s, which should change nothing' % ' '.join(extra))
        if len(a.lines) > 3:
            self.nontrivial(extra, sorted(o.items()), data)

    def k_other_text(self, case, o, data):
        rng = random.Random(case['x'])
        opts = [['-d'], ['--decode'], [rng.choice(('--decimal-offsets', '--no-offsets'))], ['-w%d' % rng.choice((1, 3, 40, 100, 128, 1000, 99999))],
                ['--columns', str(rng.choice((1, 8, 99, 132, 256, 4096)))]]
        self.same(case, sum(rng.sample(opts, rng.choice((1, 1, 1, 2, 3))), []))

    def k_other_binary(self, case, o, data):
        rng = random.Random(case['x'])
        opts = [['-m%d' % rng.randint(0, 2)], ['--marker=%d' % rng.randint(0, 2)], ['--no-separators'], ['--no-line-numbers']]
        self.same(case, sum(rng.sample(opts, rng.choice((1, 1, 1, 2, 3))), []))

    def k_explicit(self, case, o, data):
        self.same(case, [['-t'], ['--text']][case['x'] % 2])
