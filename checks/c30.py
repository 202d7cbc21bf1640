"""Style objects."""
from checks.pt import *

DARK, LIGHT = 0x0a0a0a, 0xcccccc
BAD = ['no_such_colour', '', 'red ', 'bg_nothing', 'RESOLVE', '0xff0000', '#ff0000', '31', 'rgb_grey_101', '__init__']


class CHECK(Check):
    ID = 'C30'
    LIBRARY = True
    BUDGET = {'quick': 14, 'thorough': 300}
    RULE = ('random histories of creating styles (inheriting from earlier ones or from presets), setting colours given in all ways, '
            'setting attributes, flipping and picking colours, invalid requests, against a list of models; all styles, the presets and the '
            'empty style are compared after every step; non-trivial: distinct history with inheritance and a later change')

    def fixed(self):
        res = []
        d = {'fg': ['name', 'red'], 'bg': ['rgb', 0x123456], 'bold': True, 'class_name': 'c'}
        for ops in ([['new', None, d], ['flip', 0], ['flip', 0]], [['new', None, d], ['new', 0, {}], ['flip', 0], ['set', 1, 'fg', ['name', 'BLUE']], ['attr', 0, 'bold', False]],
                    [['new', 'WARNING', {}], ['set', 0, 'fg', ['hex', 0]], ['attr', 0, 'dim', True], ['flip', 0], ['pick', 0]],
                    [['new', 'NOOP', {}], ['set', 0, 'bg', ['c16', 1]], ['flip', 0], ['pick', 0], ['attr', 0, 'blink', True]],
                    [['new', None, {}], ['pick', 0], ['flip', 0], ['set', 0, 'fg', None], ['bad', 0, 'fg', 'no_such']]):
            res.append({'ops': ops})
        for n in (31, 64, 65, 255, 256, 257, 5000):
            res.append({'ops': [['new', None, {**d, 'class_name': 'n' * n}], ['new', 0, {}], ['new', 1, {'dim': True}], ['new', 2, {'class_name': 'other'}], ['new', 3, {}]]})
        # long lines of inheritance
        res.append({'ops': [['new', None, d]] + [['new', j, {'italic': True} if j == 70 else {}] for j in range(150)] + [['set', 0, 'fg', ['name', 'BLUE']], ['flip', 75], ['new', 150, {}]]})
        for h in (0, 1, 0x720000, 0x730000, 0x007200, 0x007300, 0x000072, 0x000073, 0x727272, 0x737373, 0x000080, 0xffffff, 0xff0000, 0x0a0a0a, 0xcccccc):
            res.append({'ops': [['new', None, {'bg': ['rgb', h]}], ['pick', 0], ['new', 0, {'bold': True}], ['set', 0, 'bg', None], ['pick', 0], ['pick', 1]]})
        res.append({'ops': [['presets']]})
        return res

    def generate(self, rng, i):
        ops = []
        n = 0
        for _ in range(rng.choice((3, 8, rng.randint(1, 40)))):
            r = rng.random()
            if n == 0 or r < .3:
                d = any_style(rng, depth=9)
                ops.append(['new', gen.pick(rng, None, None, rng.randrange(n) if n else None, rng.randrange(n) if n else None,
                                            rng.choice(('WARNING', 'ERROR_LABEL', 'CRITICAL_ACCENT', 'NOOP'))), d])
                n += 1
            elif r < .5:
                ops.append(['set', rng.randrange(n), rng.choice(('fg', 'bg')), any_color(rng)])
            elif r < .62:
                ops.append(['attr', rng.randrange(n), rng.choice(list(STYLE_CODES)), rng.choice((True, False, None))])
            elif r < .75:
                ops.append(['flip', rng.randrange(n)])
            elif r < .87:
                ops.append(['pick', rng.randrange(n)])
            elif r < .93:
                ops.append(['bad', rng.randrange(n), rng.choice(('fg', 'bg', 'new')), rng.choice(BAD)])
            elif r < .97:
                ops.append(['render', rng.randrange(n)])
            else:
                ops.append(['presets'])
        return {'ops': ops}

    def judge(self, case):
        # presets could be changed by a defect: every history has its own process
        isolated(self, lambda: self.history(case['ops']))

    def history(self, ops):
        from pytermor import render as R
        presets = {n: getattr(R.Styles, n) for n in vars(R.Styles) if n.isupper()}
        presets['NOOP'] = R.NOOP_STYLE
        first = {n: self.state(s) for n, s in presets.items()}
        want = PRESETS
        for n in set(want) | set(presets):
            if first.get(n) != want.get(n):
                self.fail('preset %s is %r, must be %r' % (n, first.get(n), want.get(n)))
        styles, models = [], []
        inherited = changed = 0
        for step, op in enumerate(ops):
            what = 'step %d %s of %s' % (step + 1, op, clip(ops[:step], 300))
            k = op[0]
            if k == 'new':
                d = op[2]
                kw = {a: v for a, v in d.items() if a in STYLE_CODES or a == 'class_name'}
                for c in ('fg', 'bg'):
                    if d.get(c):
                        kw[c] = make_color(d[c])
                m = {a: None for a in list(STYLE_CODES) + ['class_name']}
                m.update(fg=None, bg=None)
                parent = None
                if op[1] is not None:
                    parent = presets[op[1]] if isinstance(op[1], str) else styles[op[1]]
                    m.update(first[op[1]] if isinstance(op[1], str) else models[op[1]])
                    inherited += 1
                m.update({a: v for a, v in d.items() if a in STYLE_CODES or a == 'class_name'})
                for c in ('fg', 'bg'):
                    if d.get(c):
                        m[c] = desc(d[c])
                styles.append(R.Style(parent, **kw) if parent is not None else R.Style(**kw))
                models.append(m)
            elif k == 'set':
                setattr(styles[op[1]], op[2], make_color(op[3]))
                models[op[1]][op[2]] = desc(op[3])
                changed += 1
            elif k == 'attr':
                setattr(styles[op[1]], op[2], op[3])
                models[op[1]][op[2]] = op[3]
                changed += 1
            elif k == 'flip':
                r = styles[op[1]].flip()
                m = models[op[1]]
                m['fg'], m['bg'] = m['bg'], m['fg']
                if r is not styles[op[1]]:
                    self.fail('%s: flip() returns %r, not the style itself' % (what, r))
                changed += 1
            elif k == 'pick':
                r = styles[op[1]].autopick_fg()
                if r is not styles[op[1]]:
                    self.fail('%s: autopick_fg() returns %r, not the style itself' % (what, r))
                m = models[op[1]]
                if m['bg'] is not None:
                    h = m['bg'][0]
                    bright = max(h >> 16, h >> 8 & 255, h & 255) >= .45 * 255
                    h = DARK if bright else LIGHT
                    m['fg'] = (h, (38, 2, h >> 16, h >> 8 & 255, h & 255), (48, 2, h >> 16, h >> 8 & 255, h & 255))
                changed += 1
            elif k == 'bad':
                try:
                    if op[2] == 'new':
                        r = R.Style(fg=op[3])
                    else:
                        setattr(styles[op[1]], op[2], op[3])
                        r = styles[op[1]]
                    self.fail('%s: accepted: %r' % (what, r))
                except (LookupError, ValueError, TypeError):
                    self.count('rejections')
            elif k == 'render':
                styles[op[1]].render('abc\ndef')
                R.HtmlRenderer.render('abc', styles[op[1]])
                R.DebugRenderer.render('abc', styles[op[1]])
                R.TmuxRenderer.render('abc', styles[op[1]])
            elif k == 'presets':
                for n, s in presets.items():
                    if n != 'NOOP':
                        for name in (n, n.lower(), n.title()):
                            if R.Styles.resolve(name) is not s:
                                self.fail('Styles.resolve(%r) gives %r' % (name, R.Styles.resolve(name)))
                for name in BAD:
                    if name != 'RESOLVE':
                        try:
                            self.fail('Styles.resolve(%r) gives %r' % (name, R.Styles.resolve(name)))
                        except LookupError:
                            pass
            self.count('steps')
            for n, (s, m) in enumerate(zip(styles, models)):
                got = self.state(s)
                if got != m:
                    self.fail('%s: style %d is %r, must be %r' % (what, n, {a: v for a, v in got.items() if v != m[a]}, {a: v for a, v in m.items() if v != got[a]}))
                if repr(s) != form(m):
                    self.fail('%s: style %d is printed as %r, must be %r' % (what, n, repr(s), form(m)))
                self.count('styles_compared')
            for n, s in presets.items():
                if self.state(s) != first[n]:
                    self.fail('%s: preset %s has become %r, it was %r' % (what, n, self.state(s), first[n]))
        if inherited and changed:
            self.nontrivial(ops)

    @staticmethod
    def state(s):
        res = {a: getattr(s, a) for a in list(STYLE_CODES) + ['class_name']}
        for c in ('fg', 'bg'):
            v = getattr(s, c)
            res[c] = None if v.hex_value is None else (v.hex_value, tuple(v.to_sgr(False).params), tuple(v.to_sgr(True).params))
            if v.hex_value is None and (v.to_sgr(False).params or v.to_sgr(True).params):
                res[c] = repr(v)
        return res


def desc(v):
    return None if v is None else (color_hex(v), tuple(color_codes(v, False, None)), tuple(color_codes(v, True, None)))


def form(m):
    """Printed form as in the documentation."""
    return 'Style[%s]' % ', '.join([('%s=%06x' % (c, m[c][0])) if m[c] else 'no ' + c for c in ('fg', 'bg')] + sorted(a for a in STYLE_CODES if m[a]))


def preset(fg=None, bg=None, **kw):
    m = {a: kw.get(a) for a in list(STYLE_CODES) + ['class_name']}
    m.update(fg=desc(['name', fg]) if fg else None, bg=desc(['name', bg]) if bg else None)
    return m


PRESETS = {'NOOP': preset(), 'WARNING': preset('yellow'), 'WARNING_LABEL': preset('yellow', bold=True), 'WARNING_ACCENT': preset('hi_yellow'),
           'ERROR': preset('red'), 'ERROR_LABEL': preset('red', bold=True), 'ERROR_ACCENT': preset('hi_red'),
           'CRITICAL': preset('hi_white', 'hi_red'), 'CRITICAL_LABEL': preset('hi_white', 'hi_red', bold=True),
           'CRITICAL_ACCENT': preset('hi_white', 'hi_red', bold=True, blink=True)}
