"""Text objects keep all fragments in order with their own styles."""
import sys

from checks.pt import *

ALIGN = ['', '<', '>', '^']


class CHECK(Check):
    ID = 'C24'
    LIBRARY = True
    BUDGET = {'quick': 14, 'thorough': 300}
    RULE = ('random histories of creating, appending, prepending and adding texts and strings against a model of fragment lists, '
            'every object compared after every step, and random format specifications; non-trivial: distinct history with a '
            'composition')

    def fixed(self):
        red, blue = {'fg': ['name', 'red']}, {'bg': ['name', 'blue'], 'bold': True}
        new = [['new', 'ab', red], ['new', 'cd', blue], ['new', 'ef', None]]
        res = []
        pairs = [(a, b) for a in range(3) for b in range(3)]
        for kind in ('append', 'prepend', 'add', 'iadd'):
            for a, b in pairs:
                for k2 in ('append', 'prepend', 'add', 'iadd'):
                    res.append({'ops': new + [[kind, a, b], [k2, b, a], [kind, a, 'str'], ['radd', a, '>'], ['appends', 2, '!'], [k2, 2, 0]]})
        specs = ['', 's', '5', '<5', '>5', '^5', '*^7', '.1', '>4.1', '10s', '.0', '1', '2', '0>3', '^6.2s', ' <3', '٣>4', '日^9']
        for text in ('ab', '', 0, None, 'a\nb', 12345):
            for st in (None, red, blue, {'inherit': red}, 'red'):
                res.append({'ops': [['new', text, st]] + [['format', 0, s] for s in specs] + [['append', 0, 0], ['format', 0, '>9']]})
        res.append({'ops': new + [['badop', k, b] for k in range(6) for b in range(4)] + [['add', 0, 1]]})
        # many fragments
        for n, k in ((6, 'append'), (6, 'prepend'), (12, 'append'), (12, 'prepend'), (12, 'iadd'), (12, 'radd')):
            ops = list(new)
            if n == 6:
                ops += [[k, 0, j % 2 + 1] for j in range(1500)]
            else:
                ops += [[k, 0, 1]] + [[k, 0, 0]] * 11 if k != 'radd' else [['radd', 0, 's%d' % j] for j in range(1500)]
            res.append({'ops': ops + [['append', 0, 'end'], ['prepend', 0, 'start'], ['append', 1, 0], ['prepend', 2, 0]], 'big': True})
        return res

    def generate(self, rng, i):
        ops = []
        n = 99
        compose = rng.random() < .8
        for _ in range(gen.pick(rng, 2, 5, rng.randint(1, 14))):
            r = rng.random()
            if not ops or r < .25:
                st = gen.pick(rng, None, any_style(rng, 1), any_style(rng, 1), anycase(rng, rng.choice(list(COLOR_NAMES))))
                ops.append(['new', gen.pick(rng, None, 0, 3.25, False, anytext(rng), anytext(rng), anytext(rng), anytext(rng)), st])
            elif r < .4 or not compose:
                fill = gen.pick(rng, '', rng.choice('*-_ 日0x'))
                al = rng.choice(ALIGN[1:]) if fill else rng.choice(ALIGN)
                spec = fill + al + gen.pick(rng, '', str(rng.randint(1, 30))) + gen.pick(rng, '', '', '.%d' % rng.randint(0, 12)) + gen.pick(rng, '', 's')
                ops.append(['format', rng.randrange(n), spec])
            elif r < .44:
                ops.append(['badop', rng.randrange(6), rng.randrange(n)])
            else:
                kind = rng.choice(('append', 'prepend', 'add', 'iadd', 'radd', 'appends', 'prepends', 'adds', 'iadds'))
                ops.append([kind, rng.randrange(n), anytext(rng) if kind in ('radd', 'appends', 'prepends', 'adds', 'iadds') else rng.randrange(n)])
        return {'ops': ops, 'renderer': gen.pick(rng, None, None, 'NoOpRenderer', 'DebugRenderer')}

    def judge(self, case):
        from pytermor import render as R
        saved = sys.stdout
        sys.stdout = Tty(False)
        try:
            R.SgrRenderer.set_up(True)
            R.RendererManager.set_up(getattr(R, case['renderer']) if case.get('renderer') else None)
            self.history(R, case)
        finally:
            sys.stdout = saved
            R.SgrRenderer.set_up()
            R.RendererManager.set_up()

    def codes(self, st):
        if isinstance(st, str):
            st = {'fg': ['name', st]}
        return style_codes(st)

    def history(self, R, case):
        import re
        Text = R.Text
        rend = case.get('renderer')
        pool = []    # [object, [[text, style description]...]]
        trivial = True

        def shows(out, runs, what):
            if rend == 'NoOpRenderer':
                if out != ''.join(t for t, _ in runs):
                    self.fail(what + 'gives %r, must be %r' % (clip(out), clip(''.join(t for t, _ in runs))))
                return
            if rend == 'DebugRenderer':
                out = re.sub(r'\|ǝ([0-9;]*)\|', '\x1b[\\1m', out)
            styled_cells(self, out, [(t, self.codes(st)) for t, st in runs], what)

        for step, op in enumerate(case['ops']):
            kind = op[0]
            what = 'step %d %s: ' % (step + 1, clip(op, 160))
            self.count('operations')
            if kind == 'new':
                st = op[2]
                if st is None:
                    obj = Text(op[1])
                elif isinstance(st, str):
                    obj = Text(op[1], st)
                else:
                    s = make_style(st)
                    obj = s.text(op[1]) if step % 2 else Text(op[1], s)
                pool.append([obj, [['' if op[1] is None else str(op[1]), st]]])
            elif not pool:
                continue
            else:
                a = pool[op[1] % len(pool)]
                if kind in ('append', 'prepend', 'add', 'iadd') and isinstance(op[2], str):
                    kind += 's'
                if kind in ('append', 'prepend', 'add', 'iadd'):
                    b = pool[op[2] % len(pool)]
                    other, oruns = b[0], [list(r) for r in b[1]]
                    if sum(len(p[1]) for p in pool) > (20000 if case.get('big') else 400):
                        continue
                elif kind in ('radd', 'appends', 'prepends', 'adds', 'iadds'):
                    other, oruns = op[2], [[op[2], None]]
                if kind == 'badop':
                    bad = [5, None, 1.5, b'x', ['a'], object()][op[1]]
                    a = pool[op[2] % len(pool)]
                    for f in (lambda: a[0].append(bad), lambda: a[0].prepend(bad), lambda: a[0] + bad, lambda: bad + a[0]):
                        try:
                            f()
                        except TypeError:
                            continue
                        self.fail(what + '%r accepted' % bad)
                elif kind == 'format':
                    if len(a[1]) > 1:
                        for f in (lambda: format(a[0], op[2]), lambda: ('{:%s}' % op[2]).format(a[0])):
                            try:
                                self.fail(what + 'gives %r' % f())
                            except RuntimeError:
                                pass
                    else:
                        want = format(a[1][0][0], op[2])
                        for out in (format(a[0], op[2]), ('{:%s}' % op[2]).format(a[0])):
                            shows(out, [[want, a[1][0][1]]], what)
                        self.count('formats')
                elif kind in ('append', 'appends'):
                    a[0].append(other)
                    a[1] = a[1] + oruns
                elif kind in ('prepend', 'prepends'):
                    a[0].prepend(other)
                    a[1] = oruns + a[1]
                elif kind in ('iadd', 'iadds'):
                    x = a[0]
                    x += other
                    a[0], a[1] = x, a[1] + oruns
                elif kind in ('add', 'adds'):
                    a[0], a[1] = a[0] + other, a[1] + oruns
                elif kind == 'radd':
                    a[0], a[1] = other + a[0], oruns + a[1]
                if kind not in ('format', 'badop'):
                    trivial = False
            for k, (obj, runs) in enumerate(pool):
                raw = ''.join(t for t, _ in runs)
                if not isinstance(obj, Text) or obj.raw() != raw:
                    self.fail(what + 'text %d holds %r, must be %r' % (k, clip(obj.raw() if isinstance(obj, Text) else obj), clip(raw)))
                if len(obj) != len(raw):
                    self.fail(what + 'length of text %d is %r, must be %d' % (k, len(obj), len(raw)))
            if len(case['ops']) < 8 or step == len(case['ops']) - 1:
                for k, (obj, runs) in enumerate(pool):
                    shows(obj.render(), runs, what + 'text %d' % k)
        for obj, runs in pool:
            if str(obj) != obj.render():
                self.fail('str() and render() differ')
            shows(R.DebugRenderer.render(obj.raw(), R.NOOP_STYLE), [[obj.raw(), None]], 'raw text')
        if not trivial:
            self.nontrivial(case['ops'])
        self.peak('fragments', max([len(p[1]) for p in pool], default=0))
