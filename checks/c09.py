"""Style of every cell, line ends and the final state."""
from checks.common import *


class CHECK(Cli):
    ID = 'C09'
    RULE = ('random token sequences cut by rows of any width or by lines x focus, ignore, marker and colour options; the '
            'terminal state is reconstructed at every character; non-trivial: at least four differently styled runs')

    def fixed(self):
        res = []
        d = b'a \x01\x00\x1b[31;1m\x1b[0m\x1b[2J\x1bM\x1b(B\x1bc\x1b7\xc3\xa9\xff\x7f\x1b\t\r\x0b\x0c\x08b\n'
        for w in range(1, 20):
            for k in ({}, {'focus': 'cesuip'}, {'color': True}, {'ignore': 'e'}, {'focus': 'e', 'color': True}):
                res.append({'o': Opt(b=True, w=w, **k), 'data': d * 3})
        for m in range(3):
            for k in ({}, {'focus': 'cesuip'}, {'color': True}, {'ignore': 's'}, {'ignore': 'cesuip'}):
                res.append({'o': Opt(m=m, **k), 'data': d * 3})
                res.append({'o': Opt(m=m, **k), 'data': (d * 3).replace(b'\n', b'\r')})
        return res

    def generate(self, rng, i):
        o = self.opts(rng, i)
        if rng.random() < .3:
            o['f'] = gen.pick(rng, 1, 3, 7, 32, 100)
        prefer = gen.pick(rng, gen.ESC_FRAGS, gen.SGR_FRAGS, None)
        return {'o': o, 'data': gen.data(rng, self.HI, prefer=prefer), **({'real': True} if i % self.CROSS == 0 else {})}

    def judge(self, case):
        o, data = case['o'], case['data']
        s = self.screen(case)
        if s.final != DEFAULT:
            self.fail('terminal is left in state %s' % (s.final,))
        for n, st in enumerate(s.eol):
            if st[1] is not None or st[2] & {'inverse', 'underline'}:
                from lib.term import show_state
                self.fail('at the end of line %d the terminal state is %s: %s' % (n + 1, show_state(st), clip(show(s.lines[n]))))
        if o.b:
            want = model.binary_screen(data, o, o.w or model.auto_cols(80, o.decoff))
            if not o.w and [text(x) for x in s.lines] != [text(x) for x in want]:
                # number of columns chosen automatically is not ours to decide
                p = s.plain()
                if p and len(p) > 2:
                    w = self.seen_cols(p, o)
                    if w:
                        want = model.binary_screen(data, o, w)
        else:
            want = model.text_screen(data, o)
        self.compare_lines(s.lines, want, 'styles')
        runs = sum(len(ln) for ln in s.lines)
        self.count('styled_runs_observed', runs)
        self.count('line_ends_observed', len(s.eol))
        if runs >= 4:
            self.nontrivial(sorted(o.items()), data)

    def seen_cols(self, rows, o):
        body = rows[0] if o.nooff else rows[0].split(SEP, 1)[-1]
        m = re.match(r'(?: [0-9a-f]{2})+ *', body)
        if not m:
            return None
        return max(1, (len(m.group()) - 1) // 3)
