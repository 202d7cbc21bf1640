"""Not a property: full cell-by-cell comparison of application and model, for development."""
from checks.common import *


class CHECK(Cli):
    ID = 'SELF'
    RULE = 'x'

    def judge(self, case):
        o, d = case['o'], case['data']
        s = self.screen(case)
        if o.b:
            want = model.binary_screen(d, o, o.w if o.w else model.auto_cols(80, o.decoff))
        else:
            want = model.text_screen(d, o)
        self.compare_lines(s.lines, want, 'x')
        if s.bad: self.fail(str(s.bad))
        self.nontrivial(sorted(o.items()), d)
