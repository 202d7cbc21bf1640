"""Spans restore the state they have changed."""
from checks.pt import *


class CHECK(Check):
    ID = 'C20'
    LIBRARY = True
    NOSHRINK = ('prior', 'text')
    BUDGET = {'quick': 12, 'thorough': 300}
    RULE = ('spans built from random mixes of codes, names in random letter case and sequences (extended colours whose parameters look '
            'like codes included) around a text, printed to a terminal model in the default and in a random state; non-trivial: '
            'distinct flat code list with 2+ groups or an extended colour')

    def fixed(self):
        res = [{'presets': 1}]
        for name, code in NAMES.items():
            for nm in (name, name.lower(), name.title()):
                res.append({'args': [nm], 'prior': [1, 3, 4, 5, 7, 8, 9, 53, 31, 44], 'text': 'x'})
            res.append({'args': [code], 'prior': [2, 21, 6, 95, 105], 'text': 'x'})
        vals = sorted(set(list(SETTERS.values()) + list(OFF.values()) + [0, 38, 48, 5, 2, 255]))
        for base in (38, 48):
            for v in vals:
                res.append({'args': [base, 5, v, 1], 'prior': [5, 7, 31, 44], 'text': 'y'})
                res.append({'args': [1, base, 2, v, 5, v, 4], 'prior': [5, 7, 31, 44], 'text': 'y'})
                res.append({'args': [base, 2, 5, v, 38], 'prior': [5, 7, 31, 44, 3], 'text': 'y'})
                res.append({'args': [[base, 2, 48, 5, v], v if v in SETTERS.values() else 'bold'], 'prior': [5, 7, 31, 44], 'text': 'y'})
        res.append({'args': [], 'prior': [1, 31], 'text': 'abc'})
        return res

    def generate(self, rng, i):
        n = gen.pick(rng, 1, 2, 3, rng.randint(0, 8), rng.randint(0, 60))
        args = []
        weak = rng.random() < .15
        for codes in setter_codes(rng, n):
            r = rng.random()
            if len(codes) == 1 and r < .4:
                args.append(anycase(rng, [k for k, v in SETTERS.items() if v == codes[0]][0]))
            elif r < .6:
                args.append(codes)
            else:
                args += codes
            if weak and rng.random() < .2:
                args.append(rng.choice([0] + list(OFF.values())))
            if rng.random() < .03:
                args.append(rng.choice(HARMLESS))
            if rng.random() < .02:
                args.append([])
        prior = [c for cs in setter_codes(rng, gen.pick(rng, 0, 2, 4, 8)) for c in cs]
        return {'args': args, 'prior': prior, 'text': gen.pick(rng, None, 5, 0, 1.5, anytext(rng), anytext(rng), anytext(rng))}

    def judge(self, case):
        from pytermor import ansi
        from pytermor.ansi import SequenceSGR, Span
        if 'presets' in case:
            return self.presets(ansi)
        flat = []
        args = []
        for a in case['args']:
            if isinstance(a, str):
                flat.append(NAMES[a.upper()])
                args.append(a)
            elif isinstance(a, list):
                flat += a
                args.append(SequenceSGR(*a))
            else:
                flat.append(a)
                args.append(a)
        span = Span(*args)
        text = case['text']
        shown = '' if text is None else str(text)
        self.count('spans')
        got = span.wrap(text)
        if got != span.opening_str + shown + span.closing_str:
            self.fail('%r: wrap(%r) gives %r, opening %r, closing %r' % (case['args'], text, got, span.opening_str, span.closing_str))
        if span(text) != got:
            self.fail('call and wrap() differ: %r %r' % (span(text), got))
        if list(span.opening_seq.params) != flat:
            self.fail('%r: opening sequence is %r' % (case['args'], span.opening_seq.params))
        if str(span.opening_seq) != span.opening_str or str(span.closing_seq) != span.closing_str:
            self.fail('opening_str or closing_str is not the assembled sequence')
        parts = walk(flat)
        kinds = [k for k, _ in parts]
        if len(parts) > 1 or len(flat) > 2:
            self.nontrivial(flat)
        weak = any(k in ('reset', 'off') for k in kinds)
        for prior in ([()] if weak else [(), tuple(case['prior'])]):
            start = term.style(*prior)
            opened = term.apply(start, tuple(flat)) if flat else start
            pre = '\x1b[%sm' % ';'.join(map(str, prior)) if prior else ''
            mid = term.Screen(pre + span.opening_str + 'Z')
            if mid.final != opened:
                self.fail('%r: text is shown as %s, must be %s' % (case['args'], term.show_state(mid.final), term.show_state(opened)))
            end = term.Screen(pre + got + 'Z')
            want = without(start, kinds)
            if end.final != want:
                self.fail('%r around text in state %s leaves the terminal in %s, must be %s (closing %r)' % (
                    case['args'], term.show_state(start), term.show_state(end.final), term.show_state(want), span.closing_str))
            self.count('terminal_states_compared')
        self.peak('longest_code_list', len(flat))
        # explicit pairs
        o, c = SequenceSGR(*flat), SequenceSGR(*flat[:2])
        for hard in (False, True):
            sp = Span.init_explicit(o, c, hard)
            wants = [o.assemble() + shown + x for x in (('\x1b[m', '\x1b[0m') if hard else (c.assemble(),))]
            if sp.wrap(text) not in wants:
                self.fail('init_explicit(%r, %r, %r) wraps into %r' % (o, c, hard, sp.wrap(text)))
        if Span.init_explicit(o).wrap(text) != o.assemble() + shown or Span.init_explicit(None, c).wrap(text) != shown + c.assemble():
            self.fail('init_explicit() with one sequence gives something else')
        if Span.init_explicit(None, c, True).wrap(text) not in (shown + '\x1b[m', shown + '\x1b[0m') or Span.init_explicit(o, None, True).wrap(text) not in (o.assemble() + shown + '\x1b[m', o.assemble() + shown + '\x1b[0m'):
            self.fail('init_explicit() with one sequence and a hard reset gives something else')
        if ansi.NOOP_SPAN(text) != shown or ansi.NOOP_SPAN.opening_str or ansi.NOOP_SPAN.closing_str:
            self.fail('NOOP_SPAN is not empty')
        if Span(*args) != span or (Span(*args, 'crosslined') == span):
            self.fail('equality of spans')
        self.presets(ansi, 3)

    def presets(self, ansi, k=0):
        names = list(SETTERS)
        if k:
            k = self.counts.get('spans', 0)
            names = [names[(k + j) % len(names)] for j in range(3)]
        for name in names:
            code = SETTERS[name]
            for nm in {name, name.lower(), name.title(), name.swapcase()}:
                sp = ansi.Spans.resolve(nm)
                if sp.opening_str != '\x1b[%dm' % code or term.Screen(sp.wrap('q')).final != term.DEFAULT:
                    self.fail('preset %s is %r' % (nm, sp))
                if ansi.Seqs.resolve(nm).assemble() != '\x1b[%dm' % code or ansi.IntCodes.resolve(nm) != code:
                    self.fail('preset %s' % nm)
            if getattr(ansi.Spans, name).opening_str != '\x1b[%dm' % code:
                self.fail('preset %s' % name)
        if not k:
            for name, code in OFF.items():
                if ansi.Seqs.resolve(name.lower()).assemble() != '\x1b[%dm' % code or ansi.IntCodes.resolve(name) != code:
                    self.fail('preset %s' % name)
            if ansi.Seqs.RESET.assemble() not in ('\x1b[m', '\x1b[0m'):
                self.fail('preset RESET')
