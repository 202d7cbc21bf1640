"""SGR sequence objects are the code lists they denote."""
from checks.pt import *

BADNAMES = ['', ' ', 'redd', 'bg_', 'RED ', 'hi_black', 'bold_off', 'off', 'resolve', '31', 'bg-red', 'None', 'HI_GRAY', '__class__', 'grey', 'bold;red']
LISTS = ['LIST_COLORS', 'list_bg_colors', 'List_Hi_Colors', 'LIST_BG_HI_COLORS', 'list_all_colors']
EXTRA = {'COLOR_EXTENDED': 38, 'BG_COLOR_EXTENDED': 48, 'EXTENDED_MODE_256': 5, 'EXTENDED_MODE_RGB': 2}


class CHECK(Check):
    ID = 'C21'
    LIBRARY = True
    BUDGET = {'quick': 12, 'thorough': 300}
    RULE = ('random histories of constructing sequences from mixed arguments and adding them (+, +=, sum) against lists; every object '
            'is compared with its model after every step; non-trivial: distinct history with an addition')

    def fixed(self):
        res = [{'idx': [k, k + 64]} for k in range(0, 256, 64)] + [{'idx': [-3, 0]}, {'idx': [256, 300]}]
        for k in (-1, 0, 1, 127, 128, 254, 255, 256, 1000, -256, 1 << 40, 255.5, 255.001, -.5, -1e-9, 1e300):
            for pos in range(3):
                for other in (0, 255, 7):
                    ch = [other] * 3
                    ch[pos] = k
                    res.append({'rgb': ch})
        res.append({'ops': [['new', [n]] for n in {**NAMES, **EXTRA}]})
        res.append({'ops': [['bad', n] for n in BADNAMES + LISTS] + [['badtype', k] for k in range(7)] + [['new', []], ['new', [0]], ['new', [0, 0]], ['new', ['reset']]]})
        res.append({'ops': [['new', [1, 31]], ['new', [4]], ['new', []], ['add', 0, 1], ['add', 1, 0], ['iadd', 0, 1], ['iadd', 1, 1], ['iadd', 2, 0],
                            ['iadd', 0, 2], ['sum', [0, 1, 2, 0]], ['preset', 'RED'], ['iadd', 9, 0], ['preset', 'red'], ['add', 11, 11]]})
        return res

    def args(self, rng, n):
        res = []
        for codes in setter_codes(rng, n):
            r = rng.random()
            if len(codes) == 1 and r < .4:
                res.append(anycase(rng, [k for k, v in SETTERS.items() if v == codes[0]][0]))
            elif r < .6:
                res.append(codes)
            elif r < .7:
                res.append(rng.choice([0, 22, 39, 49, 100000, 256, 1 << 40]))
            elif r < .75:
                res.append(anycase(rng, rng.choice(list(EXTRA) + list(OFF) + ['reset'])))
            else:
                res += codes
        return res

    def generate(self, rng, i):
        if rng.random() < .1:
            return {'rgb': [gen.pick(rng, channel(rng), rng.randint(-10, 270)) for _ in range(3)]}
        ops = [['new', self.args(rng, gen.pick(rng, 0, 1, 2, rng.randint(0, 30)))]]
        for _ in range(gen.pick(rng, 3, rng.randint(1, 12))):
            r = rng.random()
            n = 99
            if r < .25:
                ops.append(['new', self.args(rng, gen.pick(rng, 0, 1, 1, 2, rng.randint(0, 30)))])
            elif r < .5:
                ops.append(['add', rng.randrange(n), rng.randrange(n)])
            elif r < .7:
                ops.append(['iadd', rng.randrange(n), rng.randrange(n)])
            elif r < .75:
                ops.append(['sum', [rng.randrange(n) for _ in range(rng.randint(1, 4))]])
            elif r < .82:
                ops.append(['preset', anycase(rng, rng.choice(list(NAMES)))])
            elif r < .88:
                ops.append(['of', [rng.randrange(n) for _ in range(rng.randint(1, 4))]])
            elif r < .92:
                ops.append(['span', rng.randrange(n)])
            elif r < .96:
                ops.append(['bad', gen.pick(rng, rng.choice(BADNAMES), anycase(rng, rng.choice(LISTS)), anycase(rng, rng.choice(list(NAMES))) + rng.choice('_x '))])
            else:
                ops.append(['badtype', rng.randrange(7)])
        return {'ops': ops}

    def judge(self, case):
        from pytermor import ansi
        from pytermor.ansi import NOOP_SEQ, SequenceSGR, Span
        if 'idx' in case:
            for k in range(*case['idx']):
                for bg in (False, True):
                    self.ext(SequenceSGR.init_color_indexed, [k], bg, 5)
            return
        if 'rgb' in case:
            for bg in (False, True):
                self.ext(SequenceSGR.init_color_rgb, case['rgb'], bg, 2)
                if isinstance(case['rgb'][0], float):
                    self.ext(SequenceSGR.init_color_indexed, case['rgb'][:1], bg, 5)
            return
        pool = []       # [object, list]
        if any(op[0] in ('add', 'iadd', 'sum') for op in case['ops']):
            self.nontrivial(case['ops'])
        for step, op in enumerate(case['ops']):
            kind = op[0]
            what = 'step %d %s: ' % (step + 1, clip(op, 100))
            self.count('operations')

            def ref(k):
                return pool[k % len(pool)]
            if kind not in ('new', 'bad', 'badtype', 'preset') and not pool:
                continue
            if kind == 'new':
                flat, args = [], []
                for a in op[1]:
                    if isinstance(a, str):
                        flat.append({**NAMES, **EXTRA}[a.upper()])
                    elif isinstance(a, list):
                        flat += a
                        a = SequenceSGR(*a)
                    else:
                        flat.append(a)
                    args.append(a)
                pool.append([SequenceSGR(*args), flat])
                for a, orig in zip(args, op[1]):
                    if isinstance(orig, list) and list(a.params) != orig:
                        self.fail(what + 'the argument became %r' % a)
            elif kind == 'add':
                a, b = ref(op[1]), ref(op[2])
                pool.append([a[0] + b[0], a[1] + b[1]])
            elif kind == 'iadd':
                # the name is bound to the sum; other names keep the old value
                a, b = ref(op[1]), ref(op[2])
                x = a[0]
                x += b[0]
                pool.append([x, a[1] + b[1]])
            elif kind == 'sum':
                total, flat = NOOP_SEQ, []
                for k in op[1]:
                    total += ref(k)[0]
                    flat = flat + ref(k)[1]
                pool.append([total, flat])
            elif kind == 'of':
                refs = [ref(k) for k in op[1]]
                pool.append([SequenceSGR(*[r[0] for r in refs]), [c for r in refs for c in r[1]]])
            elif kind == 'preset':
                pool.append([ansi.Seqs.resolve(op[1]), [NAMES[op[1].upper()]]])
            elif kind == 'span':
                s = Span(ref(op[1])[0])
                pool.append([s.opening_seq, ref(op[1])[1]])
            elif kind == 'bad':
                if op[1].upper() in NAMES or op[1].upper() in EXTRA:
                    continue
                for f in (lambda: SequenceSGR(op[1]), lambda: SequenceSGR(1, op[1], 31), lambda: Span('bold', op[1])):
                    try:
                        self.fail(what + 'accepted as %r' % f())
                    except (KeyError, ValueError, TypeError) as e:
                        if op[1].upper() not in LISTS and op[1].upper() not in [x.upper() for x in LISTS] and not isinstance(e, KeyError):
                            self.fail(what + 'must be KeyError, got %r' % e)
                self.count('rejections')
            elif kind == 'badtype':
                a = [None, 1.5, b'red', [31], (31,), object(), {31: 1}][op[1]]
                s = pool[-1][0] if pool else NOOP_SEQ
                for f in (lambda: SequenceSGR(a), lambda: SequenceSGR('red', a), lambda: s + a, lambda: Span(a)):
                    try:
                        self.fail(what + 'accepted as %r' % f())
                    except TypeError:
                        pass
                try:
                    self.fail(what + 'the sum with a sequence is accepted as %r' % (a + s))
                except (TypeError, AttributeError):
                    pass
                if s == a or not s != a:
                    self.fail(what + 'equal to a sequence')
                self.count('rejections')
            for k, (obj, flat) in enumerate(pool):
                if not isinstance(obj, SequenceSGR) or list(obj.params) != flat:
                    self.fail(what + 'object %d is %r, must hold %r' % (k, obj, flat))
        if list(NOOP_SEQ.params) or NOOP_SEQ.assemble():
            self.fail('NOOP_SEQ became %r' % NOOP_SEQ)
        index = {}
        for k, (obj, flat) in enumerate(pool):
            s = obj.assemble()
            want = [''] if not flat else ['\x1b[m', '\x1b[0m'] if flat == [0] else ['\x1b[%sm' % ';'.join(map(str, flat))]
            if s not in want or str(obj) != s:
                self.fail('%r is assembled into %r' % (flat, s))
            if '%s' % obj != s or repr(obj) != 'SGR[%s]' % (';'.join(map(str, flat)) or '~'):
                self.fail('%r: %s %r' % (flat, obj, obj))
            if bool(obj.is_color_extended) != (len(flat) >= 3 and flat[0] in (38, 48)):
                self.fail('%r: extended colour is %r' % (flat, obj.is_color_extended))
            twin = SequenceSGR(*flat)
            if not (obj == twin) or hash(obj) != hash(twin):
                self.fail('%r: equal sequences differ or have different hashes' % flat)
            for q, (other, flat2) in enumerate(pool):
                if (obj == other) != (flat == flat2) or (obj != other) == (flat == flat2):
                    self.fail('%r == %r gives %r' % (flat, flat2, obj == other))
            index.setdefault(obj, flat)
            if index[obj] != flat:
                self.fail('%r is found under %r' % (flat, index[obj]))
        if len(index) != len({tuple(f) for _, f in pool}):
            self.fail('%d distinct sequences in a dictionary, must be %d' % (len(index), len({tuple(f) for _, f in pool})))
        for nm in ('RED', 'bold', 'Reset', 'bg_hi_cyan'):
            if list(ansi.Seqs.resolve(nm).params) != [NAMES[nm.upper()]]:
                self.fail('preset %s became %r' % (nm, ansi.Seqs.resolve(nm)))
        self.peak('largest_pool', len(pool))

    def ext(self, f, ch, bg, mode):
        self.count('extended_colours')
        ok = all(0 <= c <= 255 for c in ch)
        for g in (lambda: f(*ch, bg=bg), lambda: f(*ch, bg)) + ((lambda: f(*ch),) if not bg else ()):
            try:
                s = g()
            except ValueError:
                if ok:
                    self.fail('%s%r refused' % (f.__name__, ch))
                continue
            if not ok:
                self.fail('%s%r accepted as %r' % (f.__name__, ch, s))
            if list(s.params) != [48 if bg else 38, mode] + ch or s.assemble() != '\x1b[%sm' % ';'.join(map(str, s.params)):
                self.fail('%s%r, bg=%r gives %r' % (f.__name__, ch, bg, s))
            if not s.is_color_extended:
                self.fail('%r is not an extended colour' % s)
