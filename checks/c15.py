"""Command line."""
import os

from checks.common import *

LEGEND = [('⇥', 'horizontal tab'), ('↵', 'line feed'), ('⤓', 'vertical tab'), ('↡', 'form feed'), ('⇤', 'carriage return'), ('␣', 'space'),
          ('·', 'space'), ('Ɐ', 'generic control char'), ('Ø', 'null byte'), ('←', 'backspace'), ('→', 'delete'), ('∌', 'escape'),
          ('Ḇ', 'binary data'), ('θ', 'SGR reset sequence'), ('ǝ', 'SGR sequence'), ('Ͻ', 'CSI sequence'), ('ꟻ', 'nF sequence'),
          ('ꟼ', 'Fp sequence'), ('Ǝ', 'Fe sequence'), ('Ꙅ', 'Fs sequence'), ('▯', ''), ('_', ''), ('⢸', ''), ('⡇', '')]
LONGS = {'b': '--binary', 't': '--text', 'd': '--decode', 's': '--focus-space', 'c': '--focus-control', 'p': '--focus-printable',
         'e': '--focus-esc', 'u': '--focus-utf8', 'i': '--focus-binary', 'S': '--ignore-space', 'C': '--ignore-control',
         'P': '--ignore-printable', 'E': '--ignore-esc', 'U': '--ignore-utf8', 'I': '--ignore-binary', 'D': '--debug',
         'M': '--demo', 'l': '--legend', 'v': '--version', 'h': '--help'}
VALUED = {'w': '--columns', 'm': '--marker', 'f': '--buffer', 'L': '--max-lines', 'B': '--max-bytes'}
FLAGS = {'nosep': '--no-separators', 'nolines': '--no-line-numbers', 'nooff': '--no-offsets', 'decoff': '--decimal-offsets',
         'color': '--color-markers'}
JUNK = ['b', 't', 'd', 'D', 's', 'C', 'e', 'U', 'P', 'i', '--no-separators', '--color-markers', '--no-offsets', 'w4', 'm2', 'L3', 'B10', 'f3']

# files that exist, all given as ./name
FILE_NAMES = ['-', '--', ' -', '- ', '-\n', '\t-', '‐', '−', '-\r', '-b', '-.', '.-', '--help', '-l', '0', '1', '10', 'demo.bin', 'None', 'stdin', 'a', '...', ' ', '~', '*', '$HOME', '%s', 'имя', 'с пробелом', '\x01', 'a\nb', '{}',
              '@a', '=', 'x=y', '+1', 'http:', 'name.gz', 'name.bin', 'name.txt', 'name.ansi', 'README', 'y' * 255]


def items(o):
    """Option set as a list of (short letter or '', long, value or None)."""
    r = []
    for k in 'bd':
        if getattr(o, k):
            r.append((k, LONGS[k], None))
    r += [(c, LONGS[c], None) for c in o.focus] + [(c.upper(), LONGS[c.upper()], None) for c in o.ignore]
    r += [('', n, None) for k, n in FLAGS.items() if getattr(o, k)]
    for k, n in VALUED.items():
        v = getattr(o, k)
        if v != Opt.DEFAULTS[k]:
            r.append((k, n, v))
    r += [('D', '--debug', None)] * o.D
    return r


def spell(rng, its):
    """A random way to write them down."""
    its = list(its)
    rng.shuffle(its)
    out = []
    bundle = ''
    for s, l, v in its:
        style_ = rng.randrange(4)
        if v is None:
            if s and style_ < 3:
                if style_ and len(bundle) < 6:
                    bundle += s
                    continue
                out.append('-' + s)
            else:
                out.append(l)
            continue
        neg = v < 0
        if s and style_ == 0 and not neg:
            if bundle and rng.random() < .5:
                out.append('-%s%s%d' % (bundle, s, v))
                bundle = ''
            else:
                out.append('-%s%d' % (s, v))
        elif s and style_ == 1 and not neg:
            out += ['-' + s, str(v)]
        elif style_ == 2 and not neg:
            out += [l, str(v)]
        elif s and style_ == 3 and rng.random() < .5:
            out.append('-%s=%d' % (s, v))
        else:
            out.append('%s=%d' % (l, v))
    if bundle:
        # keep pairs of option and separate value together
        cut = [p for p in range(len(out) + 1) if p == 0 or not (out[p - 1].startswith('-') and p < len(out) and not out[p].startswith('-'))]
        out.insert(rng.choice(cut), '-' + bundle)
    return out


class CHECK(Cli):
    ID = 'C15'
    RULE = ('option sets in random spellings, orders and input sources against the model of the output; information requests '
            'combined with other options while standard input is data (its position is watched), closed or a pipe that never '
            'delivers; demo with overrides; every kind of invalid command line; non-trivial: distinct command line')
    NOSHRINK = ('kind', 'argv', 'src', 'stdin', 'want')

    # ---------------------------------------------------------------- cases
    def fixed(self):
        res = []
        for a in (['-l'], ['--legend'], ['-v'], ['--version'], ['-h'], ['--help'], ['-M'], ['--demo']):
            for st in ('data', 'held', 'closed'):
                for extra in ([], ['-b'], ['-D'], ['/nonexistent/file'], ['-w4'], ['-w0'], ['-w', '-3'], ['-v'], ['-M'], ['-l'], ['-d', '-w', '8'], ['-t'], ['-L2'], ['-B', '7']):
                    for argv in (a + extra, extra + a):
                        c = self.info(argv, st)
                        if c:
                            res.append(c)
        for argv in self.bad_fixed():
            res.append({'kind': 'bad', 'argv': argv, 'stdin': 'data'})
        res += self.named()
        d = b'a\x1b[1;31mb\x1b[m \x00\x07\x7f\xd1\x8b\xff\tz\nsecond line\nthird'
        for k, n in list(LONGS.items()) + [('', n) for n in FLAGS.values()]:
            if k and k in 'MlvhD':
                continue
            for mode in ('', '-b'):
                if k in ('b', 't') and mode:
                    continue
                o = Opt()
                if mode or k == 'b':
                    o['b'] = True
                    o['w'] = 8
                if k == 'd':
                    o['d'] = True
                elif k and k in 'scpeui':
                    o['focus'] = k
                elif k and k in 'SCPEUI':
                    o['ignore'] = k.lower()
                elif not k:
                    o[[x for x, y in FLAGS.items() if y == n][0]] = True
                for w in ([n], ['-' + k] if k else None):
                    if w:
                        res.append({'kind': 'spell', 'o': o, 'argv': w + ([mode] if mode else []) + (['-w8'] if o.b else []), 'src': 'stdin', 'data': d})
        for k, n in VALUED.items():
            for v in (1, 2, 7):
                for b in (False, True):
                    o = Opt({'b': b, k: v})
                    if b and k != 'w':
                        o['w'] = 8
                    base = (['-b'] if b else []) + (['-w8'] if b and k != 'w' else [])
                    for w in (['-%s%d' % (k, v)], ['-' + k, str(v)], ['-%s=%d' % (k, v)], [n, str(v)], ['%s=%d' % (n, v)]):
                        for src in ('stdin', 'dash', 'file'):
                            res.append({'kind': 'spell', 'o': o, 'argv': base + w + (['-'] if src == 'dash' else []), 'src': src, 'data': d})
        return res

    def named(self):
        return [{'kind': 'spell', 'o': Opt(b=b, **({'w': 8} if b else {})), 'argv': ['-bw8'] if b else [], 'src': 'file', 'name': './' + n, 'data': b'data of \x01 ' + n.encode() + b'\nend'}
                for b in (False, True) for n in FILE_NAMES] + [
            # a name that looks like an option, after the end of options
            {'kind': 'spell', 'o': Opt(b=b, **({'w': 8} if b else {})), 'argv': (['-bw8'] if b else []) + ['--'], 'src': 'file', 'name': './' + n, 'bare': True,
             'data': b'data of \x01 ' + n.encode() + b'\nend'}
            for b in (False, True) for n in FILE_NAMES + ['-x', '-D', '-w', '--binary', '-L1', '--max-lines=1', '-1', '-v', '--nope', '---'] if n not in ('-', '--')]

    def bad_fixed(self):
        res = [['--nope'], ['-x'], ['-z', 'f'], ['-bx'], ['--binary=1'], ['--focus-nothing'], ['-t', '-b'], ['--text', '--binary'], ['-tb'],
               ['-b', '-t'], ['-l', '-b'], ['-l', '-t'], ['-lb'], ['--decimal-offsets', '--no-offsets'], ['-M', 'file'], ['file', '-M'],
               ['--demo', '-'], ['one', 'two'], ['-', '-'], ['-k'], ['--legend=1'], ['-a'], ['--version=2']]
        for c in 'scpeui':
            res += [['-' + c, '-' + c.upper()], ['-' + c.upper() + c], [LONGS[c.upper()], '-b', LONGS[c]]]
        for k, n in VALUED.items():
            res += [['-' + k], [n], [n + '=']]
            for v in ('x', '1.5', '1e3', '0x10', 'ten', '4k', '', '--'):
                if v != '--':
                    res += [['-%s%s' % (k, v)] if v else ['-' + k, v], ['-' + k, v], [n, v], ['%s=%s' % (n, v)]]
        return res

    def info(self, argv, stdin):
        """Expected kind of an information request, None if the command line is not one or is invalid."""
        has = lambda *x: any(a in x for a in argv)
        want = None
        files = [a for a in argv if not a.startswith('-') and not a.isdigit()]
        leg, ver, demo, help_ = has('-l', '--legend'), has('-v', '--version'), has('-M', '--demo'), has('-h', '--help')
        if leg and has('-b', '-t') or demo and files:
            return None
        if help_:
            want = 'help'
        elif leg:
            want = 'legend'
        elif ver:
            want = 'version'
        elif demo:
            want = 'demo'
        if not want:
            return None
        return {'kind': 'info', 'argv': argv, 'stdin': stdin, 'want': want}

    def generate(self, rng, i):
        r = rng.random()
        if r < .55:
            o = gen.opt(rng, limits=True, buffer=True)
            if rng.random() < .1:
                o['w'] = gen.pick(rng, 0, -1, -5, 3)
            if o.b and rng.random() < .3:
                o['m'] = rng.randrange(4)
                o['nolines'] = rng.random() < .5
            if not o.b and rng.random() < .3:
                o['d'] = True
                o['nooff'] = rng.random() < .5
            o = Opt({k: v for k, v in o.items() if v != Opt.DEFAULTS[k]})
            its = items(o)
            if not o.b and rng.random() < .4:
                its.append(('t', '--text', None))
            argv = spell(rng, its)
            src = rng.choice(['stdin', 'dash', 'file'])
            if src == 'dash':
                argv = self.place(rng, argv, '-')
            return {'kind': 'spell', 'o': o, 'argv': argv, 'src': src, 'data': gen.data(rng, 300),
                    **({'real': True} if i % self.CROSS == 0 else {})}
        if r < .72:
            its = []
            for j in rng.sample(JUNK, rng.randint(0, 4)):
                if j.startswith('--'):
                    its.append(('', j, None))
                elif len(j) > 1:
                    its.append((j[0], VALUED[j[0]], int(j[1:])))
                else:
                    its.append((j, LONGS[j], None))
            its = [x for x in its if x[0] != 'D']
            ls = {x[0] for x in its}
            if 'b' in ls and 't' in ls:
                its = [x for x in its if x[0] != 't']
            want = set(rng.sample(['legend', 'version', 'demo', 'help'], rng.randint(1, 3)))
            if 'legend' in want:
                its = [x for x in its if x[0] not in ('b', 't')]
            its += [({'legend': 'l', 'version': 'v', 'demo': 'M', 'help': 'h'}[w],) + ('--' + w, None) for w in sorted(want)]
            argv = spell(rng, its)
            if 'demo' not in want and rng.random() < .3:
                argv = self.place(rng, argv, rng.choice(['-', '/nonexistent/file', '/']))
            k = next(w for w in ('help', 'legend', 'version', 'demo') if w in want)
            c = {'kind': 'info', 'argv': argv, 'stdin': rng.choice(['data', 'held', 'closed', 'data', 'data']), 'want': k}
            if k == 'demo':
                c['o'] = self.demo_opt(its)
            return c
        if r < .85:
            o = gen.opt(rng, limits=True, buffer=True)
            its = items(o)
            text_ = not o.b and rng.random() < .4
            its = [x for x in its if x[0] != 'b']
            if text_:
                its.append(('t', '--text', None))
            elif rng.random() < .3:
                its.append(('b', '--binary', None))
            its.append(('M', '--demo', None))
            return {'kind': 'info', 'argv': spell(rng, its), 'stdin': rng.choice(['data', 'held']), 'want': 'demo', 'o': self.demo_opt(its)}
        bad = rng.choice(self.bad_fixed())
        o = gen.opt(rng, limits=True)
        # only additions that cannot make it valid
        its = [x for x in items(o) if x[0] in ('d', 'L', 'f') or x[1] in ('--color-markers', '--no-separators')]
        pre = spell(rng, its)
        return {'kind': 'bad', 'argv': pre + bad if rng.random() < .5 or bad[-1] in VALUED.values() or len(bad) == 1 and bad[0][1:] in VALUED
                else bad + pre, 'stdin': rng.choice(['data', 'data', 'held'])}

    def place(self, rng, argv, name):
        cuts = [p for p in range(len(argv) + 1) if p in (0, len(argv)) or argv[p].startswith('-')]
        cuts = [p for p in cuts if p == 0 or not (argv[p - 1] in VALUED.values() or argv[p - 1] in ['-' + x for x in VALUED])]
        p = rng.choice(cuts)
        return argv[:p] + [name] + argv[p:]

    def demo_opt(self, its):
        o = Opt(b=True, d=True, w=16)
        for s, l, v in its:
            if s == 't':
                o['b'] = False
            elif s in VALUED:
                o[s] = v
            elif s and s in 'scpeui':
                o['focus'] = o.focus + s
            elif s and s in 'SCPEUI':
                o['ignore'] = o.ignore + s.lower()
            else:
                for k, n in FLAGS.items():
                    if n == l:
                        o[k] = True
        return o

    # ---------------------------------------------------------------- oracle
    def judge(self, case):
        getattr(self, case['kind'])(case) if case['kind'] != 'info' else self.info_case(case)
        self.count('command_lines_' + case['kind'])
        self.nontrivial(case['kind'], case['argv'], case.get('stdin'), case.get('src'))

    def expected(self, o, data):
        data = model.cut(data, o)
        if o.b:
            return model.binary_screen(data, o, o.w if o.w and o.w > 0 else model.auto_cols(80, o.decoff))
        return model.text_screen(data, o)

    def spell(self, case):
        o, argv, data = case['o'], list(case['argv']), case['data']
        if case['src'] == 'file':
            path = os.path.join(harness.scratch(), 'in put')
            before = None
            if case.get('name'):
                # relative names: the run starts in the directory
                dir_ = os.path.join(harness.scratch(), 'names')
                os.makedirs(dir_, exist_ok=True)
                path = case['name']
                with open(os.path.join(dir_, case['name'][2:]), 'wb') as f:
                    f.write(data)

                def before(*_):
                    os.chdir(dir_)
            else:
                with open(path, 'wb') as f:
                    f.write(data)
            decoy = b'wrong source\n'
            # anywhere it is not taken for a value
            if case.get('bare'):
                argv.append(path[2:])
            else:
                argv = self.place(__import__('random').Random(len(argv) + len(data)), argv, path)
            r = self.run_ok(argv, decoy, before=before)
            if case.get('real') and not before and (q := harness.run_real(argv, decoy)).out != r.out:
                self.fail('separate process prints something else: %s' % clip(q.out))
        else:
            r = self.run_ok(argv, data)
            if case.get('real') and (q := harness.run_real(argv, data)).out != r.out:
                self.fail('separate process prints something else: %s' % clip(q.out))
        if r.err:
            self.fail('%s: standard error: %s' % (argv, clip(r.err)))
        s = Screen(r.out)
        if o.b and not (o.w and o.w > 0):
            # the automatic number of columns is judged elsewhere
            ref = Screen(self.run_ok(['--binary'] + ['%s=%d' % (l, v) if v is not None else l for _, l, v in items(o) if l != '--binary'], data).out).lines
        else:
            ref = self.expected(o, data)
        self.compare_lines(s.lines, ref, '`kolombos %s`' % ' '.join(argv))

    def special(self, argv, stdin):
        """Run with watched standard input; returns the result and how far it was read."""
        if stdin == 'data':
            fd = harness.memfile(b'\x1b[31mthis must not be read\n' * 20)
            try:
                r = self.run(argv, fds=(fd, None, None))
                pos = os.lseek(fd, 0, os.SEEK_CUR)
            finally:
                os.close(fd)
            return r, pos
        if stdin == 'closed':
            fd = os.open('/dev/null', os.O_RDONLY)
            try:
                return self.run(argv, fds=(fd, None, None)), 0
            finally:
                os.close(fd)
        r = self.run(argv, chunks=[None], wall=15)
        return r, 0

    def info_case(self, case):
        argv, want = case['argv'], case['want']
        r, pos = self.special(argv, case['stdin'])
        what = '`kolombos %s` (standard input: %s)' % (' '.join(argv), case['stdin'])
        if r.hung:
            self.fail('%s did not end without input' % what)
        if r.rc:
            self.fail('%s: status %d, stderr %s' % (what, r.rc, clip(r.err[-300:])))
        if r.err:
            self.fail('%s: standard error: %s' % (what, clip(r.err)))
        if pos:
            self.fail('%s: %d bytes of standard input were read' % (what, pos))
        if any(a == '--debug' or re.match('-[a-zA-Z]*D', a) for a in argv):
            return
        s = Screen(r.out)
        t = [text(ln) for ln in s.lines]
        getattr(self, 'is_' + want)(what, s, t, case)
        self.count('information_' + want)

    def is_legend(self, what, s, t, case):
        for g, name in LEGEND:
            if not any(g in ln and name in ln for ln in t):
                self.fail('%s: no marker %s %s in the legend' % (what, g, name))
        for c in 'scpeui':
            if not any('-%s -%s' % (c, c.upper()) in ln for ln in t):
                self.fail('%s: no class with options -%s -%s in the legend' % (what, c, c.upper()))
        if any(ln.startswith('#') for ln in t):
            self.fail('%s: a note of the build appears in the legend' % what)

    def is_version(self, what, s, t, case):
        import kolombos.version
        import pytermor
        want = [['es7s/kolombos', kolombos.version.__version__], ['pytermor', pytermor.__version__]]
        if [ln.split() for ln in t if ln] != want:
            self.fail('%s prints %s' % (what, clip(t)))

    def is_help(self, what, s, t, case):
        all_ = '\n'.join(t)
        for n in list(LONGS.values()) + list(VALUED.values()) + list(FLAGS.values()):
            if not re.search(re.escape(n) + r'(?![a-z-])', all_):
                self.fail('%s: help does not mention %s' % (what, n))

    def is_demo(self, what, s, t, case):
        o = case.get('o')
        if o is None:
            o = Opt(b=True, d=True, w=16)
            argv = case['argv']
            for p, a in enumerate(argv):
                if a == '-t':
                    o['b'] = False
                elif a[:2] in ('-w', '-L', '-B'):
                    o[a[1]] = int(a[2:] or argv[p + 1])
        with open(os.path.join(harness.REPO, 'kolombos', 'demo.bin'), 'rb') as f:
            data = f.read()
        foot = [k for k, ln in enumerate(t) if '--legend' in ln]
        if not foot or s.lines[foot[-1] - 1]:
            self.fail('%s: no footer in %s' % (what, clip(t[-4:])))
        self.compare_lines(s.lines[:foot[-1] - 1] + [[], []], self.expected(o, data), what)

    def bad(self, case):
        argv = case['argv']
        r, pos = self.special(argv, case['stdin'])
        what = '`kolombos %s`' % ' '.join(argv)
        if r.hung:
            self.fail('%s waits for input' % what)
        if r.rc != 2:
            self.fail('%s: status %d instead of 2, output %s' % (what, r.rc, clip(r.out)))
        if r.out or pos:
            self.fail('%s was processed: %s, %d bytes read' % (what, clip(r.out), pos))
        e = r.err.decode(errors='replace')
        if 'usage' not in e.lower() or not re.search(r'error: \S', e):
            self.fail('%s: no explanation: %s' % (what, clip(e)))
