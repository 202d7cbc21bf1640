"""The help text is complete and true."""
import argparse
import fcntl
import os
import re
import shlex
import struct
import termios

from checks import c15
from checks.common import *

CLASSES = (('whitespace', 's'), ('control char', 'c'), ('printable', 'p'), ('escape sequences', 'e'), ('utf-8', 'u'), ('binary data', 'i'))
# what a description promises -> option set
MEANING = (('highlight', 'focus'), ('dim', 'ignore'), ('open file in text mode', ()), ('open file in binary mode', 'b'), ('read buffer size', 'f'), ('reading <num> lines', 'L'),
           ('reading <num> bytes', 'B'), ('apply sgr', 'color'), ('marker details', 'm'), ('do not print separators', 'nosep'), ('do not print line numbers', 'nolines'),
           ('-columns wide table', 'w'), ('decode valid utf-8', 'd'), ('offsets in decimal', 'decoff'), ('do not print offsets', 'nooff'))
INFORMATION = (('output examples', 'demo'), ('annotation symbol list', 'legend'), ('app version', 'version'), ('this help', 'help'))
# names somebody could try
UNKNOWN = ['--auto', '--squash-ignored', '--hide-ignored', '--quiet', '--verbose', '--output', '--color', '--no-color', '--width', '--lines', '--bytes', '--force', '--encoding', '--all',
           '--raw', '--hex', '--config', '--file', '--focus', '--ignore', '--focus-all', '--ignore-all', '--no-markers', '--color-marker-details', '--ascii', '--utf8', '--pager', '--stdin', '--usage',
           '--info', '--trace', '--no-debug', '--no-decode', '--hex-offsets', '--octal-offsets', '--line-numbers', '--separators', '--offsets', '--profile', '--test', '--dev', '--examples', '--about', '--seek', '--skip', '--tail',
           '--follow', '--length', '--format', '--html', '--json', '--theme', '--style', '--no-wrap', '--wrap', '--tabs', '--eol', '--strict', '--safe', '--unsafe', '--batch', '--interactive', '--watch']
DATA = b'a b\x1b[1;31mred\x1b[0m\x1b(B\n\xc3\xa9\xff\x01 \tlong\x00\x7f line of text, several rows\r\n\xf0\x9f\x90\x8d\x1bM end\n' * 3


class CHECK(c15.CHECK):
    ID = 'C33'
    BUDGET = {'quick': 16, 'thorough': 200}
    RULE = ('the help, parsed, against runs: every listed option in every spelling, with values and without, judged by its description; options that '
            'are registered with the argument parser (hooked) or tried by name, but not listed; documented defaults given explicitly, examples run; the help at all widths; '
            'non-trivial: distinct (statement of the help, input)')
    NOSHRINK = ('kind', 'n', 'v', 'cols', 'b', 'way')
    WAYS = 5

    def fixed(self):
        res = [{'kind': 'registered'}, {'kind': 'table'}, {'kind': 'usage'}]
        for n in range(48):
            for b in (False, True):
                for way in range(self.WAYS):
                    for v in (0, 1, 2, 7):
                        res.append({'kind': 'row', 'n': n, 'b': b, 'way': way, 'v': v, 'data': DATA})
        for way in range(3):
            for b in (False, True):
                for d in (DATA, DATA * 30):
                    res.append({'kind': 'levels', 'b': b, 'way': way, 'data': d})
        for c in list(range(12, 130)) + [150, 200, 300, 1000, 5000, 0, 1, 2, 5, 10]:
            res.append({'kind': 'layout', 'cols': c})
        for n in range(8):
            res.append({'kind': 'example', 'n': n, 'data': DATA})
            res.append({'kind': 'example', 'n': n, 'data': DATA * 40})
        for b in (False, True):
            for D in (0, 1, 2):
                for n in range(48):
                    res.append({'kind': 'default', 'n': n, 'b': b, 'D': D, 'data': DATA * (60 if D < 2 else 5)})
        for k in UNKNOWN + ['-' + c for c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ?!@#$%^&*+_/.,:;~']:
            res.append({'kind': 'unknown', 'name': k})
        return res

    def generate(self, rng, i):
        r = rng.random()
        d = gen.data(rng, 400)
        if r < .55:
            return {'kind': 'row', 'n': rng.randrange(48), 'b': rng.random() < .5, 'way': rng.randrange(self.WAYS), 'v': gen.pick(rng, 0, 1, 2, 3, rng.randint(1, 40)), 'data': d}
        if r < .7:
            return {'kind': 'example', 'n': rng.randrange(8), 'data': d}
        if r < .9:
            return {'kind': 'default', 'n': rng.randrange(48), 'b': rng.random() < .5, 'D': gen.pick(rng, 0, 0, 1, 2, 4), 'data': d if rng.random() < .5 else gen.data(rng, 1500) * 8}
        k = ''.join(rng.choice('abcdefghilmnopqrstuvwxyz-') for _ in range(rng.randint(2, 10)))
        return {'kind': 'unknown', 'name': '--' + rng.choice((k, 'focus-' + k, 'no-' + k, 'ignore-' + k, 'max-' + k))}

    # ---------------------------------------------------------------- the help
    _help = None
    _described = None

    def parsed(self):
        """([(spellings, metavar or None, description, section)], examples, contents without spaces)."""
        if self._help is None:
            r = self.run_ok(['--help'], b'', env={'COLUMNS': '400'})
            type(self)._help = self.parse(r.out)
        return self._help

    def parse(self, out):
        s = Screen(out)
        if s.bad:
            self.fail('help: ' + s.bad[0])
        lines = [text(ln).rstrip() for ln in s.lines]
        section, rows, examples, usage = '', [], [], []
        said = {}
        for ln in lines:
            if re.fullmatch('[A-Z0-9][A-Z0-9 -]*', ln):
                section = ln
                continue
            m = re.match(r'  (-\S+(?:, -\S+)*|<file>)( <\w+>)?(?:\s{2,}(.*))?$', ln)
            if m and section not in ('USAGE', 'EXAMPLES', 'EXAMPLE'):
                rows.append([m.group(1).split(', '), (m.group(2) or '').strip() or None, re.sub('\\s+', ' ', m.group(3) or ''), section])
            elif section.startswith('EXAMPLE') and ln.strip().startswith('kolombos '):
                examples.append(ln.strip())
                said[ln.strip()] = before
            elif section == 'USAGE' and ln.strip().startswith('kolombos '):
                usage.append(ln.strip())
            if ln.strip() and not ln.strip().startswith('kolombos '):
                before = ln.strip()
        type(self)._described = self._described or said
        return [r for r in rows if r[0] != ['<file>']], examples, usage, ''.join('\n'.join(lines).split())

    def meaning(self, row):
        """(option set key or None, class letter) that the description stands for; the kind of information."""
        d = row[2].lower().replace('⢸', '').replace('⡇', '')
        for k, v in INFORMATION:
            if k in d:
                return 'info', v
        for k, v in MEANING:
            if d.startswith(k) if v in ('focus', 'ignore') else k in d:
                if v in ('focus', 'ignore'):
                    for n, c in CLASSES:
                        if n in d:
                            return v, c
                    return None, None
                return v, None
        return None, None

    # ---------------------------------------------------------------- oracle
    def judge(self, case):
        getattr(self, case['kind'] + '_')(case)
        self.count('statements_' + case['kind'])
        self.nontrivial({k: v for k, v in case.items() if k != 'data'}, case.get('data'))

    def row_(self, case):
        rows = self.parsed()[0]
        if case['n'] >= len(rows):
            return
        row = rows[case['n']]
        what, arg = self.meaning(row)
        spelling = row[0][case['way'] % len(row[0])]
        if row[1] is None:
            if case['v'] == 0 and spelling.startswith('--'):
                self.bad({'argv': [spelling + '=1'], 'stdin': 'data'})
            if what == 'info':
                self.info_case({'argv': [spelling], 'want': arg, 'stdin': 'data'})
                return
            if what is None:
                self.run_ok([spelling], case['data'])
                return
            if case['v'] > 2:
                return
        o = Opt(b=True, w=8) if case['b'] else Opt()
        argv = ['-bw8'] if case['b'] else []
        if what == 'b':
            o = Opt(b=True, w=8)
            argv = ['-w8']
        elif what == ():
            o, argv = Opt(), []
        elif what in ('focus', 'ignore'):
            o[what] = arg
        elif what == 'w':
            o, argv = Opt(b=True, w=case['v']), ['-b']
        elif row[1] is not None and what:
            o[what] = case['v']
        elif what:
            o[what] = True
        if row[1] is not None:
            # the value is necessary, and can be separated by both
            if case['v'] == 0:
                self.bad({'argv': argv + [spelling], 'stdin': 'data'})
            v = str(case['v'])
            argv = argv + [[spelling, v], [spelling + '=' + v]][case['way'] // 2 % 2]
        else:
            argv = argv + [spelling]
        if what is None:
            self.run_ok(argv, case['data'])
            return
        if what == 'f' and not o.f:
            return
        self.spell({'o': o, 'argv': argv, 'src': 'stdin', 'data': case['data']})

    def table_(self, case):
        rows, examples, usage, _ = self.parsed()
        names = [n for r in rows for n in r[0]]
        if len(set(names)) != len(names):
            self.fail('options are listed twice: %s' % [n for n in names if names.count(n) > 1])
        for n in names:
            if not re.fullmatch('-[A-Za-z]|--[a-z][a-z0-9-]+', n):
                self.fail('listed option %s' % n)
        for n in set(c15.LONGS.values()) | set(c15.VALUED.values()) | set(c15.FLAGS.values()):
            if n not in names:
                self.fail('option %s is not listed in the help' % n)
        for k, n in [*c15.LONGS.items(), *c15.VALUED.items()]:
            if not any(r[0] == ['-' + k, n] for r in rows):
                self.fail('options -%s, %s are not listed together' % (k, n))
        self.count('options_listed', len(names))
        if len(examples) < 2 or len(usage) < 2:
            self.fail('usage %s, examples %s' % (usage, examples))
        for u in usage + examples:
            if len(re.findall(r'(?<!\S)kolombos ', u)) > 1 and '|' not in u:
                self.fail('the line %r is more than one command' % u)
        for r in rows:
            if not re.search('[a-z]{3}', r[2].lower().replace('default', '')):
                self.fail('option %s is listed without a description' % r[0])

    def usage_(self, case):
        rows, _, usage, _ = self.parsed()
        names = {n for r in rows for n in r[0]}
        for u in usage:
            for n in re.findall(r'(?<![\w-])--?[a-z][a-z-]*', u):
                if n not in names:
                    self.fail('usage %r has an option that is not listed' % u)
            if '[' not in u:
                self.run_ok(shlex.split(u)[1:], b'x')

    def registered_(self, case):
        """Options registered with the parser of the standard library, if it is used."""
        rd, wr = os.pipe()
        w2 = fcntl.fcntl(wr, fcntl.F_DUPFD, 100)
        try:
            def before(*_):
                old = argparse._ActionsContainer._add_action

                def add(self_, action):
                    os.write(w2, (' '.join(action.option_strings) + '\n').encode())
                    return old(self_, action)
                argparse._ActionsContainer._add_action = add
            self.run_ok(['--version'], b'', before=before)
            os.set_blocking(rd, False)
            try:
                got = os.read(rd, 1 << 16).decode().split()
            except BlockingIOError:
                got = []
        finally:
            for fd in (rd, wr, w2):
                os.close(fd)
        names = {n for r in self.parsed()[0] for n in r[0]}
        self.count('registrations_observed', len(got))
        for n in got:
            if n not in names:
                self.fail('option %s is accepted but not listed in the help' % n)

    def unknown_(self, case):
        name = case['name']
        names = {n for r in self.parsed()[0] for n in r[0]}
        if name in names or name.startswith('--') and any(n.startswith(name) for n in names):
            return          # abbreviations are understood
        if name[:1] == '-' and name[1:2].isdigit():
            return
        self.bad({'argv': [name], 'stdin': 'data'})

    def layout_(self, case):
        for flag in ('-h', '--help'):
            r = self.run_ok([flag], b'', env={'COLUMNS': str(case['cols'])})
            got = self.parse(r.out)[3]
            want = self.parsed()[3]
            if got != want:
                p = next((q for q in range(min(len(got), len(want))) if got[q] != want[q]), min(len(got), len(want)))
                self.fail('%s at %d columns differs from the one at 400 columns: %r / %r' % (flag, case['cols'], got[max(0, p - 20):p + 40], want[max(0, p - 20):p + 40]))

    def default_(self, case):
        rows, _, _, all_ = self.parsed()
        if case['n'] >= len(rows):
            return
        row = rows[case['n']]
        base = ['-bw8'] if case['b'] else []
        base += ['-' + 'D' * case['D']] if case['D'] else []
        m = re.search(r'\[default: (\d+)\]', row[2])
        if m:
            v = m.group(1)
            if '--buffer' in row[0] and case['D']:
                m = re.search(r'debugmodesets--buffersettingto(\d+)bytes', all_)
                v = m.group(1) if m else None
            extra = [['%s=%s' % (row[0][-1], v)]] if v else []
        elif 'this is a default' in row[2]:
            extra = [] if case['b'] else [[row[0][-1]]]
        else:
            extra = []
        if row[0][-1] == '--marker' and case['b'] and 'Binarymodedisables--marker' in all_:
            extra += [['--marker=%d' % k] for k in range(3)]
        for e in extra:
            for lim in ([], ['-L1'], ['-B10']):
                if lim == ['-L1'] and case['b']:
                    continue
                a, b = self.watched(base + lim, case['data']), self.watched(base + lim + e, case['data'])
                self.compare(case, base + lim, e, a, b)
                data = case['data']
                if lim and b'\n' in data:
                    data = (data * (1 + 20000 // len(data)))[:50000]        # more than any buffer
                a, b = self.watched_file(base + lim, data), self.watched_file(base + lim + e, data)
                self.compare(case, base + lim + ['file'], e, a, b)

    def compare(self, case, argv, e, a, b):
        self.count('defaults_compared')
        # the settings as such differ: given or not
        hide = lambda x: re.sub(rb'(?m)^.*(buffer|marker|text|filename).*$', b'', x) if case['D'] > 2 else x
        if (a[0], hide(a[1]), a[2]) != (b[0], hide(b[1]), b[2]):
            self.fail('`kolombos %s` differs from `kolombos %s`, %s is documented as the default: %s / %s, input read up to %d / %d' % (
                ' '.join(argv + e), ' '.join(argv), e[0], clip(repr(b[1]), 100), clip(repr(a[1]), 100), b[2], a[2]))

    def watched_file(self, argv, data):
        """A named pipe tells how much is left in it; there is no end of input, so only with a limit and enough data."""
        path = os.path.join(harness.scratch(), 'pipe-of-input')
        if not os.path.exists(path):
            os.mkfifo(path)
        if len(data) < 20000:
            with open(path + '.file', 'wb') as h:
                h.write(data)
            r = self.run_ok(argv + [path + '.file'], b'')
            return r.rc, r.out, 0
        fd = os.open(path, os.O_RDWR | os.O_NONBLOCK)
        try:
            os.write(fd, data)
            r = self.run_ok(argv + [path], b'')
            return r.rc, r.out, len(data) - struct.unpack('i', fcntl.ioctl(fd, termios.FIONREAD, b'\0' * 4))[0]
        finally:
            os.close(fd)

    def watched(self, argv, data):
        fd = harness.memfile(data)
        try:
            r = self.run_ok(argv, fds=(fd, None, None))
            return r.rc, r.out, os.lseek(fd, 0, os.SEEK_CUR)
        finally:
            os.close(fd)

    SAYS = ((r'text mode', 't'), (r'binary mode', 'b'), (r'(\d+) first bytes|first (\d+) bytes', 'B'), (r'(\d+) first lines|first (\d+) lines', 'L'), (r'(\d+) (?:bytes|columns|chars) per line', 'w'),
            (r'verbosity (\d)', 'm'), (r'decimal offsets', 'decoff'), (r'\bdemo\b', 'demo'), (r'annotation symbol list', 'legend'))

    def described(self, example, its, files):
        """The example does what the line above it says."""
        text_ = self._described.get(example, '')
        low = text_.lower()
        want, got = {}, {}
        for pat, k in self.SAYS:
            m = re.search(pat, low)
            if m:
                want[k] = next((int(g) for g in m.groups() if g), True) if m.groups() else True
        for part in re.split(r',(?! [a-z0-9-]+(?: [a-z]+)? and )|;', low):
            for verb, k in (('highlight', 'focus'), ('ignore', 'ignore'), ('hide', 'ignore')):
                if verb + ' ' in part:
                    names = part.split(verb, 1)[1]
                    cl = {c for n, c in (('whitespace', 's'), ('control char', 'c'), ('printable', 'p'), ('escape seq', 'e'), ('utf-8', 'u'), ('binary data', 'i')) if n in names}
                    want[k] = want.get(k, set()) | cl
        for r, v in its:
            if r is None:
                continue
            what, arg = self.meaning(r)
            if what == 'info':
                got[arg] = True
            elif what in ('focus', 'ignore'):
                got[what] = got.get(what, set()) | {arg}
            elif what == ():
                got['t'] = True
            elif what:
                got[what] = int(v) if r[1] and v.isdigit() else True
        bad = []
        for k in ('B', 'L', 'w', 'm', 'decoff', 'demo', 'legend', 'focus', 'ignore'):
            if want.get(k) != got.get(k):
                bad.append('%s: %s, options give %s' % (k, want.get(k), got.get(k)))
        if 't' in want and 'b' in got or 'b' in want and 'b' not in got and 'demo' not in got:
            bad.append('mode')
        if 'stdin' in low and files or 'read file' in low and not files:
            bad.append('source')
        if bad:
            self.fail('example %r is described as %r: %s' % (example, text_, bad))
        self.count('descriptions_compared', len(want))

    def levels_(self, case):
        """Every level of debugging says more, as often as the help says."""
        rows = self.parsed()[0]
        row = next((r for r in rows if '--debug' in r[0]), None)
        m = row and re.search(r'from (\d+) to (\d+) times, each level increases verbosity', row[2])
        if not m:
            return
        a, b = int(m.group(1)), int(m.group(2))
        base = (['-b'] if case['b'] else [])
        sizes = []
        for k in range(b + 1):
            spell = ([['-' + 'D' * k], ['-D'] * k, ['--debug'] * k][case['way'] % 3]) if k else []
            r = self.run_ok(base + spell, case['data'])
            sizes.append(sum(1 for ln in Screen(r.out).lines if text(ln).strip()))
        self.count('debug_levels_compared', b)
        if any(x >= y for x, y in zip(sizes[a - 1:], sizes[a:])):
            self.fail('debug levels 0 to %d print %s lines: not every level increases verbosity' % (b, sizes))

    def example_(self, case):
        rows, examples, _, _ = self.parsed()
        if case['n'] >= len(examples):
            return
        argv = shlex.split(examples[case['n']])[1:]
        o = Opt()
        info = None
        short = {r[0][0]: r for r in rows if len(r[0]) > 1}
        long_ = {r[0][-1]: r for r in rows}
        files = [a for a in argv if not a.startswith('-')]
        its = []
        for a in argv:
            if a.startswith('--'):
                its.append((long_.get(a.split('=')[0]), a.partition('=')[2]))
            elif a.startswith('-'):
                k = 1
                while k < len(a):
                    r = short.get('-' + a[k])
                    if r is not None and r[1]:
                        its.append((r, a[k + 1:].lstrip('=')))
                        break
                    its.append((r, ''))
                    k += 1
        self.described(examples[case['n']], its, files)
        for r, v in its:
            if r is None:
                self.fail('example %r uses an option that is not listed' % examples[case['n']])
            what, arg = self.meaning(r)
            if what == 'info':
                info = arg
            elif what in ('focus', 'ignore'):
                o[what] = o.get(what, '') + arg
            elif what is None:
                self.run_ok(argv if not files else [a for a in argv if a not in files], case['data'])
                return
            elif what:
                o[what] = int(v) if r[1] else True
        if info:
            if info == 'demo':
                for k, v in dict(b=True, d=True, w=16).items():
                    o.setdefault(k, v) if k not in o else None
            self.info_case({'argv': argv, 'want': info, 'stdin': 'data', **({'o': Opt({**dict(b=True, d=True, w=16), **o})} if info == 'demo' else {})})
            return
        dir_ = os.path.join(harness.scratch(), 'examples')
        os.makedirs(dir_, exist_ok=True)
        for f in files:
            with open(os.path.join(dir_, f), 'wb') as h:
                h.write(case['data'])
        r = self.run_ok(argv, b'wrong source\n' if files else case['data'], before=lambda *_: os.chdir(dir_))
        if r.err:
            self.fail('example %r: standard error %s' % (examples[case['n']], clip(r.err)))
        if o.b and not o.w:
            ref = Screen(self.run_ok(model.argv(o), case['data']).out).lines
        else:
            ref = self.expected(o, case['data'])
        self.compare_lines(Screen(r.out).lines, ref, 'example %r' % examples[case['n']])
