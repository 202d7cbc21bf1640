"""The legend's template language substitutes exactly; generating reproduces the shipped legend."""
import contextlib
import io
import os
import re
import shutil
import subprocess
import sys
import time

from checks.pt import *

NOTE = re.compile('# Generated at [ 0-9]\\d-\\w+-\\d\\d \\d\\d:\\d\\d')
LITERAL = ['a', 'text ', '{', '}', '#', '^', ':', '{}', '}#', '#{', '^{', ':{', '\\', '\\1', '%s', '$x', '\n', '\t', ' ', '─', 'ы', '🐍', '\x1b[31m', '^^', '::', '##', ';', 'bold', '^[red]', '^(red)', ': {a}', '^ {red}',
           '{a}', '#{x}', '{}#', '^}', '^{-}', '^{bold,red}', '^{a b}', ':{a-b}', ':{a b}', ':{}', ':{ }', '\\n', '&', '<b>', '\r', '\0']
UNKNOWN = ['zzz', '_x', 'bold_', 'redd', '', 'x1', '1x', 'Bold2', 'grey', 'ы', 'off', '__class__']
VARS = ['a', 'b', 'ver', 'fmt_1', 'X', 'имя', '_', '0', 'a1', 'red']
VALUES = ['', 'v', '^{red}', ':{a}', '#{}c{}#', '\\1\\g<0>', 'two\nlines', '\x1b[1m', 0, 17, 1.5, None, True, '{}', '}', 'ы']


def word(c):
    return c.isalnum() or c == '_'


def spaces(s, p):
    while p < len(s) and s[p].isspace():
        p += 1
    return p


def tag(s, p, first, inner):
    """End and contents of a tag <first>{ ... } that starts at p, or None."""
    if s[p:p + 2] != first + '{':
        return None
    a = q = spaces(s, p + 2)
    while q < len(s) and inner(s[q]):
        q += 1
    e = spaces(s, q)
    if s[e:e + 1] != '}':
        return None
    return e + 1, s[a:q]


def replaced(s, first, inner, f, empty):
    res, p = '', 0
    while p < len(s):
        t = tag(s, p, first, inner)
        if t and (t[1] or empty):
            x = f(t[1])
            res += s[p:t[0]] if x is None else x
            p = t[0]
        else:
            res += s[p]
            p += 1
    return res


def expected(s, variables):
    """The text that a template stands for, and the names that are unknown."""
    unknown = []
    out, p = '', 0
    while p < len(s):                       # comments, within a line
        if s.startswith('#{}', p):
            e = s.find('{}#', p + 3)
            if e >= 0 and '\n' not in s[p:e]:
                p = e + 3
                continue
        out += s[p]
        p += 1

    def fmt(x):
        codes = []
        for c in x.split(';') if x else ['0']:
            if c.isdecimal():
                codes.append(int(c))
            elif c.upper() in NAMES:
                codes.append(NAMES[c.upper()])
            else:
                unknown.append(x)
                return None
        return '\x1b[%sm' % ('' if codes == [0] else ';'.join(map(str, codes)))

    def var(x):
        if x not in variables:
            unknown.append(x)
            return None
        return str(variables[x])
    out = replaced(out, '^', lambda c: word(c) or c == ';', fmt, True)
    return replaced(out, ':', word, var, False), unknown


class CHECK(Check):
    ID = 'C34'
    LIBRARY = True
    BUDGET = {'quick': 20, 'thorough': 300}
    RULE = ('random templates through one template processor against an independent scanner; the generator of the legend run in a scratch copy of the sources '
            'under different terminals, environments, directories, previous legends and appended template lines; non-trivial: distinct templates with a tag, distinct runs')
    NOSHRINK = ('env', 'out', 'before', 'vars', 'cwd', 'sets')

    def fixed(self):
        v = {'x': '<^{red}:{x}>', 'a': 1}
        res = [{'tpl': [t], 'vars': v} for t in (
            'a^{}b', '^{ bold ; 31 }', '^{bold;31 }x', '^{1;}', '^{;}', '^{zzz}', '^{ }', '^{bold\n}', ':{x}', ':{ x }', ':{\nx}', '#{}a{}#', '#{}a\nb{}#', '#{}{}#', '#{}:{x}{}#^{red}', '#{}#{}a{}#{}#',
            '^:{x}{}', ':{y}', '^{:{x}}', '^{9999999}', '^{0}', '^{00}', '^{01}', '#{^{red}}a{}#', '^{38;5;3}', '^{#{}x{}#red}', ':#{}{}#{a}', '#{}a{}##{}b{}#', '#{}a{}#b#{}c{}#', '#{}a#{}b{}#', '^{}^{}', ':{x}:{x}',
            '^{red}:{a}', '#{}', '{}#', '#{}\n{}#', ':{a}:{b}:{a}', '', '\n', '\n\n\n', ':{a}' * 500, '^{red}x' * 500, '#{}c{}#x' * 500, 'x' * 100000)]
        res += [{'tpl': ['^{%s}' % n.lower()], 'vars': v} for n in NAMES]
        res.append({'tpl': [':{a}', ':{b}', ':{a}'], 'vars': {'a': 'x', 'b': 'y'}})
        ab = {'a': 'x', 'b': 'y'}
        res.append({'tpl': [':{a}:{b}'] * 6, 'vars': ab, 'sets': [ab, {'b': 'z'}, None, {'a': 'q'}, {'a': 'x', 'b': 'y'}, None]})
        res.append({'tpl': [':{a}:{b}:{c}'] * 5, 'vars': {'a': 1}, 'sets': [{'a': 1}, {'b': 2}, {'c': 3}, None, {'a': 4}]})
        for out in ('tty', 'pipe', 'file', 'null'):
            res.append({'out': out, 'env': {}, 'cwd': '', 'before': 'same', 'extra': ''})
        for k, e in enumerate(({'TERM': 'dumb'}, {'COLUMNS': '20'}, {'LC_ALL': 'C'}, {'PYTHONHASHSEED': '7'}, {'TZ': 'Asia/Tokyo'}, {'NO_COLOR': '1'}, {'COLORTERM': 'truecolor', 'TERM': 'xterm-256color'}, {'LC_ALL': 'ru_RU.UTF-8'},
                               {'PYTHONOPTIMIZE': '1'}, {'PYTHONUTF8': '0', 'LC_ALL': 'POSIX', 'PYTHONCOERCECLOCALE': '0'})):
            res.append({'out': ('pipe', 'tty')[k % 2], 'env': e, 'cwd': ('', 'dev', '/')[k % 3], 'before': ('same', 'none', 'other', 'long')[k % 4], 'extra': ''})
        res.append({'out': 'pipe', 'env': {}, 'cwd': '/', 'before': 'long', 'extra': ':{ver} ^{bold}x^{} #{}gone{}# :{fmt_cc}y :{ unknown } ^{unknown}\n'})
        return res

    def piece(self, rng):
        r = rng.random()
        ws = lambda: rng.choice(['', '', '', ' ', '   ', '\n', '\t'])
        if r < .35:
            return rng.choice(LITERAL)
        if r < .55:
            ns = [gen.pick(rng, anycase(rng, rng.choice(list(NAMES))), str(rng.randint(0, 110)), str(rng.randint(0, 110))) for _ in range(gen.pick(rng, 0, 1, 1, 2, 3, rng.randint(1, 8)))]
            if rng.random() < .12:
                ns.insert(rng.randint(0, len(ns)), rng.choice(UNKNOWN))
            return '^{' + ws() + ';'.join(ns) + ws() + '}'
        if r < .8:
            return ':{' + ws() + rng.choice(VARS if rng.random() < .9 else UNKNOWN) + ws() + '}'
        return '#{}' + ''.join(self.piece(rng) for _ in range(rng.randint(0, 2))) + '{}#'

    def template(self, rng):
        return ''.join(self.piece(rng) for _ in range(gen.pick(rng, 1, 2, 3, rng.randint(1, 40))))

    def generate(self, rng, i):
        if i % 400 == 399:
            ex = ''
            if rng.random() < .6:
                ex = re.sub(r'[\r\n\0]', ' ', self.template(rng)) + '\n'
            return {'out': rng.choice(['tty', 'pipe', 'file', 'null']), 'env': rng.choice([{}, {'TERM': 'dumb'}, {'COLUMNS': str(rng.randint(1, 300))}, {'PYTHONHASHSEED': str(rng.randint(0, 999))}, {'LANG': 'C'}]),
                    'cwd': rng.choice(['', 'dev', '/']), 'before': rng.choice(['same', 'none', 'other', 'long']), 'extra': ex}
        vs = {k: rng.choice(VALUES) for k in rng.sample(VARS, rng.randint(1, len(VARS)))}
        tpl = [self.template(rng) for _ in range(gen.pick(rng, 1, 1, 2, 3))]
        if rng.random() < .3:
            # one processor, changing sets of variables; None: the ones from before
            tpl += [self.template(rng) for _ in range(rng.randint(1, 5))]
            sets = [None if rng.random() < .3 else {k: rng.choice(VALUES) for k in rng.sample(VARS, rng.randint(1, 4))} for _ in tpl]
            return {'tpl': tpl, 'vars': vs, 'sets': [vs] + sets[1:]}
        return {'tpl': tpl, 'vars': vs}

    def judge(self, case):
        if 'tpl' in case:
            self.templates(case)
        else:
            self.generator(case)

    # ---------------------------------------------------------------- the language
    def templates(self, case):
        if os.path.join(harness.REPO, 'dev') not in sys.path:
            sys.path.append(os.path.join(harness.REPO, 'dev'))
        from es7s_tpl_processor import Es7sTemplateProcessor
        p = Es7sTemplateProcessor()
        now, sets = case['vars'], case.get('sets') or []
        copies = [dict(now)] + [x and dict(x) for x in sets[1:]]
        for n, t in enumerate(case['tpl']):
            if sets and n:
                given = copies[n] if n < len(copies) else None
                if given:
                    now = sets[n]
                    self.count('changes_of_variables')
            else:
                given = copies[0] if n == 0 or n % 2 else None
            want, unknown = expected(t, now)
            err, out = io.StringIO(), io.StringIO()
            with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
                got = p.substitute(t) if given is None else p.substitute(t, given)
            if got != want:
                q = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
                self.fail('template %r gives %r at %d, must be %r' % (clip(t), got[max(0, q - 20):q + 60], q, want[max(0, q - 20):q + 60]))
            if out.getvalue():
                self.fail('template %r: printed %r' % (clip(t), out.getvalue()[:200]))
            warn = term.Screen(err.getvalue())
            seen = ''.join(ch for ln in warn.lines for ch, _ in cells(ln))
            if bool(seen) != bool(unknown):
                self.fail('template %r: warnings %r, unknown names %s' % (clip(t), seen[:200], unknown))
            if seen.count('WARN') != len(unknown):
                self.fail('template %r: %d warnings for %d unknown names' % (clip(t), seen.count('WARN'), len(unknown)))
            for u in unknown:
                if '"%s"' % u not in seen:
                    self.fail('template %r: no warning about %r' % (clip(t), u))
            if copies[0] != case['vars'] or any(a != b for a, b in zip(copies[1:], sets[1:])):
                self.fail('the variables became %r' % copies)
            self.count('templates')
            self.count('unknown_names', len(unknown))
            if want != t:
                self.nontrivial(t)

    # ---------------------------------------------------------------- the generator
    def snapshot(self, d):
        res = {}
        for a, ds, fs in os.walk(d):
            ds[:] = [x for x in ds if x != '__pycache__']
            for f in fs:
                with open(os.path.join(a, f), 'rb') as h:
                    res[os.path.relpath(os.path.join(a, f), d)] = h.read()
        return res

    def generator(self, case):
        top = os.path.join(harness.scratch(), 'gen%d' % os.getpid())
        shutil.rmtree(top, ignore_errors=True)
        os.mkdir(top)
        try:
            for d in ('kolombos', 'pytermor', 'dev'):
                shutil.copytree(os.path.join(harness.REPO, d), os.path.join(top, d), ignore=shutil.ignore_patterns('__pycache__', 'diagrams'))
            path = os.path.join(top, 'kolombos', 'legend.ansi')
            shipped = open(path, encoding='utf8', newline='').read()
            tpl = os.path.join(top, 'dev', 'legend.tpl.ansi')
            if case['extra']:
                with open(tpl, 'a', encoding='utf8', newline='') as f:
                    f.write(case['extra'])
            if case['before'] == 'none':
                os.remove(path)
            elif case['before'] != 'same':
                with open(path, 'w') as f:
                    f.write('something else\n' * (2 if case['before'] == 'other' else 10000))
            before = self.snapshot(top)
            env = {'PATH': os.environ.get('PATH', ''), 'PYTHONPATH': top, 'PYTHONDONTWRITEBYTECODE': '1', 'TERM': 'xterm', 'LANG': 'C.UTF-8', **case['env']}
            fds = []
            try:
                if case['out'] == 'tty':
                    m, out = os.openpty()
                    fds += [m, out]
                elif case['out'] == 'file':
                    out = os.open(os.path.join(harness.scratch(), 'genout%d' % os.getpid()), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    fds.append(out)
                else:
                    out = subprocess.DEVNULL if case['out'] == 'null' else subprocess.PIPE
                cwd = case['cwd'] if case['cwd'] == '/' else os.path.join(top, case['cwd'])
                try:
                    r = subprocess.run([harness.PY, os.path.join(top, 'dev', 'generate_legend.py')], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.PIPE, timeout=120)
                except subprocess.TimeoutExpired:
                    self.fail('generating does not end')
            finally:
                for fd in fds:
                    os.close(fd)
            if r.returncode:
                self.fail('generating fails: %s' % r.stderr[-400:].decode(errors='replace'))
            after = self.snapshot(top)
            for f in set(before) | set(after):
                if f != 'kolombos/legend.ansi' and before.get(f) != after.get(f):
                    self.fail('generating has changed %s' % f)
            got = after.get('kolombos/legend.ansi', b'').decode('utf8')
            a, b = got.rpartition('\n'), shipped.rpartition('\n')
            if not NOTE.fullmatch(a[2]) or not NOTE.fullmatch(b[2]):
                self.fail('the last line of the legend is %r (shipped: %r)' % (a[2][:100], b[2][:100]))
            got, want = a[0] + a[1], b[0] + b[1]
            if case['extra']:
                if not got.startswith(want):
                    self.differs(got[:len(want)], want)
                import kolombos.version
                # presentation of the variables as in the other lines of the template
                vs = {'ver': kolombos.version.__version__, 'fmt_cc': '\x1b[1m'}
                ex, unknown = expected(case['extra'], vs)
                if got[len(want):] != ex:
                    self.fail('the line %r of the template becomes %r, must be %r' % (case['extra'], got[len(want):][:300], ex[:300]))
                if (b'WARN' in r.stderr) != bool(unknown):
                    self.fail('the line %r of the template: warnings %r, unknown names %s' % (case['extra'], r.stderr[-200:], unknown))
            else:
                self.differs(got, want)
                if r.stderr:
                    self.fail('generating warns: %r' % r.stderr[:300])
            self.count('legends_generated')
            self.count('legend_lines_compared', want.count('\n'))
            self.nontrivial(case)
        finally:
            shutil.rmtree(top, ignore_errors=True)

    def differs(self, got, want):
        if got == want:
            return
        x, y = got.split('\n'), want.split('\n')
        for n, (p, q) in enumerate(zip(x, y)):
            if p != q:
                k = next((k for k in range(min(len(p), len(q))) if p[k] != q[k]), min(len(p), len(q)))
                self.fail('line %d of the generated legend has %r, the shipped one %r' % (n + 1, p[max(0, k - 30):k + 60], q[max(0, k - 30):k + 60]))
        self.fail('the generated legend has %d lines, the shipped one %d' % (len(x), len(y)))
