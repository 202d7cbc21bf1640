"""Executable specification of the ordinary (non-debug) output, independent of /repo.

Sources: README, --help, --legend of the application.
"""
from .term import style, add, DEFAULT

CLASSES = ('control', 'esc', 'space', 'utf8', 'binary', 'printable')
CLASS_OF = {'ctl': 'control', 'nul': 'control', 'bs': 'control', 'esc': 'control', 'del': 'control',
            'sgr0': 'esc', 'sgr': 'esc', 'csi': 'esc', 'nf': 'esc', 'fp': 'esc', 'fe': 'esc', 'fs': 'esc',
            'tab': 'space', 'nl': 'space', 'vt': 'space', 'ff': 'space', 'cr': 'space', 'sp': 'space',
            'utf8': 'utf8', 'bin': 'binary', 'pr': 'printable'}
ESC_KINDS = ('sgr0', 'sgr', 'csi', 'nf', 'fp', 'fe', 'fs')

# ------------------------------------------------------------------ tokens


def utf8_len(d, i):
    """Length of the well-formed UTF-8 multi-byte sequence at i (Unicode table 3-7), or 0."""
    b, n = d[i], len(d)
    if 0xc2 <= b <= 0xdf:
        need, lo, hi = 1, 0x80, 0xbf
    elif b == 0xe0:
        need, lo, hi = 2, 0xa0, 0xbf
    elif 0xe1 <= b <= 0xec or b in (0xee, 0xef):
        need, lo, hi = 2, 0x80, 0xbf
    elif b == 0xed:
        need, lo, hi = 2, 0x80, 0x9f
    elif b == 0xf0:
        need, lo, hi = 3, 0x90, 0xbf
    elif 0xf1 <= b <= 0xf3:
        need, lo, hi = 3, 0x80, 0xbf
    elif b == 0xf4:
        need, lo, hi = 3, 0x80, 0x8f
    else:
        return 0
    if i + need > n - 1:
        return 0
    if not lo <= d[i + 1] <= hi:
        return 0
    for k in range(2, need + 1):
        if not 0x80 <= d[i + k] <= 0xbf:
            return 0
    return need + 1


SIMPLE = {0x00: 'nul', 0x08: 'bs', 0x09: 'tab', 0x0a: 'nl', 0x0b: 'vt', 0x0c: 'ff', 0x0d: 'cr', 0x20: 'sp',
          0x7f: 'del'}


def tokens(d):
    """Yield (kind, bytes) of the documented grammar."""
    i, n = 0, len(d)
    while i < n:
        b = d[i]
        if b >= 0x80:
            k = utf8_len(d, i)
            if k:
                yield 'utf8', d[i:i + k]
                i += k
            else:
                yield 'bin', d[i:i + 1]
                i += 1
        elif b == 0x1b:
            kind, j = _escape(d, i, n)
            yield kind, d[i:j]
            i = j
        elif b in SIMPLE:
            yield SIMPLE[b], d[i:i + 1]
            i += 1
        elif b < 0x20:
            yield 'ctl', d[i:i + 1]
            i += 1
        else:
            j = i + 1
            while j < n and 0x21 <= d[j] <= 0x7e:
                j += 1
            yield 'pr', d[i:j]
            i = j


def _escape(d, i, n):
    if i + 1 >= n:
        return 'esc', i + 1
    b = d[i + 1]
    if b == 0x5b:
        j = i + 2
        while j < n and 0x30 <= d[j] <= 0x3f:
            j += 1
        p = d[i + 2:j]
        while j < n and 0x20 <= d[j] <= 0x2f:
            j += 1
        if j < n and 0x40 <= d[j] <= 0x7e:
            if d[j] == 0x6d:
                return ('sgr0' if p in (b'', b'0') else 'sgr'), j + 1
            return 'csi', j + 1
        return 'fe', i + 2
    if 0x20 <= b <= 0x2f:
        j = i + 2
        while j < n and 0x20 <= d[j] <= 0x2f:
            j += 1
        if j < n and 0x30 <= d[j] <= 0x7e:
            return 'nf', j + 1
        return 'esc', i + 1
    if 0x30 <= b <= 0x3f:
        return 'fp', i + 2
    if 0x40 <= b <= 0x5f:
        return 'fe', i + 2
    if 0x60 <= b <= 0x7e:
        return 'fs', i + 2
    return 'esc', i + 1


def incomplete_tail(d):
    """Length of the longest tail that more input could turn into (part of) a longer token."""
    n = len(d)
    best = 0
    for k in range(1, min(3, n) + 1):
        t = d[n - k:]
        if t[0] >= 0xc2 and any(utf8_len(t + x, 0) > k for x in
                                (b'\x80', b'\xa0', b'\x90', b'\x80\x80', b'\xa0\x80', b'\x90\x80', b'\x80\x80\x80', b'\x90\x80\x80')):
            best = max(best, k)
    e = d.rfind(b'\x1b')
    if e >= 0:
        t = d[e:]
        if len(t) == 1 or (_escape(t + b'm', 0, len(t) + 1)[1] == len(t) + 1
                           and _escape(t, 0, len(t))[1] != len(t)) or t == b'\x1b[':
            best = max(best, len(t))
    return best

# ------------------------------------------------------------------ markers


GLYPH = {'ctl': 'Ɐ', 'nul': 'Ø', 'bs': '←', 'del': '→', 'esc': '∌', 'tab': '⇥', 'nl': '↵', 'vt': '⤓', 'ff': '↡',
         'cr': '⇤', 'sp': '␣', 'sgr0': 'θ', 'sgr': 'ǝ', 'csi': 'Ͻ', 'nf': 'ꟻ', 'fp': 'ꟼ', 'fe': 'Ǝ', 'fs': 'Ꙅ'}
BASE = {'ctl': (31,), 'nul': (91,), 'bs': (31,), 'del': (31,), 'esc': (93,),
        'tab': (96,), 'nl': (96,), 'vt': (96,), 'ff': (96,), 'cr': (96,), 'sp': (96,),
        'sgr0': (38, 5, 255, 48, 5, 16), 'sgr': (38, 5, 210, 48, 5, 16), 'csi': (92,), 'nf': (32,), 'fp': (33,),
        'fe': (33,), 'fs': (33,), 'utf8': (94,), 'bin': (35,), 'pr': (38, 5, 102)}
FOCUS = {k: (46, 30) for k in ('tab', 'nl', 'vt', 'ff', 'cr', 'sp')}
FOCUS['pr'] = (47, 30)
IGNORED = style(90, 2)
DETAILS = (48, 5, 16, 4)
SEP = style(38, 5, 255)
GREEN, CYAN = style(32), style(36)
ALLOWED = {2, 3, 9, 53} | set(range(30, 38)) | set(range(40, 48)) | set(range(90, 98)) | set(range(100, 108))
CARET = {c: chr(c + 64) for c in range(1, 32)}


class Opt(dict):
    """Options of a run; missing ones have their default value."""
    DEFAULTS = dict(b=False, d=False, w=None, focus='', ignore='', m=0, nosep=False, nolines=False, nooff=False,
                    decoff=False, color=False, f=None, L=0, B=0, D=0)

    def __getattr__(self, k):
        return self[k] if k in self else self.DEFAULTS[k]


LETTER = {'control': 'c', 'esc': 'e', 'space': 's', 'utf8': 'u', 'binary': 'i', 'printable': 'p'}
LONG = {v: k for k, v in LETTER.items()}


def mode_of(o, kind):
    letter = LETTER[CLASS_OF[kind]]
    if letter in o.ignore:
        return 'ignored'
    if letter in o.focus:
        return 'focused'
    return 'default'


def parse_params(tok):
    """SGR parameters of a sequence: ints, or str when not a plain number."""
    j = 2
    while 0x30 <= tok[j] <= 0x3f:
        j += 1
    res = []
    for p in tok[2:j].decode().split(';'):
        if not p:
            continue
        num = p.split(':')[0]
        res.append(int(num) if num.isdigit() and len(num) <= 4300 else p)
    return res


def sgr_info(tok):
    """(brief names, own codes) of an SGR sequence."""
    ps = parse_params(tok)
    names, own = [], []
    i = 0
    isint = lambda k, n: len(ps) >= k + n and all(isinstance(x, int) for x in ps[k:k + n])
    while i < len(ps):
        c = ps[i]
        i += 1
        if c in (38, 48):
            t = 'F' if c == 38 else 'B'
            if isint(i, 2) and ps[i] == 5:
                names.append('%s%d' % (t, ps[i + 1]))
                own += [c, 5, ps[i + 1]]
                i += 2
                continue
            if isint(i, 4) and ps[i] == 2:
                names.append('%s%06X' % (t, ps[i + 1] * 65536 + ps[i + 2] * 256 + ps[i + 3]))
                own += [c, *ps[i:i + 4]]
                i += 4
                continue
        elif c in ALLOWED:
            own.append(c)
        names.append(str(c))
    return names, tuple(own)


def details_base(kind):
    return () if kind == 'sgr' else BASE[kind]


def marker_style(kind, o):
    m = mode_of(o, kind)
    if m == 'ignored':
        return IGNORED
    if m == 'focused':
        return style(*FOCUS.get(kind, BASE[kind] + (7,)))
    return style(*BASE[kind])


def unit_text(kind, tok, o):
    """[(text, style), ...] of a token in text mode (line feed: without the line end itself)."""
    mode = mode_of(o, kind)
    st = marker_style(kind, o)
    if mode == 'ignored':
        return [('×' * len(tok), st)]
    if kind == 'pr':
        return [(tok.decode(), st)]
    if kind == 'utf8':
        ch = tok.decode()
        return [('▯' if '\x80' <= ch <= '\x9f' else ch, st)]
    if kind == 'bin':
        return [('Ḇ', st)]
    if kind == 'sp':
        return [('·' if mode == 'focused' else '␣', st)]
    if kind == 'tab':
        return [('⇥\t', st)]
    if kind == 'ctl':
        res = [('Ɐ', st)]
        if o.m == 1:
            res.append((CARET[tok[0]], style(*BASE['ctl'], *DETAILS)))
        elif o.m >= 2:
            res.append(('%02x' % tok[0], style(*BASE['ctl'], *DETAILS)))
        return res
    if kind in ESC_KINDS:
        dst = DETAILS
        own = ()
        names = []
        if kind == 'sgr':
            names, own = sgr_info(tok)
            if o.color:
                st = style(*own)
                dst = DETAILS + own
        else:
            dst = BASE[kind] + DETAILS
        res = [(GLYPH[kind], st)]
        if o.m == 1:
            for k, nm in enumerate(names):
                if k:
                    res.append(('･', style(*[c for c in dst], 24)))
                res.append((nm, style(*dst)))
        elif o.m >= 2:
            res.append((tok[1:].decode(), style(*dst)))
        if o.m >= 1 and not o.nosep:
            res = [('⢸', SEP)] + res + [('⡇', SEP)]
        return res
    return [(GLYPH[kind], st)]


def unit_binary(kind, tok, o):
    """[(char, style)] per byte of a token in binary mode."""
    mode = mode_of(o, kind)
    st = marker_style(kind, o)
    n = len(tok)
    if mode == 'ignored':
        return [('×', st)] * n
    if kind == 'pr':
        return [(ch, st) for ch in tok.decode()]
    if kind == 'utf8':
        if o.d:
            ch = tok.decode()
            if '\x80' <= ch <= '\x9f':
                ch = '▯'
            return [(x, st) for x in ch.rjust(n, '_')]
        return [('▯', st)] * n
    if kind == 'bin':
        return [('▯', st)]
    if kind == 'sp':
        return [('·' if mode == 'focused' else '␣', st)]
    if kind in ESC_KINDS:
        if kind == 'sgr':
            dst = DETAILS
            if o.color:
                own = sgr_info(tok)[1]
                st = style(*own)
                dst = DETAILS + own
        else:
            dst = BASE[kind] + DETAILS
        ds = style(*dst)
        return [(GLYPH[kind], st)] + [(ch, ds) for ch in tok[1:].decode()]
    return [(GLYPH[kind], st)]


# ------------------------------------------------------------------ layout


def cut(data, o):
    """The part of the input that is to be read under the limits."""
    end = len(data)
    if o.L > 0:
        p = -1
        for _ in range(o.L):
            p = data.find(b'\n', p + 1)
            if p < 0:
                break
        if p >= 0:
            end = min(end, p)
    if o.B > 0:
        end = min(end, o.B)
    return data[:end]


def text_lines(data, o):
    """Expected lines of text mode without prefixes: list of run lists."""
    lines, cur, any_ = [], [], False
    for kind, tok in tokens(data):
        any_ = True
        for t, st in unit_text(kind, tok, o):
            add(cur, t, st)
        if kind == 'nl':
            lines.append(cur)
            cur, any_ = [], False
    if any_:
        lines.append(cur)
    return lines


def text_screen(data, o):
    """Expected lines of the whole standard output in text mode (ordinary output, no limits applied)."""
    res = []
    for n, ln in enumerate(text_lines(data, o), 1):
        row = []
        if not o.nolines:
            add(row, '%2d' % n, GREEN)
            add(row, '│', CYAN)
        for t, st in ln:
            add(row, t, st)
        res.append(row)
    return res + [[], []]


def binary_cells(data, o):
    res = []
    for kind, tok in tokens(data):
        res += unit_binary(kind, tok, o)
    return res


def hex_digits(off):
    w = max(4, -(-len(str(off)) // 2) * 2)
    return '%0*x' % (w, off)


def offset_runs(row, off, o, st):
    if o.decoff:
        add(row, str(off).rjust(8), st)
    else:
        label = hex_digits(off)
        add(row, ' ' * (8 - 2 - len(label)), st)
        add(row, '0x', (st[0], st[1], st[2] | {'dim'}))
        add(row, label, st)
    add(row, '│', CYAN)


def auto_cols(width, decoff):
    """Documented bounds only are checked elsewhere; this is the value the layout uses."""
    prefix = len('\x1b[36m│\x1b[39m') + 8 + (0 if decoff else len('\x1b[2m\x1b[22m'))
    return max(1, (width - 2 - prefix - 1) // 17) * 4


def binary_screen(data, o, cols):
    cl = binary_cells(data, o)
    res = []
    for off in range(0, len(data), cols):
        row = []
        part = cl[off:off + cols]
        if not o.nooff:
            offset_runs(row, off, o, GREEN)
        for k, (_, st) in enumerate(part):
            add(row, ' %02x' % data[off + k], st)
        add(row, '   ' * (cols - len(part)) + ' ', DEFAULT)
        if o.nooff:
            add(row, ' ', DEFAULT)
        else:
            add(row, '│', CYAN)
        for ch, st in part:
            add(row, ch, st)
        res.append(row)
    if not o.nooff:
        row = []
        offset_runs(row, len(data), o, CYAN)
        res.append(row)
    return res + [[], []]


def argv(o):
    """Command line for a set of options."""
    a = []
    if o.b:
        a.append('-b')
    if o.d:
        a.append('-d')
    if o.w is not None:
        a.append('-w%d' % o.w if o.w >= 0 else '--columns=%d' % o.w)
    a += ['-' + c for c in o.focus]
    a += ['-' + c.upper() for c in o.ignore]
    if o.m:
        a.append('-m%d' % o.m)
    for k, n in (('nosep', '--no-separators'), ('nolines', '--no-line-numbers'), ('nooff', '--no-offsets'),
                 ('decoff', '--decimal-offsets'), ('color', '--color-markers')):
        if getattr(o, k):
            a.append(n)
    if o.f:
        a.append('-f%d' % o.f)
    if o.L:
        a.append('-L%d' % o.L)
    if o.B:
        a.append('-B%d' % o.B)
    if o.D:
        a.append('-' + 'D' * o.D)
    return a
