"""Shared by the checks of the library part: documented tables, generators."""
from checks.common import *  # noqa: F401,F403
from lib import term

ATTR = {'BOLD': 1, 'DIM': 2, 'ITALIC': 3, 'UNDERLINED': 4, 'BLINK_SLOW': 5, 'BLINK_FAST': 6, 'INVERSED': 7, 'HIDDEN': 8,
        'CROSSLINED': 9, 'DOUBLE_UNDERLINED': 21, 'OVERLINED': 53}
OFF = {'BOLD_DIM_OFF': 22, 'ITALIC_OFF': 23, 'UNDERLINED_OFF': 24, 'BLINK_OFF': 25, 'INVERSED_OFF': 27, 'HIDDEN_OFF': 28,
       'CROSSLINED_OFF': 29, 'COLOR_OFF': 39, 'BG_COLOR_OFF': 49, 'OVERLINED_OFF': 55}
BASE = ['BLACK', 'RED', 'GREEN', 'YELLOW', 'BLUE', 'MAGENTA', 'CYAN', 'WHITE']
HI = ['GRAY'] + ['HI_' + n for n in BASE[1:]]
COLORS = {}
for _k, _n in enumerate(BASE):
    COLORS[_n] = 30 + _k
    COLORS['BG_' + _n] = 40 + _k
for _k, _n in enumerate(HI):
    COLORS[_n] = 90 + _k
    COLORS['BG_' + _n] = 100 + _k
SETTERS = {**ATTR, **COLORS}
NAMES = {'RESET': 0, **SETTERS, **OFF}
HARMLESS = [10, 11, 20, 26, 50, 51, 52, 54, 60, 65, 73, 75, 999]


def anycase(rng, name):
    r = rng.random()
    if r < .3:
        return name.lower()
    if r < .5:
        return name
    return ''.join(c.lower() if rng.random() < .5 else c.upper() for c in name)


def walk(codes):
    """[(kind, codes)] of a flat list; kind is the attribute group ('fg', 'bg', 'bold'...), 'reset', 'off' or None."""
    res = []
    i = 0
    codes = list(codes)
    while i < len(codes):
        c = codes[i]
        if c in (38, 48) and codes[i + 1:i + 2] == [5] and i + 2 < len(codes):
            res.append(('fg' if c == 38 else 'bg', codes[i:i + 3]))
            i += 3
            continue
        if c in (38, 48) and codes[i + 1:i + 2] == [2] and i + 4 < len(codes):
            res.append(('fg' if c == 38 else 'bg', codes[i:i + 5]))
            i += 5
            continue
        if c == 0:
            k = 'reset'
        elif c in OFF.values():
            k = 'off'
        elif 30 <= c <= 37 or 90 <= c <= 97:
            k = 'fg'
        elif 40 <= c <= 47 or 100 <= c <= 107:
            k = 'bg'
        elif c in (1, 2):
            k = 'bold'
        elif c in (4, 21):
            k = 'underline'
        elif c in (5, 6):
            k = 'blink'
        elif c in (3, 7, 8, 9, 53):
            k = {3: 'italic', 7: 'inverse', 8: 'hidden', 9: 'crossed', 53: 'overline'}[c]
        else:
            k = None
        res.append((k, [c]))
        i += 1
    return res


FLAGS = {'bold': ('bold', 'dim'), 'underline': ('underline', 'dunderline'), 'blink': ('blink', 'blinkfast'), 'italic': ('italic',),
         'inverse': ('inverse',), 'hidden': ('hidden',), 'crossed': ('crossed',), 'overline': ('overline',)}


def without(state, kinds):
    fg, bg, fl = state
    if 'fg' in kinds:
        fg = None
    if 'bg' in kinds:
        bg = None
    gone = {f for k in kinds for f in FLAGS.get(k, ())}
    return fg, bg, frozenset(fl - gone)


def setter_codes(rng, n, ext=True):
    """List of lists of codes, each complete."""
    res = []
    for _ in range(n):
        r = rng.random()
        if ext and r < .2:
            res.append([rng.choice((38, 48)), 5, channel(rng)])
        elif ext and r < .4:
            res.append([rng.choice((38, 48)), 2, channel(rng), channel(rng), channel(rng)])
        else:
            res.append([rng.choice(list(SETTERS.values()))])
    return res


def channel(rng):
    """Channel values that look like codes are frequent."""
    return gen.pick(rng, rng.randrange(256), rng.choice((0, 1, 2, 3, 4, 5, 38, 48, 39, 49, 22, 255, 7, 31, 44, 53, 107)))


WORDS = ['', ' ', 'a', 'text', 'Quick brown fox', 'línea', '日本語', 'x\ny', '\n', 'a\n\nb\n', 'tab\there', '<b>&amp;', '#[x]', '%s{}', '0', '🤡', '\r\nq',
         '\x1cab\x1c', 'a\x1d\x1eb', '\x0bq\x0c', 'n\x85', '\x85n', '\u2028z\u2029', 'nul\x00', '\x00', '\x00\x00', '\ufeffb', 'e\u0301', '\u200b', ' \t', '\xa0x\xa0', '\r', '\x7f', '\x1f', '\u202eabc']


ABC = 'abcXYZ 012 .,-_\n\tж日é'
ABC_ODD = ABC + '\x00\x0b\x0c\r\x1c\x1d\x1e\x1f\x7f\x85\xa0\u200b\u2028\u2029\ufeff'


def anytext(rng):
    r = rng.random()
    if r < .5:
        return rng.choice(WORDS)
    return ''.join(rng.choice(ABC if r < .85 else ABC_ODD) for _ in range(gen.pick(rng, 1, 5, rng.randint(1, 60))))


# --- colours

def xterm(code):
    """Colour of an index of the 256-colour palette."""
    if code < 16:
        return SYSTEM[code]
    if code >= 232:
        return (8 + 10 * (code - 232)) * 0x010101
    code -= 16
    lv = [0, 95, 135, 175, 215, 255]
    return lv[code // 36] << 16 | lv[code // 6 % 6] << 8 | lv[code % 6]


SYSTEM = [0x000000, 0x800000, 0x008000, 0x808000, 0x000080, 0x800080, 0x008080, 0xc0c0c0, 0x808080, 0xff0000, 0x00ff00, 0xffff00,
          0x0000ff, 0xff00ff, 0x00ffff, 0xffffff]
PAL16 = [(h, (30 + k if k < 8 else 82 + k)) for k, h in enumerate(SYSTEM)]
PAL256 = [(xterm(c), c) for c in range(16, 256)]


def dist(a, b):
    return ((a >> 16) - (b >> 16)) ** 2 + ((a >> 8 & 255) - (b >> 8 & 255)) ** 2 + ((a & 255) - (b & 255)) ** 2


def nearest(palette, hexv):
    """First entry at the minimum distance."""
    return min(palette, key=lambda e: dist(e[0], hexv))


def anyhex(rng):
    r = rng.random()
    if r < .35:
        return rng.randrange(1 << 24)
    if r < .5:
        return rng.choice(PAL256)[0]
    if r < .6:
        return rng.choice(SYSTEM)
    if r < .75:      # halfway between two levels
        lv = [0, 47, 48, 95, 114, 115, 116, 135, 155, 175, 195, 215, 235, 255, 64, 127, 128, 160, 223, 224]
        return rng.choice(lv) << 16 | rng.choice(lv) << 8 | rng.choice(lv)
    if r < .85:
        return rng.randrange(256) * 0x010101
    h = rng.choice(PAL256)[0] + rng.choice((-1, 1, 0x100, -0x100, 0x10000, -0x10000, 0x20202))
    return h & 0xffffff


def isolated(check, fn):
    """Run fn in a forked process (class-wide state is changed there); failures and counters come back."""
    import os
    import pickle
    import signal
    from lib.engine import Hang, Violation
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_PROF, 20)
            os.close(rd)
            check.counts, check.maxima = {}, {}
            import traceback
            try:
                fn()
                res = None
            except Violation as e:
                res = str(e)
            except Hang:
                res = 'no end within 20 s of CPU time'
            except Exception as e:
                res = 'exception %r\n%s' % (e, traceback.format_exc(limit=-3))
            with os.fdopen(wr, 'wb') as f:
                pickle.dump((res, check.counts, check.maxima, check.seen), f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    res, counts, maxima, seen = pickle.loads(data)
    for k, v in counts.items():
        check.count(k, v)
    for k, v in maxima.items():
        check.peak(k, v)
    check.seen |= seen
    if res:
        check.fail(res)


# --- styles

STYLE_CODES = {'blink': 5, 'bold': 1, 'crosslined': 9, 'dim': 2, 'double_underlined': 21, 'inversed': 7, 'italic': 3, 'overlined': 53, 'underlined': 4}
COLOR_NAMES = {('GREY' if n == 'GRAY' else n): c for n, c in COLORS.items() if not n.startswith('BG_')}


def any_color(rng):
    r = rng.random()
    if r < .3:
        return None
    if r < .5:
        return ['name', anycase(rng, rng.choice(list(COLOR_NAMES)))]
    if r < .6:
        return ['c16', rng.randrange(16)]
    if r < .75:
        return ['c256', rng.randrange(16, 256)]
    return [rng.choice(('hex', 'rgb')), anyhex(rng)]


def any_style(rng, depth=0, classes=True):
    """Plain description of a style: {'fg', 'bg', attributes, 'class_name', 'inherit'}."""
    d = {}
    p = rng.choice((.05, .2, .5))
    for a in STYLE_CODES:
        if rng.random() < p:
            d[a] = rng.random() < .7
    for c in ('fg', 'bg'):
        v = any_color(rng)
        if v:
            d[c] = v
    if classes and rng.random() < .1:
        d['class_name'] = rng.choice(('cls', 'x-1', 'two words'))
    if depth < 3 and rng.random() < .3:
        d['inherit'] = any_style(rng, depth + 1, classes)
    return d


_BY_CODE = {}


def make_color(v):
    from pytermor import color
    if not _BY_CODE:
        for c in vars(color.Colors).values():
            if isinstance(c, (color.ColorIndexed16, color.ColorIndexed256)):
                _BY_CODE[tuple(c.to_sgr().params)] = c
    if v is None:
        return None
    if v[0] == 'rgb':
        return color.ColorRGB(v[1])
    if v[0] == 'c256':
        return _BY_CODE[(38, 5, v[1])]
    if v[0] == 'c16':
        return _BY_CODE[(PAL16[v[1]][1],)]
    return v[1]


def make_style(d, cache=None):
    from pytermor.render import Style
    if d is None:
        return None
    kw = {k: v for k, v in d.items() if k in STYLE_CODES or k == 'class_name'}
    for c in ('fg', 'bg'):
        if d.get(c):
            kw[c] = make_color(d[c])
    if d.get('inherit') is not None:
        return Style(make_style(d['inherit']), **kw)
    return Style(**kw)


def resolve(d):
    """The same with everything inherited: attributes, colours, class name; unset ones are absent."""
    res = resolve(d['inherit']) if d.get('inherit') is not None else {}
    res = dict(res)
    res.update({k: v for k, v in d.items() if k != 'inherit'})
    return res


def color_codes(v, bg, mode):
    """SGR codes of a colour in mode None, 256 or 16."""
    if v is None:
        return []
    if v[0] in ('name', 'c16'):
        c = COLOR_NAMES[v[1].upper()] if v[0] == 'name' else PAL16[v[1]][1]
        return [c + 10 * bg]
    if v[0] == 'c256':
        if mode == 16:
            return [nearest(PAL16, xterm(v[1]))[1] + 10 * bg]
        return [48 if bg else 38, 5, v[1]]
    if mode == 16:
        return [nearest(PAL16, v[1])[1] + 10 * bg]
    if mode == 256:
        return [48 if bg else 38, 5, nearest(PAL256, v[1])[1]]
    return [48 if bg else 38, 2, v[1] >> 16, v[1] >> 8 & 255, v[1] & 255]


def color_hex(v):
    if v is None:
        return None
    if v[0] == 'name':
        return {c: h for h, c in PAL16}[COLOR_NAMES[v[1].upper()]]
    return PAL16[v[1]][0] if v[0] == 'c16' else xterm(v[1]) if v[0] == 'c256' else v[1]


def style_codes(d, mode=None):
    if d is None:
        return []
    d = resolve(d)
    res = [c for a, c in STYLE_CODES.items() if d.get(a)]
    return res + color_codes(d.get('fg'), False, mode) + color_codes(d.get('bg'), True, mode)


def styled_cells(check, out, runs, what):
    """out, printed on a terminal in the default state, shows exactly the runs [(text, codes)], each line closed."""
    want = [(ch, term.style(*codes)) for text, codes in runs for ch in text]
    got = []
    state = term.DEFAULT
    closed = True           # default state was reached after the last visible character or line end
    pos = 0
    line_open = False
    for m in list(term.SGR.finditer(out)) + [None]:
        for ch in out[pos:m.start() if m else len(out)]:
            if ch == '\n':
                line_open = True
            elif line_open:
                if not closed and state != term.DEFAULT:
                    check.fail('%s: the style is not closed between lines: %r' % (what, clip(out)))
                line_open = False
            if ch != '\n':
                closed = state == term.DEFAULT
            got.append((ch, state))
        if m:
            p = m.group(1)
            state = term.apply(state, tuple(int(x or 0) for x in p.split(';')) if p else ())
            closed = closed or state == term.DEFAULT
            pos = m.end()
    if ''.join(c for c, _ in got) != ''.join(c for c, _ in want):
        check.fail('%s: the text is %r, must be %r' % (what, clip(''.join(c for c, _ in got)), clip(''.join(c for c, _ in want))))
    for k, (g, w) in enumerate(zip(got, want)):
        if g[0] not in '\r\n' and g != w:
            check.fail('%s: character %d %r is shown as %s, must be %s: %r' % (what, k, g[0], term.show_state(g[1]), term.show_state(w[1]), clip(out)))
    if state != term.DEFAULT:
        check.fail('%s: the terminal is left in state %s: %r' % (what, term.show_state(state), clip(out)))
    check.count('styled_characters', len(got))


class Tty:
    """Stand-in for standard output."""

    def __init__(self, tty):
        self.tty = tty

    def isatty(self):
        return self.tty

    def write(self, s):
        return len(s)

    def flush(self):
        pass
