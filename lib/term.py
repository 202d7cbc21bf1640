"""Terminal model: interprets output text the way a terminal does.

State = (fg, bg, flags): fg/bg is None (default), ('p', n) for the 16 colour palette, ('i', n) for an indexed
colour, ('rgb', r, g, b); flags is a frozenset of attribute names.
"""
import re
from functools import lru_cache

DEFAULT = (None, None, frozenset())

ON = {1: 'bold', 2: 'dim', 3: 'italic', 4: 'underline', 5: 'blink', 6: 'blinkfast', 7: 'inverse', 8: 'hidden',
      9: 'crossed', 21: 'dunderline', 53: 'overline'}
OFF = {22: ('bold', 'dim'), 23: ('italic',), 24: ('underline', 'dunderline'), 25: ('blink', 'blinkfast'),
       27: ('inverse',), 28: ('hidden',), 29: ('crossed',), 55: ('overline',)}


@lru_cache(maxsize=200000)
def apply(state, codes):
    """Apply a tuple of SGR codes to a state. Unknown codes are ignored."""
    fg, bg, flags = state
    flags = set(flags)
    if not codes:
        codes = (0,)
    i, n = 0, len(codes)
    while i < n:
        c = codes[i]
        i += 1
        if c == 0:
            fg, bg, flags = None, None, set()
        elif c in ON:
            flags.add(ON[c])
        elif c in OFF:
            flags.difference_update(OFF[c])
        elif 30 <= c <= 37:
            fg = ('p', c - 30)
        elif 40 <= c <= 47:
            bg = ('p', c - 40)
        elif 90 <= c <= 97:
            fg = ('p', c - 82)
        elif 100 <= c <= 107:
            bg = ('p', c - 92)
        elif c == 39:
            fg = None
        elif c == 49:
            bg = None
        elif c in (38, 48):
            if i + 1 < n and codes[i] == 5:
                col = ('i', codes[i + 1])
                i += 2
            elif i + 3 < n and codes[i] == 2:
                col = ('rgb',) + tuple(codes[i + 1:i + 4])
                i += 4
            else:
                break      # malformed: terminals drop the rest
            if c == 38:
                fg = col
            else:
                bg = col
    return fg, bg, frozenset(flags)


def style(*codes):
    """State reached from the default one (no codes: default)."""
    return apply(DEFAULT, tuple(codes)) if codes else DEFAULT


SGR = re.compile(r'\x1b\[([0-9;]*)m')
CTRL = re.compile('[\x00-\x08\x0b-\x1f\x7f-\x9f]')


class Screen:
    """lines: list of lines; a line is a list of [text, state] runs, adjacent runs have different states.
    The last line is what follows the last line feed. eol: state at every line feed."""

    def __init__(self, data, strict=True):
        self.bad = []
        if isinstance(data, bytes):
            try:
                text = data.decode('utf-8')
            except UnicodeDecodeError as e:
                self.bad.append('output is not UTF-8: %s' % e)
                text = data.decode('utf-8', errors='replace')
        elif isinstance(data, str):
            text = data
        else:
            self.bad.append('output is not text but %r' % (data,))
            text = ''
        self.text = text
        self.lines = []
        self.eol = []
        cur = []
        state = DEFAULT
        pos = 0
        seq_max = 0
        for m in SGR.finditer(text):
            if m.start() > pos:
                cur = self._put(cur, text[pos:m.start()], state)
            p = m.group(1)
            state = apply(state, tuple(int(x[:4000]) if x else 0 for x in p.split(';')) if p else ())
            pos = m.end()
            seq_max += 1
        if pos < len(text):
            cur = self._put(cur, text[pos:], state)
        self.lines.append(cur)
        self.final = state
        self.sgrs = seq_max

    def _put(self, cur, s, state):
        m = CTRL.search(s)
        if m:
            self.bad.append('control character %r in output near %r' % (m.group(), s[max(0, m.start() - 10):m.end() + 10]))
        parts = s.split('\n')
        for k, part in enumerate(parts):
            if k:
                self.lines.append(cur)
                self.eol.append(state)
                cur = []
            if part:
                add(cur, part, state)
        return cur

    def plain(self):
        return ['' .join(t for t, _ in ln) for ln in self.lines]


def add(line, text, state):
    if line and line[-1][1] == state:
        line[-1][0] += text
    elif text:
        line.append([text, state])


def cells(line):
    return [(ch, st) for t, st in line for ch in t]


def text(line):
    return ''.join(t for t, _ in line)


def show(line):
    return ' '.join('%r{%s}' % (t, show_state(st)) for t, st in line)


def show_state(st):
    fg, bg, fl = st
    r = []
    if fg:
        r.append('fg=' + ':'.join(map(str, fg)))
    if bg:
        r.append('bg=' + ':'.join(map(str, bg)))
    r += sorted(fl)
    return ','.join(r) or '-'
