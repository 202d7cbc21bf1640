"""Renderers keep the text and express exactly the style."""
import re
import sys

from checks.pt import *

TMUX = {'blink': 'blink', 'bold': 'bold', 'crosslined': 'strikethrough', 'dim': 'dim', 'double_underlined': 'double-underscore',
        'inversed': 'reverse', 'italic': 'italics', 'overlined': 'overline', 'underlined': 'underscore'}
TMUX_OFF = {'nobold': ('bold',), 'nodim': ('dim',), 'noitalics': ('italics',), 'nounderscore': ('underscore', 'double-underscore'),
            'nodouble-underscore': ('double-underscore',),
            'noblink': ('blink',), 'noreverse': ('reverse',), 'nohidden': ('hidden',), 'nostrikethrough': ('strikethrough',),
            'nooverline': ('overline',), 'none': tuple(TMUX.values())}
TMUX_COLORS = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white']


def tmux_color(codes):
    if not codes:
        return 'default'
    if codes[0] in (38, 48):
        return 'color%d' % codes[2] if codes[1] == 5 else '#%02x%02x%02x' % tuple(codes[2:])
    c = codes[0] % 10
    return ('bright' if codes[0] >= 90 else '') + TMUX_COLORS[c]


class CHECK(Check):
    ID = 'C23'
    LIBRARY = True
    BUDGET = {'quick': 20, 'thorough': 400}
    RULE = ('random histories of renderer settings (styles forced, off or depending on the terminal, compatibility modes, default '
            'renderer) and of rendering random texts in random styles (inherited ones included) with every renderer, interpreted by '
            'terminal, tmux and HTML models; non-trivial: distinct style with text')

    def fixed(self):
        res = []
        cols = [None, ['name', 'red'], ['name', 'GREY'], ['name', 'hi_White'], ['c16', 0], ['c256', 16], ['c256', 208], ['hex', 0], ['rgb', 0xff3300], ['rgb', 0x010101]]
        for mode in (None, 256, 16, 'both'):
            ops = [['set', True, mode]]
            for fg in cols:
                for bg in cols:
                    d = {}
                    if fg:
                        d['fg'] = fg
                    if bg:
                        d['bg'] = bg
                    ops.append(['render', d, 'a\nb\n\nc'])
            res.append({'ops': ops})
            for name in COLOR_NAMES:
                res.append({'ops': [['set', True, mode], ['render', {'fg': ['name', name], 'inherit': {'bg': ['name', name.lower()]}}, 'text']]})
        for a in STYLE_CODES:
            for b in STYLE_CODES:
                ops = [['set', True, None], ['render', {a: True, b: True}, 'x\ny'], ['render', {a: True, b: False, 'inherit': {b: True, 'bg': ['c256', 100]}}, 'x'],
                       ['render', {'inherit': {a: True, 'inherit': {b: True, a: False, 'fg': ['c16', 3]}}}, 'z\r\n']]
                res.append({'ops': ops})
        # many attributes at once
        names = list(STYLE_CODES)
        for mode in (None, 256, 16):
            for fg in (None, ['c16', 3], ['rgb', 0x804020]):
                for bg in (None, ['c256', 200]):
                    base = {**({'fg': fg} if fg else {}), **({'bg': bg} if bg else {})}
                    res.append({'ops': [['set', True, mode], ['render', {**{a: True for a in names}, **base}, 'a\nb']] +
                                [['render', {**{a: True for a in names if a != b}, **base}, 'x'] for b in names] +
                                [['render', {**{a: True for a in names[k:]}, **base}, 'x\n'] for k in range(len(names))]})
        # control characters at the ends of lines
        for c in '\r\t\v\f\b\0\x1c\x85\xa0\u2028\u3000\ufeff ':
            for d in ({'fg': ['c16', 1]}, {'bold': True, 'bg': ['c256', 77]}, {}):
                ops = [['set', True, None]]
                for k in ('SgrRenderer', 'NoOpRenderer', 'HtmlRenderer', 'DebugRenderer', 'TmuxRenderer'):
                    ops += [['default', k]] + [['render', d, t] for t in ('a%sb%s' % (c, c), c, c + c, 'ab' + c + '\ncd' + c + '\n' + c, c + 'x\n' + c + 'y')]
                res.append({'ops': ops})
        d = {'bold': True, 'fg': ['rgb', 0x123456], 'bg': ['c256', 77]}
        for f1 in (True, None, False):
            for tty in (True, False):
                for m in (None, 256, 16, 'both'):
                    res.append({'ops': [['tty', tty], ['set', f1, m], ['render', d, 'q'], ['set', True, None], ['render', d, 'q'], ['set', f1, m], ['default', 'DebugRenderer'],
                                        ['render', d, 'w'], ['tty', not tty], ['render', d, 'w'], ['default', None], ['render', d, 5]]})
        for text in ('word\n' * 20000, 'x' * 150000, '日本語 \r\n' * 12000, '\n' * 70000, 'a\n\n' * 600 + 'b'):
            for mode in (None, 16):
                res.append({'ops': [['set', True, mode], ['render', d, text], ['render', {'underlined': True}, text], ['render', {}, text], ['set', False, None], ['render', d, text]], 'big': True})
        return res

    def generate(self, rng, i):
        ops = []
        for _ in range(gen.pick(rng, 2, 5, rng.randint(1, 20))):
            r = rng.random()
            if r < .2:
                ops.append(['set', gen.pick(rng, True, True, True, None, False), gen.pick(rng, None, 256, 16, 'both')])
            elif r < .27:
                ops.append(['tty', rng.random() < .5])
            elif r < .33:
                ops.append(['default', gen.pick(rng, None, 'SgrRenderer', 'NoOpRenderer', 'HtmlRenderer', 'DebugRenderer', 'TmuxRenderer')])
            else:
                ops.append(['render', any_style(rng), gen.pick(rng, None, 0, -1.5, True, anytext(rng), anytext(rng), anytext(rng), anytext(rng))])
        if rng.random() < .8:
            ops.insert(0, ['set', True, gen.pick(rng, None, 256, 16, 'both')])
        return {'ops': ops}

    def judge(self, case):
        from pytermor import render as R
        R.SgrRenderer.set_up()
        R.RendererManager.set_up()
        saved = sys.stdout
        sys.stdout = Tty(False)
        try:
            self.history(R, case)
        finally:
            sys.stdout = saved
            R.SgrRenderer.set_up()
            R.RendererManager.set_up()

    def history(self, R, case):
        force, mode, default, tty = False, None, 'SgrRenderer', False
        for step, op in enumerate(case['ops']):
            what = 'step %d %s' % (step + 1, clip(op, 200))
            if op[0] == 'set':
                force, mode = op[1], op[2]
                kw = {}
                if mode in (256, 'both'):
                    kw['compatibility_256_colors'] = True
                if mode in (16, 'both'):
                    kw['compatibility_16_colors'] = True
                R.SgrRenderer.set_up(force, **kw)
                self.count('reconfigurations')
                if mode == 'both':
                    mode = 16
            elif op[0] == 'tty':
                tty = op[1]
                sys.stdout.tty = tty
            elif op[0] == 'default':
                R.RendererManager.set_up(getattr(R, op[1]) if op[1] else None)
                default = op[1] or 'SgrRenderer'
                if R.RendererManager.get_default() is not getattr(R, default):
                    self.fail(what + ': default renderer is %r' % R.RendererManager.get_default())
            else:
                on = force is True or (force is False and tty)
                self.one(R, op[1], op[2], on, mode, default, what + ' (styles %s, mode %s, terminal %s)' % (force, mode, tty))

    def one(self, R, d, value, on, mode, default, what):
        text = str(value)
        self.nontrivial(d, text, mode, on)
        full = resolve(d)
        style = make_style(d)
        self.properties(style, d, what)
        if R.SgrRenderer.is_sgr_usage_allowed() != on:
            self.fail(what + ': is_sgr_usage_allowed() gives %r' % R.SgrRenderer.is_sgr_usage_allowed())
        outs = {n: getattr(R, n).render(value, style) for n in ('SgrRenderer', 'NoOpRenderer', 'HtmlRenderer', 'DebugRenderer', 'TmuxRenderer')}
        self.count('renderings', len(outs))
        if any(not isinstance(o, str) for o in outs.values()):
            self.fail(what + ': not a string: %r' % outs)
        codes = style_codes(d, mode)
        out = outs['SgrRenderer']
        if not on or not codes:
            if out != text:
                self.fail(what + ': SgrRenderer gives %r with styling off' % out)
        else:
            styled_cells(self, out, [(text, codes)], what + ': SgrRenderer')
        if outs['NoOpRenderer'] != text:
            self.fail(what + ': NoOpRenderer gives %r' % outs['NoOpRenderer'])
        dbg = outs['DebugRenderer']
        if '\x1b' in dbg:
            self.fail(what + ': DebugRenderer gives %r' % dbg)
        styled_cells(self, re.sub(r'\|ǝ([0-9;]*)\|', '\x1b[\\1m', dbg), [(text, codes)], what + ': DebugRenderer')
        self.html(outs['HtmlRenderer'], full, text, what)
        self.tmux(outs['TmuxRenderer'], full, text, mode, on, what)
        # indirect ways
        for way, got in (('Text.render', R.Text(value, style).render()), ('Style.render', style.render(value)), ('str', str(style.text(value)))):
            if value is None:
                if re.sub(r'<[^>]*>', '', got).strip():
                    self.fail('%s: %s of None gives %r' % (what, way, got))
                continue
            if default == 'HtmlRenderer':
                self.html(got, full, text, '%s: %s' % (what, way))
            elif got != outs[default]:
                self.fail('%s: %s gives %r, %s %r' % (what, way, got, default, outs[default]))
        # rendering changed nothing
        self.properties(style, d, what + ' after rendering')
        if R.SgrRenderer.render(value) != text or R.NoOpRenderer.render(value) != text:
            self.fail(what + ': rendering without style changes the text')

    def properties(self, style, d, what):
        full = resolve(d)
        for a in list(STYLE_CODES) + ['class_name']:
            want = full.get(a)
            got = getattr(style, a)
            if got is not want and got != want:
                self.fail('%s: %s of the style is %r, must be %r' % (what, a, got, want))
        for c in ('fg', 'bg'):
            got = getattr(style, c)
            if got.hex_value != color_hex(full.get(c)) or list(got.to_sgr(bg=c == 'bg').params) != color_codes(full.get(c), c == 'bg', None):
                self.fail('%s: %s of the style is %r, must be %r' % (what, c, got, full.get(c)))

    def html(self, out, full, text, what):
        m = re.match(r'<span([^>]*)>', out)
        if not m or not out.endswith('</span>') or out[m.end():-7] != text:
            self.fail('%s: HtmlRenderer gives %r' % (what, clip(out)))
        attrs = dict(re.findall(r'([a-z]+)="([^"]*)"', m.group(1)))
        if attrs.get('class') != full.get('class_name'):
            self.fail('%s: class is %r' % (what, attrs.get('class')))
        got = {}
        for decl in attrs.get('style', '').split(';'):
            if decl.strip():
                k, v = decl.split(':', 1)
                got[k.strip()] = set(v.split())
        want = {}
        fg, bg = color_hex(full.get('fg')), color_hex(full.get('bg'))
        if full.get('inversed'):
            fg, bg = bg, fg
        if fg is not None:
            want['color'] = {'#%06x' % fg}
        if bg is not None:
            want['background-color'] = {'#%06x' % bg}
        if full.get('blink'):
            want['border'] = {'1px', 'dotted'}
        if full.get('bold'):
            want['font-weight'] = {'700'}
        if full.get('dim'):
            want['filter'] = {'saturate(0.5)', 'brightness(0.75)'}
        if full.get('italic'):
            want['font-style'] = {'italic'}
        deco = set()
        for a, v in (('crosslined', ['line-through']), ('double_underlined', ['underline', 'double']), ('overlined', ['overline']), ('underlined', ['underline'])):
            if full.get(a):
                deco.update(v)
        if deco:
            want['text-decoration'] = deco
        if got != want:
            self.fail('%s: HtmlRenderer gives style %r, must be %r' % (what, got, want))

    def tmux(self, out, full, text, mode, on, what):
        if not on:
            if out != text:
                self.fail('%s: TmuxRenderer gives %r with styling off' % (what, clip(out)))
            return
        want = ({v for a, v in TMUX.items() if full.get(a)}, tmux_color(color_codes(full.get('fg'), False, mode)), tmux_color(color_codes(full.get('bg'), False, mode)))
        attrs, fg, bg = set(), 'default', 'default'
        shown = []
        # the text may contain the very syntax, thus it is followed as well
        pos, k = 0, 0
        default = (set(), 'default', 'default')
        pending = False
        clean = True
        while pos < len(out):
            m = re.compile(r'#\[([^\]]*)\]').match(out, pos)
            if m and not text[k:].startswith(m.group()):
                for w in re.split(r'[ ,]+', m.group(1)):
                    if w.startswith('fg='):
                        fg = w[3:]
                    elif w.startswith('bg='):
                        bg = w[3:]
                    elif w in TMUX.values():
                        attrs = attrs | {w}
                    elif w in TMUX_OFF:
                        attrs = attrs - set(TMUX_OFF[w])
                    elif w == 'default':
                        attrs, fg, bg = set(), 'default', 'default'
                    else:
                        self.fail('%s: TmuxRenderer gives unknown style %r' % (what, w))
                clean = clean or (attrs, fg, bg) == default
                pos = m.end()
                continue
            ch = out[pos]
            if ch == '\n':
                pending = True
            else:
                if pending and not clean:
                    self.fail('%s: TmuxRenderer does not close the style between lines: %r' % (what, clip(out)))
                pending = False
                if ch not in '\r\n' and (attrs, fg, bg) != want:
                    self.fail('%s: TmuxRenderer: %r is shown as %r, must be %r: %r' % (what, ch, (attrs, fg, bg), want, clip(out)))
                clean = (attrs, fg, bg) == default
            shown.append(ch)
            k += 1
            pos += 1
        if ''.join(shown) != text:
            self.fail('%s: TmuxRenderer gives text %r' % (what, clip(''.join(shown))))
        if (attrs, fg, bg) != default:
            self.fail('%s: TmuxRenderer leaves %r' % (what, (attrs, fg, bg)))
