"""Colour conversion and approximation."""
import colorsys
import logging

from checks.pt import *

BLOCK = 4096


class CHECK(Check):
    ID = 'C22'
    LIBRARY = True
    BUDGET = {'quick': 20, 'thorough': 600}
    RULE = ('conversions over blocks of the colour cube, nearest colours against brute force on own palette tables, histories of lookups '
            'and registrations (in forked processes and on separate approximators) against a model list, equality of pairs of colours; non-trivial: distinct '
            'history or block')

    def fixed(self):
        res = [{'presets': 1}, {'types': 1}]
        res += [{'ops': [['find', h, w] for h in SYSTEM + [xterm(c) for c in range(16, 256)] for w in (16, 256)]}]
        for d in (0, 1, 0x80, 0xff):
            res.append({'conv': [c << 16 | d << 8 | e for c in range(0, 256, 5) for e in range(0, 256, 15)] + [e << 8 | c | d << 16 for c in range(0, 256, 15) for e in range(0, 256, 15)]})
        h = 0x123456
        for w in (16, 256):
            res.append({'ops': [['find', h, w], ['reg', h, w], ['find', h, w], ['find', h + 1, w], ['find', h, 272 - w]]})
            res.append({'ops': [['reg', 0x101010, w], ['find', 0x111111, w], ['reg', 0x121212, w], ['find', 0x111111, w], ['reg', 0x111111, w], ['find', 0x111111, w],
                                ['find', 0x101010, w], ['reg', 0x111111, w], ['find', 0x111111, w]]})
        for first in ([], [['find', 5, 0]]):
            res.append({'ops': first + [['reg', 10, 0], ['find', 5, 0], ['reg', 0, 0], ['find', 5, 0], ['reg', 5, 0], ['find', 5, 0], ['find', 8, 0], ['reg', 7, 0],
                                        ['find', 8, 0], ['reg', 9, 0], ['find', 8, 0], ['top', 8, 3, 0]]})
        # many nearest ones
        for n in (10, 65, 300, 1100):
            res.append({'ops': [['reg', (k * 7919 * 131) & 0xffffff, 0] for k in range(n)] + [['top', 0x336699, m, 0] for m in (1, 5, 12, 20, 33, 64, 65, 100, 128, 256, 257, 500, 1000, 1001, 5000)]})
        specs = [['rgb', h] for h in (None, 0, 1, 0x123456, 0xffffff)]
        specs += [['16', h, f, b] for h in (None, 0, 0x123456) for f, b in ((30, 40), (31, 40), (30, 41))]
        specs += [['256', h, c] for h in (None, 0, 0x123456) for c in (0, 30, 255)]
        res.append({'eq': specs})
        # many lookups by one process, then colours that differ little
        import random
        r = random.Random(7)
        many = [r.randrange(1 << 24) for _ in range(5000)]
        for w in (16, 256, 0):
            ops = [['reg', 0x101010 * k, 0] for k in range(12)] if w == 0 else []
            for n in (1000, 2000, 2600, 5000):
                at = [r.randrange(1 << 24) & 0xf8f8f8 for _ in range(60)] + [0x0000d0, 0x5f87a8, 0x262620, 0xc0c0b8, 0x800078]
                ops += [['find', h, w] for h in many[:n]] + [['find', h + d, w] for h in at for d in range(0, 8, 3)]
            ops += [['reg', 0x765432, w], ['find', 0x765433, w]] + [['find', h, w] for h in many[:500]]
            res.append({'ops': ops, 'big': True})
        return res

    def generate(self, rng, i):
        if self.thorough and i < (1 << 24) // BLOCK:
            return {'block': i, 'near': i % 8 == 0}
        r = rng.random()
        if r < .25:
            return {'conv': [anyhex(rng) for _ in range(60)]}
        if r < .3:
            return {'block': rng.randrange((1 << 24) // BLOCK), 'near': False}
        if r < .34:
            h = [anyhex(rng), anyhex(rng), None]
            c = [rng.randrange(256), rng.randrange(256)]
            one = lambda: gen.pick(rng, ['rgb', rng.choice(h)], ['16', rng.choice(h), rng.choice(c), rng.choice(c)], ['256', rng.choice(h), rng.choice(c)])
            return {'eq': [one() for _ in range(12)]}
        # few distinct colours, so that lookups are repeated between registrations
        r = rng.random()
        pool = [anyhex(rng) for _ in range(gen.pick(rng, 3, 10, 60))]
        if r < .4:
            base = rng.choice(pool)
            pool = [(base + rng.choice((0, 1, 2, 3, 0x100, 0x200, 0x10000, 0x20000, 4, 5)) * rng.choice((1, -1))) & 0xffffff for _ in range(12)]
        which = gen.pick(rng, (0,), (16,), (256,), (16, 256), (0, 16, 256))
        ops = []
        p = rng.random() * .6
        for _ in range(gen.pick(rng, 4, 12, rng.randint(1, 80))):
            w = rng.choice(which)
            h = rng.choice(pool)
            if rng.random() < p:
                ops.append(['reg', h, w])
            elif rng.random() < .1:
                ops.append(['top', h, gen.pick(rng, rng.randint(1, 5), rng.randint(1, 100)), w])
            else:
                ops.append(['find', h, w])
        return {'ops': ops}

    def judge(self, case):
        from pytermor import color
        logging.disable(logging.CRITICAL)
        if 'presets' in case:
            return self.presets(color)
        if 'types' in case:
            return self.types(color)
        if 'eq' in case:
            self.nontrivial(case['eq'])
            return isolated(self, lambda: self.equality(color, case['eq']))
        if 'conv' in case or 'block' in case:
            vals = case['conv'] if 'conv' in case else range(case['block'] * BLOCK, (case['block'] + 1) * BLOCK)
            self.nontrivial(case.get('block', case.get('conv')))
            for h in vals:
                self.conv(color, h)
            if case.get('near', 'conv' in case):
                def go():
                    hs = list(vals)[::7] if 'block' in case else vals
                    for h in hs:
                        for cls, pal in ((color.ColorIndexed16, PAL16), (color.ColorIndexed256, PAL256)):
                            self.same(cls.find_closest(h), nearest(pal, h), h, 'find_closest(0x%06x)' % h, cls is color.ColorIndexed16)
                isolated(self, go)
            return
        if any(op[0] == 'reg' for op in case['ops']):
            self.nontrivial(case['ops'])
        if all(op[-1] == 0 for op in case['ops']):
            self.history(color, case)
        else:
            isolated(self, lambda: self.history(color, case))

    def same(self, got, want, h, what, is16):
        self.count('lookups')
        hexv, code = want
        params = list(got.to_sgr().params)
        if got.hex_value != hexv or params != ([code] if is16 else [38, 5, code]):
            self.fail('%s gives %r, must be 0x%06x, code %d (distances %d and %d)' % (
                what, got, hexv, code, dist(got.hex_value, h), dist(hexv, h)))

    def history(self, color, case):
        pal = {16: list(PAL16), 256: list(PAL256), 0: []}
        appr = color.Approximator()
        for step, op in enumerate(case['ops']):
            self.count('history_steps')
            kind, h, w = op[0], op[1], op[-1]
            what = 'step %d %s: ' % (step + 1, op)
            if kind == 'reg':
                new = h not in [e[0] for e in pal[w]]
                # codes need not be new, only distinguishable
                n = len(pal[w])
                if w == 16:
                    c = color.ColorIndexed16(h, 200 + n, 300 + n)
                    if list(c.to_sgr().params) != [200 + n] or list(c.to_sgr(bg=True).params) != [300 + n] or c.hex_value != h:
                        self.fail(what + 'the colour is %r' % c)
                    entry = (h, 200 + n)
                elif w == 256:
                    c = color.ColorIndexed256(h, n % 256)
                    if list(c.to_sgr().params) != [38, 5, n % 256] or list(c.to_sgr(bg=True).params) != [48, 5, n % 256]:
                        self.fail(what + 'the colour is %r' % c)
                    entry = (h, n % 256)
                else:
                    c = color.ColorRGB(h)
                    appr.add_to_map(c)
                    entry = (h, c)
                if new:
                    pal[w].append(entry)
                continue
            if w == 0 and not pal[0]:
                if kind == 'find' and appr.find_closest(h).to_sgr().assemble():
                    self.fail(what + 'not an empty colour')
                continue
            if kind == 'top':
                if w == 0:
                    self.count('lookups')
                    got = [c.hex_value for c in appr.approximate(h, op[2])]
                    want = [e[0] for e in sorted(pal[0], key=lambda e: dist(e[0], h))[:op[2]]]
                    if got != want:
                        self.fail(what + 'gives %r, must be %r' % (got, want))
                continue
            want = nearest(pal[w], h)
            if w == 0:
                self.count('lookups')
                got = appr.find_closest(h)
                if got is not want[1]:
                    self.fail(what + 'gives %r, must be %r' % (got, want[1]))
            else:
                self.same((color.ColorIndexed16 if w == 16 else color.ColorIndexed256).find_closest(h), want, h, what, w == 16)

    def equality(self, color, specs):
        make = {'rgb': color.ColorRGB, '16': color.ColorIndexed16, '256': color.ColorIndexed256}
        objs = [make[s[0]](*s[1:]) for s in specs]
        for s, a in zip(specs, objs):
            params = [list(a.to_sgr(bg=bg).params) for bg in (False, True)]
            h = s[1]
            want = [[], []] if h is None else [[s[2]], [s[3]]] if s[0] == '16' else [[q, 5, s[2]] for q in (38, 48)] if s[0] == '256' else \
                [[q, 2, h >> 16, h >> 8 & 255, h & 255] for q in (38, 48)]
            if params != want or a.hex_value != h:
                self.fail('colour %r: codes %r, value %r' % (s, params, a.hex_value))
            if h is None and a.format_value() != '~':
                self.fail('colour %r: format_value() is %r' % (s, a.format_value()))
            for alien in (h, None, repr(a), a.to_sgr(), object()):
                if a == alien or not a != alien:
                    self.fail('colour %r equals %r' % (s, alien))
            for t, b in zip(specs, objs):
                self.count('equality_pairs')
                if (a == b) != (s == t) or (a != b) == (s == t):
                    self.fail('colours %r and %r: == gives %r, != gives %r' % (s, t, a == b, a != b))

    def conv(self, color, h):
        self.count('conversions')
        C = color.Color
        r, g, b = h >> 16, h >> 8 & 255, h & 255
        if tuple(C.hex_value_to_rgb_channels(h)) != (r, g, b):
            self.fail('0x%06x: channels %r' % (h, C.hex_value_to_rgb_channels(h)))
        if C.rgb_channels_to_hex_value(r, g, b) != h:
            self.fail('%d,%d,%d: %r' % (r, g, b, C.rgb_channels_to_hex_value(r, g, b)))
        hue, s, v = C.hex_value_to_hsv_channels(h)
        h2, s2, v2 = colorsys.rgb_to_hsv(r / 255, g / 255, b / 255)
        d = abs(hue - h2 * 360)
        if min(d, 360 - d) > 1e-6 or abs(s - s2) > 1e-9 or abs(v - v2) > 1e-9 or not (0 <= hue < 360 and 0 <= s <= 1 and 0 <= v <= 1):
            self.fail('0x%06x: hue, saturation, value %r, must be %r' % (h, (hue, s, v), (h2 * 360, s2, v2)))
        c = color.ColorRGB(h)
        if c.hex_value != h or list(c.to_sgr().params) != [38, 2, r, g, b] or list(c.to_sgr(bg=True).params) != [48, 2, r, g, b]:
            self.fail('ColorRGB(0x%06x): %r' % (h, c.to_sgr(True)))
        if c.format_value() != '0x%06x' % h or c.format_value('#') != '#%06x' % h or c.format_value(None) != '%06x' % h:
            self.fail('format_value() of 0x%06x: %r' % (h, c.format_value()))

    def presets(self, color):
        self.count('palette_entries')
        seen, seen16 = {}, {}
        for name, c in vars(color.Colors).items():
            if not isinstance(c, color.Color):
                continue
            if color.Colors.resolve(name.lower()) is not c or color.Colors.resolve(name.title()) is not c:
                self.fail('Colors.resolve(%r)' % name)
            fg, bg = list(c.to_sgr().params), list(c.to_sgr(bg=True).params)
            h = c.hex_value
            self.count('palette_entries')
            if isinstance(c, color.ColorIndexed256):
                if fg[:2] != [38, 5] or bg != [48] + fg[1:] or h != xterm(fg[2]):
                    self.fail('%s: %r, 0x%06x' % (name, fg, h))
                seen[fg[2]] = h
            elif isinstance(c, color.ColorIndexed16):
                if [(h, fg[0])] != [e for e in PAL16 if e[1] == fg[0]] or bg != [fg[0] + 10]:
                    self.fail('%s: %r %r 0x%06x' % (name, fg, bg, h))
                seen16[fg[0]] = h
                want = {'GREY': 'GRAY'}.get(name, name)
                if NAMES[want] != fg[0]:
                    self.fail('%s: %r' % (name, fg))
            elif fg[1:] != [2, h >> 16, h >> 8 & 255, h & 255] or bg[1:] != fg[1:] or (fg[0], bg[0]) != (38, 48):
                self.fail('%s: %r' % (name, fg))
        if sorted(seen) != list(range(16, 256)) or len(seen16) != 16:
            self.fail('palette is incomplete: %d + %d' % (len(seen16), len(seen)))

    def types(self, color):
        for f in (color.Color.hex_value_to_rgb_channels, color.Color.hex_value_to_hsv_channels):
            for v in ('0x123456', 1.5, None, (1, 2, 3)):
                try:
                    f(v)
                except TypeError:
                    continue
                self.fail('%s(%r) accepted' % (f.__name__, v))
        for c in (color.NOOP_COLOR, color.NOOP_COLOR_INDEXED, color.ColorRGB()):
            for bg in (False, True):
                if c.to_sgr(bg=bg).assemble() or c.format_value() != '~' or c.format_value(noop_label='no') != 'no':
                    self.fail('empty colour %r' % c)
