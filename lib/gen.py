"""Workload generators. Everything is drawn from the random.Random passed in."""
from .model import Opt, LETTER

PRINT = bytes(range(0x21, 0x7f))
SGR_NAMED = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 22, 23, 24, 25, 27, 28, 29, 30, 31, 34, 37, 39, 40, 41, 45, 47, 49, 53,
             55, 90, 91, 97, 100, 103, 107]


def pick(rng, *xs):
    return xs[rng.randrange(len(xs))]


def some(rng, alphabet, lo, hi):
    return bytes(alphabet[rng.randrange(len(alphabet))] for _ in range(rng.randint(lo, hi)))


def size(rng, hi):
    """Small sizes are likely, all up to hi possible."""
    return rng.randint(1, max(1, int(hi ** rng.random())))


def f_word(rng):
    return some(rng, PRINT, 1, size(rng, 30))


def f_space(rng):
    return b' ' * size(rng, 12)


def f_ws(rng):
    return some(rng, b'\t\x0b\x0c\r ', 1, size(rng, 8))


def f_tab(rng):
    return b'\t' * size(rng, 6)


def f_nl(rng):
    return pick(rng, b'\n', b'\n', b'\r\n', b'\n\n\n', b'\n' * size(rng, 20))


def f_ctl(rng):
    return some(rng, bytes([*range(1, 8), *range(0xe, 0x1b), *range(0x1c, 0x20)]), 1, size(rng, 8))


def f_c0(rng):
    return some(rng, bytes(range(0x20)) + b'\x7f', 1, size(rng, 8))


def f_nul(rng):
    return b'\x00' * size(rng, 40)


def f_bsdel(rng):
    return pick(rng, b'\x08', b'\x7f') * size(rng, 10)


def f_esc(rng):
    return b'\x1b' * size(rng, 4)


def f_fe(rng):
    return b'\x1b' + bytes([rng.randrange(0x40, 0x60)])


def f_fp(rng):
    return b'\x1b' + bytes([rng.randrange(0x30, 0x40)])


def f_fs(rng):
    return b'\x1b' + bytes([rng.randrange(0x60, 0x7f)])


def f_nf(rng):
    return b'\x1b' + some(rng, bytes(range(0x20, 0x30)), 1, size(rng, 5)) + bytes([rng.randrange(0x30, 0x7f)])


def f_csi(rng):
    return b'\x1b[' + some(rng, bytes(range(0x30, 0x40)), 0, size(rng, 10)) + \
        (some(rng, bytes(range(0x20, 0x30)), 0, 3) if rng.random() < .3 else b'') + bytes([rng.randrange(0x40, 0x7f)])


def f_csi_real(rng):
    return pick(rng, b'\x1b[2J', b'\x1b[H', b'\x1b[?25l', b'\x1b[?1049h', b'\x1b[10;20H', b'\x1b[K', b'\x1b[6n', b'\x1b[>c',
                b'\x1b[!p', b'\x1b[1 q', b'\x1b[>4;2m', b'\x1b[?4m')


def f_sgr(rng):
    n = size(rng, 8) if rng.random() < .93 else rng.choice((9, 15, 16, 17, 18, 24, 32, 33, 50, 64, 65, 100))
    return b'\x1b[' + b';'.join(str(sgr_param(rng)).encode() for _ in range(n)) + b'm'


def sgr_param(rng):
    r = rng.random()
    if r < .7:
        return pick(rng, *SGR_NAMED)
    if r < .85:
        return rng.randrange(0, 110)
    if r < .9:
        return ''
    return pick(rng, 38, 48, 58, 59, 5, 2, 255, 256, 999, 1000, 65536, '00', '007', '01')


def sgr_ext(rng):
    t = pick(rng, 38, 48)
    if rng.random() < .5:
        xs = [t, 5, rng.randrange(256)]
    else:
        xs = [t, 2] + [pick(rng, rng.randrange(256), rng.randrange(10), rng.randrange(30, 50)) for _ in range(3)]
    if rng.random() < .12:
        xs = xs[:rng.randint(1, len(xs))]
    return xs


def f_sgr_ext(rng):
    xs = []
    for _ in range(size(rng, 4)):
        if rng.random() < .6:
            xs += sgr_ext(rng)
        else:
            xs.append(sgr_param(rng))
    return b'\x1b[' + b';'.join(str(x).encode() for x in xs) + b'm'


def f_sgr_odd(rng):
    r = rng.random()
    if r < .25:
        return b'\x1b[' + pick(rng, b'', b'0', b'00', b';', b';;', b'0;0', b'000', b';0', b'0;', b'1', b'01') + b'm'
    if r < .5:
        return b'\x1b[' + pick(rng, b'?', b'>', b'<', b'=') + b';'.join(
            str(rng.randrange(120)).encode() for _ in range(rng.randint(0, 3))) + b'm'
    if r < .65:
        return b'\x1b[' + pick(rng, b'4:3', b'38:5:12', b'38:2::1:2:3', b'4:0;31', b':', b'1:;2', b'48:2:1:2:3') + b'm'
    if r < .75:
        return b'\x1b[' + str(rng.randrange(10 ** rng.choice([5, 9, 20, 60]))).encode() + b'm'
    if r < .85:
        return b'\x1b[' + some(rng, bytes(range(0x30, 0x40)), 0, 12) + some(rng, bytes(range(0x20, 0x30)), 0, 3) + b'm'
    return b'\x1b[' + b';'.join(str(pick(rng, 38, 48, 5, 2, 1, 31, 0)).encode() for _ in range(rng.randint(1, 7))) + b'm'


def f_osc(rng):
    return b'\x1b]' + pick(rng, b'0;title', b'52;c;AAAA', b'8;;http://x') + pick(rng, b'\x07', b'\x1b\\', b'\x9c', b'')


def f_cut_esc(rng):
    t = pick(rng, f_csi, f_nf, f_sgr, f_sgr_ext)(rng)
    return t[:rng.randint(1, len(t) - 1)] + (pick(rng, b'', b'\n', b'\x80', b'\x1b', b'\x00', b'\xc3\xa9', b'\x7f'))


def f_long_esc(rng):
    n = pick(rng, 30, 70, 130, 260, 300)
    return pick(rng, b'\x1b[' + b'1;' * n + pick(rng, b'm', b'H', b'\n', b''), b'\x1b[' + b'9' * n + b'd', b'\x1b(' + b'!' * n + pick(rng, b'B', b'\x80'),
                b'\x1b[1' + b' ' * n + b'q')


def cp(rng):
    r = rng.random()
    if r < .25:
        return rng.randrange(0x80, 0x800)
    if r < .5:
        x = rng.randrange(0x800, 0x10000 - 0x800)
        return x if x < 0xd800 else x + 0x800
    if r < .75:
        return rng.randrange(0x10000, 0x110000)
    return pick(rng, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0x301, 0x202e, 0x2028,
                0x4e2d, 0x1f600, 0x9b, 0x85, 0x9d, 0xa0, 0xad, 0x3fff, 0x40000, 0xfffff, 0x100000)


def f_utf8(rng):
    return ''.join(chr(cp(rng)) for _ in range(size(rng, 6))).encode()


def f_cyr(rng):
    return pick(rng, 'Привет', 'ñandú', '日本語', '😀', 'Ω', 'é').encode()


def f_c1u(rng):
    return chr(rng.randrange(0x80, 0xa0)).encode() + pick(rng, b'', b'31m', b'0;t\xc2\x9c')


def f_bad_utf8(rng):
    r = rng.random()
    if r < .3:
        t = chr(cp(rng)).encode()
        return t[:rng.randint(1, len(t) - 1)]
    if r < .45:
        return pick(rng, b'\xc0\x80', b'\xc1\xbf', b'\xe0\x80\xaf', b'\xe0\x9f\xbf', b'\xf0\x80\x80\xaf', b'\xf0\x8f\xbf\xbf')
    if r < .6:
        return pick(rng, b'\xed\xa0\x80', b'\xed\xbf\xbf', b'\xed\xa0\x80\xed\xb0\x80')
    if r < .75:
        return pick(rng, b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80', b'\xf8\x88\x80\x80\x80', b'\xff', b'\xfe\xff')
    if r < .9:
        return some(rng, bytes(range(0x80, 0xc0)), 1, 4)
    return chr(cp(rng)).encode() + some(rng, bytes(range(0x80, 0xc0)), 1, 3)


def f_bin(rng):
    return some(rng, bytes(range(0x80, 0x100)), 1, size(rng, 12))


def f_rand(rng):
    return rng.randbytes(size(rng, 40))


def f_run(rng):
    return pick(rng, b'a', b'\x00', b' ', b'\xff', b'\t', b'\n', b'\x01', b'\xc3\xa9', b'\x1b[0m', b'\x1b[31m', b'\xf0\x9f\x98\x80',
                b'\r', b'\x7f', b'\x1b') * size(rng, 300)


FRAGS = [f_word, f_space, f_ws, f_tab, f_nl, f_ctl, f_c0, f_nul, f_bsdel, f_esc, f_fe, f_fp, f_fs, f_nf, f_csi, f_csi_real,
         f_sgr, f_sgr_ext, f_sgr_odd, f_osc, f_cut_esc, f_long_esc, f_utf8, f_cyr, f_c1u, f_bad_utf8, f_bin, f_rand, f_run]
ESC_FRAGS = [f_esc, f_fe, f_fp, f_fs, f_nf, f_csi, f_csi_real, f_sgr, f_sgr_ext, f_sgr_odd, f_osc, f_cut_esc, f_long_esc]
SGR_FRAGS = [f_sgr, f_sgr_ext, f_sgr_odd]
UTF_FRAGS = [f_utf8, f_cyr, f_c1u, f_bad_utf8, f_bin]


# what other programs recognise at the start of a file
SIGNATURES = [b'\xef\xbb\xbf', b'\xff\xfe', b'\xfe\xff', b'\x1f\x8b\x08', b'\x7fELF\x02\x01\x01', b'\x89PNG\r\n\x1a\n', b'#!/bin/sh\n', b'BZh9', b'PK\x03\x04',
              b'\xfd7zXZ\x00', b'%PDF-1.4\n', b'GIF89a', b'<?xml version="1.0"?>\n', b'# -*- coding: latin-1 -*-\n', b'\x1b%G', b'\x00\x00\xfe\xff',
              b'\xff\xd8\xff\xe0', b'\xca\xfe\xba\xbe', b'\x04"M\x18', b'(\xb5/\xfd']


def data(rng, hi=400, frags=None, prefer=None, mutate=True):
    """A byte string: a random mix of a random subset of fragment kinds, sometimes mutated."""
    if frags is None and rng.random() < .03:
        return pick(rng, *SIGNATURES) + _data(rng, hi, prefer=prefer, mutate=mutate)
    return _data(rng, hi, frags, prefer, mutate)


def _data(rng, hi=400, frags=None, prefer=None, mutate=True):
    frags = list(frags or FRAGS)
    k = rng.randint(1, min(len(frags), rng.choice([2, 4, 8, 29])))
    sub = rng.sample(frags, k)
    if prefer:
        sub += [pick(rng, *prefer)] * max(1, len(sub) // 2)
    if rng.random() < .5 and f_nl in frags:
        sub.append(f_nl)
    target = size(rng, hi)
    out = bytearray()
    while len(out) < target:
        out += pick(rng, *sub)(rng)
    if rng.random() < .7:
        del out[max(target, 1):]
    if mutate and rng.random() < .3:
        for _ in range(size(rng, 6)):
            p = rng.randrange(len(out) + 1)
            r = rng.random()
            if r < .35 and p < len(out):
                del out[p]
            elif r < .7:
                out.insert(p, rng.randrange(256))
            elif p < len(out):
                out[p] = rng.randrange(256)
    if rng.random() < .25:
        out += b'\n'
    return bytes(out)


def boundary_data(rng, bounds, hi=12000, frags=None):
    """Data with tokens laid across given offsets."""
    out = bytearray()
    filler = pick(rng, b'a', b'ab\n', b'x y\n', b'\x00', b'\xff', b'\xc3\xa9')
    for b in sorted(bounds):
        t = pick(rng, *(frags or ESC_FRAGS + UTF_FRAGS))(rng)
        start = b - rng.randint(0, len(t))
        while len(out) < start:
            out += filler[:max(1, start - len(out))]
        out += t
    if rng.random() < .6:
        out += data(rng, 60)
    return bytes(out[:hi])


def classes(rng):
    """focus, ignore letters."""
    focus = ignore = ''
    r = rng.random()
    if r < .35:
        return focus, ignore
    for c in LETTER.values():
        x = rng.random()
        if x < (.15 if r < .7 else .33):
            focus += c
        elif x < (.3 if r < .7 else .66):
            ignore += c
    return focus, ignore


WIDTHS = [1, 2, 3, 4, 5, 7, 8, 10, 12, 13, 16, 20, 24, 31, 32, 64, 100, 255, 256, 1000, 1024, 1100, 2500]


def opt(rng, b=None, limits=False, buffer=False):
    o = Opt()
    o['b'] = bool(rng.random() < .5) if b is None else b
    o['focus'], o['ignore'] = classes(rng)
    p = rng.choice([.1, .3, .6])
    hit = lambda: rng.random() < p
    if o.b:
        if rng.random() < .8:
            o['w'] = pick(rng, *WIDTHS) if rng.random() < .5 else rng.randint(1, 40)
        o['d'] = hit()
        if hit():
            o[pick(rng, 'nooff', 'decoff')] = True
        if rng.random() < .15:
            o['m'] = rng.randrange(3)
    else:
        o['m'] = pick(rng, 0, 0, 1, 1, 2, 2)
        o['nosep'] = hit()
        o['nolines'] = hit()
    o['color'] = hit()
    if buffer and hit():
        o['f'] = pick(rng, 1, 2, 3, 5, 7, 16, 64, 100, 1000, 4095, 4096, 4097, 10000, 65536)
    if limits and hit():
        o['L'] = rng.randint(0, 12) if rng.random() < .93 else -rng.randint(1, 12)
    if limits and hit():
        o['B'] = rng.randint(0, 500) if rng.random() < .93 else -rng.randint(1, 500)
    return Opt({k: v for k, v in o.items() if v != Opt.DEFAULTS[k]})
