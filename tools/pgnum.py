"""Numerics as Python data, for writing programs (the oracle is the TLA+ specification, not this)."""
import functools
import sys
sys.set_int_max_str_digits(0)

NAN = None


@functools.lru_cache(64)
def split(c, ds):
    """base-10000 groups of |c| * 10^-ds, most significant first, and the weight of the first"""
    c = abs(c) * 10 ** (-ds % 4)
    f = (ds + 3) // 4
    s = str(c)
    s = '0' * (-len(s) % 4) + s
    g = [int(s[i:i + 4]) for i in range(0, len(s), 4)]
    w = len(g) - f - 1
    i = 0
    while i < len(g) and g[i] == 0:
        i += 1
    if i == len(g):
        return [], 0
    g, w = g[i:], w - i
    while g[-1] == 0:
        g.pop()
    return g, w


def groups(c, ds):
    g, w = split(abs(c), ds)
    return list(g), w


def header(neg, ds, w):
    if ds <= 63 and -64 <= w <= 63:
        return (0x8000 | (0x2000 if neg else 0) | ds << 7 | (w & 0x7f)).to_bytes(2, 'little')
    return ((0x4000 if neg else 0) | ds).to_bytes(2, 'little') + (w & 0xffff).to_bytes(2, 'little')


def enc(v, big=False):
    """canonical bytes"""
    if v is NAN:
        body = (0xC000).to_bytes(2, 'little')
    else:
        c, ds = v
        g, w = groups(c, ds)
        body = header(c < 0, ds, w) + b''.join(x.to_bytes(2, 'little') for x in g)
    n = len(body) + 4
    return (n.to_bytes(4, 'big') if big else (n * 4).to_bytes(4, 'little')) + body


def lengthen(b):
    """the same numeric with the long header (little-endian length word)"""
    h = int.from_bytes(b[4:6], 'little')
    if h >= 0xC000:
        return bytes([32, 0, 0, 0, 0, 0xC0, 0, 0])
    if h < 0x8000:
        return b
    w = h & 0x3f
    if h & 0x40:
        w -= 64
    return ((len(b) + 2) * 4).to_bytes(4, 'little') + ((h & 0x2000) << 1 | (h >> 7 & 0x3f)).to_bytes(2, 'little') + (w & 0xffff).to_bytes(2, 'little') + b[6:]


def text(v):
    if v is NAN:
        return 'NaN'
    c, ds = v
    s = str(abs(c)).rjust(ds + 1, '0')
    return ('-' if c < 0 else '') + (s[:-ds] + '.' + s[-ds:] if ds else s)


def from_groups(g, w, ds=None, neg=False):
    """value of the groups with weight w; ds defaults to the least that holds them"""
    m = 0
    for x in g:
        m = m * 10000 + x
    e = 4 * (w - len(g) + 1)
    if e >= 0:
        c, d = m * 10 ** e, 0
    else:
        c, d = m, -e
        while d > 0 and c % 10 == 0:
            c //= 10
            d -= 1
    if ds is not None:
        if ds >= d:
            c, d = c * 10 ** (ds - d), ds
        else:
            c, d = c // 10 ** (d - ds), ds
    return (-c if neg else c), d


def fits(v):
    if v is NAN:
        return True
    if v[0].bit_length() < 400000:          # less than 131072 digits
        return v[1] <= 16383
    return v[1] <= 16383 and split(abs(v[0]), v[1])[1] <= 32767
