"""Programs for the executor: generators of operands and of blocks of operations, one per property.

A block is a list of lines which stands on its own (it defines every register it uses).
"""
import json
import math
import random
import struct
from pgnum import NAN, enc, lengthen, text, from_groups, groups, fits

EDGE = [0, 1, 9, 10, 99, 100, 999, 1000, 4999, 5000, 5001, 9998, 9999]
LIMIT = 131072


class Gen:
    def __init__(self, seed, big=False):
        self.r = random.Random(seed)
        self.big = big

    # ----- operands
    def group(self):
        r = self.r
        return r.choice(EDGE) if r.random() < 0.6 else r.randrange(10000)

    def digits(self, n):
        """n groups, first non-zero"""
        r = self.r
        k = r.randrange(6)
        if k == 0:
            g = [9999] * n
            if r.random() < .5:
                g[r.randrange(n)] = r.choice([0, 9998, 4999, 1])
        elif k == 1:
            g = [0] * n
            g[-1] = r.choice([1, 5000, 9999, 10, 1000])
        else:
            g = [self.group() for _ in range(n)]
        if g[0] == 0:
            g[0] = r.choice([1, 9, 10, 99, 100, 999, 1000, 4999, 5000, 9999])
        return g

    def length(self):
        r = self.r
        return r.choice([1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8]) if r.random() < .93 else r.choice([12, 16, 17, 22, 23, 30, 33, 45, 64, 65, 70])

    def fin(self, neg=None, zero=0.06, wmax=None, dsmax=None):
        """a finite numeric"""
        r = self.r
        if r.random() < zero:
            return 0, r.choice([0, 0, 1, 2, 3, 4, 5, 16, 63, 64, 1000])
        flat = r.random() < .15     # any length, weight and scale
        n = r.randrange(1, r.choice([25, 90])) if flat else self.length()
        g = self.digits(n)
        if flat and r.random() < .6:
            g = [r.randrange(1, 10000) for _ in range(n)]
        x = r.random()
        if flat and x < .5:
            w = r.randrange(-72, 80)
        elif x < .75:
            w = r.randrange(-3, n + 2)
        elif x < .9:
            w = r.randrange(-12, 20)
        else:
            w = r.choice([62, 63, 64, -63, -64, -65, 100, -100, 250, -250])
        if wmax is not None:
            w = min(w, wmax)
        c, ds = from_groups(g, w)
        x = r.random()
        if flat and x < .3:
            ds2 = ds + r.randrange(90)
        elif x < .45:
            ds2 = ds
        elif x < .8:
            ds2 = ds + r.choice([1, 2, 3, 4, 5, 7, 16])
        elif x < .9:
            ds2 = max(ds, r.choice([16, 60, 62, 63, 64, 65]))
        else:
            ds2 = max(0, ds - r.randrange(1, 4))
        if dsmax is not None:
            ds2 = min(ds2, dsmax)
        c, ds = from_groups(g, w, ds2)
        if neg if neg is not None else r.random() < .45:
            c = -c
        return c, ds

    def small(self):
        r = self.r
        ds = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 8])
        return r.choice([1, -1]) * r.choice([0, 1, 2, 3, 5, 9, 10, 25, 99, 100, 125, 999, 1000, 9999, 10000, 10001,
                                             99999999, 100000000, 12345678]), ds

    def pow10(self):
        r = self.r
        e = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 15, 16, 17, 31, 32, 33, 100])
        d = r.choice([-1, 0, 1])
        ds = r.choice([0, 0, 1, 4, 8, e, e + 1, e + 4])
        return r.choice([1, -1]) * (10 ** e + d), ds

    def machine(self):
        """coefficients (or values) at the bounds of machine integers and of exact floats"""
        r = self.r
        k = r.choice([7, 8, 15, 16, 24, 31, 31, 32, 32, 53, 62, 63, 63, 63, 64, 64, 96, 127, 127, 128])
        b = 2 ** k if r.random() < .8 else 2 ** k // 10 ** r.choice([1, 4, 8])
        c = b + r.choice([-2, -1, -1, 0, 0, 1, 1, 2, r.randrange(-10 ** 4, 10 ** 4)])
        x = r.random()
        if x < .5:
            ds = 0
        elif x < .8:
            ds = r.randrange(1, 21)
        else:               # the value at the bound, with a fraction
            ds = r.choice([1, 1, 2, 3, 4, 5, 9])
            c = c * 10 ** ds + r.choice([0, 0, 1, -1, 5 * 10 ** (ds - 1), -5 * 10 ** (ds - 1), r.randrange(10 ** ds)])
        return r.choice([1, -1]) * c, ds

    def near(self, v):
        """close to v: same digits but for the end, another scale, another sign"""
        if v is NAN:
            return v
        r = self.r
        c, ds = v
        k = r.randrange(6)
        if k == 0:
            return c + r.choice([-1, 1, 10, -10]), ds
        if k == 1:
            return -c, ds
        if k == 2:
            e = r.choice([1, 2, 3, 4, 5, 8])
            return c * 10 ** e, ds + e
        if k == 3:
            e = r.choice([1, 4, 20])
            return c * 10 ** e + r.choice([1, -1]), ds + e
        if k == 4:
            e = r.choice([1, 2, 4, 5])
            return c * 10 ** e, ds
        return c, ds

    def any(self, nan=0.02, **kw):
        r = self.r
        x = r.random()
        if x < nan:
            return NAN
        if x < .2:
            return self.small()
        if x < .3:
            return self.pow10()
        if x < .36:
            return self.machine()
        return self.fin(**kw)

    def huge(self):
        """at the upper limit of the format"""
        r = self.r
        k = r.randrange(4)
        if k == 0:
            c = 10 ** (LIMIT - 1) * r.choice([1, 5, 9]) + r.choice([0, 1, 10 ** 5])
        elif k == 1:
            c = 10 ** LIMIT - r.choice([1, 10 ** 4, 10 ** 100, 10 ** (LIMIT - 3)])
        elif k == 2:
            c = r.randrange(10 ** 7, 10 ** 8) * 10 ** (LIMIT - 8)
        else:
            c = r.randrange(1, 10) * 10 ** (LIMIT - r.choice([1, 2, 3, 4, 5]))
        return (c if r.random() < .5 else -c), 0

    def brim(self):
        """so close to the limit of the format that a step, or a digit rounded away, crosses it"""
        r = self.r
        ds = r.choice([0, 0, 1, 2, 4, 5])
        c = 10 ** (LIMIT + ds) - r.choice([1, max(1, 5 * 10 ** ds // 10), 5 * 10 ** ds // 10 + 1, 10 ** ds, 10 ** ds + 1, 2 * 10 ** ds])
        return (c if r.random() < .6 else -c), ds

    def deep(self):
        """at the lower limit of the format"""
        r = self.r
        ds = r.choice([16383, 16383, 16382, 16000, 8192, 8191, 4096])
        return r.choice([1, -1]) * r.choice([1, 5, 9999, 10 ** 20 + 1, 123456789]), ds

    def far(self):
        """few digits, anywhere in the format"""
        r = self.r
        g = self.digits(r.choice([1, 1, 2, 3]))
        m = lambda top: int(2 ** r.uniform(4, math.log2(top))) if r.random() < .8 else 2 ** r.randrange(6, int(math.log2(top)) + 1) - r.choice([0, 1, 1, 2])
        if r.random() < .5:
            w = m(32767)
            ds = r.choice([0, 0, 1, 3, 4, m(16383)])
            c, ds = from_groups(g, w, ds)
        else:
            c, ds = from_groups(g, -m(4090))
            e = r.choice([0, 0, 1, 4, 5, m(1000)])
            if ds + e <= 16383:
                c, ds = c * 10 ** e, ds + e
        return r.choice([1, -1]) * c, ds

    # ----- registers
    def raw(self, reg, v):
        if v is not NAN and not fits(v):
            v = self.small()
        return 'raw %d %s %d' % (reg, enc(v, self.big).hex(), self.r.randrange(4))

    def mk(self, reg, v):
        """lines that leave (something close to) v in the register, through different histories"""
        r = self.r
        x = r.random()
        if v is NAN or x < .55:
            return [self.raw(reg, v)]
        c, ds = v
        if x < .7:
            return ['parse %d %s' % (reg, self.literal(v).encode().hex())]
        if x < .8:      # digits to be rounded away, the carry slot may be used
            e = r.choice([1, 2, 4, 5, 9])
            if ds + e > 1000 or ds > 900 or not fits((abs(c) * 10 + 9, ds)):
                return [self.raw(reg, v)]
            t = r.choice([0, 1, 4, 5, 9]) * 10 ** (e - 1) if e > 1 else r.choice([0, 4, 5, 9])
            sgn = -1 if c < 0 else 1
            return [self.raw(reg, (c * 10 ** e + sgn * t, ds + e)), 'mround %d %d' % (reg, ds)]
        if x < .85:
            return [self.raw(reg, v), 'mneg %d' % reg, 'mneg %d' % reg]
        if x < .9:
            e = r.choice([1, 3, 4, 6])
            if ds + e > 1000:
                return [self.raw(reg, v)]
            return [self.raw(reg, (c * 10 ** e + r.randrange(10 ** e) * (-1 if c < 0 else 1), ds + e)), 'mtrunc %d %d' % (reg, ds)]
        if x < .95:
            return [self.raw(reg, (c, ds)), self.raw(15, (0, ds)), 'add %d %d 15' % (reg, reg)]
        if x < .98:
            return [self.raw(15, v), '%s %d 15' % (r.choice(['clone', 'toowned', 'cow', 'cowown', 'thread']), reg)]
        return [self.raw(reg, self.any(nan=0)), 'drop %d' % reg, self.raw(reg, v)]

    def literal(self, v):
        """a spelling of v"""
        r = self.r
        if v is NAN:
            return r.choice(['NaN', 'nan', 'NAN'])
        c, ds = v
        s = text((abs(c), ds))
        x = r.random()
        if x < .15:
            s = '0' * r.choice([1, 2, 3, 4, 5, 9]) + s
        elif x < .25 and s.startswith('0.'):
            s = s[1:]
        elif x < .35 and ds == 0:
            s += '.'
        elif x < .6:
            k = r.choice([1, 2, 3, 4, 5, 7, 12])
            if '.' not in s and len(s) > k and s[-k:] == '0' * k:
                s = s[:-k] + r.choice('eE') + r.choice(['', '+']) + str(k)
            elif ds >= k:
                # fewer fractional digits and a negative exponent
                d = str(abs(c)).rjust(ds + 1, '0')
                p = len(d) - (ds - k)
                s = d[:p] + ('.' + d[p:] if d[p:] or r.random() < .3 else '') + r.choice('eE') + '-' + str(k)
            else:
                # more fractional digits than the scale is not possible; shift the point left with a positive exponent
                d = str(abs(c)).rjust(ds + k + 1, '0')
                p = len(d) - (ds + k)
                s = d[:p] + '.' + d[p:] + 'e' + r.choice(['', '+', '+0']) + str(k)
        sign = '-' if c < 0 else r.choice(['', '', '', '+', '-' if c == 0 else ''])
        ws = lambda: ''.join(r.choice(' \t\n\r\x0c') for _ in range(r.choice([0, 0, 0, 0, 1, 2])))
        return ws() + sign + s + ws()


FORMATS = ['json', 'bincode', 'bincoden', 'cbor', 'cborn']
INTS = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64,
        'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}


def bounds(ty):
    b = INTS[ty]
    return (-2 ** (b - 1), 2 ** (b - 1) - 1) if ty[0] == 'i' else (0, 2 ** b - 1)


def f64(x):
    return struct.pack('>d', x).hex()


class Blocks(Gen):
    def pair(self, va, vb):
        return self.mk(0, va) + self.mk(1, vb)

    def two(self, **kw):
        a = self.any(**kw)
        r = self.r
        x = r.random()
        if x < .3 and a is not NAN:
            return a, self.near(a)
        if x < .38:
            return self.meeting()
        return a, self.any(**kw)

    def meeting(self):
        """two operands whose sum, difference or product is at the bound of a machine integer"""
        r = self.r
        t, ds = self.machine()
        if r.random() < .5:
            a = r.choice([r.randrange(1, abs(t) + 2), abs(t) // 2, 1, abs(t)]) * r.choice([1, -1])
            b = r.choice([t - a, a - t, a + t])
            if r.random() < .3 and ds:
                return (a, ds), (b * 10, ds + 1)
            return (a, ds), (b, ds)
        k = max(2, abs(t).bit_length())
        a = r.choice([1, -1]) * r.choice([r.randrange(2 ** (k // 2 - 1), 2 ** (k // 2) + 2), 2 ** (k // 2), 2 ** (k // 2) - 1, r.randrange(1, 10 ** 4)])
        s = r.randrange(0, ds + 1)
        return (a, s), (t // a + r.choice([0, 0, 1, -1]), ds - s)

    # ----- C01 addition and subtraction
    def c01(self):
        r = self.r
        x = r.random()
        if x < .01:
            a, b = self.huge(), r.choice([self.huge, self.huge, self.small, self.pow10, self.deep])()
        elif x < .03:
            a, b = self.deep(), r.choice([self.deep, self.fin, self.small])()
        elif x < .06:
            a = self.far()
            b = self.near(a) if r.random() < .5 else self.far()
        elif x < .2:        # long carries and borrows
            n = r.randrange(1, 14)
            w = r.randrange(-2, n + 2)
            a = from_groups([9999] * n, w)
            u = from_groups([r.choice([1, 1, 2, 9999])], w - r.randrange(n))
            b = u if r.random() < .7 else (-u[0], u[1])
            if r.random() < .3:
                a = from_groups([1] + [0] * n, w, a[1])
            if r.random() < .5:
                a, b = b, a
        else:
            a, b = self.two(nan=.01)
        p = self.pair(a, b)
        p += ['add 2 0 1', 'sub 3 0 1', 'sub 4 1 0']
        if r.random() < .4:
            p += ['add 5 1 0', 'add 6 2 3', 'sub 7 2 1', 'sub 8 0 2'] if x >= .06 else ['add 5 1 0', 'sub 7 0 0']
        return p

    # ----- C02 multiplication
    def c02(self):
        r = self.r
        x = r.random()
        if x < .04:
            a = self.huge()
            b = r.choice([(1, 0), (10, 0), (2, 0), (1, 1), (10, 1), (0, 5), (99, 2), (101, 2), (-1, 0), (9999, 4), (10001, 4)])
        elif x < .08:
            e1 = r.randrange(1, LIMIT)
            a = (10 ** e1 * r.choice([1, 3, 9]), 0)
            b = (10 ** (LIMIT - e1 - r.choice([0, 1, 2, 4, 5])) * r.choice([1, 2, 3, 5, 9]), r.choice([0, 0, 3]))
        elif x < .14:       # scales at the limit
            s = r.choice([8191, 8192, 16383, 16000, 12000])
            a = (r.choice([0, 1, 9999, 10 ** 30 + 1]), s)
            b = (r.choice([0, 1, -5, 10 ** 25]), max(0, min(16383, 16383 - s + r.choice([-1, 0, 0, 1, 2, 100]))))
        elif x < .18:       # digits of one factor that add up to the capacity of the accumulators
            t = (2 ** 31 - 1) // 9999 + r.choice([-25, -22, -21, -20, -19, -15, -10, -5, -2, -1, 0, 1, 2])
            if r.random() < .5:
                t += 214748 - 21 * r.randrange(0, 2)
            ga = [9999] * (t // 9999)
            ga.append(max(1, t - 9999 * len(ga)))
            if r.random() < .5:
                r.shuffle(ga)
            ga += [9999] * r.choice([0, 0, 1, 3])
            gb = [9999] * r.choice([1, 2, 21, 22, 23, 30, 45])
            if r.random() < .3:
                gb[r.randrange(len(gb))] = self.group() or 1
            a = from_groups(ga, len(ga) - 1)
            b = from_groups(gb, len(gb) - 1)
        elif x < .35:       # deferred carries: more than 21 groups of 9999
            n, m = r.choice([5, 15, 20, 21, 22, 23, 24, 40, 44, 66, 90]), r.choice([1, 2, 20, 21, 22, 23, 24, 43, 44, 45, 65, 100])
            ga, gb = [9999] * n, [9999] * m
            for g in (ga, gb):
                for _ in range(r.choice([0, 0, 1, 2, 6])):
                    g[r.randrange(len(g))] = self.group()
                if g[0] == 0:
                    g[0] = 9999
            a = from_groups(ga, r.randrange(-1, n + 1), neg=r.random() < .5)
            b = from_groups(gb, r.randrange(-1, m + 1), neg=r.random() < .5)
        else:
            a, b = self.two(nan=.01)
        p = self.pair(a, b)
        p += ['mul 2 0 1']
        if x >= .14 and r.random() < .6:
            p += ['mul 3 1 0', 'mul 4 0 0']
            if r.random() < .3:
                p += ['mul 5 2 1']
        return p

    # ----- C03 division, C04 truncating division and remainder
    def dividing(self):
        """operands for long division: dividends put together from quotient and divisor groups"""
        r = self.r
        x = r.random()
        if x < .04:
            return self.any(nan=.05), (0, r.choice([0, 3, 20]))
        if x < .07:
            return self.huge(), r.choice([(1, 0), (1, 1), (5, 1), (1, 4), (3, 0), (-1, 2), (7, 20), (10 ** 9, 0), (9999, 4), (10001, 4)])
        if x < .1:
            return r.choice([self.deep, self.small, self.huge, self.far])(), r.choice([self.deep, self.small, self.far, self.huge])()
        if x < .5:
            m = r.choice([1, 2, 2, 3, 3, 4, 5, 7])
            n = r.choice([1, 1, 2, 2, 3, 4, 6])
            d = self.digits(m)
            if r.random() < .5:
                # leading divisor group near half the base or at its ends, second at the ends
                d[0] = r.choice([1, 2, 3, 4999, 5000, 5001, 9998, 9999, 10, 100, 1000])
                for i in range(1, m):
                    d[i] = r.choice([0, 0, 1, 9998, 9999, 9999, self.group()])
            q = self.digits(n)
            D = int(''.join('%04d' % g for g in d))
            Q = int(''.join('%04d' % g for g in q))
            N = D * Q + r.choice([0, 0, 1, D - 1, D - 1, D // 2, (D + 1) // 2, r.randrange(D), -1])
            if N <= 0:
                N = D
            sd, sn = r.choice([0, 0, 1, 3, 4, 6]), r.choice([0, 0, 1, 2, 4, 5, 9])
            a = (N * r.choice([1, -1]), sn)
            b = (D * r.choice([1, -1]), sd)
            return a, b
        if x < .6:          # quotient just below or at a tie of the last digit
            b = self.small()
            if b[0] == 0:
                b = (7, 1)
            s = r.choice([15, 16, 17, 18, 20])
            k = r.randrange(1, 10 ** r.choice([1, 4, 8, 16]))
            return ((2 * k + 1) * b[0] * 5 + r.choice([0, 0, 1, -1]), b[1] + s + 1), b
        a, b = self.two(nan=.01)
        return a, b

    def c03(self):
        r = self.r
        a, b = self.dividing()
        p = self.pair(a, b) + ['div 2 0 1']
        if r.random() < .3:
            p += ['div 3 1 0', 'div 4 2 1']
        return p

    def c04(self):
        r = self.r
        a, b = self.dividing()
        p = self.pair(a, b) + ['divt 2 0 1', 'rem 3 0 1']
        if r.random() < .3:
            p += ['rem 4 1 0', 'divt 5 1 0', 'rem 6 3 1']
        return p

    # ----- C05 rounding
    def places(self, v):
        r = self.r
        if v is NAN:
            return r.choice([0, 1, -1, 1000])
        g, w = groups(*v)
        lead = 4 * (w + 1)
        x = r.random()
        if x < .6:
            return r.randrange(-lead - 2, v[1] + 3) if -lead - 2 < v[1] + 3 else v[1]
        if x < .75:
            return -lead + r.choice([-1, 0, 1, 2, 3, 4])
        if x < .85:
            return v[1] + r.choice([-1, 0, 1, 4])
        return r.choice([0, 0, 1, 4, -1, -4, 999, 1000, 1001, -999, -1000, -1001, 2 ** 31 - 1, -2 ** 31, 20000, -20000])

    def c05(self):
        r = self.r
        x = r.random()
        if x < .005:
            v = self.brim()
            n = r.randrange(-1, v[1] + 1)
            return self.mk(0, v) + ['ceil 3 0', 'floor 4 0', 'round 1 0 %d' % n, 'trunc 2 0 %d' % n, 'mround 0 %d' % n]
        elif x < .015:
            v = self.huge()
            if r.random() < .5:
                v = (v[0] * 10 + 9, 1)
        elif x < .06:
            v = self.deep()
        elif x < .1:
            v = self.far()
        elif x < .35:       # ties and runs of nines at the place
            k = r.randrange(0, 12)
            head = r.choice([0, 1, 9, 99, 999, 9999, 99999999, 4999, 10 ** r.randrange(0, 13) - 1, r.randrange(10 ** 9)])
            tail = r.choice([0, 5 * 10 ** k // 10, 5 * 10 ** k // 10 - 1, 5 * 10 ** k // 10 + 1, 10 ** k - 1]) if k else 0
            ds = r.randrange(0, 14)
            v = (r.choice([1, -1]) * (head * 10 ** k + max(0, tail)), ds)
            n = ds - k
            p = self.mk(0, v)
            return p + ['round 1 0 %d' % n, 'trunc 2 0 %d' % n, 'ceil 3 0', 'floor 4 0', 'mround 0 %d' % n, 'mtrunc 1 %d' % (n - 1)]
        else:
            v = self.any(nan=.02)
        n = self.places(v)
        p = self.mk(0, v) + ['round 1 0 %d' % n, 'trunc 2 0 %d' % n]
        if r.random() < .6:
            p += ['ceil 3 0', 'floor 4 0']
        if r.random() < .5:
            m = self.places(v)
            p += ['clone 5 0', 'mround 5 %d' % m, 'mtrunc 0 %d' % m]
            if r.random() < .5:
                p += ['mround 5 %d' % self.places(v), 'mtrunc 1 %d' % n]
        return p

    # ----- C06 signs
    def c06(self):
        r = self.r
        v = self.huge() if r.random() < .005 else self.brim() if r.random() < .004 else self.deep() if r.random() < .04 else self.far() if r.random() < .04 else self.any(nan=.03, zero=.15)
        if r.random() < .15 and v is not NAN:
            n = r.randrange(0, 13)
            ds = r.choice([0, 0, 1, 4, 5, 63, 64])
            v = (10 ** (n + ds) * r.choice([1, -1]) - 10 ** ds * r.choice([0, 1, 1, 2]) + r.choice([0, 0, 1]), ds)
        p = self.mk(0, v)
        p += ['neg 1 0', 'abs 2 0', 'signum 3 0', 'inc 4 0', 'info 0', 'info 1']
        k = r.randrange(4)
        if k == 0:
            p += ['mneg 0', 'info 0', 'mabs 0', 'info 0']
        elif k == 1:
            p += ['mabs 1', 'mneg 1', 'mneg 1', 'info 1']
        elif k == 2:
            p += ['inc 5 4', 'inc 6 1', 'signum 7 4', 'opneg 8 0 0 %d' % r.randrange(3), 'info 8']
        else:
            p += ['neg 5 1', 'abs 6 1', 'neg 7 2', 'mabs 7', 'info 3']
        return p

    # ----- C07 NaN
    def c07(self):
        r = self.r
        other = r.choice([NAN, (0, 0), (0, 7), (1, 0), (10, 1), (-1, 0), self.any(nan=0), self.any(nan=0), self.small()])
        p = (['nan 0 %s' % r.choice(['buf', 'num'])] if r.random() < .3 else ['parse 0 ' + r.choice([b'NaN', b' nan ', b'NAN']).hex()] if r.random() < .3 else [self.raw(0, NAN)])
        p += self.mk(1, other)
        a, b = r.choice([(0, 1), (1, 0), (0, 0)])
        ops = ['%s 2 %d %d' % (o, a, b) for o in ('add', 'sub', 'mul', 'div', 'divt', 'rem', 'log', 'pow')]
        ops += ['op%s 3 %d %d %d' % (o, a, b, f) for o in ('add', 'sub', 'mul', 'div', 'rem') for f in (r.randrange(9), )]
        ops += ['%s 4 0' % o for o in ('neg', 'abs', 'signum', 'inc', 'ceil', 'floor', 'sqrt', 'ln', 'log2', 'log10', 'exp')]
        n = r.choice([0, 1, -1, 5, -5, 1000, -1000, 2 ** 31 - 1, -2 ** 31])
        ops += ['round 5 0 %d' % n, 'trunc 5 0 %d' % n, 'info 0', 'info 4', 'opneg 5 0 0 %d' % r.randrange(3)]
        ops += ['toint 0 %s %s' % (t, r.choice(['own', 'ref', 'num'])) for t in r.sample(sorted(INTS), 3)]
        r.shuffle(ops)
        p += ops
        p += ['mneg 0', 'info 0', 'mabs 0', 'info 0', 'mround 0 %d' % n, 'mtrunc 0 %d' % n, 'typmod 0 %d %d' % (r.choice([(1, 0), (5, 2), (1000, 1000), (38, 10)])), 'info 0']
        for f in (9, 10, 11):
            o = r.choice(['add', 'sub', 'mul', 'div', 'rem'])
            p += ['clone 6 1', 'op%s 6 6 0 %d' % (o, f), 'clone 7 0', 'op%s 7 7 1 %d' % (o, f), 'info 6']
        return p

    # ----- C08 order
    def c08(self):
        r = self.r
        x = r.random()
        if x < .02:
            a, b = self.huge(), self.huge()
        elif x < .04:
            a, b = self.deep(), self.deep()
        elif x < .09:
            a = self.far()
            b = self.near(a) if r.random() < .6 else self.far()
        else:
            a, b = self.two(nan=.05)
        p = self.pair(a, b) + ['cmp 0 1', 'cmp 1 0']
        if x > .09 and r.random() < .3:
            vs = [a, b]
            while len(vs) < r.choice([4, 6, 8]):
                v = r.choice(vs)
                vs.append(self.near(v) if r.random() < .6 and v is not NAN else self.any(nan=.1))
            for i, v in enumerate(vs[2:]):
                p += self.mk(i + 2, v)
            p += ['cmp %d %d' % (r.randrange(len(vs)), r.randrange(len(vs))) for _ in range(3)]
            order = list(range(len(vs)))
            r.shuffle(order)
            p += ['sort ' + ' '.join(map(str, order))]
        return p

    # ----- C09 hash and normalization
    def c09(self):
        r = self.r
        x = r.random()
        v = self.deep() if x < .03 else self.far() if x < .1 else self.any(nan=.02, zero=.1)
        p = self.mk(0, v)
        regs = [0]
        for i in range(1, 5):
            if v is NAN:
                w = NAN
            else:
                c, ds = v
                k = r.randrange(4)
                if k == 0:
                    w = self.near(v)
                else:
                    e = r.choice([1, 2, 3, 4, 5, 8, 60]) if x >= .1 else r.choice([1, 4, 5, 63, 255, 1000, 2000, 4090, 8190, 12000])
                    if k == 1 or ds == 0 or c % 10:
                        w = (c * 10 ** e, ds + e)
                    else:
                        while ds and c % 10 == 0 and r.random() < .8:
                            c, ds = c // 10, ds - 1
                        w = (c, ds)
                if w[1] > 16383 or not fits(w):
                    w = v
            p += self.mk(i, w)
            regs.append(i)
        p += ['hash %d' % i for i in regs] + ['norm %d' % i for i in regs]
        p += ['hmap %d %d' % (r.choice(regs), r.choice(regs)) for _ in range(3)]
        return ['mark'] + p

    # ----- C10 parsing
    def changed(self):
        """a literal with something changed"""
        r = self.r
        s = self.literal(self.small() if r.random() < .5 else self.fin(dsmax=30))
        s = list(s)
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(3)
            i = r.randrange(len(s) + 1)
            ch = r.choice('0123456789..eE+-+- \t\n\x0b\x0c\rxNaninfI_,\u00a0\u0663\u0660\u2003\u0085\u2212\0\0\x1c\x1f\x7f\x08\'"/:;')
            if k == 0:
                s.insert(i, ch)
            elif i < len(s) and k == 1:
                s[i] = ch
            elif i < len(s):
                del s[i]
        return ''.join(s)

    def c10(self):
        r = self.r
        x = r.random()
        if x < .35:
            s = self.literal(self.any(nan=.05))
        elif x < .6:        # short strings over the significant characters
            n = r.randrange(0, 9)
            s = ''.join(r.choice('0011259..ee+-+-Ee  ') for _ in range(n))
        elif x < .85:       # a literal with something changed
            s = self.changed()
        elif x < .93:       # exponents
            m = r.choice(['0', '1', '5.', '.5', '1.5', '00.0', '123456.789', '0.0001', '9' * 30, '-1', '10', '0' * 20 + '1'])
            e = r.choice([0, 1, 4, 5, -1, -4, 40, -40, 131071, 131072, 131070, 131073, 131068, -16383, -16384, -16382, -16380,
                          1073741822, 1073741823, -1073741822, -1073741823, 2147483647, -2147483648, 9999999999, 10000000000,
                          99999999999, -99999999999, 131071 + 5, -16387])
            s = m + r.choice('eE') + ('+' if e >= 0 and r.random() < .3 else '') + (str(e) if r.random() < .8 else ('-' if e < 0 else '') + '0' * r.choice([1, 3, 12]) + str(abs(e)))
        elif x < .97:
            n = r.randrange(1, 40)
            s = '0' * r.randrange(0, 9) + ''.join(r.choice('0000123456789') for _ in range(n))
            if r.random() < .8:
                i = r.randrange(len(s) + 1)
                s = s[:i] + '.' + s[i:]
        else:
            k = r.choice([LIMIT - 1, LIMIT, LIMIT + 1, 5000, 16383, 16384, 20000])
            s = r.choice([lambda: '1' + '0' * (k - 1), lambda: '9' * k, lambda: '0' * k + '7', lambda: '0.' + '0' * (k - 1) + '1',
                          lambda: '.' + '1' * min(k, 20000), lambda: '1' * min(k, 20000) + 'e-%d' % min(k, 20000)])()
        h = s.encode().hex() or '-'
        return ['parse 0 ' + h]

    # ----- C11, C12 text
    def textual(self):
        r = self.r
        x = r.random()
        if x < .004:
            return self.huge()
        if x < .02:
            return self.deep()
        if x < .022:
            return self.far()
        if x < .03:         # many zeroes at the end
            c, ds = r.choice([self.small, self.fin])()
            k = r.choice([996, 999, 1000, 1001, 1004, 1005, 2000, 4096, 8000])
            return c * 10 ** k, min(ds + k, 16383) if r.random() < .8 else ds
        if x < .2:
            return self.pow10()
        if x < .3:          # every cut of the last group and of the first
            n = r.randrange(1, 5)
            w = r.randrange(-3, 4)
            g = [r.choice([0, 1, 10, 100, 1000, 5, 50, 500, 5000, 12, 120, 1200, 1234]) for _ in range(n)]
            g[0] = g[0] or r.choice([1, 10, 100, 1000])
            c, ds = from_groups(g, w)
            ds2 = max(0, ds + r.randrange(-3, 4))
            c, ds = from_groups(g, w, ds2)
            return r.choice([1, -1]) * c, ds
        return self.any(nan=.02, zero=.1)

    def c11(self):
        v = self.textual()
        p = self.mk(0, v) + ['disp 0']
        t = text(v)
        if len(t) < 20000:
            p += ['parse 1 ' + t.encode().hex(), 'disp 1']
        return p

    def c12(self):
        return self.mk(0, self.textual()) + ['sci 0']

    # ----- C13 stored bytes
    def c13(self):
        r = self.r
        x = r.random()
        if x < .4:          # header boundaries
            w = r.choice([-66, -65, -64, -63, -1, 0, 62, 63, 64, 65, 127, 128, -128, -129])
            n = r.choice([1, 2, 3, 5])
            g = self.digits(n)
            c, ds = from_groups(g, w)
            ds2 = r.choice([ds, ds, max(ds, 62), max(ds, 63), max(ds, 64), max(ds, 127), max(ds, 128)])
            v = from_groups(g, w, ds2, r.random() < .5)
        elif x < .43:
            v = self.huge()
        elif x < .46:
            v = self.deep()
        elif x < .5:
            v = self.far()
        else:
            v = self.any(nan=.04, zero=.12)
        p = self.mk(0, v) + ['view 0 %d' % r.randrange(4)]
        if x >= .4 and x < .43:
            return p + ['neg 1 0', 'view 1 %d' % r.randrange(4)]
        u = r.choice([self.near(v), self.any(nan=.03), (1, 63), (1, 64), (0, 64), (-1, 0)])
        p += self.mk(1, u)
        ops = ['add 2 0 1', 'sub 2 0 1', 'mul 2 0 1', 'div 2 0 1', 'rem 2 0 1', 'divt 2 0 1', 'neg 2 0', 'abs 2 0', 'inc 2 0',
               'round 2 0 %d' % self.places(v), 'trunc 2 0 %d' % self.places(v), 'ceil 2 0', 'floor 2 0', 'signum 2 0',
               'mneg 0', 'mabs 0', 'mround 0 %d' % self.places(v), 'mtrunc 0 %d' % self.places(v),
               'typmod 0 %d %d' % r.choice([(1000, 64), (1000, 63), (10, 2), (5, 5)]), 'opadd 0 0 1 %d' % r.choice([9, 10, 11]),
               'opsub 3 0 1 %d' % r.randrange(9), 'zero 2 %s' % r.choice(['buf', 'num']), 'nan 2 %s' % r.choice(['buf', 'num']),
               'fromint 2 %s' % self.int_text(), 'fromf64 2 %s' % self.float_bits(64), 'fact 2 %d' % r.randrange(0, 60)]
        for o in r.sample(ops, r.choice([2, 3, 5])):
            p.append(o)
            d = int(o.split()[1])
            if r.random() < .5:
                p.append('view %d %d' % (d, r.randrange(4)))
                if d == 0:
                    v = None
        p.append('disp 0')
        # 'view' of a register that may still be empty after a failed operation is avoided: define it first
        return self.mk(2, (0, 0)) + self.mk(3, (5, 0)) + p

    # ----- C14 serialization
    def stored(self):
        """bytes of a numeric, or nearly so"""
        r = self.r
        v = self.any(nan=.08, zero=.12) if r.random() < .97 else r.choice([self.far, self.deep])()
        b = enc(v, False)
        if r.random() < .5:
            b = lengthen(b)
        body = bytearray(b[4:])
        hl = 2 if body[1] & 0x80 else 4
        word = lambda n: (n & 0xffff).to_bytes(2, 'little')
        group = lambda: hl + 2 * r.randrange(max(1, (len(body) - hl) // 2))
        flags, size = None, None
        for _ in range(r.choice([0, 0, 1, 1, 1, 1, 2])):
            k = r.randrange(16)
            if k == 0:          # a group out of range
                i = group()
                body[i:i + 2] = word(r.choice([10000, 10001, 16384, 32767, 32768, 65535, -1, -9999, r.randrange(10000, 65536)]))
            elif k == 1:        # a leading group of zero, the weight with it
                body[hl:hl] = b'\0\0'
                if hl == 4 and r.random() < .7:
                    body[2:4] = word(int.from_bytes(body[2:4], 'little') + 1)
                elif r.random() < .7 and body[0] & 0x3f != 0x3f:
                    body[0] += 1
            elif k == 2:        # a trailing group of zero
                body += b'\0\0'
            elif k == 3:        # another header
                body[0:2] = word(r.choice([0, 0x4000, 0x8000, 0xa000, 0xc000, 0xc001, 0xd000, 0xf000, 0xe000, 0x3fff, 0x7fff, 0xbfff, r.randrange(65536)]))
            elif k == 4 and hl == 4 and len(body) >= 4:
                body[2:4] = word(r.choice([0, 1, -1, 32767, -32768, -32767, -4096, -4095, r.randrange(65536), int.from_bytes(body[2:4], 'little') + r.choice([1, -1])]))
            elif k == 5:
                del body[r.randrange(len(body) + 1):]
            elif k == 6 and len(body) > hl:
                del body[-2:]
            elif k == 7:
                body += bytes(r.choice([[0], [1], [1, 0], [0, 0], [15, 39], [16, 39], [1, 2, 3]]))
            elif k == 8 and body:
                body[r.randrange(len(body))] ^= 1 << r.randrange(8)
            elif k == 9 and len(body) >= hl:    # the sign
                body[1] ^= 0x20 if hl == 2 else 0x40
            elif k == 10 and len(body) >= hl:   # the scale, by a few
                d = r.choice([1, -1, 2, -2, 3, 4, -4])
                h = int.from_bytes(body[0:2], 'little')
                body[0:2] = word(h + (d << 7 if hl == 2 else d))
            elif k == 11:
                size = r.choice([0, 1, 4, 5, 6, 7, 8, len(body) + 5, len(body) + 3, len(body) + 6, len(body) + 2, 2 ** 30 - 1, 2 ** 29])
            elif k == 12:
                flags = r.choice([1, 2, 3])
            elif k == 13:
                body[hl:] = b''
            elif k == 14 and len(body) > hl:    # the last group, cut or not by the scale
                body[-2:] = word(r.choice([1, 10, 100, 1000, 5000, 1200, 120, 9990, 9999, 0]))
            elif k == 15:
                body = bytearray(r.randrange(256) for _ in range(r.randrange(12)))
        n = len(body) + 4 if size is None else size
        n = n.to_bytes(4, 'big') if self.big else (n << 2).to_bytes(4, 'little')
        if flags is not None:
            n = bytes([n[0] | (flags << 6 if self.big else flags)]) + n[1:]
        b = n + bytes(body)
        return b[:r.randrange(8)] if r.random() < .02 else b

    def c14(self):
        r = self.r
        if r.random() < .25:
            p = [self.raw(0, self.small()), 'debin 0 ' + (self.stored().hex() or '-'), 'disp 0', 'debin 1 ' + (self.stored().hex() or '-')]
            return p + ['add 2 0 0', 'debin 0 ' + (self.stored().hex() or '-'), 'neg 3 0']
        x = r.random()
        if x < .2:
            s = r.choice([lambda: self.literal(self.any(nan=.1)), self.changed, self.changed,
                          lambda: r.choice(['abc', '', '1.2.3', '1e', ' 12 ', '--1', '0x10', '1_000', 'inf', 'nan', '-nan', '12x'])])()
            y = r.random()
            if y < .25:     # white space of other kinds around it
                w = lambda: ''.join(r.choice(' \t\n\r\x0b\x0c\x1f\u0085\u00a0\u1680\u2003\u2028\u202f\u3000\ufeff\U0001d7ce') for _ in range(r.choice([0, 1, 1, 2])))
                s = w() + s + w()
            if y < .9:
                j = json.dumps(s, ensure_ascii=r.random() < .5)
                if r.random() < .2:     # escapes where none are needed
                    j = '"' + ''.join(ch if ch in '\\"' or not ch.isalnum() or '\\' in j or r.random() < .6 else '\\u%04x' % ord(ch) if ord(ch) < 65536 else ch for ch in j[1:-1]) + '"'
                j = r.choice(['%s', '%s', '%s', '%s', '%s', ' %s', '%s\n', '\t%s ', '[%s]', '%s,', '\x0c%s', '\u00a0%s']) % j
            else:
                s = ''.join(ch for ch in s if 32 <= ord(ch) < 127 and ch not in '"\\')
                j = r.choice(['"%s', '%s"', '%s', '{"a":"%s"}', 'null', 'true', '[1,2]', '{}', '', '"\\u12"', '"\\ud835"', '"\\ud835\\u0031"', '"\\x31"', '"1\\', '"\t1"', "'%s'"])
                j = j % s if '%s' in j else j
            return [self.raw(0, (7, 0)), 'dejson 0 ' + (j.encode().hex() or '-'), 'disp 0']
        v = self.huge() if x < .21 else self.deep() if x < .23 else self.far() if x < .25 else self.any(nan=.05, zero=.1)
        p = self.mk(0, v)
        for f in r.sample(FORMATS, 5):
            p.append('serde %d 0 %s' % (r.randrange(1, 4), f))
        if x > .25:
            p += ['mneg 0', 'serde 0 0 %s' % r.choice(FORMATS), 'view 0 0']
        return p

    # ----- C15 integers
    def int_text(self):
        r = self.r
        if r.random() < .08:
            return 'bool %d' % r.randrange(2)
        ty = r.choice(sorted(INTS))
        lo, hi = bounds(ty)
        k = r.randrange(5)
        if k == 0:
            n = r.choice([lo, hi, lo + 1, hi - 1, 0, 1, lo + r.randrange(300), hi - r.randrange(300)])
        elif k == 1:
            n = r.randrange(lo, hi + 1)
        elif k == 2:
            n = 10 ** r.randrange(0, 39) + r.choice([-1, 0, 1])
        elif k == 3:
            n = r.randrange(1, 10000) * 10000 ** r.randrange(0, 10)
        else:
            n = int(''.join('%04d' % self.group() for _ in range(r.randrange(1, 11))))
        if r.random() < .4:
            n = -n
        n = min(max(n, lo), hi)
        return '%s %d' % (ty, n)

    def c15(self):
        r = self.r
        x = r.random()
        own = lambda: r.choice(['own', 'ref', 'num'])
        if x < .35:
            t = self.int_text()
            p = ['fromint 0 ' + t, 'disp 0']
            if not t.startswith('bool'):
                p += ['toint 0 %s %s' % (t.split()[0], own()), 'toint 0 %s %s' % (r.choice(sorted(INTS)), own())]
            return p
        if x < .75:         # around the limits of a type, with fractions
            ty = r.choice(sorted(INTS))
            b = r.choice(bounds(ty)) + r.choice([0, 0, 0, 1, -1, 2, -2, 10000, -10000])
            if r.random() < .1:
                b = b // 10000 * 10000
            ds = r.choice([0, 1, 1, 2, 4, 5, 20, 60])
            f = r.choice([0, 0, 1, -1, 5 * 10 ** ds // 10, -5 * 10 ** ds // 10, 5 * 10 ** ds // 10 - 1, -5 * 10 ** ds // 10 + 1, 5 * 10 ** ds // 10 + 1]) if ds else 0
            v = (b * 10 ** ds + f, ds)
            return self.mk(0, v) + ['toint 0 %s %s' % (ty, own()) for _ in range(2)] + ['toint 0 %s %s' % (r.choice(sorted(INTS)), own())]
        if x < .85:         # trailing zero groups, digit patterns
            n = r.choice([1, 1, 9, 10, 12, 123, 1844, 9223]) * 10 ** r.randrange(0, 41)
            v = (r.choice([1, -1]) * n, r.choice([0, 0, 3, 4, 5, 8]))
        elif x < .87:
            v = r.choice([self.huge, self.deep, self.far])()
        else:
            v = self.any(nan=.06)
        return self.mk(0, v) + ['toint 0 %s %s' % (t, own()) for t in r.sample(sorted(INTS), 4)]

    # ----- C16 floats to numerics
    def float_bits(self, n):
        r = self.r
        eb, mb = (11, 52) if n == 64 else (8, 23)
        k = r.randrange(7)
        if k == 0:
            b = r.getrandbits(n)
        elif k == 1:        # decimal-looking
            x = r.choice([1, -1]) * r.randrange(10 ** r.randrange(1, 18)) * 10.0 ** r.randrange(-30, 15)
            try:
                b = int.from_bytes(struct.pack('>d' if n == 64 else '>f', x), 'big')
            except OverflowError:
                b = 1
        elif k == 2:        # powers of ten and their neighbours
            e = r.randrange(-323, 309) if n == 64 else r.randrange(-45, 39)
            x = float('%de%d' % (r.choice([1, 1, 5, 9]), e))
            try:
                b = int.from_bytes(struct.pack('>d' if n == 64 else '>f', x), 'big') + r.choice([0, 0, 1, -1, 2])
            except OverflowError:
                b = 1
        elif k == 3:        # powers of two and neighbours
            b = (r.randrange(1 << eb) << mb) + r.choice([0, 0, 1, -1, (1 << mb) - 1])
        elif k == 4:
            b = r.choice([0, 1, 2, (1 << mb) - 1, 1 << mb, ((1 << eb) - 1) << mb, (((1 << eb) - 1) << mb) - 1, (((1 << eb) - 1) << mb) + 1,
                          (1 << (mb - 1)) + (((1 << eb) - 1) << mb), r.randrange(1 << mb)])
        elif k == 5:        # halfway between two decimals of the precision
            d = 15 if n == 64 else 6
            m = r.randrange(10 ** (d - 1), 10 ** d) * 10 + 5
            e = r.randrange(-8, 3)
            b = int.from_bytes(struct.pack('>d' if n == 64 else '>f', float(m) * 10.0 ** e), 'big') + r.choice([0, 0, 1, -1])
        else:
            m = r.randrange(1, 1 << r.randrange(1, mb + 2))
            e = r.randrange(-mb - 20, 20)
            b = int.from_bytes(struct.pack('>d' if n == 64 else '>f', m * 2.0 ** e), 'big')
        if r.random() < .4:
            b ^= 1 << (n - 1)
        b &= (1 << n) - 1
        return '%0*x' % (n // 4, b)

    def c16(self):
        r = self.r
        p = []
        for _ in range(4):
            n = r.choice([64, 64, 32])
            p.append('fromf%d %d %s' % (n, r.randrange(4), self.float_bits(n)))
        return p

    # ----- C17 numerics to floats
    def halfway(self):
        """a decimal at or near the middle of two floats"""
        from fractions import Fraction
        r = self.r
        n = r.choice([64, 32])
        while True:
            b = int(self.float_bits(n), 16) & ((1 << (n - 1)) - 1)
            x, y = [struct.unpack('>d' if n == 64 else '>f', (b + i).to_bytes(n // 8, 'big'))[0] for i in (0, 1)]
            if x == x and y == y and abs(y) != float('inf') and x != float('inf'):
                break
        f = (Fraction(x) + Fraction(y)) / 2 if r.random() < .8 else Fraction(x)
        # exact decimal expansion
        e = f.denominator.bit_length() - 1
        c, ds = f.numerator * 5 ** e, e
        if ds > 1100:
            k = ds - 1100
        else:
            k = 0
        if r.random() < .4 and ds > 20:
            k = max(k, ds - r.choice([20, 30, 60, 100, 300]))
        if k > 0:
            c, ds = c // 10 ** k, ds - k
        j = r.randrange(4)
        if j == 1:
            c += r.choice([1, -1])
        elif j == 2:
            z = r.choice([1, 30, 400, 900])
            c, ds = c * 10 ** z + r.choice([1, -1]), ds + z
        return r.choice([1, -1]) * c, ds

    def c17(self):
        r = self.r
        x = r.random()
        if x < .45:
            v = self.halfway()
        elif x < .65:
            e = r.choice([r.randrange(-330, -300), r.randrange(300, 312), r.randrange(-48, -36), r.randrange(36, 41), -400, 400])
            m = r.choice([1, 17976931348623157, 17976931348623158, 179769313486231580793, 179769313486231570815, 49406564584124654, 24703282292062327, 24703282292062328,
                          34028235677973366, 34028234663852886, 34028235677973365, 7006492321624085, 7006492321624086, 14012984643248170, r.randrange(1, 10 ** 18)])
            ln = len(str(m))
            e10 = e - ln + 1
            v = (m * 10 ** e10, 0) if e10 >= 0 else (m, -e10)
            if r.random() < .4:
                v = (-v[0], v[1])
        elif x < .67:
            v = r.choice([self.huge, self.deep, self.far])()
        else:
            v = self.any(nan=.04, zero=.08)
        own = lambda: r.choice(['own', 'ref', 'num'])
        return self.mk(0, v) + ['tof64 0 ' + own(), 'tof32 0 ' + own()]

    # ----- C18 type modifiers
    def c18(self):
        r = self.r
        x = r.random()
        if x < .25:
            p = []
            for _ in range(5):
                a = r.choice([r.randrange(-2, 1004), 0, 1, 1000, 1001, r.randrange(1, 1001), -1, 2 ** 31 - 1, -2 ** 31, 65536, 65537])
                b = r.choice([r.randrange(-2, 1004), a, a - 1, a + 1 if a < 2 ** 31 - 1 else 0, 0, -1, '-', 2 ** 31 - 1, -2 ** 31])
                if isinstance(b, int):
                    b = max(-2 ** 31, min(2 ** 31 - 1, b))
                p.append('tmnew %d %s' % (a, b))
            return p
        s = r.choice([0, 0, 1, 2, 3, 4, 5, 8, 10, 20, 100])
        pr = s + r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 30])
        pr = min(max(pr, 1), 1000)
        lim = 10 ** (pr - s)
        y = r.random()
        if y < .5:          # near the largest value allowed
            e = r.choice([0, 1, 2, 4, 5])
            c = lim * 10 ** (s + e) + r.choice([-1, 0, 1, -5 * 10 ** e // 10, -5 * 10 ** e // 10 - 1, -5 * 10 ** e // 10 + 1, -10 ** e])
            v = (r.choice([1, -1]) * c, s + e)
        elif y < .6:
            v = (r.choice([1, -1]) * r.randrange(10 ** r.randrange(1, pr + 3)), r.choice([s, s, s + 1, max(0, s - 1), 0]))
        elif y < .63:
            v = r.choice([self.huge, self.deep, self.far, self.brim])()
            if r.random() < .3:
                v = (v[0] * 10 + 9, v[1] + 1) if v[1] < 900 else v
        else:
            v = self.any(nan=.05, zero=.15)
        p = self.mk(0, v)
        if r.random() < .08:
            p += ['typmod 0 -', 'disp 0']
        p += ['typmod 0 %d %d' % (pr, s)]
        if r.random() < .5:
            s2 = r.randrange(0, 7)
            p += ['typmod 0 %d %d' % (s2 + r.randrange(1, 9), s2), 'disp 0', 'add 1 0 0']
        return p

    # ----- C19 roots
    def c19(self):
        r = self.r
        x = r.random()
        if x < .25:         # squares and their neighbours
            c, ds = self.fin(neg=False, wmax=10)
            ds = min(ds, 60)
            v = (c * c + r.choice([0, 0, 0, 1, -1]), 2 * ds)
            if v[0] < 0:
                v = (0, v[1])
        elif x < .35:
            e = r.choice([r.randrange(-1200, 60), r.randrange(-60, 60), r.randrange(0, 300)])
            m = r.choice([1, 2, 4, 9, 99, 10 ** 10 - 1, r.randrange(1, 10 ** 12)])
            v = (m * 10 ** e, 0) if e >= 0 else (m, -e)
        elif x < .37:
            v = (r.choice([1, 2, 9, 12345]) * 10 ** r.choice([1000, 2000, 5000]), 0)
        elif x < .39:
            v = (r.choice([1, 2, 3, 10 ** 30]), r.choice([2000, 4000, 1999, 2001, 16383]))
        elif x < .44:
            v = self.fin(neg=True)
        elif x < .5:
            v = (r.randrange(1, 10 ** 6), r.choice([50, 100, 300]))
        else:
            v = self.any(nan=.01)
            if v is not NAN and r.random() < .95:
                v = (abs(v[0]), v[1])
        p = self.mk(0, v) + ['sqrt 1 0']
        if r.random() < .1:
            p += ['sqrt 2 1']
        return p

    # ----- C20 logarithms
    def positive(self):
        r = self.r
        x = r.random()
        if x < .2:          # next to one
            e = r.choice([1, 2, 3, 4, 5, 8, 9, 12, 16, 17, 30, 60, 120])
            v = (10 ** e + r.choice([1, -1, 2, 9, -9, r.randrange(-99, 100) or 1]), e)
        elif x < .3:
            e = r.choice([r.randrange(-60, 60), r.randrange(-400, 400)])
            m = r.choice([1, 1, 2, 5, 9, 99, r.randrange(1, 10 ** 10)])
            v = (m * 10 ** e, 0) if e >= 0 else (m, -e)
        elif x < .4:
            v = (r.choice([9, 11, 89, 90, 91, 109, 110, 111, 899, 901, 1099, 1101, 8999999, 11000001]), r.choice([1, 2, 3, 7]))
        elif x < .5:        # results next to a power of ten
            v = (r.choice([27182818, 27182819, 22026, 22027, 220264657, 36787944, 90483742, 110517092]), r.choice([7, 4, 0, 8, 3]))
        else:
            v = self.fin(neg=False, zero=0, dsmax=150)
        if v[0] <= 0:
            v = (1, v[1])
        return v

    def c20(self):
        r = self.r
        v = self.positive()
        if r.random() < .06:
            v = r.choice([(0, 0), (0, 5), (-1, 0), self.fin(neg=True), (1, 0), (10, 1)])
        p = self.mk(0, v)
        x = r.random()
        if x < .35:
            p += ['ln 1 0']
        elif x < .5:
            p += ['log2 1 0']
        elif x < .65:
            p += ['log10 1 0']
        else:
            b = self.positive()
            if r.random() < .06:
                b = r.choice([(0, 0), (-2, 0), (1, 0), (100, 2), NAN])
            elif r.random() < .3:
                b = r.choice([(2, 0), (10, 0), (3, 0), (5, 1), (1, 1), (100, 0), (15, 1)])
            p += self.mk(1, b) + ['log 2 0 1']
        return p

    # ----- C21 exponential
    def c21(self):
        r = self.r
        x = r.random()
        if x < .1:
            v = (r.choice([5999, 6000, 6001, 59999, 5999999, 60000001, 6000000, 10 ** 9, 10 ** 40]), r.choice([0, 0, 1, 3, 4]))
            v = (v[0] * r.choice([1, -1]), v[1])
        elif x < .2:        # results next to a power of ten
            k = r.randrange(-60, 200)
            import decimal
            decimal.getcontext().prec = 60
            t = decimal.Decimal(10).ln() * k
            s = r.choice([5, 10, 15])
            c = int(t.scaleb(s).to_integral_value()) + r.choice([0, 0, 1, -1])
            v = (c, s)
        elif x < .3:
            v = (r.choice([1, -1]) * r.randrange(1, 100), r.choice([2, 5, 20, 50, 100, 200]))
        elif x < .36:
            v = (r.choice([1, -1]) * r.randrange(10 ** r.randrange(1, 7)), r.choice([0, 2, 3]))
        elif x < .375:      # about as many digits as a result may have
            ds = r.choice([990, 998, 999, 1000, 1001, 1004, 1020])
            v = (r.choice([1, -1]) * (r.choice([0, 1, 3, 10, 100, 2000]) * 10 ** ds + r.choice([0, 1, 7, 10 ** 20, r.randrange(10 ** ds)])), ds)
        else:
            v = self.any(nan=.01)
            if v is not NAN and v[1] > 250:
                v = (v[0], 250) if abs(v[0]) < 10 ** 400 else (v[0] // 10 ** (v[1] - 20), 20)
        return self.mk(0, v) + ['exp 1 0']

    # ----- C22 power
    def c22(self):
        r = self.r
        x = r.random()
        if x < .12:         # special cases
            vals = [(0, 0), (0, 3), (1, 0), (1000, 3), (-1, 0), (2, 0), (-2, 0), (5, 1), (-5, 1), (15, 1), (-10, 1), (3, 0), NAN]
            a, b = r.choice(vals), r.choice(vals + [(-3, 0), (25, 1), (-25, 1), (20, 1), (2147483647, 0), (2147483648, 0), (-2147483648, 0), (-2147483649, 0), (4294967297, 0)])
        elif x < .5:        # integer exponents
            n = r.choice([2, 3, 4, 5, 7, 8, 10, 15, 16, 31, 33, 64, 100, r.randrange(2, 300)])
            b = (n * r.choice([1, 1, -1]), r.choice([0, 0, 0, 2]))
            b = (b[0] * 10 ** b[1], b[1])
            a = self.any(nan=0, wmax=8)
            if a[1] > 80 or abs(a[0]) > 10 ** 80:
                a = self.small()
        elif x < .6:        # next to one, large exponents
            e = r.choice([2, 4, 6, 8, 9, 12, 13])
            a = (10 ** e + r.choice([1, -1, 5, -7, 99]), e)
            b = (r.choice([1, -1]) * r.randrange(1, 10 ** min(e + 2, 9)), 0)
        elif x < .65:       # overflow and underflow
            a = (r.choice([10, 9, 2, 99, 1000, 15, 1, 5]), r.choice([0, 0, 1, 3]))
            b = (r.choice([1, -1]) * r.choice([131071, 131072, 131070, 60000, 200000, 43690, 43691, 1000000, 2147483647, 2147483648, 99999999999]), 0)
            # other bases than powers of ten: the digits of the result take long to compute
            d = abs(b[0]) * abs(math.log10(a[0]) - a[1])
            if a[0] not in (10, 1000, 1) and 4000 < d < 500000:
                b = (r.choice([3000, -3000, 2500]), 0)
        elif x < .7:        # beyond 32 bits
            e = r.choice([10, 11, 12, 13])
            a = ((10 ** e + r.choice([1, -1, 3])) * r.choice([1, -1]), e)
            b = (r.choice([1, -1]) * r.randrange(2 ** 31, 2 ** r.choice([32, 34, 36])), 0)
        else:               # real exponents
            a = self.positive()
            if a[1] > 60:
                a = (r.randrange(1, 10 ** 8), r.choice([0, 3, 7]))
            d = r.choice([1, 1, 2, 3, 5, 10, 20])
            b = (r.choice([1, -1]) * r.randrange(1, 10 ** r.choice([1, 2, 3, 5, d + 1, d + 2])), d)
            if r.random() < .03:
                a = (-a[0], a[1])
        return self.mk(0, a) + self.mk(1, b) + ['pow 2 0 1']

    # ----- C23 factorial
    def c23(self):
        r = self.r
        n = r.choice([r.randrange(-3, 30), r.randrange(0, 400), r.randrange(0, 1500), r.randrange(1000, 4000), 9999, 10000, 10001, -2 ** 63, 2 ** 63 - 1, 32178, 40000, 99999, 2 ** 31, 2 ** 32, 2 ** 32 + 5])
        if n in (9999, 10000, 10001) and r.random() < .7:
            n = r.randrange(100)
        return ['fact 0 %d' % n]

    def c23r(self):
        r = self.r
        self.nfact = getattr(self, 'nfact', 0) + 1
        if self.nfact == 1:     # the boundary, always
            return ['fact 0 32177', 'fact 1 32178', 'fact 2 32176']
        return ['fact 0 %d' % r.choice([32177, 32000, 25000, r.randrange(10002, 32177), r.randrange(5000, 20000), r.randrange(1500, 12000)])]

    # ----- C24 operator forms
    def c24(self):
        r = self.r
        x = r.random()
        if x < .06:
            a = self.huge() if r.random() < .7 else self.brim()
            b = r.choice([self.huge(), self.brim(), (1, 1), (-1, 0), (2, 0), (0, 0), (1, 5), (9999, 4)])
            p = self.pair(a, b)
            for _ in range(2):
                o = r.choice(['add', 'sub', 'mul', 'div', 'rem', 'add', 'sub'])
                f = r.randrange(12)
                p += ['op%s 2 0 1 %d' % (o, f)]
            return p
        if x < .12:
            a, b = self.any(), (0, r.choice([0, 4]))
        elif x < .18:
            a, b = (r.choice([0, 1, -7]), r.choice([8191, 8192, 16383])), (r.choice([0, 3, -1]), r.choice([8192, 8193, 1, 0]))
        elif x < .2:
            a, b = self.far(), r.choice([self.far, self.small])()
        else:
            a, b = self.two(nan=.04)
        p = self.pair(a, b)
        ops = [(o, f) for o in ('add', 'sub', 'mul', 'div', 'rem') for f in range(12)]
        for o, f in r.sample(ops, 6):
            if f >= 9:
                p += ['clone 3 0', 'op%s 3 3 1 %d' % (o, f)]
                if r.random() < .1:
                    p += ['op%s 3 3 3 %d' % (o, f)]
            else:
                p += ['op%s 2 0 1 %d' % (o, f)]
        p += ['opneg 4 %d 0 %d' % (r.randrange(2), r.randrange(3))]
        return p

    # ----- C25 histories, C26 failures
    def history(self, steps, failing):
        r = self.r
        n = r.choice([3, 4, 6])
        p = ['mark', 'history 1']
        live = set()

        def value():
            v = self.any(nan=.04, zero=.1)
            if v is not NAN and (abs(v[0]) > 10 ** 150 or v[1] > 150):
                v = self.small()
            return v

        def define(d):
            p.extend(self.mk(d, value()))
            live.add(d)
        for d in range(n):
            define(d)
        for _ in range(steps):
            k = r.random()
            d, a, b = r.randrange(n), r.choice(sorted(live)), r.choice(sorted(live))
            if failing and k < .25:
                j = r.randrange(9)
                if j == 0:
                    p.append(self.raw(14, (0, r.choice([0, 5]))))
                    p.append(r.choice(['div %d %d 14' % (d, a), 'rem %d %d 14' % (d, a), 'divt %d %d 14' % (d, a), 'opdiv %d %d 14 %d' % (d, a, r.randrange(12)), 'oprem %d %d 14 %d' % (d, a, r.randrange(12))]))
                elif j == 1:
                    p.append(self.raw(14, (10 ** r.choice([4, 9]) - 1, 16383)))
                    p.append(r.choice(['mul %d 14 14' % d, 'opmul 14 14 14 %d' % r.choice([9, 10, 11]), 'opmul %d 14 14 %d' % (d, r.randrange(9))]))
                elif j == 2:
                    if r.random() < .03:       # all digits in use
                        p.append(self.raw(13, self.huge()))
                        p.append(r.choice(['add 12 13 13', 'inc 12 13', 'mround 13 -1000', 'ceil 12 13', 'typmod 13 20 5', 'opmul 13 13 13 9']))
                    else:
                        p.append(self.raw(13, (r.choice([1, -1]) * r.choice([5, 9, 99, 9999, 99999]) * 10 ** (LIMIT - 5) * 10 ** r.choice([0, 0, 1, 3, 4]) % 10 ** LIMIT, 0)))
                        p.append(r.choice(['add 12 13 13', 'opadd 13 13 13 %d' % r.choice([9, 10, 11]), 'mul 12 13 13', 'opadd 12 13 13 %d' % r.randrange(9),
                                           'typmod 13 20 5', 'opmul 13 13 %d %d' % (a, r.choice([9, 10, 11])), 'opmul 12 %d 13 %d' % (a, r.randrange(9)),
                                           'div 12 13 %d' % a, 'mul 12 %d 13' % a]))
                    p.append('info 13')
                    p.append('drop 12')
                    p.append('drop 13')
                elif j == 3:
                    p.append(r.choice(['sqrt %d %d', 'ln %d %d']) % (d, a))
                elif j == 4:
                    p.append('typmod %d %d %d' % ((a,) + r.choice([(1, 0), (1, 1), (2, 2), (5, 3), (3, 0), (10, 8)])))
                elif j == 5:
                    p.append('parse %d %s' % (d, r.choice(['1e', 'x', '', '1e99999', '1e-99999', '--1', '1.2.3', '1e99999999999']).encode().hex() or '-'))
                elif j == 6:
                    p.append('toint %d %s %s' % (a, r.choice(sorted(INTS)), r.choice(['own', 'ref', 'num'])))
                elif j == 7:
                    p.append('dejson %d %s' % (d, b'"1.x"'.hex()) if r.random() < .5 else 'debin %d 1c00000000805' % d + r.choice(['000', '00f', 'fff']))
                else:
                    p.append('fact %d %d' % (d, r.choice([32178, 2 ** 40])))
                if d not in live:
                    define(d)
                p.append('disp %d' % a)
                p.append('view %d %d' % (a, r.randrange(4)))
                continue
            if k < .3:
                o = r.choice(['add', 'sub', 'mul', 'div', 'rem', 'divt'])
                p.append('%s %d %d %d' % (o, d, a, b))
                if d not in live:
                    live_fix = True
                    if o in ('add', 'sub'):
                        live.add(d)
                    else:
                        define(d)
            elif k < .42:
                o, f = r.choice(['add', 'sub', 'mul', 'div', 'rem']), r.randrange(12)
                p.append('op%s %d %d %d %d' % (o, d, a, b, f))
                if f < 9 and d not in live:
                    define(d)
            elif k < .55:
                p.append(r.choice(['mneg %d', 'mabs %d', 'mround %%d %d' % r.randrange(-6, 20), 'mtrunc %%d %d' % r.randrange(-6, 20),
                                   'typmod %%d %d %d' % r.choice([(1000, 20), (30, 10), (5, 2), (12, 0)]), 'typmod %d -']) % a)
            elif k < .68:
                p.append(r.choice(['neg %d %d', 'abs %d %d', 'signum %d %d', 'ceil %d %d', 'floor %d %d', 'inc %d %d',
                                   'round %%d %%d %d' % r.randrange(-6, 20), 'trunc %%d %%d %d' % r.randrange(-6, 20), 'opneg %%d %%d 0 %d' % r.randrange(3)]) % (d, a))
                live.add(d)
            elif k < .82:
                o = r.choice(['clone', 'clonefrom', 'toowned', 'cow', 'cowown', 'thread', 'swap', 'move'])
                if o == 'swap' and d in live:
                    p.append('swap %d %d' % (d, a))
                elif o == 'move' and d != a and len(live) > 2:
                    p.append('move %d %d' % (d, a))
                    live.discard(a)
                    live.add(d)
                elif o not in ('swap', 'move') and not (o == 'clonefrom' and d == a):
                    p.append('%s %d %d' % (o, d, a))
                    live.add(d)
            elif k < .85 and len(live) > 2:
                p.append('drop %d' % a)
                live.discard(a)
            elif k < .95:
                p.append(r.choice(['disp %d' % a, 'view %d %d' % (a, r.randrange(4)), 'cmp %d %d' % (a, b), 'hash %d' % a, 'sci %d' % a,
                                   'norm %d' % a, 'info %d' % a, 'toint %d i64 %s' % (a, r.choice(['own', 'ref', 'num'])), 'tof64 %d own' % a,
                                   'serde %d %d %s' % (d if d in live else a, a, r.choice(FORMATS))]))
            else:
                define(d)
            # keep numbers small enough for long histories
            if r.random() < .1:
                p.append('mround %d %d' % (r.choice(sorted(live)), r.choice([2, 8, 20])))
            if r.random() < .05:
                define(r.choice(sorted(live)))
        p.append('quiet')
        return p

    def c25(self):
        return self.history(self.r.choice([8, 15, 30]), False)

    def failure(self):
        """calls that fail, in every form, on operands which are looked at and used afterwards"""
        r = self.r
        p = ['mark', 'history 1']
        small = lambda: r.choice([1, -1, 2, 5, -7, 10, 9999, 10000, -99999])

        def top():
            """bytes of d * 10^131067"""
            d = r.choice([5, 9, 99, 9999, 99999]) * 1000
            g = []
            while d:
                g.insert(0, d % 10000)
                d //= 10000
            w = 32766 + len(g) - 1
            while g[-1] == 0:
                g.pop()
            return ((8 + 2 * len(g)) * 4).to_bytes(4, 'little') + struct.pack('<HH%dH' % len(g), r.choice([0, 0x4000]), w, *g)

        def load(i, v):
            return 'raw %d %s %d' % (i, v.hex(), r.randrange(4)) if isinstance(v, bytes) else self.raw(i, v)
        for _ in range(6):
            k = r.randrange(8)
            o, f = r.choice(['add', 'sub', 'mul', 'div']), r.choice([r.randrange(12), 9, 10, 11])
            if k < 4:
                a, b = top(), top()
                if o == 'mul':
                    b = (small() * 10 ** r.choice([4, 8, 100]), 0)
                    if r.random() < .3:
                        a, b = b, a
                elif o == 'div':
                    b = (small(), r.choice([10, 16, 40]))
            elif k == 4:
                o, a, b = r.choice(['div', 'rem']), self.small(), (0, r.choice([0, 3]))
            elif k == 5:
                o, a, b = 'mul', (small(), 16383), (small(), r.choice([1, 16383]))
            else:
                h = r.random() < .25
                p.append(load(0, top() if h else r.choice([self.small(), (-5, 1), (0, 0), (-7, 0), (10 ** 5, 0), (-10 ** 9, 0)])))
                p.append(r.choice(['exp 2 0', 'inc 2 0'] if h else ['sqrt 2 0', 'ln 2 0', 'log10 2 0', 'log2 2 0', 'exp 2 0', 'inc 2 0', 'mround 0 -%d' % (LIMIT - 1), 'typmod 0 5 2', 'typmod 0 3 3',
                                   'toint 0 u8 own', 'toint 0 i64 own', 'toint 0 u128 ref', 'tof32 0 own', 'tof64 0 own']))
                p += ['info 0', 'view 0 1', 'neg 3 0', 'mabs 0', 'view 0 0']
                continue
            same = r.random() < .15
            p += [load(0, a), load(1, a if same else b)]
            p.append(r.choice(['op%s 2 0 1 %d' % (o, f)] * 4 + ['%s 2 0 1' % o, 'op%s 0 0 %d %d' % (o, r.randrange(2), f)]))
            p += ['view 0 0', 'info 1', 'cmp 0 1', r.choice(['mneg 0', 'mabs 0', 'mtrunc 0 -5', 'mround 0 2']), r.choice(['opsub 0 0 0 9', 'opsub 4 0 0 1', 'clone 4 0', 'move 4 0'])]
        p.append('quiet')
        return p

    def c26(self):
        if self.r.random() < .4:
            return self.failure()
        return self.history(self.r.choice([8, 15, 25]), True)

    # ----- C27 operands with the long header
    def c27(self):
        r = self.r
        which = r.choice(['c01', 'c02', 'c03', 'c04', 'c05', 'c05', 'c06', 'c06', 'c07', 'c08', 'c08', 'c09', 'c09', 'c11', 'c12', 'c13', 'c14', 'c15',
                          'c17', 'c18', 'c18', 'c24', 'c24', 'c25', 'c25', 'c26'] + (['c19', 'c20', 'c21', 'c22'] if r.random() < .1 else []))
        p = [l for l in getattr(self, which)() if not l.startswith(('mark', 'history'))]
        out = ['mark', 'history 2']
        for l in p:
            w = l.split(' ')
            if w[0] == 'raw' and r.random() < .75:
                w[2] = lengthen(bytes.fromhex(w[2])).hex()
                l = ' '.join(w)
            out.append(l)
        return out
