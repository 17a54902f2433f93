"""Models checked by TLC, and the behaviours they generate run on the library.

Every model (spec/mc/*.tla) states laws which TLC checks on all its states; the states or histories it prints are
turned into programs, run by the executor and judged by spec/Trace.tla like every other program.
"""
import os
import random
import re
from pgnum import lengthen

TUP = re.compile(r'<<([0-9, ]*)>>')


def tuples(line):
    return [bytes(int(x) for x in t.split(',')) if t.strip() else b'' for t in TUP.findall(line)]


class Model:
    quick = True
    machine = True          # extends Machine
    silent = False          # prints nothing: laws only

    def __init__(self, module, invariants, consts=(), init='INIT Init\nNEXT Next', env=None, props=(), name=None, build='debug',
                 limit=None, timeout=700, thorough=None):
        self.module, self.inv, self.consts, self.init = module, invariants, list(consts), init
        self.env, self.props, self.name, self.build = env or {}, props, name or module, build
        self.limit, self.timeout = limit, timeout

    def lines(self, check, work, seed, tier):
        """runs TLC; returns the printed lines and its statistics"""
        os.makedirs(work, exist_ok=True)
        cfg = os.path.join(work, 'model.cfg')
        with open(cfg, 'w') as f:
            f.write(('CONSTANT BigEndian <- BE\n' if self.machine else '') + self.init + '\nCHECK_DEADLOCK FALSE\n')
            for c in self.constants(seed, tier):
                f.write('CONSTANT %s\n' % c)
            for i in self.inv:
                f.write('INVARIANT %s\n' % i)
            for p in self.props:
                f.write('PROPERTY %s\n' % p)
        out = check.tlc('mc/%s.tla' % self.module, cfg, env=dict(self.env, **self.environment(seed, tier)), timeout=self.timeout,
                        extra=self.options(seed, tier), name='model')
        m = re.search(r'^(\d+) states generated(?:, (\d+) distinct states found, 0 states left)?', out, re.M) or \
            re.search(r'The number of states generated: (\d+)', out)
        bad = re.search(r'^Error: .*', out, re.M)
        if bad or not m:
            raise check.Broken('the model %s does not hold:\n%s' % (self.module, check.tlc_error(out)))
        said = [l[1:-1] for l in out.splitlines() if l.startswith('"') and l.endswith('"')]
        if not said and not self.silent:
            raise check.Broken('the model %s printed nothing' % self.module)
        return said, int(m.group(1))

    def constants(self, seed, tier):
        return self.consts

    def environment(self, seed, tier):
        return {}

    def options(self, seed, tier):
        return []

    def rounds(self, tier):
        return 1

    def run(self, check, work, seed, tier, deadline=None):
        import time
        res = {'report': {'model': self.name, 'laws': list(self.inv) + list(self.props), 'states': 0, 'programs': 0, 'calls': 0},
               'states': 0, 'transitions': 0, 'traces': 0, 'violations': []}
        for k in range(self.rounds(tier)):
            if k and deadline and time.time() > deadline:
                break
            said, states = self.lines(check, work, seed + 1000 * k, tier)
            r = random.Random('%s-%d-%d' % (self.name, seed, k))
            blocks = self.blocks(said, r)
            n = self.limit if tier == 'quick' else (self.limit or 10 ** 9) * 4
            if n and len(blocks) > n:
                blocks = r.sample(blocks, n)
            if blocks:
                exe = check.build_exec([self.build])[self.build]
                ev = check.execute(exe, blocks, os.path.join(work, 'x'))
                bad, st = check.judge(blocks, ev, os.path.join(work, 'j'))
            else:
                ev, bad, st = [], [], {'states': 0, 'events': 0}
            res['report']['states'] += states
            res['report']['programs'] += len(blocks)
            res['report']['calls'] += st['events']
            res['states'] += states + st['states']
            res['transitions'] += st['events']
            res['traces'] += sum(1 for e in ev if e)
            res['blocks'], res['events'], res['bad'] = blocks, ev, bad
            yield res

    # programs from what the model printed
    def blocks(self, said, r):
        raise NotImplementedError


def hexes(b):
    return b.hex() or '-'


class Laws(Model):
    """pairs of operands: ops is a function from a random source to the lines run on registers 0 and 1"""
    def __init__(self, inv, ops, unary=False, size=(40, 110), wide=(False, True), limit=3000, old=False, **kw):
        super().__init__('Laws', inv, init='INIT Init\nNEXT ' + ('NextOne' if unary else 'NextTwo'), limit=limit, **kw)
        self.ops, self.size, self.wide, self.unary, self.old = ops, size, wide, unary, old

    def environment(self, seed, tier):
        t = tier != 'quick'
        return {'WIDE': '1' if self.wide[t] else '0', 'SIZE': str(self.size[t])}

    def options(self, seed, tier):
        return ['-seed', str(seed)]

    def rounds(self, tier):
        return 1 if tier == 'quick' else 6

    def blocks(self, said, r):
        out = []
        for l in said:
            t = [lengthen(b) if self.old else b for b in tuples(l)]
            p = ['mark', 'raw 0 %s %d' % (hexes(t[0]), r.randrange(4))]
            if len(t) > 1:
                p.append('raw 1 %s %d' % (hexes(t[1]), r.randrange(4)))
            elif not self.unary:
                continue
            out.append(p + self.ops(r))
        return out


class Division(Model):
    """long division: all operands of a small base, and the rare ways through the algorithm at base 10000"""
    machine = False
    LAWS = ['InDigits', 'Normal', 'Trial', 'Kept', 'Done']

    def __init__(self, ops, small=None, sample=(1500, 6000), limit=900, **kw):
        super().__init__('Division', self.LAWS, limit=limit, name='Division base %d' % (small or 10000), **kw)
        self.ops, self.small, self.sample, self.silent = ops, small, sample, bool(small)

    def constants(self, seed, tier):
        t = tier != 'quick'
        return ['Base = %d' % (self.small or 10000), 'LongU = %d' % (4 + (t and self.small == 3)), 'LongV = 3',
                'Sample = %d' % (0 if self.small else self.sample[t])]

    def options(self, seed, tier):
        return ['-seed', str(seed)]

    def rounds(self, tier):
        return 1 if tier == 'quick' or self.small else 6

    def blocks(self, said, r):
        out = []
        for l in said:
            u, v = [[int(x) for x in m.split(',')] for m in TUP.findall(l)[:2]]
            pad = [0] * r.choice([0, 0, len(v)])
            out.append(['mark', digits(0, u + pad, r), digits(1, v, r)] + self.ops(r))
        return out


def digits(reg, g, r):
    """a register line for the digits, somewhere around the point"""
    from pgnum import enc, from_groups
    shift = r.choice([0, 0, 0, -1, -2, -len(g), 1, 3])
    c, ds = from_groups(g, len(g) - 1 + shift, neg=r.random() < .3)
    z = r.choice([0, 0, 0, 1, 2, 5, 16])
    return 'raw %d %s %d' % (reg, hexes(enc((c * 10 ** z, ds + z))), r.randrange(4))


class Multiply(Model):
    """deferred carries: all operands of a small base, and bounds brought to their threshold at base 10000"""
    machine = False

    def __init__(self, ops, small=None, sample=(150, 1200), limit=None, **kw):
        super().__init__('Multiply', ['Within', 'Tight', 'Holds'], limit=limit, name='Multiply base %d' % (small or 10000), **kw)
        self.ops, self.small, self.sample, self.silent = ops, small, sample, bool(small)

    def constants(self, seed, tier):
        t = tier != 'quick'
        return ['Base = %d' % (self.small or 10000), 'Limit = %d' % (17 if self.small else 2147483647), 'Long = %d' % (4 + t),
                'Sample = %d' % (0 if self.small else self.sample[t])]

    def options(self, seed, tier):
        return ['-seed', str(seed)]

    def rounds(self, tier):
        return 1 if tier == 'quick' or self.small else 6

    def blocks(self, said, r):
        out = []
        for l in said:
            p, q = [[int(x) for x in m.split(',')] for m in TUP.findall(l)[:2]]
            out.append(['mark', digits(0, p, r), digits(1, q, r)] + self.ops(r))
        return out


def root(n, m):
    """the integer part of the m-th root"""
    x = 1 << (n.bit_length() // m + 1)
    while True:
        y = ((m - 1) * x + n // x ** (m - 1)) // m
        if y >= x:
            return x
        x = y


class FastDivision(Model):
    """estimated quotient digits and deferred carries; reciprocals with extreme digits are taken by powers with a negative exponent"""
    machine = False

    def __init__(self, small=False, sample=(60, 600), **kw):
        super().__init__('FastDivision', ['Within', 'Fits', 'Tight', 'Near', 'Kept', 'Accurate'], name='FastDivision base %d' % (10 if small else 10000), **kw)
        self.small, self.sample, self.silent = small, sample, small

    def constants(self, seed, tier):
        t = tier != 'quick'
        return ['Base = %d' % (10 if self.small else 10000), 'Limit = %d' % (2147 if self.small else 2147483647), 'Long = %d' % (2 + t), 'Steps = 45',
                'Sample = %d' % (0 if self.small else self.sample[t])]

    def options(self, seed, tier):
        return ['-seed', str(seed)]

    def rounds(self, tier):
        return 1 if tier == 'quick' or self.small else 6

    def blocks(self, said, r):
        from pgnum import enc
        import decimal
        out = []
        for l in said:
            num, g = [[int(x) for x in m.split(',')] for m in TUP.findall(l)[:2]]
            c = int(''.join('%04d' % x for x in g))
            if num == [1]:
                # a root of the divisor with s decimals
                m = r.choice([2, 2, 3, 4, 7])
                s = min(1000, r.choice([4, 4, 3, 5]) * len(g) + r.randrange(40))
                x = root(c * 10 ** (m * s + r.choice([0, 0, 4, -4, 8]) + 8) // 10 ** (4 * (len(g) - 1) + 8), m)
                if x:
                    out.append(['mark', 'raw 0 %s %d' % (hexes(enc((x * r.choice([1, 1, -1]), s))), r.randrange(4)), 'raw 1 %s 0' % hexes(enc((-m, 0))), 'pow 2 0 1'])
            else:
                # numbers whose logarithms are the dividend and the divisor, for so many digits
                s = 4 * min(len(num) + 2, 2 * len(g) + 4)
                with decimal.localcontext() as ctx:
                    ctx.prec = s + 20
                    p = ['mark']
                    for i, d in enumerate((g, num)):
                        e = (decimal.Decimal(''.join('%04d' % x for x in d)).scaleb(-4 * len(d))).exp()
                        p.append('raw %d %s %d' % (i, hexes(enc((int(e.scaleb(s)), s))), r.randrange(4)))
                out.append(p + ['log 2 1 0'])
        return out


class SquareRoot(Model):
    """Newton's iteration: it ends for all small operands; operands whose root is next to m + 1/4"""
    machine = False

    def __init__(self, exhaustive, **kw):
        if exhaustive:
            super().__init__('SquareRoot', ['Close', 'Zone'], init='SPECIFICATION Spec', props=['Ends'], name='SquareRoot exhaustive', **kw)
        else:
            super().__init__('SquareRoot', ['InZone'], init='INIT InitNear\nNEXT NextNear', name='SquareRoot next to m + 1/4', **kw)
        self.silent, self.round = exhaustive, 0

    def constants(self, seed, tier):
        t = tier != 'quick'
        start = 160 + seed % 4
        return ['Max = %d' % (400 if t else 150), 'Slack = 6', 'Memory = 2',
                'Scales = {%s}' % ','.join(str(s) for s in range(9, 66 if t else 46, 4)),
                'Parts = {%s}' % ','.join(str(f) for f in range(start, 400, 1 if t else 4))]

    def rounds(self, tier):
        return 1

    def blocks(self, said, r):
        from pgnum import enc
        out = []
        for l in said:
            scale, x = l.split(' ', 2)[1:]
            limbs = [int(g) for g in TUP.findall(x)[0].split(',')][1:]
            c = 0
            for g in limbs:
                c = c * 10000 + g
            out.append(['mark', 'raw 0 %s %d' % (hexes(enc((c, int(scale)))), r.randrange(4)), 'sqrt 1 0'])
        return out


class Texts(Model):
    def __init__(self, alphabet, longest, **kw):
        super().__init__('Texts', ['LawC10'], **kw)
        self.alphabet, self.longest = alphabet, longest

    def constants(self, seed, tier):
        t = tier != 'quick'
        return ['Alphabet = {%s}' % ','.join(str(ord(c)) for c in self.alphabet[t]), 'Longest = %d' % self.longest[t]]

    def blocks(self, said, r):
        texts = [tuples(l)[0] for l in said]
        r.shuffle(texts)
        return [['mark'] + ['parse %d %s' % (i % 16, hexes(t)) for i, t in enumerate(texts[k:k + 40])] for k in range(0, len(texts), 40)]


class Floats(Model):
    def __init__(self, step, what, **kw):
        super().__init__('Floats', ['LawC16', 'LawC17'], **kw)
        self.step, self.what = step, what

    def constants(self, seed, tier):
        s = self.step[tier != 'quick']
        return ['Step = %d' % s, 'Offset = %d' % (seed % s)]

    def rounds(self, tier):
        return 1 if tier == 'quick' else min(8, self.step[1])

    def blocks(self, said, r):
        out = []
        for l in said:
            words, *vals = TUP.findall(l)
            w = [int(x) for x in words.split(',')]
            op = 'fromf64' if len(w) == 4 else 'fromf32'
            if r.random() < .5:
                w[0] += 32768
            p = ['mark', '%s 0 %s' % (op, ''.join('%04x' % x for x in w))]
            if self.what == 'to':
                p += ['tof64 0 num', 'tof32 0 num']
                for i, v in enumerate(vals):
                    p += ['raw %d %s 0' % (i + 1, bytes(int(x) for x in v.split(',')).hex()), 'tof%d %d %s' % (64 if len(w) == 4 else 32, i + 1, r.choice(['own', 'ref', 'num']))]
                    if r.random() < .3:
                        p += ['mneg %d' % (i + 1), 'tof32 %d ref' % (i + 1), 'tof64 %d ref' % (i + 1)]
            out.append(p)
        return out


class Behaviours(Model):
    def __init__(self, length, parts, simulate=None, **kw):
        super().__init__('Behaviours', ['Stored'], init='SPECIFICATION Spec', props=() if simulate else ('Frame', 'FailedCalls'), **kw)
        self.length, self.parts, self.sim = length, parts, simulate

    def constants(self, seed, tier):
        return ['Length = %d' % self.length, 'Part = %d' % (seed % self.parts), 'Parts = %d' % self.parts]

    def options(self, seed, tier):
        return ['-seed', str(seed), '-simulate', 'num=%d' % self.sim, '-depth', str(self.length + 2)] if self.sim else []

    def rounds(self, tier):
        return 1 if tier == 'quick' else 10

    def blocks(self, said, r):
        out = []
        for l in said:
            a, b = tuples(l)[:2]
            calls = re.findall(r'\\"([^"\\]*)\\"', l) or re.findall(r'"([^"]*)"', l)
            p = ['mark', 'history 1', 'raw 0 %s 0' % a.hex(), 'raw 1 %s 0' % b.hex()] + calls + ['quiet']
            out.append(p)
        r.shuffle(out)
        return out
