"""What each check runs."""
import multiprocessing
import random
from gen import Blocks
from models import Laws, Division, Multiply, FastDivision, SquareRoot, Texts, Floats, Behaviours

TRUST = ['TLC evaluates the specification correctly',
         'the Java replacement of spec/BigInt.tla computes what the TLA+ definitions say (tools/bigint_test.sh compares them)',
         'the executor (exec/) records what the public API returns']


def blocks_of(job):
    gen, seed, big, n = job
    g = Blocks(seed, big)
    f = getattr(g, gen)
    # every block starts with empty registers
    return [b if b[0] == 'mark' else ['mark'] + b for b in (f() for _ in range(n))]


class RunPlan:
    """rounds of random programs made by one block generator"""
    def __init__(self, gen, build='debug', quick=3000, thorough=6000, rounds=40):
        self.gen, self.build, self.n, self.tn, self.rounds = gen, build, quick, thorough, rounds

    def programs(self, seed, tier, big):
        rounds, n = (1, self.n) if tier == 'quick' else (self.rounds, self.tn)
        for k in range(rounds):
            parts = 8 if n >= 80 else 1
            jobs = [(self.gen, '%s-%s-%d-%d-%d' % (self.gen, self.build, seed, k, j), big, n // parts) for j in range(parts)]
            if parts == 1:
                yield blocks_of(jobs[0])
                continue
            with multiprocessing.Pool(parts) as pool:
                yield sum(pool.map(blocks_of, jobs, chunksize=1), [])


class Plan:
    def __init__(self, quick, thorough=None, models=(), op_seconds=20, thorough_seconds=600, assumptions=()):
        self.q, self.t, self.m = quick, thorough or quick, models
        self.op_seconds, self.thorough_seconds = op_seconds, thorough_seconds
        self.assumptions = TRUST + list(assumptions)

    def runs(self, tier):
        return self.q if tier == 'quick' else self.t

    def models(self, tier):
        return [m for m in self.m if tier == 'thorough' or m.quick]


def simple(gen, n=3000, **kw):
    return Plan([RunPlan(gen, quick=n, thorough=n)],
                [RunPlan(gen, quick=n, thorough=n), RunPlan(gen, build='release', thorough=n, rounds=8)], **kw)


# ----- programs run on the operands that the models enumerate (registers 0 and 1)

def binary(*ops):
    return lambda r: ['%s %d 0 1' % (o, i + 2) for i, o in enumerate(ops)]


PLACES = [-9, -5, -4, -3, -1, 0, 1, 2, 3, 4, 5, 8, 63, 64, 1000, 1001]


def rounding(r):
    ps = r.sample(PLACES, 3)
    p = ['%s 1 0 %d' % (o, n) for n in ps for o in ('round', 'trunc')] + ['ceil 2 0', 'floor 3 0']
    return p + ['clone 4 0', 'mround 4 %d' % ps[0], 'mtrunc 0 %d' % ps[1]]


def signs(r):
    return ['neg 1 0', 'abs 2 0', 'signum 3 0', 'inc 4 0', 'info 0', 'info 1', 'opneg 5 0 0 %d' % r.randrange(3), 'mneg 0', 'info 0', 'mabs 0', 'mabs 1']


def typmods(r):
    p = []
    for _ in range(4):
        pr = r.choice([1, 2, 3, 4, 5, 9, 16, 1000])
        s = r.choice([x for x in (0, 1, 2, 4, 5, 16, 1000) if x <= pr])
        p += ['clone 1 0', 'typmod 1 %d %d' % (pr, s), 'disp 1']
    return p


def toints(r):
    from gen import INTS
    return ['toint 0 %s %s' % (t, r.choice(['own', 'ref', 'num'])) for t in INTS]


def forms(r):
    p = []
    for o, f in r.sample([(o, f) for o in ('add', 'sub', 'mul', 'div', 'rem') for f in range(12)], 4):
        p += ['clone 3 0', 'op%s 3 3 1 %d' % (o, f)] if f >= 9 else ['op%s 2 0 1 %d' % (o, f)]
    return p


def nans(r):
    ops = ['%s 2 0 1' % o for o in ('add', 'sub', 'mul', 'div', 'divt', 'rem')]
    return ops + ['opdiv 3 0 1 %d' % r.randrange(9), 'oprem 3 0 1 %d' % r.randrange(9), 'opadd 0 0 1 9', 'opmul 1 1 0 11']


def powers(r):
    from gen import Gen
    g = Gen(r.random())
    e = r.choice([(2, 0), (3, 0), (-1, 0), (-2, 0), (5, 1), (-5, 1), (15, 1), (7, 0), (10, 0), (-3, 0), (25, 2), (1, 0), (0, 0), (1, 3)])
    return [g.raw(1, e), 'pow 2 0 1']


def serdes(r):
    return ['serde %d 0 %s' % (i + 1, f) for i, f in enumerate(['json', 'bincode', 'bincoden', 'cbor', 'cborn'])]


def olds(r):
    return ['history 2', 'view 0 1', 'neg 1 0', 'add 2 0 0', 'mul 3 0 0', 'round 4 0 2', 'cmp 0 1', 'hash 0', 'disp 0', 'sci 0', 'norm 0', 'info 0', 'clone 5 0',
            'serde 6 0 bincode', 'mround 5 1', 'mabs 0', 'hash 0', 'mneg 0', 'view 0 0']


def pairs(n, ops, size=(40, 110), limit=1200, **kw):
    return [Laws(['LawC' + n] if isinstance(n, str) else ['LawC' + x for x in n], ops, size=size, limit=limit, **kw)]


def single(n, ops, size=(700, 3000), limit=800, **kw):
    return pairs(n, ops, unary=True, wide=(True, True), size=size, limit=limit, **kw)


PLANS = {
    'C01': simple('c01', 13000, models=pairs('01', binary('add', 'sub'))),
    'C02': simple('c02', 7500, models=pairs('02', binary('mul')) + [Multiply(None, 3), Multiply(lambda r: ['mul 2 0 1', 'mul 3 1 0'])]),
    'C03': simple('c03', 8000, models=pairs('03', binary('div')) + [Division(None, 3), Division(binary('div'))]),
    'C04': simple('c04', 8500, models=pairs('04', binary('divt', 'rem')) + [Division(binary('divt', 'rem'))]),
    'C05': simple('c05', 14000, models=single(('05', '05int'), rounding)),
    'C06': simple('c06', 16000, models=single('06', signs)),
    'C07': simple('c07', 3000, models=pairs('07', nans, size=(10, 40))),
    'C08': simple('c08', 16000, models=pairs('08', lambda r: ['cmp 0 1', 'cmp 1 0'])),
    'C09': simple('c09', 9000, models=pairs('09', lambda r: ['hash 0', 'hash 1', 'hmap 0 1', 'norm 0', 'norm 1'])),
    'C10': simple('c10', 100000, models=[Texts(('01.e- ', '019.eE+- N'), (5, 5))]),
    'C11': simple('c11', 30000, models=single('11', lambda r: ['disp 0'])),
    'C12': simple('c12', 34000, models=single('12', lambda r: ['sci 0'])),
    'C13': Plan([RunPlan('c13', quick=5500), RunPlan('c13', build='big', quick=2500), RunPlan('c13', build='checked', quick=1500)], models=single('13', lambda r: ['view 0 0', 'view 0 1', 'view 0 2', 'view 0 3'])),
    'C14': simple('c14', 16000, models=single('13', serdes)),
    'C15': simple('c15', 32000, models=single('15', toints)),
    'C16': simple('c16', 38000, models=[Floats((64, 8), 'from')]),
    'C17': simple('c17', 25000, models=[Floats((128, 8), 'to')]),
    'C18': simple('c18', 24000, models=single('18', typmods)),
    'C19': simple('c19', 20000, models=single('19', lambda r: ['sqrt 1 0']) + [SquareRoot(True), SquareRoot(False)]),
    'C20': simple('c20', 8500, models=pairs('20', lambda r: ['log 2 0 1', 'ln 3 0'], size=(12, 60), limit=300) + [FastDivision(True), FastDivision(sample=(120, 600))]),
    'C21': simple('c21', 5000, models=single('21', lambda r: ['exp 1 0'], limit=300)),
    'C22': simple('c22', 1500, models=single('22', powers, size=(120, 700), limit=300) + [FastDivision()]),
    'C23': Plan([RunPlan('c23', quick=250), RunPlan('c23r', build='release', quick=8)]),
    'C24': simple('c24', 4500, models=pairs('08', forms)),
    'C25': Plan([RunPlan('c25', quick=6000), RunPlan('c25', build='checked', quick=1500)],
                [RunPlan('c25', thorough=7000), RunPlan('c25', build='release', thorough=7000, rounds=8), RunPlan('c25', build='checked', thorough=3000, rounds=8)],
                models=[Behaviours(2, 81, limit=2500)]),
    'C26': simple('c26', 800, models=[Behaviours(9, 5, simulate=30, limit=1200)]),
    'C27': simple('c27', 4500, models=single('27', olds, old=True)),
}
