"""shared set-up of the stock-model contracts.  Random draws are per-distribution-class streams: the n-th draw made from a
distribution of class D with parameters p is D(n,p); a ghost counter per class records how many were made."""
from specs.common import *
from algebra import EXP, LOG, SQRT

DRAW = {'normal': z3.Function('NORMAL', IS, RS, RS, RS), 'snormal': z3.Function('SN', IS, RS),
        'poisson': z3.Function('POISSON', IS, RS, IS), 'exponential': z3.Function('EXPON', IS, RS, RS),
        'gamma': z3.Function('GAMMA', IS, RS, RS, RS), 'uniform_real': z3.Function('UNIF', IS, RS, RS, RS)}
SN = DRAW['snormal']
T, R, S0, SIG, CPN = z3.Reals('T r S0 sigma coupon')
HASC = z3.Bool('hascoupon')
ST = z3.Int('steps')
DT = T / z3.ToReal(ST)
C = z3.If(HASC, CPN, 0)
TK = z3.Const('tk', STR)


def cnt(k):
    return ('ghost', 'n_' + k)


def sample(x, loc, d, eng):
    k = x.opv_kind or d.kind
    key = cnt(k)
    i = x.mem[key]
    x.mem[key] = z3.simplify(i + 1)
    if k == 'snormal':
        x.oblige(z3.And(d.params[0] == 0, d.params[1] == 1), 'a standard normal distribution has mean 0 and deviation 1')
        return SN(i)
    if d.kind == 'poisson':
        r = DRAW['poisson'](i, d.params[0])
        x.assume(z3.And(r >= 0, r <= (1 << 31) - 2))
        return r
    if d.kind == 'gamma':
        x.assume(DRAW['gamma'](i, *d.params) > 0)
    return DRAW[d.kind](i, *d.params)


def generator(x, this, a):
    """contract of NumberGenerator::operator(): one draw from exactly the given distribution (verified for the generators in C15)"""
    o = oid_of(x, a[0])
    x.opv_kind = 'snormal' if x.P.need('StandardNormalDistribution') in x.P.ancestors(x.objs[o].cls) else None
    v = x.value(x.method(o, 'operator()', x.tmp(EngineV(z3.IntVal(0), 'ghost'))))
    x.opv_kind = None
    return v


def world(x):
    for k in DRAW:
        x.mem[cnt(k)] = z3.IntVal(0)
    x.opv_kind = None
    x.logseq = True
    x.assume(z3.And(ST >= 1, ST <= (1 << 30)))
    x.assume(z3.And(S0 > 0, SIG >= 0, z3.Implies(HASC, z3.And(CPN >= 0, CPN <= 1))))
    md = x.abstract('IMarketData')
    sd = x.abstract('StockData')
    x.contracts[('StockData', 'getPrice')] = lambda x, this, a: S0
    x.contracts[('StockData', 'getSigma')] = lambda x, this, a: SIG
    x.contracts[('StockData', 'getCoupon')] = lambda x, this, a: OptV(HASC, CPN)
    x.contracts[('IMarketData', 'getR')] = lambda x, this, a: R

    def stock(x, this, a):
        x.oblige(x.value(a[0]) == TK, 'the model reads the stock data of its own ticker')
        return Ptr(ObjLoc(sd))
    x.contracts[('IMarketData', 'getStockData')] = stock
    x.contracts[('NumberGenerator', 'getDim')] = lambda x, this, a: ST
    x.contracts[('NumberGenerator', 'operator()')] = generator
    x.contracts[('dist', '()')] = sample
    gen = x.abstract('NumberGenerator')
    return [TK, Ptr(ObjLoc(md)), Ptr(ObjLoc(gen))]


def run(x, m, cls, path, draws, seqs, cands=()):
    """path(j): price at step j (1..steps); draws: kind -> number consumed by one path"""
    x.seqs = seqs
    x.cands = list(cands)
    before = dict(x.mem)
    st, v = attempt(x, lambda: x.value(x.method(m, 'simulatePrices', T)))
    if st == 'throw':
        x.oblige(FALSE, cls + ': a valid simulation does not throw')
        return
    j = z3.Int('j?')
    x.oblige(v.n == ST, cls + ': one price per step')
    x.oblige(All([j], z3.And(j >= 0, j < ST), v.get(j) == path(j + 1)), cls + ': every price of the path follows the model recursion', 20)
    for k, nd in draws.items():
        x.oblige(x.mem[cnt(k)] == nd, '%s: number of %s draws' % (cls, k))
    frame_unchanged(x, before, cls + ': simulation')


def last(x, m, cls, path, seqs, cands=()):
    x.seqs = seqs
    x.cands = list(cands)
    st, v = attempt(x, lambda: x.value(x.method(m, 'simulatePriceAtMaturity', T)))
    if st == 'throw':
        x.oblige(FALSE, cls + ': a valid simulation does not throw')
        return
    x.oblige(v == path(ST), cls + ': the terminal price is the last price of a path', 20)


def both(name, setup):
    """scripts for simulatePrices and simulatePriceAtMaturity; setup(x) -> (model, path, draws, seqs, cands)"""
    def a(x):
        m, p, d, s, c = setup(x)
        run(x, m, name, p, d, s, c)

    def b(x):
        m, p, d, s, c = setup(x)
        last(x, m, name, p, s, c)
    return [Script(name + '::simulatePrices', a), Script(name + '::simulatePriceAtMaturity', b)]
