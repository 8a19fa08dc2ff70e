"""shared set-up of the Monte-Carlo contracts.  P(i,t) is the price at step t of the i-th path the model simulates;
the model is used through its contract only, the option's own code is executed."""
from specs.common import *
from algebra import EXP, LOG

P = z3.Function('P', IS, IS, RS)          # path i, step t
PAY = z3.Function('PAY', RS, RS)
PAY2 = z3.Function('PAY2', RS, RS, RS)
ST, N = z3.Ints('steps N')
T, R, B = z3.Reals('T r B')
PTYPE = z3.Int('ptype')
DIR = z3.Int('dir')
SIM = ('ghost', 'sim')


def world(x, opt):
    """(option ref, market data, model) with an arbitrary payoff, maturity, rate, number of steps"""
    x.assume(z3.And(ST >= 1, ST <= (1 << 31) - 1, N >= 1, N <= (1 << 31) - 1))
    x.mem[SIM] = z3.IntVal(0)
    md = x.abstract('IMarketData')
    x.contracts[('IMarketData', 'getR')] = lambda x, this, a: R
    sm = x.abstract('StockModel')

    def path(x, a):
        x.oblige(x.value(a[0]) == T, 'paths are simulated up to the maturity of the option')
        i = x.mem[SIM]
        x.mem[SIM] = z3.simplify(i + 1)
        return i

    def prices(x, this, a):
        i = path(x, a)
        return VecV(ST, lambda t: P(i, t))
    x.contracts[('StockModel', 'simulatePrices')] = prices
    x.contracts[('StockModel', 'simulatePriceAtMaturity')] = lambda x, this, a: P(path(x, a), z3.simplify(ST - 1))
    x.contracts[('StockModel', 'getSteps')] = lambda x, this, a: ST
    pf = x.abstract('Payoff')
    x.contracts[('Payoff', 'operator()')] = lambda x, this, a: PAY(x.value(a[0])) if len(a) == 1 else PAY2(x.value(a[0]), x.value(a[1]))
    x.contracts[('Payoff', 'getPayoffType')] = lambda x, this, a: PTYPE
    x.assume(z3.And(PTYPE >= 0, PTYPE <= 1))
    x.assume(z3.And(DIR >= 0, DIR <= 1))
    o = build_option(x, opt, pf, md)
    return o, md, sm, pf


def build_option(x, opt, pf, md):
    """an option of this class built by its real constructor"""
    x.contracts[('IMarketData', 'getStockData')] = lambda x, this, a: Ptr(ObjLoc(x.lazy('StockData')))
    extra = [B, DIR] if 'Barrier' in opt else []
    x.assume(T >= 0)
    st, o = attempt(x, lambda: x.construct(opt, x.sym('std::string', 'tk'), Ptr(ObjLoc(pf)), T, *extra, Ptr(ObjLoc(md))))
    if st != 'ok':
        raise Infeasible()
    return o


def call_put(x):
    return PTYPE == enumval(x, 'PayoffType', 'Call')


def price(x, pricer, opt, seqs, total, cands=None):
    o, md, sm, pf = world(x, opt)
    x.seqs = seqs
    if cands:
        x.cands = cands
    p = x.construct(pricer, Ptr(ObjLoc(o)), Ptr(ObjLoc(md)), Ptr(ObjLoc(sm)))
    before = dict(x.mem)
    r = x.value(x.method(p, 'calculatePrice', N))
    x.oblige(r == total(N) / z3.ToReal(N) * EXP(-R * T), '%s: the price is the discounted average payoff of the N simulated paths' % pricer, 12)
    x.oblige(x.mem[SIM] == N, '%s: exactly N paths are simulated' % pricer)
    frame_unchanged(x, before, '%s: pricing' % pricer)
