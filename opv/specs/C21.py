"""Finite-difference prices: the grid, the interpolation at the current stock price and the reuse of a solved grid."""
from specs.fdm import *

j_ = z3.Int('j?')
PRICED = ('ghost', 'interpolations')
INT = z3.Function('INT', IS, RS, RS)


def market(x, price):
    def stock(x, this, a):
        x.oblige(x.value(a[0]) == TK, 'the stock read is that of the option')
        return Ptr(ObjLoc(x.opv_sd))
    x.opv_sd = x.abstract('StockData')
    for m in ('IMarketData', 'MarketData'):
        x.contracts[(m, 'getStockData')] = stock
    x.contracts[('EuropeanOption', 'getID')] = lambda x, this, a: TK
    x.contracts[('StockData', 'getPrice')] = lambda x, this, a: price


def check_interp(x, V):
    def f(x, this, a):
        xs, ys, s = x.value(a[0]), x.value(a[1]), x.value(a[2])
        n = x.mem[PRICED]
        x.mem[PRICED] = z3.simplify(n + 1)
        x.oblige(z3.And(xs.n == J, ys.n == J), 'the grid and the prices interpolated have one value per grid point')
        x.oblige(All([j_], z3.And(j_ >= 0, j_ < J), xs.get(j_) == X(j_)), 'the grid interpolated is that of the scheme', 20)
        x.oblige(All([j_], z3.And(j_ >= 0, j_ < J), ys.get(j_) == V(N - 1, j_)), 'the prices interpolated are those of the last time level', 20)
        x.oblige(s == S0, 'the price is interpolated at the stock price in force')
        return INT(n, s)
    return f


def priced(cls, V, given=True, first='calculatePrice', linear=False):
    def go(x):
        pde, opt, md = world(x)
        x.mem[PRICED] = x.mem[STEP] = z3.IntVal(0)
        market(x, z3.Real('S_old'))
        itp = x.abstract('Interpolation') if given else None
        x.seqs = [(V, [()])]
        x.cands = [state(V)]

        def solution(x, this, a):
            t = x.mem[STEP]
            x.mem[STEP] = z3.simplify(t + 1)
            return VecV(J - 2, lambda i: SOL(t, i), 'eig')
        x.contracts[('MatrixSolver', 'solve')] = solution
        x.contracts[('Interpolation', 'interpolate') if given else 'OptionPricer::LinearInterpolation::interpolate'] = check_interp(x, V)
        kw = {'solver': x.abstract('MatrixSolver')} if linear else {}
        o = make(x, cls, pde, opt, md, interp=itp, **kw)
        market(x, S0)             # the market may move after construction

        def solve(k):
            r = x.value(x.method(o, 'solve'))
            x.oblige(r.n == J, k + ': one price per grid point')
            x.oblige(All([j_], z3.And(j_ >= 0, j_ < J), r.get(j_) == V(N - 1, j_)), k + ': the prices of the last time level', 20)

        def price(n, k):
            v = x.value(x.method(o, 'calculatePrice'))
            x.oblige(z3.And(x.mem[PRICED] == n + 1, v == INT(n, S0)), k + ': the price is the interpolated value')
        if first == 'solve':
            solve('solving')
        price(0, 'pricing')
        before = dict(x.mem)
        solve('solving again')
        price(1, 'pricing again')
        frame_unchanged(x, before, 'solving and pricing again')
        x.oblige(x.mem[STEP] == before[STEP], 'no time step is repeated')
    return Script('%s: %s first, %s interpolation' % (cls, first, 'given' if given else 'default'), go, timeout=12, slow=1.5)


SCRIPTS = [priced('EulerExplicitFDM', VE, g, f) for g in (True, False) for f in ('calculatePrice', 'solve')] + \
          [priced(c, VI, linear=True) for c in ('EulerImplicitFDM', 'CrankNicolsonFDMSolver')]
