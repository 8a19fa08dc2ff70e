"""Black-Scholes PDE: coefficients, boundary values over the time to maturity, initial condition."""
from specs.common import *
from algebra import EXP

R, C, SIG, S0, T, K, K2 = z3.Reals('r coupon sigma S0 T K K2')
HASC = z3.Bool('hascoupon')
TK = z3.Const('tk', STR)
t, s = z3.Reals('t s')
C_ = z3.If(HASC, C, 0)


def market(x, r, c, has, sig):
    def stock(x, this, a):
        x.oblige(x.value(a[0]) == TK, 'the stock read is that of the option')
        return Ptr(ObjLoc(x.opv_sd))
    for m in ('IMarketData', 'MarketData'):
        x.contracts[(m, 'getStockData')] = stock
        x.contracts[(m, 'getR')] = lambda x, this, a: r
    x.contracts[('StockData', 'getPrice')] = lambda x, this, a: S0
    x.contracts[('StockData', 'getSigma')] = lambda x, this, a: sig
    x.contracts[('StockData', 'getCoupon')] = lambda x, this, a: OptV(has, c)


def build(x, payoff, *args):
    md = x.abstract('IMarketData')
    x.opv_sd = x.abstract('StockData')
    market(x, *z3.Reals('r_old c_old'), z3.Bool('hasc_old'), z3.Real('sigma_old'))
    x.assume(T >= 0)
    st, p = attempt(x, lambda: x.construct(payoff, *args))
    if st != 'ok':
        raise Infeasible()
    st, o = attempt(x, lambda: x.construct('EuropeanOption', TK, Ptr(ObjLoc(p)), T, Ptr(ObjLoc(md))))
    if st != 'ok':
        raise Infeasible()
    pde = x.construct('PDE::OneFactor::BlackScholesPDE', Ptr(ObjLoc(o)), Ptr(ObjLoc(md)))
    market(x, R, C, HASC, SIG)              # the market may move after construction
    x.assume(z3.And(SIG >= 0, s >= 0, t >= 0))
    return pde, o, p


def call(x, pde, name, *a):
    st, v = attempt(x, lambda: x.value(x.method(pde, name, *a)))
    if st == 'throw':
        x.oblige(FALSE, name + ' does not throw')
        raise Infeasible()
    return v


def single(payoff):
    def go(x):
        ty = z3.Int('type')
        x.assume(z3.And(ty >= 0, ty <= 1))
        pde, o, p = build(x, payoff, ty, K)
        before = dict(x.mem)
        iscall = ty == enumval(x, 'PayoffType', 'Call')
        x.oblige(call(x, pde, 'diffusion', t, s) == SIG * SIG * s * s / 2, 'diffusion is sigma^2 x^2 / 2')
        x.oblige(call(x, pde, 'convection', t, s) == (R - C_) * s, 'convection is (r - c) x')
        x.oblige(call(x, pde, 'reaction', t, s) == -R, 'reaction is -r')
        x.oblige(call(x, pde, 'rightHandSide', t, s) == 0, 'there is no source term')
        x.oblige(call(x, pde, 'boundaryLeft', t, s) == z3.If(iscall, 0, K * EXP(-R * t)), 'the left boundary is the discounted strike of a put and zero for a call')
        x.oblige(call(x, pde, 'boundaryRight', t, s) == z3.If(iscall, s * EXP(-C_ * t) - K * EXP(-R * t), 0), 'the right boundary is the forward value of a call and zero for a put')
        x.oblige(call(x, pde, 'initialCondition', s) == x.value(x.method(p, 'operator()', s)), 'the initial condition is the payoff')
        frame_unchanged(x, before, 'evaluating the PDE')
    return Script('Black-Scholes PDE: %s' % payoff, go)


SCRIPTS = [single('PayoffVanilla')]   # a EuropeanOption always has a vanilla payoff (its only factory, C02)
