"""Asian and lookback Monte-Carlo prices."""
from specs.mc import *

# running sums over the steps of path i
AR = Seq('ARs', RS, [IS], lambda i: z3.RealVal(0), lambda i, t, p: p + P(i, t))
GE = Seq('GEs', RS, [IS], lambda i: z3.RealVal(0), lambda i, t, p: p + LOG(P(i, t)))
SAR = Seq('SAR', RS, [], lambda: z3.RealVal(0), lambda i, p: p + PAY(AR(i, ST) / z3.ToReal(ST)))
SGE = Seq('SGE', RS, [], lambda: z3.RealVal(0), lambda i, p: p + PAY(EXP(GE(i, ST) / z3.ToReal(ST))))


def cur(x, info):
    """the path being averaged: the last one simulated"""
    return [(z3.simplify(info['mem0'][SIM] - 1),)]


def asian(pricer, opt, inner, total):
    def f(x):
        price(x, pricer, opt, [(inner, cur), (total, [()])], total)
    return Script(pricer, f)


# smallest / largest price among the first t steps of path i (folds over the whole path; prices are finite)
INF = z3.Real('INF')
MN = Seq('MNs', RS, [IS], lambda i: INF, lambda i, t, p: z3.If(P(i, t) < p, P(i, t), p))
MX = Seq('MXs', RS, [IS], lambda i: -INF, lambda i, t, p: z3.If(P(i, t) > p, P(i, t), p))


def lookback(pricer, opt, fixed):
    def f(x):
        call = call_put(x)
        i, t = z3.Ints('i? t?')
        x.assume(All([i, t], TRUE, z3.And(P(i, t) < INF, P(i, t) > -INF)))
        last = lambda i: P(i, ST - 1)
        if fixed:
            term = lambda i: z3.If(call, PAY(MX(i, ST)), PAY(MN(i, ST)))
        else:
            term = lambda i: z3.If(call, PAY2(last(i), MN(i, ST)), PAY2(last(i), MX(i, ST)))
        tot = Seq('SLB%d' % fixed, RS, [], lambda: z3.RealVal(0), lambda i, p: p + term(i))
        price(x, pricer, opt, [(MN, cur), (MX, cur), (tot, [()])], tot)
    return Script(pricer, f)


SCRIPTS = [asian('ArithmeticAsianMCPricer', 'ArithmeticAsianOption', AR, SAR), asian('GeometricAsianMCPricer', 'GeometricAsianOption', GE, SGE),
           lookback('FloatingStrikeLookbackMCPricer', 'FloatingStrikeLookbackOption', False),
           lookback('FixedStrikeLookbackMCPricer', 'FixedStrikeLookbackOption', True)]
