"""Inverse of the standard normal distribution function (Beasley-Springer-Moro)."""
from specs.common import *
from algebra import LOG
from fractions import Fraction

A_ = [2.50662823884, -18.61500062529, 41.39119773534, -25.44106049637]
B_ = [-8.47351093090, 23.08336743743, -21.06224101826, 3.13082909833]
C_ = [0.3374754822726147, 0.9761690190917186, 0.1607979714918209, 0.0276438810333863, 0.0038405729373609, 0.0003951896511919, 0.0000321767881768, 0.0000002888167364, 0.0000003960315187]
Q = z3.Real('q')


def poly(x, cs, r):
    t = x.rval(0)
    for c in reversed(cs):
        t = t * r + x.rval(c)
    return t


def central(x, y):
    return y * poly(x, A_, y * y) / poly(x, [1.0] + B_, y * y)


def tail(x, u):
    return poly(x, C_, LOG(-LOG(u)))


def moro(x, u):
    y = u - z3.Q(1, 2)
    w = x.rval(0.42)
    return z3.If(z3.And(y < w, y > -w), central(x, y), z3.If(y < 0, -tail(x, u), tail(x, 1 - u)))


def quantile(x, o, q):
    st, v = attempt(x, lambda: x.value(x.method(o, 'inv_cdf', q)))
    if st == 'throw':
        x.oblige(FALSE, 'a quantile in (0,1) is accepted')
        raise Infeasible()
    return v


def formula(x):
    o = x.construct('StandardNormalDistribution')
    x.assume(z3.And(Q > 0, Q < 1))
    before = dict(x.mem)
    v = quantile(x, o, Q)
    x.oblige(v == moro(x, Q), 'the quantile is the Beasley-Springer-Moro approximation', 20)
    frame_unchanged(x, before, 'inv_cdf')


def symmetry(x):
    o = x.construct('StandardNormalDistribution')
    x.assume(z3.And(Q > 0, Q < z3.Q(1, 2)))
    a = quantile(x, o, Q)
    b = quantile(x, o, 1 - Q)
    x.oblige(a == -b, 'the quantile function is antisymmetric about 1/2', 20)


def median(x):
    o = x.construct('StandardNormalDistribution')
    x.oblige(quantile(x, o, z3.Q(1, 2)) == 0, 'the median is 0')


def denominator(x):
    r = z3.Real('r')
    x.assume(z3.And(r >= 0, r <= x.rval(0.42) * x.rval(0.42)))
    x.oblige(poly(x, [1.0] + B_, r) > 0, 'the denominator of the central approximation is positive', 20)
    x.oblige(poly(x, A_, r) > 0, 'the central approximation has the sign of u-1/2', 20)


def domain(x):
    q = finite(x, 'q')
    o = x.construct('StandardNormalDistribution')
    ok = z3.And(z3.fpGT(q, num(x, 0)), z3.fpLT(q, num(x, 1)))
    st, v = attempt(x, lambda: x.value(x.method(o, 'inv_cdf', q)))
    if st == 'throw':
        x.oblige(z3.Not(ok), 'a quantile in (0,1) is accepted')
        x.oblige(z3.BoolVal(exc_isa(v, 'std::invalid_argument')), 'rejection is an invalid_argument')
    else:
        x.oblige(ok, 'a quantile outside (0,1) is rejected')


SCRIPTS = [Script('formula', formula), Script('symmetry', symmetry), Script('median', median), Script('denominator', denominator), Script('domain', domain, mode='fp')]
