"""Payoff values (IEEE-754 double semantics, all finite arguments)."""
from specs.common import *


def mk(x, cls, *args):
    st, o = attempt(x, lambda: x.construct(cls, *args))
    if st != 'ok':
        raise Infeasible()
    return o


def fpmax0(x, t):
    z = x.rval(0)
    return z3.If(z3.fpGT(t, z), t, z)


def single(cls, kind, spec):
    def go(x):
        K, S = finite(x, 'K'), finite(x, 'S')
        x.assume(z3.fpGEQ(K, x.rval(0)))
        o = mk(x, cls, enumval(x, 'PayoffType', kind), K)
        r = x.value(x.method(o, 'operator()', S))
        x.oblige(feq(x, r, spec(x, S, K)), '%s %s value' % (cls, kind))
    return Script('%s %s' % (cls, kind), go, 'fp')


def one(x, c):
    return z3.If(c, x.rval(1), x.rval(0))


def double(x):
    a, b, S = finite(x, 'KL'), finite(x, 'KU'), finite(x, 'S')
    x.assume(z3.And(z3.fpGEQ(a, x.rval(0)), z3.fpLEQ(a, b)))
    o = mk(x, 'PayoffDoubleDigital', a, b)
    r = x.value(x.method(o, 'operator()', S))
    x.oblige(feq(x, r, one(x, z3.And(z3.fpLEQ(a, S), z3.fpLEQ(S, b)))), 'double digital value')


def lookback(kind, spec):
    def go(x):
        S, e = finite(x, 'S'), finite(x, 'extreme')
        o = mk(x, 'PayoffLookbackFloatingStrike', enumval(x, 'PayoffType', kind))
        r = x.value(x.method(o, 'operator()', S, e))
        x.oblige(feq(x, r, spec(x, S, e)), 'floating-strike lookback %s value' % kind)
    return Script('lookback %s' % kind, go, 'fp')


sub = lambda a, b: z3.fpSub(RNE, a, b)
SCRIPTS = [
    single('PayoffVanilla', 'Call', lambda x, S, K: fpmax0(x, sub(S, K))),
    single('PayoffVanilla', 'Put', lambda x, S, K: fpmax0(x, sub(K, S))),
    single('PayoffDigital', 'Call', lambda x, S, K: one(x, z3.fpGT(S, K))),
    single('PayoffDigital', 'Put', lambda x, S, K: one(x, z3.fpLT(S, K))),
    Script('double digital', double, 'fp'),
    lookback('Call', lambda x, S, e: fpmax0(x, sub(S, e))),
    lookback('Put', lambda x, S, e: fpmax0(x, sub(e, S))),
]
