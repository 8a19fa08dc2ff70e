"""Payoff / option validation, cloning, equality (exact IEEE semantics, any double incl. NaN)."""
from specs.common import *


def terms(x, cls, tag=''):
    """(args, valid, fields) for a payoff class with arbitrary arguments"""
    z = x.rval(0)
    if cls in ('PayoffVanilla', 'PayoffDigital'):
        ty, K = z3.Int('type' + tag), anyd(x, 'K' + tag)
        x.assume(z3.And(ty >= 0, ty <= 2))
        ok = z3.And(z3.Or(ty == enumval(x, 'PayoffType', 'Call'), ty == enumval(x, 'PayoffType', 'Put')), z3.fpGEQ(K, z))
        return [ty, K], ok, [('getPayoffType', ty), ('getK', K)]
    if cls == 'PayoffDoubleDigital':
        a, b = anyd(x, 'KL' + tag), anyd(x, 'KU' + tag)
        return [a, b], z3.And(z3.fpGEQ(a, z), z3.fpGEQ(b, z)), [('getPayoffType', enumval(x, 'PayoffType', 'DoubleDigital')), ('getKL', a), ('getKU', b)]
    ty = z3.Int('type' + tag)
    x.assume(z3.And(ty >= 0, ty <= 2))
    return [ty], z3.Or(ty == enumval(x, 'PayoffType', 'Call'), ty == enumval(x, 'PayoffType', 'Put')), [('getPayoffType', ty)]


def same(a, b):
    return z3.fpEQ(a, b) if z3.is_fp(a) else a == b


def pay(x, o, cls, S, e):
    return x.value(x.method(o, 'operator()', S, e) if cls == 'PayoffLookbackFloatingStrike' else x.method(o, 'operator()', S))


def payoff(cls):
    def go(x):
        args, ok, fields = terms(x, cls)
        o = expect_valid(x, ok, lambda: x.construct(cls, *args), cls)
        for g, v in fields:
            x.oblige(same(x.value(x.method(o, g)), v), '%s::%s reports the term given' % (cls, g))
        before = dict(x.mem)
        c = oid_of(x, x.method(o, 'clone'))
        x.oblige(z3.BoolVal(x.objs[c].cls == x.objs[o].cls and c != o), 'the clone is a distinct object of the same class')
        for g, v in fields:
            x.oblige(same(x.value(x.method(c, g)), v), 'the clone has the same %s' % g)
        S, e = finite(x, 'S'), finite(x, 'e')
        x.oblige(feq(x, pay(x, c, cls, S, e), pay(x, o, cls, S, e)), 'the clone pays the same amount')
        x.oblige(x.value(x.method(o, 'operator==', ObjLoc(c))), 'the clone compares equal')
        x.oblige(z3.Not(x.value(x.method(o, 'operator!=', ObjLoc(c)))), 'the clone does not compare unequal')
        frame_unchanged(x, before, 'cloning, comparing and paying')
    return Script('%s: terms and clone' % cls, go, 'fp')


def equality(cls):
    def go(x):
        a1, k1, f1 = terms(x, cls, '1')
        a2, k2, f2 = terms(x, cls, '2')
        x.assume(k1)
        x.assume(k2)
        s1, o1 = attempt(x, lambda: x.construct(cls, *a1))
        s2, o2 = attempt(x, lambda: x.construct(cls, *a2))
        if s1 != 'ok' or s2 != 'ok':
            raise Infeasible()
        want = z3.And(*[same(p[1], q[1]) for p, q in zip(f1, f2)])
        x.oblige(x.value(x.method(o1, 'operator==', ObjLoc(o2))) == want, '%s: equal exactly when the terms agree' % cls)
        x.oblige(x.value(x.method(o1, 'operator!=', ObjLoc(o2))) == z3.Not(want), '%s: != is the negation of ==' % cls)
    return Script('%s: equality' % cls, go, 'fp')


CL = ['PayoffVanilla', 'PayoffDigital', 'PayoffDoubleDigital', 'PayoffLookbackFloatingStrike']


def cross(x):
    objs = []
    for c in CL:
        a, k, f = terms(x, c, c)
        x.assume(k)
        st, o = attempt(x, lambda: x.construct(c, *a))
        if st != 'ok':
            raise Infeasible()
        objs.append(o)
    for i, o in enumerate(objs):
        for j, p in enumerate(objs):
            if i != j:
                x.oblige(z3.Not(x.value(x.method(o, 'operator==', ObjLoc(p)))), '%s is never equal to %s' % (CL[i], CL[j]))


def option(cls):
    def go(x):
        T = anyd(x, 'T')
        md = x.abstract('IMarketData')
        x.contracts[('IMarketData', 'getStockData')] = lambda x, this, args: Ptr(ObjLoc(x.lazy('StockData')))
        pf = x.abstract('Payoff')
        vf = z3.Function('pay1', x.realsort(), x.realsort())
        wf = z3.Function('pay2', x.realsort(), x.realsort(), x.realsort())
        x.contracts[('Payoff', 'operator()')] = lambda x, this, args: vf(x.value(args[0])) if len(args) == 1 else wf(x.value(args[0]), x.value(args[1]))
        extra = []
        if 'Barrier' in cls:
            extra = [anyd(x, 'B'), x.sym('BarrierDirection', 'dir')]
        o = expect_valid(x, z3.fpGEQ(T, x.rval(0)), lambda: x.construct(cls, x.sym('std::string', 'ticker'), Ptr(ObjLoc(pf)), T, *extra, Ptr(ObjLoc(md))),
                         '%s maturity' % cls)
        x.oblige(z3.fpEQ(x.value(x.method(o, 'getT')), T), '%s reports the maturity given' % cls)
        S, e = anyd(x, 'S'), anyd(x, 'e')
        x.oblige(x.value(x.method(o, 'payoff', S)) == vf(S), '%s pays its payoff' % cls)
        x.oblige(x.value(x.method(o, 'payoff', S, e)) == wf(S, e), '%s pays its two-argument payoff' % cls)
        x.oblige(z3.BoolVal(oid_of(x, x.method(o, 'getPayoff')) == pf), '%s exposes the payoff given' % cls)
    return Script('%s: maturity and payoff' % cls, go, 'fp')


SCRIPTS = [payoff(c) for c in CL] + [equality(c) for c in CL] + [Script('payoffs of different families', cross, 'fp')] + \
    [option(c) for c in ('EuropeanOption', 'DigitalOption', 'DoubleDigitalOption', 'AmericanOption', 'ArithmeticAsianOption', 'GeometricAsianOption',
                         'KnockInBarrierOption', 'KnockOutBarrierOption', 'FloatingStrikeLookbackOption', 'FixedStrikeLookbackOption')]
