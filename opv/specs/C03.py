"""StockData: validity invariant and all-or-nothing updates (exact IEEE semantics, any double)."""
from specs.market import *


def construct(with_c):
    def go(x):
        S, s, c = anyd(x, 'S'), anyd(x, 'sigma'), anyopt(x, 'c')
        if not with_c:
            c = OptV(FALSE, x.rval(0))
        args = [S, s] + ([c] if with_c else [])
        o = expect_valid(x, valid(x, S, s, c), lambda: x.construct('StockData', *args), 'StockData construction')
        x.oblige(z3.And(feq(x, x.value(x.method(o, 'getPrice')), S), feq(x, x.value(x.method(o, 'getSigma')), s)), 'the stock reports the price and volatility given')
        x.oblige(sameopt(x, x.value(x.method(o, 'getCoupon')), c), 'the stock reports the coupon given')
    return Script('StockData construction%s' % ('' if with_c else ' without coupon'), go, 'fp')


def pre(x, md, t):
    st, v = look(x, md, t)
    if st == 'throw':
        raise Infeasible()
    x.assume(valid(x, *v))
    return v


def update(meth, which):
    def go(x):
        md = setup(x, 'none')
        t = x.sym('std::string', 't')
        old = pre(x, md, t)
        arg = anyopt(x, 'v') if which == 2 else anyd(x, 'v')
        new = list(old)
        new[which] = arg
        st, e = attempt(x, lambda: x.method(md, meth, t, arg))
        s2, now = look(x, md, t)
        x.oblige(z3.BoolVal(s2 == 'ok'), '%s keeps the stock registered' % meth)
        if s2 != 'ok':
            return
        if st == 'throw':
            x.oblige(z3.Not(valid(x, *new)), '%s accepts every valid value' % meth)
            x.oblige(z3.BoolVal(exc_isa(e, 'std::invalid_argument')), '%s rejects with std::invalid_argument' % meth)
            x.oblige(same_stock(x, now, old), 'a rejected %s leaves the stock unchanged' % meth)
        else:
            x.oblige(valid(x, *new), '%s rejects every invalid value' % meth)
            x.oblige(same_stock(x, now, new), '%s changes exactly the field given' % meth)
            x.oblige(valid(x, *now), 'the stock is valid after %s' % meth)
    return Script('%s' % meth, go, 'fp')


def add(nargs):
    def go(x):
        md = setup(x, 'none')
        t = x.sym('std::string', 't')
        S, s = anyd(x, 'S'), anyd(x, 'sigma')
        c = OptV(FALSE, x.rval(0))
        args = [S, s]
        if nargs == 3:
            c = anyopt(x, 'c')
            args.append(c)
        before = look(x, md, t)
        f = addfn(x, nargs)
        st, e = attempt(x, lambda: x.invoke(f, md, [x.tmp(t)] + [x.tmp(a) for a in args]))
        after = look(x, md, t)
        if st == 'throw':
            x.oblige(z3.Not(valid(x, S, s, c)), 'addStock accepts every valid stock')
            x.oblige(z3.BoolVal(exc_isa(e, 'std::invalid_argument')), 'addStock rejects with std::invalid_argument')
            x.oblige(z3.BoolVal(before[0] == after[0]), 'a rejected addStock does not register anything')
            if before[0] == 'ok' and after[0] == 'ok':
                x.oblige(same_stock(x, before[1], after[1]), 'a rejected addStock leaves the stock unchanged')
        else:
            x.oblige(valid(x, S, s, c), 'addStock rejects every invalid stock')
            x.oblige(z3.BoolVal(after[0] == 'ok'), 'addStock registers the stock')
            if after[0] == 'ok':
                x.oblige(same_stock(x, after[1], (S, s, c)), 'addStock stores the values given')
    return Script('addStock/%d' % nargs, go, 'fp')


def addfn(x, nargs):
    """the instantiation of addStock for (price, sigma[, optional coupon])"""
    for f in x.P.methods.get(x.P.need('MarketData'), ()):
        if f['name'] == 'addStock' and len(f['params']) == 1 + nargs and f['body'] is not None:
            if nargs == 2 or 'optional' in tstr0(f['params'][3]['type']):
                return f
    raise Unsupported('addStock instantiation')


def equality(x):
    v1 = (anyd(x, 'S1'), anyd(x, 's1'), anyopt(x, 'c1'))
    v2 = (anyd(x, 'S2'), anyd(x, 's2'), anyopt(x, 'c2'))
    x.assume(valid(x, *v1))
    x.assume(valid(x, *v2))
    a, b = attempt(x, lambda: x.construct('StockData', *v1)), attempt(x, lambda: x.construct('StockData', *v2))
    if a[0] != 'ok' or b[0] != 'ok':
        raise Infeasible()
    x.oblige(x.value(x.method(a[1], 'operator==', ObjLoc(b[1]))) == same_stock(x, v1, v2), 'stocks are equal exactly when price, volatility and coupon agree')
    x.oblige(x.value(x.method(a[1], 'operator!=', ObjLoc(b[1]))) == z3.Not(same_stock(x, v1, v2)), '!= is the negation of ==')


SCRIPTS = [construct(True), construct(False), update('updateStockPrice', 0), update('updateStockSigma', 1), update('updateStockCoupon', 2),
           add(2), add(3), Script('StockData equality', equality, 'fp')]
