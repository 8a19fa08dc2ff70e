"""MarketData registry: every operation affects exactly the ticker it names (arbitrary state, arbitrary tickers)."""
from specs.market import *
from specs.C03 import addfn


def op_script(name, run, okspec):
    """run(x, md, t) performs the operation; okspec describes the effect on ticker t"""
    def go(x):
        md = setup(x, 'none')
        t, u = x.sym('std::string', 't'), x.sym('std::string', 'u')
        x.assume(t != u)
        bu = look(x, md, u)
        bt = look(x, md, t)
        for b in (bu, bt):
            if b[0] == 'ok':
                x.assume(valid(x, *b[1]))
        r0 = x.value(x.method(md, 'getR'))
        st, e = attempt(x, lambda: run(x, md, t))
        au, at = look(x, md, u), look(x, md, t)
        x.oblige(z3.BoolVal(au[0] == bu[0]), '%s: another ticker stays registered or unregistered' % name)
        if au[0] == 'ok' and bu[0] == 'ok':
            x.oblige(same_stock(x, au[1], bu[1]), '%s: another stock is unchanged' % name)
        okspec(x, st, e, bt, at, r0, x.value(x.method(md, 'getR')))
    return Script('registry: ' + name, go)


def upd(meth, which):
    def run(x, md, t):
        x.v = anyopt(x, 'v') if which == 2 else anyd(x, 'v')
        return x.method(md, meth, t, x.v)

    def spec(x, st, e, bt, at, r0, r1):
        x.oblige(r1 == r0, '%s: the rate is unchanged' % meth)
        if bt[0] == 'throw':
            x.oblige(z3.BoolVal(st == 'throw' and exc_isa(e, 'std::invalid_argument')), '%s: an unknown ticker is rejected' % meth)
            x.oblige(z3.BoolVal(at[0] == 'throw'), '%s: an unknown ticker stays unknown' % meth)
            return
        x.oblige(z3.BoolVal(at[0] == 'ok'), '%s: the ticker stays registered' % meth)
        new = list(bt[1])
        new[which] = x.v
        if at[0] == 'ok':
            x.oblige(same_stock(x, at[1], bt[1] if st == 'throw' else new), '%s: the named stock has exactly the new value' % meth)
            x.oblige(valid(x, *new) if st == 'ok' else z3.Not(valid(x, *new)), '%s: accepted exactly when valid' % meth)
    return op_script(meth, run, spec)


def add(nargs):
    def run(x, md, t):
        x.v = [anyd(x, 'S'), anyd(x, 's'), anyopt(x, 'c') if nargs == 3 else OptV(FALSE, x.rval(0))]
        return x.invoke(addfn(x, nargs), md, [x.tmp(t)] + [x.tmp(a) for a in x.v[:nargs]])

    def spec(x, st, e, bt, at, r0, r1):
        x.oblige(r1 == r0, 'addStock: the rate is unchanged')
        if st == 'throw':
            x.oblige(z3.Not(valid(x, *x.v)), 'addStock: rejected only when invalid')
            x.oblige(z3.BoolVal(at[0] == bt[0]), 'addStock: rejection registers nothing')
            if at[0] == 'ok' and bt[0] == 'ok':
                x.oblige(same_stock(x, at[1], bt[1]), 'addStock: rejection changes nothing')
        else:
            x.oblige(z3.BoolVal(at[0] == 'ok'), 'addStock: registered')
            if at[0] == 'ok':
                x.oblige(same_stock(x, at[1], x.v), 'addStock: the values given')
    return op_script('addStock/%d' % nargs, run, spec)


def setr(x):
    md = setup(x, 'none')
    u = x.sym('std::string', 'u')
    b = look(x, md, u)
    r = anyd(x, 'r')
    x.method(md, 'setR', r)
    a = look(x, md, u)
    x.oblige(x.value(x.method(md, 'getR')) == r, 'the rate is the one set')
    x.oblige(z3.BoolVal(a[0] == b[0]), 'setR: stocks stay registered')
    if a[0] == 'ok' and b[0] == 'ok':
        x.oblige(same_stock(x, a[1], b[1]), 'setR: stocks are unchanged')


def const_ops(x):
    md = setup(x, 'none')
    t = x.sym('std::string', 't')
    st, v = attempt(x, lambda: x.method(md, 'getStockData', t))
    if st == 'throw':
        x.oblige(z3.BoolVal(exc_isa(v, 'std::invalid_argument')), 'an unknown ticker raises std::invalid_argument')
    else:
        st2, w = attempt(x, lambda: x.method(md, 'getStockData', t))
        x.oblige(z3.BoolVal(st2 == 'ok' and oid_of(x, v) == oid_of(x, w)), 'repeated look-ups give the same stock')
    r0 = x.value(x.method(md, 'getR'))
    x.oblige(x.value(x.method(md, 'getR')) == r0, 'reading the rate does not change it')


def handle(x):
    """a handle obtained earlier sees later accepted updates"""
    md = setup(x, 'none')
    t = x.sym('std::string', 't')
    st, v = attempt(x, lambda: x.method(md, 'getStockData', t))
    if st == 'throw':
        raise Infeasible()
    o = oid_of(x, v)
    p = anyd(x, 'p')
    x.assume(p > 0)
    x.assume(valid(x, *look(x, md, t)[1]))
    st, e = attempt(x, lambda: x.method(md, 'updateStockPrice', t, p))
    x.oblige(z3.BoolVal(st == 'ok'), 'a positive price is accepted')
    x.oblige(x.value(x.method(o, 'getPrice')) == p, 'a handle obtained earlier shows the new price')


def instance_var(x):
    c = x.P.need('MarketData')
    for q, v in x.P.vars.items():
        if q.startswith(c + '::') and base_name(strip_type(tstr(v['type']))) == 'shared_ptr':
            return q
    return None


def fresh(x):
    q = instance_var(x)
    if q is None:
        raise Unsupported('singleton storage')
    x.mem[('g', q)] = Ptr(None)
    f = x.find_fn('MarketData', 'getInstance', 0)
    a = oid_of(x, x.invoke(f, None, []))
    t = x.sym('std::string', 't')
    x.oblige(z3.BoolVal(look(x, a, t)[0] == 'throw'), 'a new registry knows no stock')
    st, e = attempt(x, lambda: x.invoke(addfn(x, 2), a, [x.tmp(t), x.tmp(x.rval(100)), x.tmp(x.rval(Fraction(1, 5)))]))
    x.oblige(z3.BoolVal(st == 'ok'), 'a stock can be added')
    x.method(a, 'setR', anyd(x, 'r'))
    b = oid_of(x, x.invoke(f, None, []))
    x.oblige(z3.BoolVal(a == b), 'every call of getInstance gives the same registry')
    x.oblige(z3.BoolVal(look(x, b, t)[0] == 'ok'), 'with the stocks added so far')
    x.oblige(x.value(x.method(b, 'getR')) == anyd(x, 'r'), 'and the rate set so far')


SCRIPTS = [upd('updateStockPrice', 0), upd('updateStockSigma', 1), upd('updateStockCoupon', 2), add(2), add(3), Script('setR', setr),
           Script('look-ups', const_ops), Script('shared handles', handle), Script('getInstance', fresh)]
