"""Builders and the Monte-Carlo solver: what is built prices the given option with the given (or the stated default) parts."""
from specs.common import *

OPTS = ['EuropeanOption', 'DigitalOption', 'DoubleDigitalOption', 'AmericanOption', 'ArithmeticAsianOption', 'GeometricAsianOption',
        'KnockInBarrierOption', 'KnockOutBarrierOption', 'FloatingStrikeLookbackOption', 'FixedStrikeLookbackOption']
# builder, option kinds accepted, pricer
BUILD = [('MCSinglePathBuilder', OPTS[:3], 'SinglePathMCPricer'), ('AmericanMCBuilder', OPTS[3:4], 'AmericanMCPricer'),
         ('ArithmeticAsianMCBuilder', OPTS[4:5], 'ArithmeticAsianMCPricer'), ('GeometricAsianMCBuilder', OPTS[5:6], 'GeometricAsianMCPricer'),
         ('KnockInBarrierMCBuilder', OPTS[6:7], 'KnockInBarrierMCPricer'), ('KnockOutBarrierMCBuilder', OPTS[7:8], 'KnockOutBarrierMCPricer'),
         ('FloatingStrikeLookbackMCBuilder', OPTS[8:9], 'FloatingStrikeLookbackMCPricer'), ('FixedStrikeLookbackMCBuilder', OPTS[9:], 'FixedStrikeLookbackMCPricer')]
READS = ('ghost', 'reads')


def parts(x, oid):
    """objects an object refers to, by the class they are used as"""
    out = []
    for c, f in x.P.all_fields(x.objs[oid].cls):
        v = x.mem.get(('f', oid, c, f['name']))
        if isinstance(v, Ptr):
            out.append(v.loc.oid if v.loc is not None else None)
    return out


def short(x, oid):
    return Program.shortname(x.objs[oid].cls)


def setup(x):
    inst = x.abstract('MarketData')
    x.contracts['=getInstance'] = lambda x, this, a: Ptr(ObjLoc(inst))
    x.mem[READS] = ()
    x.opv_sd = x.abstract('StockData')

    def stock(x, this, a):
        x.mem[READS] = x.mem[READS] + ((this, x.value(a[0])),)
        return Ptr(ObjLoc(x.opv_sd))
    for m in ('IMarketData', 'MarketData'):
        x.contracts[(m, 'getStockData')] = stock
    return inst


def p(o):
    return Ptr(ObjLoc(o))


def default_model(x, m, o, md, label):
    """the model made when none is given"""
    ok = m is not None and short(x, m) == 'GeometricBrownianMotionModel'
    x.oblige(z3.BoolVal(ok), label + ': the default model is geometric Brownian motion')
    if not ok:
        raise Infeasible()
    rd = x.mem[READS]
    x.oblige(z3.BoolVal(len(rd) == 1 and rd[0][0] == md), label + ': the default model reads the market data of the builder')
    if len(rd) == 1:
        x.oblige(rd[0][1] == getter(x, o, 'getID'), label + ': the default model simulates the stock of the option')
    x.mem[READS] = ()
    g = oid_of(x, x.method(m, 'getGenerator'))
    x.oblige(z3.BoolVal(short(x, g) == 'PseudoRandomNumberGenerator'), label + ': the default model uses a pseudo-random generator')
    x.oblige(z3.And(getter(x, g, 'getDim') == 52, getter(x, m, 'getSteps') == 52), label + ': the default model has 52 steps')


def built(x, r, cls, o, md, model, label, extra=()):
    """r: the pricer built; model None: default"""
    q = oid_of(x, r)
    x.oblige(z3.BoolVal(short(x, q) == cls), label + ': builds a ' + cls)
    ps = parts(x, q)
    x.oblige(z3.BoolVal(o in ps), label + ': the pricer prices the option last given')
    x.oblige(z3.BoolVal(md in ps), label + ': the pricer discounts with the market data last given')
    rest = [i for i in ps if i not in (o, md)]
    ms = [i for i in rest if i is not None and x.P.derives(x.objs[i].cls, x.P.need('StockModel'))]
    x.oblige(z3.BoolVal(len(ms) == 1), label + ': the pricer has one model')
    if model is not None:
        x.oblige(z3.BoolVal(ms == [model]), label + ': the pricer uses the model last given')
        x.oblige(z3.BoolVal(x.mem[READS] == ()), label + ': a given model is not replaced')
    elif len(ms) == 1:
        default_model(x, ms[0], o, md, label)
    for e in extra:
        x.oblige(z3.BoolVal(e in rest), label + ': the pricer uses the regression and basis functions last given')
    return q, rest


def ret(x, v, b, label):
    x.oblige(z3.BoolVal(oid_of(x, v) == b), label + ' returns the builder itself')


def accepts(bld, kinds, pricer):
    def go(x):
        setup(x)
        b = x.construct(bld)
        st, e = attempt(x, lambda: x.method(b, 'build'))
        x.oblige(z3.BoolVal(st == 'throw' and exc_isa(e, 'std::logic_error')), 'building without an option raises std::logic_error')
        k = OPTS[x.pick(len(OPTS))]
        o = x.lazy(k)
        st, e = attempt(x, lambda: x.method(b, 'setOption', p(o)))
        if st == 'throw':
            x.oblige(z3.BoolVal(k not in kinds), 'every option of its kind is accepted')
            x.oblige(z3.BoolVal(exc_isa(e, 'std::invalid_argument')), 'an option of another kind raises std::invalid_argument')
            st, e = attempt(x, lambda: x.method(b, 'build'))
            x.oblige(z3.BoolVal(st == 'throw' and exc_isa(e, 'std::logic_error')), 'a rejected option is not priced')
            return
        x.oblige(z3.BoolVal(k in kinds), 'an option of another kind is rejected')
        ret(x, e, b, 'setOption')
        b2 = x.construct(bld)
        st, e = attempt(x, lambda: x.method(b2, 'setOption', Ptr(None)))
        x.oblige(z3.BoolVal(st == 'throw' and exc_isa(e, 'std::invalid_argument')), 'no option at all raises std::invalid_argument')
    return Script(bld + ': options accepted', go)


def builds(bld, kinds, pricer):
    def go(x):
        inst = setup(x)
        b = x.construct(bld)
        o, o2, k = x.lazy(kinds[0]), x.lazy(kinds[-1]), bld
        before = dict(x.mem)
        ret(x, x.method(b, 'setOption', p(o)), b, 'setOption')
        keep = dict(x.mem)
        q, rest = built(x, x.method(b, 'build'), pricer, o, inst, None, k + ' with defaults')
        if bld == 'AmericanMCBuilder':
            bf = [i for i in rest if i is not None and short(x, i) == 'MonomialBasisFunction']
            x.oblige(z3.BoolVal(len(bf) == 1 and any(i is not None and short(x, i) == 'LeastSquaresRegression' for i in rest)), 'the default regression is least squares on monomials')
            if bf:
                n = z3.Int('npts')
                x.assume(z3.And(n >= 1, n < 100))
                m = x.value(x.method(bf[0], 'generate', VecV(n, lambda i: z3.ToReal(i), 'eig')))
                x.oblige(m.c == 3, 'three monomials are used by default')
        qm = dict((key, v) for key, v in x.mem.items() if key[0] == 'f' and key[1] == q)
        # another option: a default model belongs to the option it was made for
        x.method(b, 'setOption', p(o2))
        built(x, x.method(b, 'build'), pricer, o2, inst, None, k + ' with defaults, another option')
        built(x, x.method(b, 'build'), pricer, o2, inst, None, k + ' with defaults, built again')
        md = x.abstract('IMarketData')
        ret(x, x.method(b, 'setMarketData', p(md)), b, 'setMarketData')
        built(x, x.method(b, 'build'), pricer, o2, md, None, k + ' with given market data')
        mo, mo2 = x.abstract('StockModel'), x.abstract('StockModel')
        ret(x, x.method(b, 'setStockPriceModel', p(mo)), b, 'setStockPriceModel')
        built(x, x.method(b, 'build'), pricer, o2, md, mo, k + ' with a given model')
        built(x, x.method(b, 'build'), pricer, o2, md, mo, k + ' with a given model, built again')
        x.method(b, 'setStockPriceModel', p(mo2))
        x.method(b, 'setOption', p(o))
        x.method(b, 'setMarketData', p(inst))
        built(x, x.method(b, 'build'), pricer, o, inst, mo2, k + ' with everything given again')
        if bld == 'AmericanMCBuilder':
            rg, bs = x.abstract('Regression'), x.abstract('BasisFunction')
            ret(x, x.method(b, 'setRegressionStrategy', p(rg)), b, 'setRegressionStrategy')
            ret(x, x.method(b, 'setBasisFunctionStrategy', p(bs)), b, 'setBasisFunctionStrategy')
            built(x, x.method(b, 'build'), pricer, o, inst, mo2, k + ' with given strategies', (rg, bs))
            built(x, x.method(b, 'build'), pricer, o, inst, mo2, k + ' with given strategies, built again', (rg, bs))
        # pricers already built are not affected by the builder
        for key, v in qm.items():
            w = x.mem.get(key)
            x.oblige(z3.BoolVal(w is v or w == v), 'a pricer already built does not change')
    return Script(bld + ': build', go)


def solver(x):
    N0, N1 = z3.Ints('N0 N1')
    x.assume(z3.And(N0 >= 0, N1 >= 0, N0 < (1 << 64), N1 < (1 << 64)))
    F = z3.Function('PRICE', IS, IS, RS)
    calls = ('ghost', 'calls')
    x.mem[calls] = 0

    def price(x, this, a):
        x.mem[calls] += 1
        return F(z3.IntVal(this), x.value(a[0]))
    x.contracts[('MCPricer', 'calculatePrice')] = price
    d = x.construct('MCSolver')
    s = x.construct('MCSolver', N0)
    st, e = attempt(x, lambda: x.value(x.method(s, 'solve')))
    x.oblige(z3.BoolVal(st == 'throw' and exc_isa(e, 'std::logic_error')), 'solving without a pricer raises std::logic_error')
    a, b = x.abstract('MCPricer'), x.abstract('MCPricer')

    def solve(s, q, n, k):
        before, c = dict(x.mem), x.mem[calls]
        v = x.value(x.method(s, 'solve'))
        x.oblige(v == F(z3.IntVal(q), n), k + ': the pricer last set prices with the number of paths last set')
        x.oblige(z3.BoolVal(x.mem[calls] == c + 1), k + ': priced once')
        frame_unchanged(x, before, k)
    x.method(d, 'setPricer', p(a))
    solve(d, a, z3.IntVal(100000), 'default number of paths')
    x.method(s, 'setPricer', p(a))
    solve(s, a, N0, 'solve')
    solve(s, a, N0, 'solving again')
    x.method(s, 'setN', N1)
    solve(s, a, N1, 'after setN')
    x.method(s, 'setPricer', p(b))
    solve(s, b, N1, 'after setPricer')
    x.method(s, 'setN', N0)
    solve(s, b, N0, 'after setN again')


SCRIPTS = [accepts(*b) for b in BUILD] + [builds(*b) for b in BUILD] + [Script('MCSolver', solver)]
