"""ParameterObject is a faithful typed dictionary; every factory builds exactly the option described (any parameters, exact doubles)."""
from specs.market import *

ALTS = [('int', 'int'), ('double', 'double'), ('string', 'std::string'), ('BarrierDirection', 'BarrierDirection')]


def short(t):
    t = strip_type(t)
    return 'string' if is_string(t) else t.split('::')[-1]


def getter_for(x, alt):
    for f in x.P.funcs.values():
        if f['name'] == 'getParameter' and f['body'] and (f['cls'] or '').endswith('ParameterObject') and not f.get('tmpl'):
            r = (f['type'] or '').split('(')[0].strip()
            if short(r) == alt:
                return f
    raise Unsupported('getParameter<%s>' % alt)


def read(x, o, alt, n):
    """('ok', value) / ('throw', cls)"""
    f = getter_for(x, alt)
    return attempt(x, lambda: x.value(x.invoke(f, o, [x.tmp(n)])))


def param_set(alt, ctype):
    def go(x):
        o = x.lazy('ParameterObject')
        n, m = x.sym('std::string', 'n'), x.sym('std::string', 'm')
        v = x.sym(ctype, 'v')
        x.assume(n != m)
        want, _ = ALTS[x.pick(4)]
        hb, bm = x.value(x.method(o, 'hasParameter', m)), read(x, o, want, m)
        x.method(o, 'setParameter', n, VarV(alt, v))
        x.oblige(x.value(x.method(o, 'hasParameter', n)), 'a parameter set is present')
        st, w = read(x, o, want, n)
        if want == alt:
            x.oblige(z3.BoolVal(st == 'ok'), 'a parameter set can be read back')
            if st == 'ok':
                x.oblige(w == v, 'a parameter has the value last set (%s)' % alt)
        else:
            x.oblige(z3.BoolVal(st == 'throw' and exc_isa(w, 'std::invalid_argument')), 'reading a %s as %s raises std::invalid_argument' % (alt, want))
        ha, am = x.value(x.method(o, 'hasParameter', m)), read(x, o, want, m)
        x.oblige(ha == hb, 'the presence of other parameters is unchanged')
        x.oblige(z3.BoolVal(am[0] == bm[0]), 'the type of other parameters is unchanged')
        if am[0] == bm[0] == 'ok':
            x.oblige(am[1] == bm[1], 'the value of other parameters is unchanged')
        elif am[0] == 'throw':
            x.oblige(z3.BoolVal(exc_isa(am[1], 'std::invalid_argument')), 'a missing or mistyped parameter raises std::invalid_argument')
    return Script('ParameterObject: set %s' % alt, go, 'fp')


def empty(x):
    o = x.construct('ParameterObject')
    n = x.sym('std::string', 'n')
    x.oblige(z3.Not(x.value(x.method(o, 'hasParameter', n))), 'a new parameter object is empty')
    for alt, _ in ALTS:
        st, e = read(x, o, alt, n)
        x.oblige(z3.BoolVal(st == 'throw' and exc_isa(e, 'std::invalid_argument')), 'an absent parameter raises std::invalid_argument')


# factory, option class, payoff class, strike parameters, barrier
FACT = [('EuropeanOptionFactory', 'EuropeanOption', 'PayoffVanilla'), ('DigitalOptionFactory', 'DigitalOption', 'PayoffDigital'),
        ('DoubleDigitalOptionFactory', 'DoubleDigitalOption', 'PayoffDoubleDigital'), ('AmericanOptionFactory', 'AmericanOption', 'PayoffVanilla'),
        ('ArithmeticAsianOptionFactory', 'ArithmeticAsianOption', 'PayoffVanilla'), ('GeometricAsianOptionFactory', 'GeometricAsianOption', 'PayoffVanilla'),
        ('KnockInBarrierOptionFactory', 'KnockInBarrierOption', 'PayoffVanilla'), ('KnockOutBarrierOptionFactory', 'KnockOutBarrierOption', 'PayoffVanilla'),
        ('FloatingStrikeLookbackOptionFactory', 'FloatingStrikeLookbackOption', 'PayoffLookbackFloatingStrike'),
        ('FixedStrikeLookbackOptionFactory', 'FixedStrikeLookbackOption', 'PayoffVanilla')]
KNOWN = z3.Function('known', STR, BS)


def factory(fac, opt, pay, side):
    bar = 'Barrier' in opt

    def go(x):
        md = x.abstract('MarketData')
        x.mem[('ghost', 'reg')] = ()

        def add(x, this, args):
            x.mem[('ghost', 'reg')] = x.mem[('ghost', 'reg')] + (oid_of(x, args[0]),)

        def stock(x, this, args):
            if not x.choose(KNOWN(x.value(args[0]))):
                raise CppThrow('std::invalid_argument')
            return Ptr(ObjLoc(x.lazy('StockData')))
        x.contracts[('IMarketData', 'addObserver')] = x.contracts[('MarketData', 'addObserver')] = add
        x.contracts[('IMarketData', 'getStockData')] = x.contracts[('MarketData', 'getStockData')] = stock
        x.contracts['=getInstance'] = lambda x, this, args: Ptr(ObjLoc(md))
        # the parameters: each one arbitrary, present or not, of the right or of another type
        p = x.construct('ParameterObject')
        need = [('ticker', 'string', 'std::string'), ('T', 'double', 'double')]
        need += {'PayoffDoubleDigital': [('K1', 'double', 'double'), ('K2', 'double', 'double')],
                 'PayoffLookbackFloatingStrike': []}.get(pay, [('K', 'double', 'double')])
        if bar:
            need += [('B', 'double', 'double'), ('direction', 'BarrierDirection', 'BarrierDirection')]
        val, bad = {}, False
        c = x.pick(1 + 2 * len(need))
        for i, (n, alt, ct) in enumerate(need):
            if c == 1 + 2 * i:
                bad = True
                continue
            if c == 2 + 2 * i:
                bad = True
                w, wt = [a for a in ALTS if a[0] != alt][x.pick(3)]
                x.method(p, 'setParameter', x.pr.lit(n), VarV(w, x.sym(wt, 'wrong')))
                continue
            val[n] = x.sym(ct, n)
            x.method(p, 'setParameter', x.pr.lit(n), VarV(alt, val[n]))
        # a parameter of another name must not matter
        other = x.sym('std::string', 'other')
        for n, _, _ in need:
            x.assume(other != x.pr.lit(n))
        x.method(p, 'setParameter', other, VarV('double', x.sym('double', 'othervalue')))
        f = x.construct(fac)
        st, r = attempt(x, lambda: x.method(f, 'create%sOption' % side, ObjLoc(p)))
        z = x.rval(0)
        ok = FALSE
        if not bad:
            ok = z3.And(KNOWN(val['ticker']), *[z3.fpGEQ(val[n], z) for n in ('T', 'K', 'K1', 'K2') if n in val])
        if st == 'throw':
            x.oblige(z3.Not(ok), '%s accepts every valid description' % fac)
            x.oblige(z3.BoolVal(exc_isa(r, 'std::invalid_argument')), '%s rejects with std::invalid_argument' % fac)
            x.oblige(z3.BoolVal(x.mem[('ghost', 'reg')] == ()), '%s: a rejected option is not registered' % fac)
            return
        x.oblige(ok, '%s rejects missing, mistyped and invalid parameters' % fac)
        if bad:
            return
        o = oid_of(x, r)
        x.oblige(z3.BoolVal(Program.shortname(x.objs[o].cls) == opt), '%s builds a %s' % (fac, opt))
        x.oblige(z3.BoolVal(x.mem[('ghost', 'reg')] == (o,)), '%s registers the option as an observer once' % fac)
        x.oblige(z3.fpEQ(x.value(x.method(o, 'getT')), val['T']), '%s: maturity' % fac)
        x.oblige(x.value(x.method(o, 'getID')) == val['ticker'], '%s: ticker' % fac)
        q = oid_of(x, x.method(o, 'getPayoff'))
        x.oblige(z3.BoolVal(Program.shortname(x.objs[q].cls) == pay), '%s: payoff class' % fac)
        x.oblige(x.value(x.method(q, 'getPayoffType')) == enumval(x, 'PayoffType', 'DoubleDigital' if pay == 'PayoffDoubleDigital' else side), '%s: payoff type' % fac)
        if pay == 'PayoffDoubleDigital':
            x.oblige(z3.And(z3.fpEQ(x.value(x.method(q, 'getKL')), val['K1']), z3.fpEQ(x.value(x.method(q, 'getKU')), val['K2'])), '%s: strikes' % fac)
        elif 'K' in val:
            x.oblige(z3.fpEQ(x.value(x.method(q, 'getK')), val['K']), '%s: strike' % fac)
        if bar:
            S = anyd(x, 'S')
            up = val['direction'] == enumval(x, 'BarrierDirection', 'Up')
            crossed = z3.If(up, z3.fpGEQ(S, val['B']), z3.fpLEQ(S, val['B']))
            x.assume(z3.Not(z3.Or(z3.fpIsNaN(S), z3.fpIsNaN(val['B']))))
            x.oblige(x.value(x.method(o, 'isActive', S)) == (crossed if 'In' in opt else z3.Not(crossed)), '%s: barrier and direction' % fac)
    return Script('%s: %s' % (fac, side), go, 'fp')


SCRIPTS = [param_set(a, t) for a, t in ALTS] + [Script('ParameterObject: empty', empty, 'fp')] + \
    [factory(f, o, p, s) for f, o, p in FACT for s in ('Call', 'Put')]
