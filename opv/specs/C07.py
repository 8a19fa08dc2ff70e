"""Barrier options: activity test, knock-in / knock-out Monte-Carlo prices, in-out parity."""
from specs.mc import *


def touch_(x, s, b):
    up = DIR == enumval(x, 'BarrierDirection', 'Up')
    if x.mode == 'fp':
        return z3.If(up, z3.fpGEQ(s, b), z3.fpLEQ(s, b))
    return z3.If(up, s >= b, s <= b)


# the enumerator value of Up is read from the code before the sequences are used
UPV = z3.Int('Up')


def touch(i, t):
    return z3.If(DIR == UPV, P(i, t) >= B, P(i, t) <= B)


# did one of the first t prices of path i touch the barrier; WIT: a step at which it did
HIT = Seq('HIT', BS, [IS], lambda i: z3.BoolVal(False), lambda i, t, p: z3.Or(p, touch(i, t)))
WIT = Seq('WIT', IS, [IS], lambda i: z3.IntVal(0), lambda i, t, p: z3.If(touch(i, t), t, p))
LAST = lambda i: P(i, ST - 1)
SKI = Seq('SKI', RS, [], lambda: z3.RealVal(0), lambda i, p: p + z3.If(HIT(i, ST), PAY(LAST(i)), 0))
SKO = Seq('SKO', RS, [], lambda: z3.RealVal(0), lambda i, p: p + z3.If(HIT(i, ST), 0, PAY(LAST(i))))
SVA = Seq('SVA', RS, [], lambda: z3.RealVal(0), lambda i, p: p + PAY(LAST(i)))


def lemmas(x):
    """by induction on n: HIT(i,n) <=> exists t<n. touch(i,t); SKI + SKO = SVA"""
    i, t, n = z3.Ints('i t n')
    x.assume(z3.And(n >= 0, t >= 0))
    below = lambda n: z3.Implies(z3.And(t < n, touch(i, t)), HIT(i, n))
    wit = lambda n: z3.Implies(HIT(i, n), z3.And(WIT(i, n) >= 0, WIT(i, n) < n, z3.If(DIR == UPV, P(i, WIT(i, n)) >= B, P(i, WIT(i, n)) <= B)))
    mono = lambda n: z3.Implies(z3.And(t <= n, HIT(i, t)), HIT(i, n))
    par = lambda n: SKI(n) + SKO(n) == SVA(n)
    for nm, f in (('a touched step makes the path touched', below), ('a touched path has a touched step', wit), ('a touched path stays touched', mono), ('in-out parity of the sums', par)):
        x.oblige(f(z3.IntVal(0)), 'lemma, base: ' + nm)
        s = x.snap()
        x.assume(f(n))
        x.oblige(f(n + 1), 'lemma, step: ' + nm)
        x.restore(s)


def use_lemmas(x):
    i, t = z3.Ints('i? t?')
    x.assume(UPV == enumval(x, 'BarrierDirection', 'Up'))
    x.assume(All([i, t], z3.And(t >= 0, t < ST, touch(i, t)), HIT(i, ST)))
    x.assume(All([i, t], z3.And(t >= 0, t <= ST, HIT(i, t)), HIT(i, ST)))
    w = z3.Function('w', IS, IS)
    x.assume(All([i], TRUE, z3.Implies(HIT(i, ST), z3.And(w(i) >= 0, w(i) < ST, z3.If(DIR == UPV, P(i, w(i)) >= B, P(i, w(i)) <= B)))))


def cur(x, info):
    return [(z3.simplify(info['mem0'][SIM] - 1),)]


def pricer(cls, opt, tot):
    def f(x):
        use_lemmas(x)
        price(x, cls, opt, [(HIT, cur), (tot, [()])], tot)
    return Script(cls, f)


def active(opt, neg):
    def f(x):
        x.assume(z3.And(DIR >= 0, DIR <= 1))
        b, s, t = anyd(x, 'B'), anyd(x, 'S'), finite(x, 'T')
        x.assume(t >= 0 if x.mode != 'fp' else z3.fpGEQ(t, num(x, 0)))
        pf, md = x.abstract('Payoff'), x.abstract('IMarketData')
        x.contracts[('IMarketData', 'getStockData')] = lambda x, this, a: Ptr(ObjLoc(x.lazy('StockData')))
        o = x.construct(opt, x.sym('std::string', 'tk'), Ptr(ObjLoc(pf)), t, b, DIR, Ptr(ObjLoc(md)))
        before = dict(x.mem)
        r = x.value(x.method(o, 'isActive', s))
        w = touch_(x, s, b)
        x.oblige(r == (z3.Not(w) if neg else w), '%s is active exactly when the barrier is %stouched' % (opt, 'not ' if neg else ''))
        frame_unchanged(x, before, 'isActive')
    return Script(opt + '::isActive', f, mode='fp')


SCRIPTS = [active('KnockInBarrierOption', False), active('KnockOutBarrierOption', True),
           Script('lemmas', lemmas),
           pricer('KnockInBarrierMCPricer', 'KnockInBarrierOption', SKI), pricer('KnockOutBarrierMCPricer', 'KnockOutBarrierOption', SKO)]
