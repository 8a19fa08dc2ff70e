"""Observers: exact notification counts, for any number of registered observers."""
from specs.market import *

OBS = z3.Function('obs', IS, REF)
NOB = z3.Int('nobs')
NEWP = z3.Const('newobs', REF)
TK = z3.Const('t', STR)
ADDED = z3.Bool('added')


def elem(t):
    return z3.If(z3.And(ADDED, t == NOB), NEWP, OBS(t))


def one(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


# how often the observer r is notified by the first t registrations
ALLN = Seq('ALLN', IS, [], lambda r: z3.IntVal(0), lambda t, p, r: p(r) + one(z3.And(elem(t) == r, ALIVE(elem(t)))), [REF])
IDN = Seq('IDN', IS, [], lambda r: z3.IntVal(0),
          lambda t, p, r: p(r) + one(z3.And(elem(t) == r, ALIVE(elem(t)), IDOF(elem(t)) == TK)), [REF])


def obsfield(x, md):
    for c, f in x.P.all_fields(x.objs[md].cls):
        t = strip_type(tstr(f['type']))
        if base_name(t) == 'vector' and 'weak_ptr' in t:
            return Cell(('f', md, c, f['name']))
    raise Unsupported('list of observers')


def world(x, reentrant=False):
    md = setup(x, 'any')
    x.assume(z3.And(NOB >= 0, NOB <= (1 << 31) - 2))

    def hook(x, oid, name, t):
        t = strip_type(t)
        if isinstance(name, str) and base_name(t) == 'vector' and 'weak_ptr' in t:
            cl = x.P.need('MarketDataObserver')
            return VecV(NOB, lambda i: SPtr(cl, OBS(i), True), 'std', targs(t)[0])
    x.lazy_hooks.append(hook)
    x.seqs = [(ALLN, [()]), (IDN, [()])]
    obsfield(x, md).load(x)
    base = x.contracts[('MarketDataObserver', 'update')]

    def update(x, this, args):
        base(x, this, args)
        h = getattr(x, 'on_update', None)
        if h is not None:
            h(x)
        if reentrant:
            # an observer may register or drop observers while it is being notified
            n = x.fresh('n2', IS)
            f = x.freshf('obs2', IS, REF)
            x.assume(z3.And(n >= 0, n <= (1 << 31) - 1))
            cl = x.P.need('MarketDataObserver')
            c = obsfield(x, md)
            v = c.load(x)
            c.store(x, VecV(n, lambda i: SPtr(cl, f(i), True), 'std', v.et))
        return None
    x.contracts[('MarketDataObserver', 'update')] = update
    x.on_update = None
    return md


def count(x, F, n, label, scale=1):
    r = z3.Const('r?', REF)
    g = x.mem[('ghost', 'N')]
    x.oblige(All([r], TRUE, g.get(r) == F(n, r)), label)


def quietly(x, label):
    r = z3.Const('r?', REF)
    g = x.mem[('ghost', 'N')]
    x.oblige(All([r], TRUE, g.get(r) == 0), label)


def setr(reentrant):
    def go(x):
        md = world(x, reentrant)
        x.assume(z3.Not(ADDED))
        r = anyd(x, 'r')
        x.on_update = lambda x: x.oblige(x.value(x.method(md, 'getR')) == r, 'an observer notified of a rate change sees the new rate')
        x.method(md, 'setR', r)
        x.on_update = None
        count(x, ALLN, NOB, 'setR notifies every live registered observer exactly once, and nobody else')
    return Script('setR%s' % (' with re-entrant observers' if reentrant else ''), go)


def upd(meth, which, reentrant):
    def go(x):
        md = world(x, reentrant)
        x.assume(z3.Not(ADDED))
        b = look(x, md, TK)
        if b[0] == 'ok':
            x.assume(valid(x, *b[1]))
        v = anyopt(x, 'v') if which == 2 else anyd(x, 'v')

        def seen(x):
            a = look(x, md, TK)
            x.oblige(z3.BoolVal(a[0] == 'ok'), '%s: a notified observer finds the stock' % meth)
            if a[0] == 'ok':
                w = a[1][which]
                x.oblige(sameopt(x, w, v) if which == 2 else w == v, '%s: a notified observer sees the new value' % meth)
        x.on_update = seen
        st, e = attempt(x, lambda: x.method(md, meth, TK, v))
        x.on_update = None
        if st == 'throw':
            quietly(x, '%s: a rejected change notifies nobody' % meth)
        else:
            count(x, IDN, NOB, '%s notifies every live observer of that ticker exactly once, and nobody else' % meth)
    return Script('%s%s' % (meth, ' with re-entrant observers' if reentrant else ''), go)


def added(x):
    md = world(x)
    x.assume(ADDED)
    cl = x.P.need('MarketDataObserver')
    x.method(md, 'addObserver', SPtr(cl, NEWP))
    quietly(x, 'addObserver notifies nobody')
    x.method(md, 'setR', anyd(x, 'r'))
    count(x, ALLN, NOB + 1, 'after addObserver the new observer is notified along with the others')


def removed(x):
    md = world(x)
    x.assume(z3.Not(ADDED))
    c = obsfield(x, md)
    old = c.load(x)
    x.method(md, 'removeObserver')
    new = c.load(x)
    want = lib.filtered(x, old, lambda i: ALIVE(OBS(i)))
    i = z3.Int('i?')
    x.oblige(new.n == want.n, 'removeObserver keeps exactly the live observers (number)')
    x.oblige(All([i], z3.And(i >= 0, i < want.n), new.get(i).term == want.get(i).term), 'removeObserver keeps exactly the live observers, in order')
    quietly(x, 'removeObserver notifies nobody')


def stable(x):
    """notification leaves the list of observers as it was"""
    md = world(x)
    x.assume(z3.Not(ADDED))
    x.method(md, 'setR', anyd(x, 'r'))
    v = obsfield(x, md).load(x)
    i = z3.Int('i?')
    x.oblige(v.n == NOB, 'notification keeps the number of observers')
    x.oblige(All([i], z3.And(i >= 0, i < NOB), v.get(i).term == OBS(i)), 'notification keeps the observers')


SCRIPTS = [setr(False), setr(True)] + [upd(m, w, r) for m, w in (('updateStockPrice', 0), ('updateStockSigma', 1), ('updateStockCoupon', 2)) for r in (False, True)] + \
    [Script('addObserver', added), Script('removeObserver', removed), Script('observers are kept', stable)]
