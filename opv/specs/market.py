"""shared set-up for the market-data contracts: an arbitrary registry state"""
from specs.common import *

IDOF = z3.Function('idof', REF, STR)
ALIVE = z3.Function('alive', REF, BS)


def setup(x, observers='any'):
    """an arbitrary MarketData object; observers' update() only counts"""
    x.mem[('ghost', 'N')] = loops.GhostFn(lambda r: z3.IntVal(0), [REF], IS)

    def update(x, this, args):
        g = x.mem[('ghost', 'N')]
        x.mem[('ghost', 'N')] = g.set(this.term, g.get(this.term) + 1)
        return None
    x.contracts[('MarketDataObserver', 'update')] = update
    x.contracts[('MarketDataObserver', 'getID')] = lambda x, this, args: IDOF(this.term)
    if observers == 'none':
        def hook(x, oid, name, t):
            if isinstance(name, str) and base_name(strip_type(t)) == 'vector' and 'weak_ptr' in t:
                return VecV(z3.IntVal(0), lambda i: SPtr(x.P.need('MarketDataObserver'), z3.Function('obs', IS, REF)(i), True), 'std', targs(strip_type(t))[0])
        x.lazy_hooks.append(hook)
    return x.lazy('MarketData')


def look(x, md, t):
    """('ok', (price, sigma, coupon)) or ('throw', cls) from getStockData"""
    st, v = attempt(x, lambda: x.method(md, 'getStockData', t))
    if st == 'throw':
        return st, v
    o = oid_of(x, v)
    return 'ok', (x.value(x.method(o, 'getPrice')), x.value(x.method(o, 'getSigma')), x.value(x.method(o, 'getCoupon')))


def valid_coupon(x, c):
    z, one = x.rval(0), x.rval(1)
    if x.mode == 'fp':
        return z3.Or(z3.Not(c.has), z3.And(z3.fpGEQ(c.val, z), z3.fpLEQ(c.val, one)))
    return z3.Or(z3.Not(c.has), z3.And(c.val >= 0, c.val <= 1))


def ge(x, a, v, strict=False):
    b = x.rval(v)
    if x.mode == 'fp':
        return z3.fpGT(a, b) if strict else z3.fpGEQ(a, b)
    return a > b if strict else a >= b


def valid(x, p, s, c):
    return z3.And(ge(x, p, 0, True), ge(x, s, 0), valid_coupon(x, c))


def sameopt(x, a, b):
    return z3.And(a.has == b.has, z3.Implies(a.has, num_eq(x, a.val, b.val)))


def num_eq(x, a, b):
    return feq(x, a, b) if x.mode == 'fp' else a == b


def same_stock(x, a, b):
    return z3.And(num_eq(x, a[0], b[0]), num_eq(x, a[1], b[1]), sameopt(x, a[2], b[2]))


def anyopt(x, name):
    return OptV(z3.Bool(name + '.has'), anyd(x, name))
