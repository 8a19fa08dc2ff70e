"""American options: least-squares Monte Carlo (Longstaff-Schwartz) on full paths and on a Brownian bridge."""
from specs.mc import *
from sym import Unsupported

D = z3.Int('nbasis')
DT = T / z3.ToReal(ST)
DISC = EXP(-R * DT)
BACK = ('ghost', 'back')


class Algo:
    """recursion over k = 0,1,..: level k holds the cash flows seen from step ST-1-k; S(k,i) is the price of path i at step ST-2-k"""
    def __init__(self, tag, S, dot):
        self.tag, self.S = tag, S
        self.G = z3.Function('G' + tag, IS, IS, IS, RS)       # basis matrix of level k
        self.CO = z3.Function('CO' + tag, IS, IS, RS)         # regression coefficients of level k
        self.IDX = z3.Function('IDX' + tag, IS, IS, IS)       # path of the m-th in-the-money row
        self.RK = Seq('RK' + tag, IS, [IS], lambda k: z3.IntVal(0), lambda k, i, p: z3.If(self.itm(k, i), p + 1, p))
        self.AM = Seq('AM' + tag, RS, [], lambda i: PAY(P(i, ST - 1)), lambda k, A, i: z3.If(z3.And(self.itm(k, i), PAY(S(k, i)) > self.cont(k, i)), PAY(S(k, i)), A(i) * DISC), [IS])

    def itm(self, k, i):
        return PAY(self.S(k, i)) > 0

    def cont(self, k, i):
        c = z3.Int('i#')      # the bound variable of lib.bigsum
        return lib.sum_term(self.G(k, self.RK(k, i), c) * self.CO(k, c), c, D)


    def total(self):
        c = z3.Int('i#')
        return lib.sum_term(self.AM(z3.simplify(ST - 1), c), c, N)


BK = z3.Function('BK', IS, IS, RS)      # price of path i after k backward draws; BK(0,i) is the simulated terminal price
STD = Algo('s', lambda k, i: P(i, z3.simplify(ST - 2 - k)), None)
BRI = Algo('b', lambda k, i: BK(z3.simplify(k + 1), i), None)


def lemma(a):
    def go(x):
        k, i, n = z3.Ints('k i n')
        x.assume(z3.And(n >= 0, i >= 0, k >= 0))
        f = lambda n: z3.And(a.RK(k, n) >= 0, z3.Implies(z3.And(i < n, a.itm(k, i)), a.RK(k, i) < a.RK(k, n)))
        g = lambda n: z3.Implies(i <= n, z3.And(a.RK(k, i) <= a.RK(k, n), a.RK(k, i) >= 0))
        x.oblige(z3.And(a.RK(k, 0) >= 0), 'lemma, base: the number of paths in the money is not negative')
        s = x.snap()
        x.assume(a.RK(k, n) >= 0)
        x.oblige(a.RK(k, n + 1) >= 0, 'lemma, step: the number of paths in the money is not negative')
        x.restore(s)
        m = z3.Int('m')
        # rank grows: RK(k,i) <= RK(k,i+m), strictly if path i is in the money and m>0
        h = lambda m: z3.And(a.RK(k, i) <= a.RK(k, i + m), z3.Implies(z3.And(m > 0, a.itm(k, i)), a.RK(k, i) < a.RK(k, i + m)))
        x.assume(m >= 0)
        x.oblige(h(z3.IntVal(0)), 'lemma, base: ranks grow')
        x.assume(h(m))
        x.oblige(a.RK(k, i) <= a.RK(k, i + m + 1), 'lemma, step: ranks grow')
        x.oblige(z3.Implies(a.itm(k, i), a.RK(k, i) < a.RK(k, i + m + 1)), 'lemma, step: the rank grows at a path in the money')
    return Script('lemmas about ranks (%s)' % a.tag, go)


def use_lemmas(x, a):
    k, i = z3.Ints('k? i?')
    x.assume(All([k, i], z3.And(k >= 0, i >= 0, i < N, a.itm(k, i)), a.RK(k, i) < a.RK(k, N)))
    x.assume(All([k, i], z3.And(k >= 0, i >= 0, i < N), z3.And(a.RK(k, i) >= 0, a.RK(k, i) <= a.RK(k, N))))
    # IDX inverts the rank on paths in the money (ranks are distinct there)
    x.assume(All([k, i], z3.And(k >= 0, i >= 0, a.itm(k, i)), a.IDX(k, a.RK(k, i)) == i))


def cands(a):
    def gen(x, L, node):
        ks = list(L.S0[8])
        m = z3.Int('j#0')
        for s in L.slots:
            if s.key == BACK and not ks:
                yield loops.Cand('back', lambda mem, kk: mem[BACK] == N * kk)
            if a is BRI and not ks and s.kind == 'a' and s.isorts == [IS] and s.sort == RS:
                yield loops.Cand('drawn', lambda mem, kk, s=s: All([m], z3.And(m >= 0, m < N), s.at(mem, m) == BK(kk, m)))
            if not ks or s.kind != 'a' or s.isorts != [IS] or s.sort != RS:
                continue
            k = ks[-1]
            for f in (lambda m: a.S(k, a.IDX(k, m)), lambda m: a.AM(k, a.IDX(k, m)) * DISC, lambda m: a.AM(k, a.IDX(k, m))):
                yield loops.Cand('itm', lambda mem, kk, s=s, f=f: All([m], z3.And(m >= 0, m < mem[s.key].n), s.at(mem, m) == f(m)), smt=True)
            if a is BRI:
                yield loops.Cand('drawn', lambda mem, kk, s=s: All([m], z3.And(m >= 0, m < kk), s.at(mem, m) == BK(k + 1, m)))
                yield loops.Cand('drawn', lambda mem, kk, s=s: All([m], z3.And(m >= kk, m < N), s.at(mem, m) == BK(k, m)))
            for lo, hi in ((lambda kk: 0, lambda mem, kk, s: kk), ):
                yield loops.Cand('next', lambda mem, kk, s=s: All([m], z3.And(m >= 0, m < kk), s.at(mem, m) == a.AM(k + 1, m)))
                yield loops.Cand('prev', lambda mem, kk, s=s: All([m], z3.And(m >= kk, m < N), s.at(mem, m) == a.AM(k, m)))
    return gen


def strategies(x, a):
    x.assume(z3.And(D >= 1, D <= 1000))
    bf, rg = x.abstract('BasisFunction'), x.abstract('Regression')
    m = z3.Int('m?')

    def level(x):
        return x.loopk[-1]

    def generate(x, this, args):
        v, k = x.value(args[0]), level(x)
        x.oblige(v.n == a.RK(k, N), 'the basis is evaluated at one point per path in the money')
        x.oblige(All([m], z3.And(m >= 0, m < v.n), v.get(m) == a.S(k, a.IDX(k, m))), 'the basis is evaluated at the prices of the paths in the money', 20)
        return MatV(v.n, D, lambda i, j: a.G(k, i, j))

    def solve(x, this, args):
        A, y, k = x.value(args[0]), x.value(args[1]), level(x)
        c = z3.Int('c?')
        x.oblige(z3.And(A.r == a.RK(k, N), A.c == D, y.n == a.RK(k, N)), 'the regression has one row per path in the money')
        x.oblige(All([m, c], z3.And(m >= 0, m < A.r, c >= 0, c < D), A.get(m, c) == a.G(k, m, c)), 'the regression is on the basis functions of the prices', 20)
        x.oblige(All([m], z3.And(m >= 0, m < y.n), y.get(m) == a.AM(k, a.IDX(k, m)) * DISC), 'the regression is of the discounted cash flows of the same paths', 20)
        return VecV(D, lambda i: a.CO(k, i), 'eig')
    x.contracts[('BasisFunction', 'generate')] = generate
    x.contracts[('Regression', 'solve')] = solve
    return bf, rg


def cur(x, info):
    return [(k,) for k in info['ks'][-1:]]


def pricer(name, a, case):
    def go(x):
        o, md, sm, pf = world(x, 'AmericanOption')
        ge = x.abstract('NumberGenerator')
        x.contracts[('StockModel', 'getGenerator')] = lambda x, this, args: Ptr(ObjLoc(ge))
        isa = lambda o, c: z3.Bool('isa(%s,%s)' % (x.objs[o].tag, c))      # the engine's dynamic-type test
        x.assume(case(isa(sm, 'GeometricBrownianMotionModel'), isa(ge, 'PseudoRandomNumberGenerator')))
        use_lemmas(x, a)
        x.mem[BACK] = z3.IntVal(0)

        def back(x, this, args):
            if a is STD:
                x.oblige(FALSE, 'only geometric Brownian motion on a pseudo-random generator is simulated backward')
                raise Infeasible()
            if len(x.loopk) < 2:
                raise Unsupported('backward simulation outside a loop over steps and paths')
            k, i = x.loopk[-2:]
            v, t0, t1 = [x.value(u) for u in args]
            n = x.mem[BACK]
            x.oblige(n == N * k + i, 'every path is drawn exactly once per step')
            x.oblige(v == BK(k, i), 'the backward draw starts from the price of the same path one step later')
            x.oblige(t0 == z3.ToReal(ST - 1 - k) * DT, 'the backward draw is for the exercise date')
            x.oblige(t1 == z3.ToReal(ST - k) * DT, 'the backward draw is conditioned on the next date')
            x.mem[BACK] = z3.simplify(n + 1)
            return BK(z3.simplify(k + 1), i)
        x.contracts[('StockModel', 'simulatePriceBackward')] = back
        bf, rg = strategies(x, a)
        tot = a.total()
        x.seqs = [(a.AM, lambda x, info: [] if info['ks'] else [()]), (a.RK, cur)]
        if a is BRI:
            i = z3.Int('i?')
            x.assume(All([i], z3.And(i >= 0, i < N), BK(0, i) == P(i, z3.simplify(ST - 1))))
        x.cands = [cands(a)]
        p = x.construct('AmericanMCPricer', *[Ptr(ObjLoc(v)) for v in (o, md, sm, bf, rg)])
        before = dict(x.mem)
        r = x.value(x.method(p, 'calculatePrice', N))
        x.oblige(r == tot / z3.ToReal(N) * DISC, '%s: the price is the discounted mean cash flow of the exercise strategy' % name, 20)
        x.oblige(x.mem[SIM] == N, '%s: exactly N paths are simulated' % name)
        frame_unchanged(x, before, '%s: pricing' % name)
    return Script(name, go, slow=1.6)


SCRIPTS = [lemma(STD), lemma(BRI), pricer('bridge', BRI, lambda g, p: z3.And(g, p)), pricer('no pseudo-random generator', STD, lambda g, p: z3.Not(p)),
           pricer('another model', STD, lambda g, p: z3.And(p, z3.Not(g)))]
