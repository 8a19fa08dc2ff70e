"""Basis functions: column n of generate(x) holds the degree-n polynomial of the family at every x."""
from specs.common import *

X = z3.Function('X', IS, RS)
M, D = z3.Ints('m d')
AA, BB = z3.Ints('a b')
ONE = z3.RealVal(1)
R_ = z3.ToReal


def fam(name, first, step):
    F = Seq(name, RS, [RS], lambda v: ONE, lambda v, t, p: z3.If(t == 0, first(v), step(v, R_(t + 1), p, F(v, t - 1))))
    return F


CHEB = fam('chebyshev', lambda v: v, lambda v, n, p, q: 2 * v * p - q)
LAG = fam('laguerre', lambda v: 1 - v, lambda v, n, p, q: ((2 * n - 1 - v) * p - (n - 1) * q) / n)
LEG = fam('legendre', lambda v: v, lambda v, n, p, q: ((2 * n - 1) * v * p - (n - 1) * q) / n)
MON = lib.IPOW


def cands(F):
    def gen(x, L, node):
        a, b = z3.Int('a#0'), z3.Int('b#0')
        ks = list(L.S0[8])
        rows, cols = z3.And(a >= 0, a < M), z3.And(b >= 0, b < D)
        for s in L.slots:
            if s.kind == 'a' and len(s.isorts) == 2 and s.sort == RS:
                def mk(g):
                    return lambda mem, kk, s=s: All([a, b], z3.And(rows, cols, g(kk)), s.at(mem, a, b) == F(X(a), b))

                yield loops.Cand('rows', mk(lambda kk: a < kk), None)
                for q in ks:
                    yield loops.Cand('rows so far', mk(lambda kk, q=q: a < q), None)
                for off in (2, 1, 0):
                    yield loops.Cand('cols', mk(lambda kk, off=off: b < kk + off), None)
                    if off:
                        yield loops.Cand('first cols', mk(lambda kk, off=off: b < off), None)
                    for q in ks:
                        yield loops.Cand('cols so far', mk(lambda kk, q=q, off=off: b < q + off), None)
                        yield loops.Cand('row cols', mk(lambda kk, q=q, off=off: z3.And(a == q, b < kk + off)), None)
                        yield loops.Cand('col rows', mk(lambda kk, q=q, off=off: z3.And(b == q + off, a < kk)), None)
    return gen


def basis(cls, F, fam):
    def go(x):
        x.assume(z3.And(M >= 0, M <= (1 << 31) - 1, D >= 0, D <= (1 << 31) - 1))
        x.cands = [cands(F)]
        x.seqs = [(F, lambda x, info: [(X(k),) for k in info['ks']])]
        st, o = attempt(x, lambda: x.construct(cls, D))
        if st == 'throw':
            x.oblige(D == 0, cls + ': a positive number of basis functions is accepted')
            x.oblige(z3.BoolVal(exc_isa(o, 'std::invalid_argument')), cls + ': rejection is std::invalid_argument')
            raise Infeasible()
        x.oblige(D >= 1, cls + ': zero basis functions are rejected')
        before = dict(x.mem)
        st, r = attempt(x, lambda: x.value(x.method(o, 'generate', VecV(M, lambda i: X(i), 'eig'))))
        if st == 'throw':
            x.oblige(FALSE, cls + ': generate does not throw')
            raise Infeasible()
        frame_unchanged(x, before, cls + '.generate')
        x.oblige(r.r == M, cls + ': one row per point')
        x.oblige(r.c == D, cls + ': one column per basis function')
        x.oblige(All([AA, BB], z3.And(AA >= 0, AA < M, BB >= 0, BB < D), r.get(AA, BB) == F(X(AA), BB)), cls + ': column n is the %s of degree n at every point' % fam, 20)
    return Script(cls, go)


SCRIPTS = [basis('ChebyshevBasisFunction', CHEB, 'Chebyshev polynomial'), basis('LaguerreBasisFunction', LAG, 'Laguerre polynomial'),
           basis('LegendreBasisFunction', LEG, 'Legendre polynomial'), basis('MonomialBasisFunction', MON, 'power')]
