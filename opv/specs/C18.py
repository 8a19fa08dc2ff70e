"""Matrix solvers: Thomas solves every tridiagonal system; LU variants return the solution of A x = b."""
from specs.common import *

Af = z3.Function('A', IS, IS, RS)
bf = z3.Function('b', IS, RS)
N = z3.Int('n')
OK = z3.Bool('the decomposition succeeds')
CS = Seq('CS', RS, [], lambda: Af(0, 1) / Af(0, 0),
         lambda t, p: Af(t + 1, t + 2) / (Af(t + 1, t + 1) - Af(t + 1, t) * p))
DS = Seq('DS', RS, [], lambda: bf(0) / Af(0, 0),
         lambda t, p: (bf(t + 1) - Af(t + 1, t) * p) / (Af(t + 1, t + 1) - Af(t + 1, t) * CS(t)))
XB = Seq('XB', RS, [IS], lambda n: DS(n - 1), lambda n, t, p: DS(n - 2 - t) - CS(n - 2 - t) * p)


def system(x, n):
    x.assume(z3.And(n >= 2, n <= (1 << 31) - 1))
    a, b = z3.Int('a'), z3.Int('b')
    x.assume(All([a, b], z3.Or(a - b > 1, b - a > 1), Af(a, b) == 0))
    A = MatV(n, n, lambda i, j: Af(i, j), sparse=True)
    return A, VecV(n, lambda i: bf(i), 'eig')


def back(x, L, node):
    """x[j] == XB(n-1-j) for the already substituted positions"""
    out = []
    j = z3.Int('j#0')
    for s in L.slots:
        if s.kind == 'a' and s.isorts == [IS] and s.sort == RS:
            v = L.S0[0][s.key]
            n = x.opv_n
            for hi in (0, 1):
                out.append(loops.Cand('back', lambda mem, kk, s=s, n=n, hi=hi: All([j], z3.And(j >= n - hi - kk, j < n, j >= 0),
                           s.at(mem, j) == XB(n, n - 1 - j))))
                # substitution done in place on a vector that also holds the forward sweep
                out.append(loops.Cand('keep', lambda mem, kk, s=s, n=n, hi=hi: All([j], z3.And(j < n - hi - kk, j >= 0),
                           s.at(mem, j) == s.at(L.S0[0], j))))
    return out


def thomas(split):
    def go(x):
        if split == 'first':
            k = z3.Int('k'); x.assume(k >= 0); n = k + 2
            rows = lambda X: [Af(0, 0) * X(0) + Af(0, 1) * X(1) == bf(0)]
        elif split == 'last':
            k = z3.Int('k'); x.assume(k >= 0); n = k + 2
            rows = lambda X: [Af(k + 1, k) * X(k) + Af(k + 1, k + 1) * X(k + 1) == bf(k + 1)]
        else:
            k, i = z3.Ints('k i'); x.assume(z3.And(k >= 0, i >= 0)); n = k + i + 3
            rows = lambda X: [Af(i + 1, i) * X(i) + Af(i + 1, i + 1) * X(i + 1) + Af(i + 1, i + 2) * X(i + 2) == bf(i + 1)]
        A, b = system(x, n)
        x.opv_n = n
        x.seqs = [(CS, [()]), (DS, [()])]
        x.cands = [back]
        o = x.construct('ThomasAlgorithm')
        r = x.value(x.method(o, 'solve', A, b))
        x.oblige(r.n == n, 'the solution has one component per row')
        X = lambda j: r.get(z3.IntVal(j) if isinstance(j, int) else z3.simplify(j))
        for g in rows(X):
            x.oblige(g, 'row equation (%s)' % split, 20)
    return Script('Thomas: %s row' % split, go)


def small(x):
    n = z3.Int('n')
    x.assume(z3.And(n >= 0, n < 2))
    A = MatV(n, n, lambda i, j: Af(i, j), sparse=True)
    o = x.construct('ThomasAlgorithm')
    st, v = attempt(x, lambda: x.method(o, 'solve', A, VecV(n, lambda i: bf(i), 'eig')))
    x.oblige(z3.BoolVal(st == 'throw' and exc_isa(v, 'std::invalid_argument')), 'Thomas rejects systems smaller than 2x2')


def lu(cls):
    def go(x):
        n = z3.Int('n')
        x.assume(z3.And(n >= 1, n <= (1 << 31) - 1))
        A = MatV(n, n, lambda i, j: Af(i, j), sparse=True)
        b = VecV(n, lambda i: bf(i), 'eig')
        sol = z3.Function('sol', IS, RS)

        def solve(x, mat, rhs, kind):
            i, j = z3.Int('i?'), z3.Int('j?')
            x.oblige(z3.And(mat.r == n, mat.c == n, rhs.n == n), 'the system handed to the decomposition has the size of A x = b')
            x.oblige(All([i, j], z3.And(i >= 0, i < n, j >= 0, j < n), mat.get(i, j) == Af(i, j)), 'the decomposed matrix is A')
            x.oblige(All([i], z3.And(i >= 0, i < n), rhs.get(i) == bf(i)), 'the right-hand side is b')
            return VecV(n, lambda i: sol(i), 'eig')
        x.contracts[('linsolve', '*')] = solve
        x.contracts[('linsolve', 'ok')] = OK
        o = x.construct(cls)
        st, r = attempt(x, lambda: x.value(x.method(o, 'solve', A, b)))
        if st == 'throw':
            x.oblige(z3.BoolVal(exc_isa(r, 'std::runtime_error')), 'a failed decomposition is reported as runtime_error')
            x.oblige(z3.And(z3.BoolVal(cls == 'LUDecompositionSolver'), z3.Not(OK)), 'only a failed decomposition raises an error')
            return
        if cls == 'LUDecompositionSolver':
            x.oblige(OK, 'a failed decomposition is never used')
        i = z3.Int('i?')
        x.oblige(r.n == n, 'size of the solution')
        x.oblige(All([i], z3.And(i >= 0, i < n), r.get(i) == sol(i)), 'the returned vector is the solution')
    return Script(cls, go)


SCRIPTS = [thomas('first'), thomas('inner'), thomas('last'), Script('Thomas: size', small),
           lu('LUDecompositionSolver'), lu('PartialPivotingLUSolver')]
