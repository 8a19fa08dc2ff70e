"""Finite-difference schemes: every time level is obtained from the previous one by exactly the scheme of the solver."""
from specs.fdm import *

j_ = z3.Int('j?')


def solve(x, o, V):
    x.seqs = [(V, [()])]
    x.cands = [state(V)]
    before = dict(x.mem)
    r = x.value(x.method(o, 'solve'))
    x.oblige(r.n == J, 'one price per grid point')
    x.oblige(All([j_], z3.And(j_ >= 0, j_ < J), r.get(j_) == V(N - 1, j_)), 'the prices are those of the last time level of the scheme', 20)


def explicit_(x):
    pde, opt, md = world(x)
    o = make(x, 'EulerExplicitFDM', pde, opt, md)
    solve(x, o, VE)


def implicit_row(t, j):
    u, y = tm(t + 1), X(j)
    a, c = DT * D(u, y), DT * DX * C(u, y) / 2
    return a - c, -DX * DX - 2 * a + DT * DX * DX * R(u, y), a + c, DX * DX * (DT * F(u, y) - VI(t, j))


def cn_row(t, j):
    y = X(j)

    def co(u):
        a, c, r = DT * D(u, y), DT * DX * C(u, y) / 2, DT * DX * DX * R(u, y) / 2
        return (a - c) / 2, -a + r, (a + c) / 2
    al, be, ga = co(tm(t + 1))
    al0, be0, ga0 = co(tm(t))
    b = DX * DX * DT * (F(tm(t + 1), y) + F(tm(t), y)) / 2 - al0 * VI(t, j - 1) + (-DX * DX - be0) * VI(t, j) - ga0 * VI(t, j + 1)
    return al, -DX * DX + be, ga, b


def system(x, row, mat, rhs):
    """the system handed to the linear solver is that of the scheme; the solver's contract returns its solution"""
    t = x.mem[STEP]
    x.mem[STEP] = z3.simplify(t + 1)
    i, k = z3.Ints('i? k?')
    rg = z3.And(i >= 0, i < J - 2)
    al, be, ga, b = row(t, i + 1)
    x.oblige(z3.And(mat.r == J - 2, mat.c == J - 2, rhs.n == J - 2), 'the linear system has one row per inner grid point')
    x.oblige(All([i], rg, mat.get(i, i) == be), 'diagonal of the system', 20)
    x.oblige(All([i], z3.And(rg, i >= 1), mat.get(i, i - 1) == al), 'lower diagonal of the system', 20)
    x.oblige(All([i], z3.And(rg, i < J - 3), mat.get(i, i + 1) == ga), 'upper diagonal of the system', 20)
    x.oblige(All([i, k], z3.And(rg, k >= 0, k < J - 2, z3.Or(k - i > 1, i - k > 1)), mat.get(i, k) == 0), 'the system is tridiagonal', 20)
    x.oblige(All([i], z3.And(i > 0, i < J - 3), rhs.get(i) == b), 'right-hand side of the system: inner rows', 20)
    left, right = BL(tm(t + 1), X(0)), BR(tm(t + 1), X(J - 1))
    first, last = row(t, z3.IntVal(1)), row(t, J - 2)
    x.oblige(z3.Implies(J > 3, rhs.get(z3.IntVal(0)) == first[3] - first[0] * left), 'right-hand side of the system: first row', 20)
    x.oblige(z3.Implies(J > 3, rhs.get(J - 3) == last[3] - last[2] * right), 'right-hand side of the system: last row', 20)
    x.oblige(z3.Implies(J == 3, rhs.get(z3.IntVal(0)) == first[3] - first[0] * left - first[2] * right), 'right-hand side of the system: single row', 20)
    return VecV(J - 2, lambda i: SOL(t, i), 'eig')


def linear(cls, row, default):
    def go(x):
        pde, opt, md = world(x)
        x.mem[STEP] = z3.IntVal(0)
        if default:
            x.contracts[('linsolve', '*')] = lambda x, mat, rhs, kind: system(x, row, mat, rhs)
            ms = None
        else:
            x.contracts[('MatrixSolver', 'solve')] = lambda x, this, a: system(x, row, x.value(a[0]), x.value(a[1]))
            ms = x.abstract('MatrixSolver')
        o = make(x, cls, pde, opt, md, solver=ms)
        st, v = attempt(x, lambda: solve(x, o, VI))
        if st == 'throw':
            x.oblige(z3.BoolVal(default and exc_isa(v, 'std::runtime_error')), 'solving fails only when the default linear solver reports a failed decomposition')
    return Script(cls + (' with the default linear solver' if default else ' with a given linear solver'), go, timeout=12, slow=1.7)


SCRIPTS = [Script('EulerExplicitFDM', explicit_, timeout=12)] + [linear(c, r, d) for c, r in (('EulerImplicitFDM', implicit_row), ('CrankNicolsonFDMSolver', cn_row)) for d in (False, True)]
