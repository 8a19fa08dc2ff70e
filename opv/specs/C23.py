"""Regressions: least squares, ridge normal equations, soft-thresholded least squares."""
from specs.common import *

Af = z3.Function('A', IS, IS, RS)
yf = z3.Function('y', IS, RS)
SOL = z3.Function('sol', IS, RS)
M, D = z3.Ints('m d')
I, J = z3.Ints('i j')
LAM = z3.Real('lambda')


def problem(x):
    x.assume(z3.And(M >= 1, D >= 1, M <= (1 << 31) - 1, D <= (1 << 31) - 1))
    return MatV(M, D, lambda i, j: Af(i, j)), VecV(M, lambda i: yf(i), 'eig')


def cell(i, j=None):
    r = [i >= 0, i < D]
    if j is not None:
        r += [j >= 0, j < D]
    return z3.And(*r)


def lsq(x, cls):
    def solve(x, mat, rhs, kind):
        x.oblige(z3.BoolVal(kind in ('JacobiSVD', 'BDCSVD', 'CompleteOrthogonalDecomposition')), cls + ': the decomposition solves least-squares problems of any rank')
        x.oblige(z3.And(mat.r == M, mat.c == D, rhs.n == M), cls + ': the least-squares problem has the shape of A b = y')
        x.oblige(All([I, J], z3.And(I >= 0, I < M, J >= 0, J < D), mat.get(I, J) == Af(I, J)), cls + ': the least-squares matrix is A')
        x.oblige(All([I], z3.And(I >= 0, I < M), rhs.get(I) == yf(I)), cls + ': the least-squares right-hand side is y')
        return VecV(D, lambda i: SOL(i), 'eig')
    x.contracts[('linsolve', '*')] = solve


def solve(x, o, cls):
    A, y = problem(x)
    before = dict(x.mem)
    st, r = attempt(x, lambda: x.value(x.method(o, 'solve', A, y)))
    if st == 'throw':
        x.oblige(FALSE, cls + ': solving does not throw')
        raise Infeasible()
    frame_unchanged(x, before, cls + ': solving')
    x.oblige(r.n == D, cls + ': one coefficient per column of A')
    return r


def ls(x):
    lsq(x, 'least squares')
    o = x.construct('LeastSquaresRegression', nargs=0)
    r = solve(x, o, 'least squares')
    x.oblige(All([I], cell(I), r.get(I) == SOL(I)), 'least squares: the coefficients are the least-squares solution')


def lam(x, cls):
    l = finite(x, 'lambda')
    ok = z3.fpGEQ(l, num(x, 0)) if x.mode == 'fp' else l >= 0
    return expect_valid(x, ok, lambda: x.construct(cls, l), cls)


def lasso(x):
    lsq(x, 'lasso')
    o = lam(x, 'LassoRegression')
    r = solve(x, o, 'lasso')
    b = SOL(I)
    x.oblige(All([I], cell(I), r.get(I) == z3.If(b > LAM, b - LAM, z3.If(b < -LAM, b + LAM, z3.RealVal(0)))), 'lasso: each coefficient is the soft-thresholded least-squares coefficient')


def ridge(x):
    def lin(x, mat, rhs, kind):
        x.oblige(z3.And(mat.r == D, mat.c == D, rhs.n == D), 'ridge: the normal equations are square of the number of coefficients')
        if not x.implied(z3.And(mat.r == D, mat.c == D, rhs.n == D)):
            raise Infeasible()
        want = lib.bigsum(x, M, lambda k: Af(k, I) * Af(k, J)) + z3.If(I == J, LAM, z3.RealVal(0))
        x.oblige(All([I, J], cell(I, J), mat.get(I, J) == want), "ridge: the matrix of the normal equations is A'A + lambda I")
        x.oblige(All([I], cell(I), rhs.get(I) == lib.bigsum(x, M, lambda k: Af(k, I) * yf(k))), "ridge: the right-hand side of the normal equations is A'y")
        return VecV(D, lambda i: SOL(i), 'eig')
    x.contracts[('linsolve', '*')] = lin
    o = lam(x, 'RidgeRegression')
    r = solve(x, o, 'ridge')
    x.oblige(All([I], cell(I), r.get(I) == SOL(I)), 'ridge: the coefficients solve the normal equations')


def valid(cls):
    return Script(cls + ' validation', lambda x: lam(x, cls), mode='fp')


SCRIPTS = [Script('least squares', ls), Script('ridge', ridge), Script('lasso', lasso), valid('RidgeRegression'), valid('LassoRegression')]
