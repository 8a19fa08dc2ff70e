"""Interpolation on a strictly increasing grid."""
from specs.common import *

X, Y = z3.Function('x', IS, RS), z3.Function('y', IS, RS)
N, K = z3.Ints('n k')
T_ = z3.Real('t')


def grid(x):
    x.assume(z3.And(N >= 1, N <= (1 << 31) - 1))


def increasing(x, *pts):
    """the strictly increasing grid, as facts about the order relative to the given points"""
    j = z3.Int('j?')
    for p in pts:
        x.assume(All([j], z3.And(j >= 0, j < p), X(j) < X(p)))
        x.assume(All([j], z3.And(j > p, j < N), X(j) > X(p)))


def cands(x, L, node):
    """order of the grid at the ends of a search range"""
    for s in L.slots:
        if s.kind == 's' and s.sort == IS:
            for f in (lambda a: X(a) < T_, lambda a: X(a) <= T_, lambda a: z3.Or(a == N - 1, X(a + 1) > T_), lambda a: z3.And(a >= 0, a <= N - 1), lambda a: X(a) > T_, lambda a: X(a) >= T_, lambda a: z3.And(a >= 0, a <= N)):
                yield loops.Cand('spec', lambda mem, kk, s=s, f=f: f(s.get(mem)), None)


def lin(t, a, b):
    return Y(a) + (t - X(a)) * (Y(b) - Y(a)) / (X(b) - X(a))


def lagrange(t, k):
    p = [k - 1, k, k + 1]
    s = z3.RealVal(0)
    for i in p:
        w = Y(i)
        for j in p:
            if j is not i:
                w = w * (t - X(j)) / (X(i) - X(j))
        s = s + w
    return s


def call(x, cls):
    x.cands = [cands]
    o = x.construct(cls)
    xs, ys = VecV(N, lambda i: X(i), 'std', 'double'), VecV(N, lambda i: Y(i), 'std', 'double')
    before = dict(x.mem)
    st, v = attempt(x, lambda: x.value(x.method(o, 'interpolate', xs, ys, T_)))
    if st == 'throw':
        x.oblige(FALSE, cls + ': interpolation on an increasing grid does not throw')
        raise Infeasible()
    frame_unchanged(x, before, 'interpolate')
    return v


def inner(cls, quad):
    def f(x):
        grid(x)
        x.assume(z3.And(K >= 0, K <= N - 2, X(K) < T_, T_ < X(K + 1)))
        increasing(x, K, K + 1)
        x.assume(z3.And(X(0) < T_, T_ < X(N - 1)))
        v = call(x, cls)
        want = lin(T_, K, K + 1)
        if quad:
            want = z3.If(z3.Or(K == 0, K == N - 2), want, lagrange(T_, K))
        x.oblige(v == want, cls + ': between two grid points the value is that of the stated polynomial through them', 30)
    return Script(cls + ' inside', f)


def node(cls):
    def f(x):
        grid(x)
        x.assume(z3.And(K >= 0, K <= N - 1, X(K) == T_))
        increasing(x, K)
        v = call(x, cls)
        x.oblige(v == Y(K), cls + ': at a grid point the value is the one given there', 30)
    return Script(cls + ' at a grid point', f)


def outside(cls):
    def f(x):
        grid(x)
        increasing(x, z3.IntVal(0), N - 1)
        x.assume(z3.Or(T_ <= X(0), T_ >= X(N - 1)))
        v = call(x, cls)
        x.oblige(v == z3.If(T_ <= X(0), Y(0), Y(N - 1)), cls + ': outside the grid the value is that of the nearest end')
    return Script(cls + ' outside', f)


SCRIPTS = [g for c, q in (('LinearInterpolation', False), ('QuadraticInterpolation', True)) for g in (inner(c, q), node(c), outside(c))]
