"""Distributions: parameter validation, sampling from exactly the stated law, quantile functions that do not exist."""
from specs.common import *
ENG = z3.IntVal(0)
CASES = {
    'NormalDistribution': ('normal', 2, lambda x, p: gt(x, p[1], 0), lambda x, p: p),
    'PoissonDistribution': ('poisson', 1, lambda x, p: gt(x, p[0], 0), lambda x, p: p),
    'ExponentialDistribution': ('exponential', 1, lambda x, p: gt(x, p[0], 0), lambda x, p: p),
    'GammaDistribution': ('gamma', 2, lambda x, p: z3.And(gt(x, p[0], 0), gt(x, p[1], 0)), lambda x, p: [p[0], div(x, num(x, 1), p[1])]),
    'ContinuousUniformDistribution': ('uniform_real', 2, lambda x, p: lt(x, p[0], p[1]), lambda x, p: p),
}


def gt(x, a, b):
    return z3.fpGT(a, num(x, b)) if x.mode == 'fp' else a > b


def lt(x, a, b):
    return z3.fpLT(a, b) if x.mode == 'fp' else a < b


def div(x, a, b):
    return z3.fpDiv(z3.RNE(), a, b) if x.mode == 'fp' else a / b


def engine(x):
    return x.tmp(EngineV(z3.IntVal(7), 'caller'))


def draws(x, o, kind, want, what):
    e = engine(x)
    n = [0]
    res = x.fresh('drawn', IS if kind == 'poisson' else x.realsort())
    if kind == 'poisson':
        x.assume(z3.And(res >= 0, res < (1 << 31)))

    def sample(x, loc, d, eng):
        n[0] += 1
        x.oblige(z3.BoolVal(d.kind == kind and len(d.params) == len(want)), what + ': the law sampled is std::%s_distribution' % kind)
        if d.kind == kind and len(d.params) == len(want):
            for i, (p, w) in enumerate(zip(d.params, want)):
                x.oblige(p == w, '%s: parameter %d of the law sampled' % (what, i + 1))
        x.oblige(z3.BoolVal(loops.same(eng.load(x) if isinstance(eng, Loc) else eng, e.load(x)) and key(eng) == key(e)), what + ': the sample comes from the engine passed by the caller')
        return res
    x.contracts[('dist', '()')] = sample
    before = dict(x.mem)
    st, v = attempt(x, lambda: x.value(x.method(o, 'operator()', e)))
    x.oblige(z3.BoolVal(st == 'ok'), what + ': sampling does not throw')
    x.oblige(z3.BoolVal(n[0] == 1), what + ': exactly one sample is taken')
    if st == 'ok':
        r = z3.ToReal(res) if kind == "poisson" else res
        x.oblige(v == r, what + ': the sample is returned unchanged')
    frame_unchanged(x, before, what + ': sampling')


def key(l):
    return getattr(l, 'key', None)


def dist(cls, fp):
    kind, n, valid, law = CASES[cls]

    def f(x):
        p = [finite(x, 'p%d' % i) for i in range(n)]
        o = expect_valid(x, valid(x, p), lambda: x.construct(cls, *p), cls)
        if not fp:
            draws(x, o, kind, law(x, p), cls)
            noquantile(x, o, cls)
    return Script(cls + (' validation' if fp else ''), f, mode='fp' if fp else 'real')


def noquantile(x, o, cls):
    q = z3.Real('q')
    st, v = attempt(x, lambda: x.value(x.method(o, 'inv_cdf', q)))
    x.oblige(z3.BoolVal(st == 'throw' and exc_isa(v, 'std::logic_error')), cls + ': the quantile function that is not implemented raises a logic_error')


def snormal(x):
    o = x.construct('StandardNormalDistribution')
    draws(x, o, 'normal', [num(x, 0), num(x, 1)], 'StandardNormalDistribution')


def unit(x):
    o = x.construct('ContinuousUniformDistribution', nargs=0)
    draws(x, o, 'uniform_real', [num(x, 0), num(x, 1)], 'default uniform distribution')


SCRIPTS = [dist(c, fp) for c in CASES for fp in (True, False)] + [Script('StandardNormalDistribution', snormal), Script('default uniform', unit)]
