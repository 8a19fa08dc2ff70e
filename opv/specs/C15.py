"""Number generators: which numbers of which engine reach the distribution, in which order."""
from specs.common import *

DIM, SEED, N0 = z3.Ints('dim seed n')
DRAWN = z3.Function('DRAWN', IS, IS, RS)          # seed, how many draws were made before
Q = z3.Function('QRNG', IS, IS, IS, RS)           # dimension, seed, index in the engine's output stream
INV = z3.Function('INVCDF', RS, RS)
MAXV = {'faure': z3.Real('faure_max'), 'sobol': z3.ToReal(z3.Int('sobol_max'))}


def valid_dim(x):
    x.assume(z3.And(DIM >= 0, DIM < (1 << 31), SEED >= 0, SEED < (1 << 32)))
    return DIM >= 1


def distribution(x):
    d = x.abstract('Distribution')

    def draw(x, this, a):
        e = a[0]
        v = e.load(x)
        st = v.eid[1] if isinstance(v.eid, tuple) else z3.IntVal(0)
        e.store(x, EngineV(v.seed, ('pseudo', z3.simplify(st + 1))))
        return DRAWN(v.seed, st)
    x.contracts[('Distribution', 'operator()')] = draw
    x.contracts[('Distribution', 'inv_cdf')] = lambda x, this, a: INV(x.value(a[0]))
    return d


def field(x, o, test, what):
    got = [Cell(('f', o, c, f['name'])) for c, f in x.P.all_fields(x.objs[o].cls) if test(Cell(('f', o, c, f['name'])).load(x))]
    if len(got) != 1:
        raise Unsupported('%s of the generator' % what)
    return got[0]


def pseudo(x):
    d = distribution(x)
    o = expect_valid(x, valid_dim(x), lambda: x.construct('PseudoRandomNumberGenerator', DIM, SEED), 'pseudo-random generator')
    x.oblige(getter(x, o, 'getDim') == DIM, 'getDim')
    s2 = z3.Int('seed2')
    x.assume(z3.And(s2 >= 0, s2 < (1 << 32)))
    o2 = x.construct('PseudoRandomNumberGenerator', DIM, s2)
    e = field(x, o, lambda v: isinstance(v, EngineV), 'engine')
    x.oblige(e.load(x).seed == SEED, 'the engine is seeded with the given seed')
    # an arbitrary number of draws later
    x.assume(N0 >= 0)
    e.store(x, EngineV(e.load(x).seed, ('pseudo', N0)))
    before = dict(x.mem)
    v = x.value(x.method(o, 'operator()', ObjLoc(d)))
    x.oblige(v == DRAWN(SEED, N0), 'the n-th value is the n-th draw of the distribution from an engine seeded with the seed')
    w = e.load(x)
    x.oblige(z3.And(w.seed == SEED, z3.simplify(w.eid[1]) == N0 + 1), 'exactly one draw is made')
    x.oblige(x.value(x.method(o2, 'operator()', ObjLoc(d))) == DRAWN(s2, 0), 'another generator is independent of it')
    frame_unchanged(x, {k: v for k, v in before.items() if k not in (e.key, field(x, o2, lambda v: isinstance(v, EngineV), 'engine').key)}, 'drawing')


def random_seed(cls):
    def f(x):
        qrng(x)
        o = expect_valid(x, valid_dim(x), lambda: x.construct(cls, DIM), cls + ' without seed')
        x.oblige(getter(x, o, 'getDim') == DIM, 'getDim')
    return Script(cls + ' with a random seed', f)


def qrng(x):
    """boost's quasi-random engines: generate fills a range with the next numbers of the output stream of this dimension and seed"""
    def seed(x, loc, a):
        v = loc.load(x)
        loc.store(x, EngineV(x.value(a[0]), v.eid[:2] + (z3.IntVal(0),)))

    def generate(x, loc, a):
        v = loc.load(x)
        b, e = a
        dim = v.eid[1][0]
        st = v.eid[2] if len(v.eid) > 2 else z3.IntVal(0)
        sd = v.seed if v.seed is not None else z3.Int('default_seed')
        if not isinstance(b, IterV) or not isinstance(e, IterV):
            raise Unsupported('generate without iterators')
        tgt = b.loc
        vec = tgt.load(x)
        i0, i1 = b.pos, e.pos
        x.oblige(z3.And(i0 >= 0, i0 <= i1, i1 <= vec.n), 'the engine writes within the vector')
        old = vec.fn
        tgt.store(x, VecV(vec.n, lambda i: z3.If(z3.And(i >= i0, i < i1), Q(dim, sd, st + i - i0), old(i)), vec.kind, vec.et))
        loc.store(x, EngineV(sd, v.eid[:2] + (z3.simplify(st + i1 - i0),)))
    x.contracts[('engine', 'seed')] = seed
    x.contracts[('engine', 'generate')] = generate
    x.assume(z3.And(*[m > 0 for m in MAXV.values()]))


def quasi(cls, eng):
    def f(x):
        qrng(x)
        d = distribution(x)
        o = expect_valid(x, valid_dim(x), lambda: x.construct(cls, DIM, SEED), cls)
        x.oblige(getter(x, o, 'getDim') == DIM, 'getDim')
        e = field(x, o, lambda v: isinstance(v, EngineV), 'engine')
        p = field(x, o, lambda v: isinstance(v, VecV), 'current point')
        # position in the current point: the only field that is neither the dimension nor the seed
        c0 = dict(x.mem)
        x.method(o, 'operator()', ObjLoc(d))
        ch = [k for k in c0 if k[0] == 'f' and k[1] == o and k in x.mem and not loops.same(c0[k], x.mem[k]) and isz(c0[k]) and c0[k].sort() == IS]
        x.mem.update(c0)
        if len(ch) != 1:
            raise Unsupported('position within the current point')
        step = Cell(ch[0])

        def inv(n):
            """after n draws: the engine delivered whole points, the current point is the last one, step coordinates of it are used"""
            v, pt, s = e.load(x), p.load(x), step.load(x)
            base = v.eid[2] - DIM
            j = z3.Int('j?')
            return [z3.And(v.eid[1][0] == DIM, v.seed == SEED, base + s == n, s >= 0, s <= DIM, pt.n == DIM), All([j], z3.And(j >= 0, j < DIM), pt.get(j) == Q(DIM, SEED, base + j))]
        x.oblige(z3.BoolVal(e.load(x).eid[0] == 'qrng'), 'engine')
        for g in inv(z3.IntVal(0)):
            x.oblige(g, cls + ': construction loads the first point of the engine for this dimension and seed')
        # arbitrary state after n draws
        x.assume(N0 >= 0)
        s0, b0 = z3.Int('used'), z3.Int('delivered')
        pf = x.freshf('point', IS, RS)
        v = e.load(x)
        e.store(x, EngineV(SEED, v.eid[:2] + (b0,)))
        pv = p.load(x)
        p.store(x, VecV(DIM, lambda i: pf(i), pv.kind, pv.et))
        step.store(x, s0)
        for g in inv(N0):
            x.assume(g)
        before = dict(x.mem)
        r = x.value(x.method(o, 'operator()', ObjLoc(d)))
        x.oblige(r == INV(Q(DIM, SEED, N0) / MAXV[eng]), cls + ': the n-th value is the quantile of the n-th number of the engine, scaled to [0,1]')
        for g in inv(N0 + 1):
            x.oblige(g, cls + ': coordinates are used in order and a new point is generated after the last one')
        frame_unchanged(x, {k: v for k, v in before.items() if k not in (e.key, p.key, step.key)}, 'drawing')
    return Script(cls, f)


SCRIPTS = [Script('PseudoRandomNumberGenerator', pseudo), random_seed('PseudoRandomNumberGenerator'), quasi('SobolGenerator', 'sobol'), quasi('FaureGenerator', 'faure'), random_seed('SobolGenerator'), random_seed('FaureGenerator')]
