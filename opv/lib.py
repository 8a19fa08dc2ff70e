"""Contracts of the third-party library functions the repository calls (std, Eigen, boost.random).
These are assumed, not verified; the check's evidence lists them."""
import re
import z3
from sym import *

ALIVE = z3.Function('alive', REF, BS)
VECID = z3.DeclareSort('VecVal')
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def A(x, a):
    """evaluate an argument node (or pass a value through) to an rvalue"""
    if isinstance(a, dict):
        return x.rv(a)
    return x.value(a)


def L(x, a):
    if isinstance(a, dict):
        return x.lv(a)
    return a if isinstance(a, Loc) else x.tmp(a)


def note(x, what):
    if x.report is not None:
        x.report.assumed(what)


# ------------------------------------------------------------------ vectors helpers
def zero_vec(x, n, et='double', kind='std', val=None):
    if val is None:
        val = x.zero(et) if x.scalar_kind(et) else None
        if val is None:
            b = base_name(et)
            if b in ('weak_ptr', 'shared_ptr'):
                raise Unsupported('vector of null pointers')
            raise Unsupported('vector of ' + et)
    return VecV(n, lambda i: val, kind, et)


def empty_vec(x, et):
    if base_name(et) in ('weak_ptr', 'shared_ptr'):
        cl = x.P.cls(targs(et)[0])
        return VecV(z3.IntVal(0), lambda i: SPtr(cl, z3.Const('nullref', REF), True), 'std', et)
    if x.scalar_kind(et):
        return zero_vec(x, z3.IntVal(0), et)
    if base_name(et) == 'Triplet':
        return TripV(z3.IntVal(0), lambda i, j: x.rval(0))
    if base_name(et) == 'vector':
        raise Unsupported('vector of vectors')
    return Opaque('vector of ' + et)


def from_list(x, vs, et='double', kind='std'):
    def f(i):
        r = vs[-1]
        for k in range(len(vs) - 2, -1, -1):
            r = ite(ieq(i, z3.IntVal(k)), vs[k], r)
        return r
    if not vs:
        return empty_vec(x, et)
    return VecV(z3.IntVal(len(vs)), f, kind, et)


def append(v, e):
    n = v.n
    old = v.fn
    return VecV(z3.simplify(n + 1), lambda i: ite(ieq(i, n), e, lambda: old(i)), v.kind, v.et)


def num(x, v):
    """number as a double"""
    if isz(v) and v.sort() == IS:
        return x.toreal(v)
    return v


def ew(x, op, a, b):
    """elementwise / matrix arithmetic on Eigen values"""
    f = lambda p, q: x.arith(op, num(x, p), num(x, q))
    if isz(a) and isinstance(b, VecV):
        return b.like(b.n, lambda i: f(a, b.get(i)))
    if isz(b) and isinstance(a, VecV):
        return a.like(a.n, lambda i: f(a.get(i), b))
    if isz(a) and isinstance(b, MatV):
        return MatV(b.r, b.c, lambda i, j: f(a, b.get(i, j)), b.arr)
    if isz(b) and isinstance(a, MatV):
        return MatV(a.r, a.c, lambda i, j: f(a.get(i, j), b), a.arr)
    if isinstance(a, VecV) and isinstance(b, VecV):
        if op in '+-' or (a.arr and b.arr):
            x.oblige(a.n == b.n, 'operand sizes agree')
            return a.like(a.n, lambda i: f(a.get(i), b.get(i)))
        if op == '*':
            return dot(x, a, b)
    if isinstance(a, MatV) and isinstance(b, MatV):
        if op in '+-' or (a.arr and b.arr):
            return MatV(a.r, a.c, lambda i, j: f(a.get(i, j), b.get(i, j)), a.arr)
        if op == '*':
            return MatV(a.r, b.c, lambda i, j: bigsum(x, a.c, lambda m: a.get(i, m) * b.get(m, j)))
    if isinstance(a, MatV) and isinstance(b, VecV) and op == '*':
        return VecV(a.r, lambda i: bigsum(x, a.c, lambda m: a.get(i, m) * b.get(m)), 'eig')
    raise Unsupported('Eigen operator %s on %s,%s' % (op, type(a).__name__, type(b).__name__))


def dot(x, a, b):
    x.oblige(a.n == b.n, 'dot operands have equal size')
    return bigsum(x, a.n, lambda m: a.get(m) * b.get(m))


def canon(t):
    """deterministic text of a term with sorted commutative operands (used to name sums)"""
    memo = {}

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i]
        if t.num_args() == 0:
            r = t.sexpr()
        else:
            cs = [go(c) for c in t.children()]
            k = t.decl().kind()
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ):
                cs = sorted(cs)
            r = '(' + t.decl().name() + ' ' + ' '.join(cs) + ')'
        memo[i] = r
        return r
    return go(t)


def abstract_term(t, bound):
    """replace free constants by parameters: returns (text, params, rebuild(params,bound))"""
    consts = []
    seen = set()

    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if is_const(t):
            if all(not t.eq(b) for b in bound):
                consts.append(t)
            return
        # ground int terms in argument positions count as one parameter
        for c in t.children():
            go(c)
    go(t)
    consts.sort(key=lambda c: c.decl().name())
    return consts


BS_CACHE = {}


def norm_elem(x, n, fn, extra=()):
    """element i of a closure, normalised under the path condition"""
    i = z3.Int('i#')
    t = fn(i)
    if not isz(t):
        raise Unsupported('sum of non-scalars')
    hy = list(x.pc) + [i >= 0, i < n]
    c = x.pr.ctx(hy)
    t2 = c.rewrite(t)
    return i, prune_ites(c, t2)


def prune_ites(c, t):
    return t


def linform(t):
    """ground integer argument -> canonical"""
    return z3.simplify(t)


def bigsum(x, n, fn):
    i, t = norm_elem(x, n, fn)
    if z3.is_int_value(n) and n.as_long() <= 4:
        r = x.rval(0)
        for k in range(n.as_long()):
            r = r + z3.substitute(t, (i, z3.IntVal(k)))
        return r
    return sum_term(t, i, n)


def isum_term(t, i, n):
    return sum_term(t, i, n, IS)


def sum_term(t, i, n, sort=RS):
    # parameters: the maximal sub-terms free of the bound variable that are not numerals
    params, body = lift_params(t, [i])
    txt = canon(body)
    key = ('sum' + str(sort), txt, tuple(str(p.sort()) for p in params))
    s = BS_CACHE.get(key)
    ph = [z3.Const('?p%d' % k, p.sort()) for k, p in enumerate(params)]
    if s is None:
        name = 'SUM%d' % len(BS_CACHE)
        s = Seq(name, sort, [p.sort() for p in params],
                lambda *a: z3.RealVal(0) if sort == RS else z3.IntVal(0),
                lambda *a: a[-1] + z3.substitute(body, *([(h, q) for h, q in zip(ph, a[:-2])] + [(i, a[-2])])))
        BS_CACHE[key] = s
    return s(*(list(params) + [n]))


def lift_params(t, bound):
    """abstract free subterms (constants and int-argument terms) in a canonical order"""
    ids = {b.get_id() for b in bound}
    dep = {}

    def depends(u):
        k = u.get_id()
        if k in dep:
            return dep[k]
        r = k in ids or any(depends(c) for c in u.children())
        dep[k] = r
        return r
    params = []
    index = {}

    def go(u):
        if not depends(u):
            if z3.is_int_value(u) or z3.is_rational_value(u) or z3.is_true(u) or z3.is_false(u):
                return u
            # index occurrences are separate parameters, so that SUM(i,i) is an instance of SUM(i,j)
            k = u.get_id() if u.sort() != IS else ('occ', len(params))
            if k not in index:
                index[k] = len(params)
                params.append(u)
            return z3.Const('?q%d' % index[k], u.sort())
        if u.num_args() == 0:
            return u
        return rebuild(u, [go(c) for c in u.children()])
    b = go(t)
    # canonical renumbering: by canonical text with placeholders blanked, then occurrence in canonical order
    txt = canon(b)
    order = []
    import re
    for m in re.finditer(r'\?q(\d+)', txt):
        k = int(m.group(1))
        if k not in order:
            order.append(k)
    sub = [(z3.Const('?q%d' % k, params[k].sort()), z3.Const('?p%d' % j, params[k].sort())) for j, k in enumerate(order)]
    b = z3.substitute(b, *sub) if sub else b
    return [params[k] for k in order], b


def vec_id(x, v):
    """a term identifying the vector's value (extensional up to provable normal form)"""
    i, t = norm_elem(x, v.n, v.fn)
    params, body = lift_params(t, [i])
    key = ('vec', canon(body), tuple(str(p.sort()) for p in params))
    f = BS_CACHE.get(key)
    if f is None:
        f = z3.Function('VEC%d' % len(BS_CACHE), *([p.sort() for p in params] + [IS, VECID]))
        BS_CACHE[key] = f
    n = x.pr.ctx(x.pc).rewrite(v.n)
    return f(*(list(params) + [n]))


def mat_id(x, m):
    i, j = z3.Int('i#'), z3.Int('j#')
    t = m.get(i, j)
    hy = list(x.pc) + [i >= 0, i < m.r, j >= 0, j < m.c]
    t = x.pr.ctx(hy).rewrite(t)
    params, body = lift_params(t, [i, j])
    key = ('mat', canon(body), tuple(str(p.sort()) for p in params))
    f = BS_CACHE.get(key)
    if f is None:
        f = z3.Function('MAT%d' % len(BS_CACHE), *([p.sort() for p in params] + [IS, IS, VECID]))
        BS_CACHE[key] = f
    c = x.pr.ctx(x.pc)
    return f(*(list(params) + [c.rewrite(m.r), c.rewrite(m.c)]))


def uninit_vec(x, n, kind='eig'):
    f = x.freshf('uninit', IS, x.realsort())
    return VecV(n, lambda i: f(i), kind)


def index(x, loc, i, what='vector index'):
    v = loc.load(x)
    x.oblige(z3.And(i >= 0, i < v.n), what + ' in bounds')
    return Elem(loc, i)


# ------------------------------------------------------------------ constructors
def carray(t):
    m = re.match(r'([^\[\]]+)\[(\d+)\]$', t.strip())
    return (strip_type(m.group(1)), int(m.group(2))) if m else None


def make(x, t, args, n=None, move=False):
    b = base_name(t)
    vals = None
    if carray(t):
        et, k = carray(t)
        if not args:
            if not x.scalar_kind(et) or x.scalar_kind(et) != 'real':
                raise Unsupported('array of ' + et)
            v = uninit_vec(x, z3.IntVal(k), 'std')
            return VecV(v.n, v.fn, 'std', et)
        il = args[0]
        il = list(il[1]) if isinstance(il, tuple) and il[0] == 'initlist' else list(il) if isinstance(il, list) else x.value(il)
        if isinstance(il, VecV):
            return il
        while len(il) < k:
            il.append(x.zero(et))
        return from_list(x, il, et)
    if args and isinstance(args[0], tuple) and args[0][0] == 'initlist':
        il = args[0][1]
        if b == 'vector':
            return from_list(x, list(il), targs(t)[0])
        if b == 'array' and len(targs(t)) == 2:
            il = list(il[0]) if len(il) == 1 and isinstance(il[0], list) else list(il)
            if len(il) != int(re.match(r'\d+', targs(t)[1]).group(0)):
                raise Unsupported('partly initialised array')
            return from_list(x, il, targs(t)[0])
        if b in ('optional',):
            return OptV(TRUE, il[0]) if il else OptV(FALSE, x.rval(0))
        if b in ('shared_ptr', 'unique_ptr', 'weak_ptr'):
            return il[0] if il else NULL
        if is_string(t):
            return il[0] if il else x.pr.lit('')
        if b == 'Matrix' or b in ('VectorXd',):
            return from_list(x, list(il), 'double', 'eig')
        return make(x, t, list(il), n)
    V0 = lambda i: x.value(args[i])
    if b in ('shared_ptr', 'unique_ptr', 'weak_ptr'):
        if not args:
            return NULL
        v = V0(0)
        if isinstance(v, Ptr) or isinstance(v, SPtr):
            if move and isinstance(args[0], Loc):
                try:
                    args[0].store(x, NULL)
                except Exception:
                    pass
            if isinstance(v, SPtr):
                return SPtr(v.cls, v.term, b == 'weak_ptr', v.alive)
            return v
        raise Unsupported('%s from %s' % (b, type(v).__name__))
    if is_string(t):
        if not args:
            return x.pr.lit('')
        v = V0(0)
        if isz(v) and v.sort() == STR and len(args) == 1:
            return v
        return x.fresh('str', STR)
    if b == 'optional':
        if not args:
            return OptV(FALSE, x.rval(0))
        v = V0(0)
        if isinstance(v, OptV):
            return v
        if isinstance(v, Opaque) and v.what == 'nullopt':
            return OptV(FALSE, x.rval(0))
        return OptV(TRUE, v)
    if b == 'vector':
        et = targs(t)[0]
        if not args:
            return empty_vec(x, et)
        v = V0(0)
        if isinstance(v, (VecV, TripV)):
            if move and isinstance(args[0], Loc):
                args[0].store(x, empty_vec(x, et))
            return v
        if isinstance(v, list):
            return from_list(x, v, et)
        if isinstance(v, IterV) and len(args) >= 2:
            e = V0(1)
            src = v.loc.load(x)
            o = v.pos
            return VecV(z3.simplify(e.pos - v.pos), lambda i: src.get(z3.simplify(i + o)), 'std', et)
        if isz(v):
            if len(args) >= 2 and isz(V0(1)):
                return zero_vec(x, v, et, 'std', V0(1))
            return zero_vec(x, v, et)
        raise Unsupported('vector constructor')
    if b in ('Matrix', 'VectorXd', 'MatrixXd', 'Array', 'ArrayXd', 'RowVectorXd'):
        ta = targs(t)
        isvec = b in ('VectorXd', 'ArrayXd', 'RowVectorXd') or (len(ta) >= 3 and (ta[2] == '1' or ta[1] == '1'))
        arr = b in ('Array', 'ArrayXd')
        if not args:
            return uninit_vec(x, z3.IntVal(0)) if isvec else MatV(z3.IntVal(0), z3.IntVal(0), lambda i, j: x.rval(0))
        v = V0(0)
        if isinstance(v, VecV):
            if isvec:
                return VecV(v.n, v.fn, 'eig', 'double', arr)
            return MatV(v.n, z3.IntVal(1), lambda i, j: v.get(i))
        if isinstance(v, MatV):
            if isvec:
                raise Unsupported('vector from matrix')
            return MatV(v.r, v.c, v.fn, arr)
        if isz(v):
            if v.sort() != IS:
                raise Unsupported('Eigen scalar constructor')
            if isvec and len(args) == 1:
                return uninit_vec(x, v)
            w = V0(1)
            f = x.freshf('uninit', IS, IS, x.realsort())
            return MatV(v, w, lambda i, j: f(i, j))
        raise Unsupported('Eigen constructor from ' + type(v).__name__)
    if b == 'Map':
        p = V0(0)
        if isinstance(p, Ptr) and p.loc is not None and len(args) >= 2:
            v = p.loc.load(x)
            k = V0(1)
            if isinstance(v, VecV):
                x.oblige(z3.And(k >= 0, k <= v.n), 'Map size within the vector')
                return VecV(k, v.fn, 'map')
        raise Unsupported('Eigen::Map')
    if b == 'Triplet':
        return ('triplet',) + tuple(V0(i) for i in range(len(args)))
    if b == 'SparseMatrix':
        if not args:
            return MatV(z3.IntVal(0), z3.IntVal(0), lambda i, j: x.rval(0), sparse=True)
        v = V0(0)
        if isinstance(v, MatV):
            return v
        w = V0(1)
        return MatV(v, w, lambda i, j: x.rval(0), sparse=True)
    if b in ('SparseLU', 'PartialPivLU', 'LDLT', 'LLT', 'FullPivLU', 'ColPivHouseholderQR', 'HouseholderQR', 'JacobiSVD', 'SimplicialLDLT'):
        if args:
            if b == 'JacobiSVD':
                return SolverV(svd_kind(x, args[1:]), V0(0), decomposed(x, b))
            return SolverV(b, V0(0), decomposed(x, b))
        return SolverV(b, None)
    if b in ('mersenne_twister_engine', 'mt19937'):
        if not args:
            return EngineV(z3.IntVal(5489), 'default')
        v = V0(0)
        if isinstance(v, EngineV):
            return v
        return EngineV(v, 'seeded')
    if b in ('normal_distribution', 'poisson_distribution', 'exponential_distribution', 'gamma_distribution', 'uniform_real_distribution'):
        d = {'normal': (0, 1), 'poisson': (1,), 'exponential': (1,), 'gamma': (1, 1), 'uniform_real': (0, 1)}[b[:-13]]
        if args and isinstance(V0(0), DistV):
            return V0(0)
        ps = [num(x, V0(i)) if i < len(args) else x.rval(d[i]) for i in range(len(d))]
        return DistV(b[:-13], ps)
    if b in ('mutex', 'lock_guard', 'scoped_lock', 'unique_lock', 'recursive_mutex', 'shared_mutex', 'random_device',
             'enable_shared_from_this', 'basic_ostringstream', 'ostringstream', 'basic_stringstream', 'stringstream', 'allocator', 'initializer_list', 'atomic',
             'basic_ostream', 'ostream', 'nullopt_t'):
        return Opaque('nullopt' if b == 'nullopt_t' else b)
    if b in ('unordered_map', 'map'):
        if args:
            v = V0(0)
            if isinstance(v, MapV):
                return v
        return MapV([], None, targs(t)[1] if len(targs(t)) > 1 else '')
    if b == 'variant':
        if not args:
            return VarV('int', z3.IntVal(0))
        v = V0(0)
        if isinstance(v, VarV):
            return v
        return variant_of(x, v, n)
    if b == 'function':
        if not args:
            return NULL
        return V0(0)
    if b in ('sobol', 'faure', 'gray_coded_qrng', 'qrng_base', 'sobol_engine', 'faure_engine', 'niederreiter_base2'):
        return EngineV(None, ('qrng', [V0(i) for i in range(len(args))]))
    if b == 'reference_wrapper':
        raise Unsupported(b)
    if t.endswith('*'):
        return NULL if not args else V0(0)
    k = x.scalar_kind(t)
    if k:
        return x.zero(t) if not args else V0(0)
    q = x.P.cls(t)
    if q is not None:
        oid = x.new_obj(q)
        x.run_ctor(q, oid, list(args))
        return ObjV(oid)
    if len(args) == 1:
        v = V0(0)
        if isz(v) or isinstance(v, (VecV, MatV, Ptr, OptV, IterV, Closure)):
            return v
    raise Unsupported('constructor of ' + t)


def product(x, t, vals):
    q = x.P.cls(t)
    if q is None:
        raise Unsupported('pair type ' + t)
    oid = x.new_obj(q)
    x.product_init(q, oid, vals)
    return ObjV(oid)


def variant_of(x, v, n):
    if isz(v):
        if v.sort() == STR:
            return VarV('string', v)
        if v.sort() == x.realsort():
            return VarV('double', v)
        if v.sort() == IS:
            at = ''
            if n is not None:
                args = [a for a in n.get('inner', ()) if a.get('kind')]
                if args:
                    at = strip_type(tstr(args[0]['type']))
            if x.P.enum(at) and at not in INTS:
                return VarV(at.split('::')[-1], v)
            return VarV('int', v)
    raise Unsupported('variant of ' + type(v).__name__)


# ------------------------------------------------------------------ variables / enums
def var(x, name, n):
    if name in ('cerr', 'cout', 'clog'):
        return Opaque('stream')
    if name == 'nullopt':
        return Opaque('nullopt')
    if name == 'npos':
        return z3.IntVal((1 << 64) - 1)
    if name in ('pi_v', 'pi'):
        return x.rval(3.141592653589793)
    if name == 'endl' or name in ('par', 'seq', 'unseq', 'par_unseq'):
        return Opaque(name)
    raise Unsupported('library variable ' + str(name))


def enum_const(x, name):
    table = {'Success': 0, 'ComputeThinU': 0x08, 'ComputeThinV': 0x20, 'ComputeFullU': 4, 'ComputeFullV': 16}
    if name in table:
        return z3.IntVal(table[name])
    return z3.Int('enum:' + name)


# ------------------------------------------------------------------ free functions
def real_fn(x, f, *a):
    if x.mode == 'fp':
        # any result: an unknown function of the argument
        v = num(x, a[0])
        if isinstance(f, z3.FuncDeclRef):
            return z3.Function('fp:' + f.name(), FP, FP)(v)
        return x.fresh('libm', FP)
    return f(*[num(x, v) for v in a])


def lt(x, a, b):
    if z3.is_fp(a) or z3.is_fp(b):
        return z3.fpLT(a, b)
    return a < b


def spelling(n):
    """source text of the called static member (class::name)"""
    c = n
    while c is not None and c.get('kind') != 'DeclRefExpr':
        c = (c.get('inner') or [None])[0]
    return c.get('src') if c else None


def fmax(x, a, b):
    return ite(z3.simplify(lt(x, a, b)) if x.mode != 'fp' else lt(x, a, b), b, a)


def fmin(x, a, b):
    return ite(z3.simplify(lt(x, b, a)) if x.mode != 'fp' else lt(x, b, a), b, a)


def absval(x, v):
    if z3.is_fp(v):
        return z3.fpAbs(v)
    return z3.If(v < 0, -v, v)


def call(x, name, args, n):
    if name in ('move', 'forward', 'as_const', 'ref', 'cref', 'static_pointer_cast', 'const_pointer_cast', 'addressof', 'identity'):
        if name == 'addressof':
            return Ptr(L(x, args[0]))
        if name in ('static_pointer_cast', 'const_pointer_cast'):
            return A(x, args[0])
        if isinstance(args[0], dict):
            return x.ev(args[0])
        return args[0]
    if name in ('exp', 'expf'):
        return real_fn(x, EXP, A(x, args[0]))
    if name == 'log':
        return real_fn(x, LOG, A(x, args[0]))
    if name == 'log1p':
        return real_fn(x, lambda v: LOG(1 + v), A(x, args[0]))
    if name == 'expm1':
        return real_fn(x, lambda v: EXP(v) - 1, A(x, args[0]))
    if name == 'sqrt':
        return real_fn(x, SQRT, A(x, args[0]))
    if name == 'pow':
        a, b = A(x, args[0]), A(x, args[1])
        if isinstance(a, VecV):
            return a.like(a.n, lambda i: power(x, a.get(i), b))
        return power(x, a, b)
    if name == 'fma':
        a, b, c = [A(x, t) for t in args]
        return x.arith('+', x.arith('*', a, b), c)
    if name in ('abs', 'fabs'):
        v = A(x, args[0])
        if isinstance(v, VecV):
            return v.like(v.n, lambda i: absval(x, v.get(i)))
        return absval(x, v)
    if name in ('max', 'min') and len(args) == 2:
        a, b = A(x, args[0]), A(x, args[1])
        return fmax(x, a, b) if name == 'max' else fmin(x, a, b)
    if name in ('fmax', 'fmin'):
        a, b = A(x, args[0]), A(x, args[1])
        if x.mode == 'fp':
            raise Unsupported(name)
        return fmax(x, a, b) if name == 'fmax' else fmin(x, a, b)
    if name in ('max', 'min') and len(args) == 1:
        v = A(x, args[0])
        vs = v if isinstance(v, list) else None
        if vs:
            r = vs[0]
            for w in vs[1:]:
                r = fmax(x, r, w) if name == 'max' else fmin(x, r, w)
            return r
        raise Unsupported(name)
    if name == 'clamp':
        v, lo, hi = [A(x, t) for t in args]
        return ite(lt(x, v, lo), lo, ite(lt(x, hi, v), hi, v))
    if name in ('max', 'min', 'lowest') and len(args) == 0:
        t = strip_type(tstr(n['type']))
        src = spelling(n)
        if src is None:
            raise Unsupported('unresolved static member ' + name)
        if 'numeric_limits' not in src:
            # range of a library generator: an unknown constant per generator class
            q = src.split('::')[-2] if '::' in src else '?'
            q = (z3.Real if x.scalar_kind(t) == 'real' else z3.Int)('%s_%s' % (q, name))
            if name == 'max':
                x.assume(q > 0)
            return q
        k = x.scalar_kind(t)
        if isinstance(k, tuple):
            if name == 'max':
                return z3.IntVal((1 << (k[0] - (1 if k[1] else 0))) - 1)
            return z3.IntVal(-(1 << (k[0] - 1)) if k[1] else 0)
        if k == 'real':
            import sys
            return x.rval(sys.float_info.max if name == 'max' else sys.float_info.min if name == 'min' else -sys.float_info.max)
    if name == 'infinity':
        if x.mode == 'fp':
            return z3.fpPlusInfinity(FP)
        return z3.Real('INF')
    if name == 'epsilon':
        return x.rval(2.220446049250313e-16)
    if name in ('quiet_NaN',):
        if x.mode == 'fp':
            return z3.fpNaN(FP)
        raise Unsupported('NaN in real mode')
    if name in ('isnan', 'isfinite', 'isinf', 'signbit'):
        v = A(x, args[0])
        if x.mode == 'fp':
            return {'isnan': z3.fpIsNaN(v), 'isinf': z3.fpIsInf(v), 'isfinite': z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))),
                    'signbit': z3.fpIsNegative(v)}[name]
        if name == 'signbit':
            return v < 0
        return z3.BoolVal(name == 'isfinite')
    if name in ('floor', 'ceil', 'round', 'trunc'):
        if x.mode == 'fp':
            raise Unsupported(name)
        v = A(x, args[0])
        if name == 'floor':
            return z3.ToReal(z3.ToInt(v))
        if name == 'ceil':
            return z3.ToReal(-z3.ToInt(-v))
        if name == 'trunc':
            return z3.ToReal(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
        return z3.ToReal(z3.If(v >= 0, z3.ToInt(v + z3.RealVal('1/2')), -z3.ToInt(-v + z3.RealVal('1/2'))))
    if name in ('make_shared', 'make_unique'):
        t = tstr(n['type'])
        c = x.P.cls(targs(strip_type(t))[0])
        if c is None:
            raise Unsupported('%s<%s>' % (name, t))
        a = []
        for v in args:
            if v['kind'] == 'CXXDefaultArgExpr':
                continue
            l = x.ev(v)
            if v.get('valueCategory') == 'xvalue' and isinstance(l, Loc) and v['kind'] in ('CallExpr', 'CXXStaticCastExpr'):
                w = l.load(x)
                if isinstance(w, (Ptr, SPtr)):      # moved from: the source is null afterwards
                    l.store(x, NULL)
                    l = x.tmp(w)
            a.append(l)
        oid = x.new_obj(c)
        x.run_ctor(c, oid, a)
        return Ptr(ObjLoc(oid))
    if name == 'dynamic_pointer_cast':
        p = A(x, args[0])
        c = x.P.cls(targs(strip_type(tstr(n['type'])))[0])
        return x.dyncast(p, c)
    if name == 'get' or name == 'get_if':
        v = A(x, args[0])
        if name == 'get_if' and isinstance(v, Ptr) and v.loc is not None and isinstance(v.loc.load(x), VarV):
            v = v.loc.load(x)
            t = strip_type(re.sub(r'\*\s*(const)?\s*$', '', tstr(n['type']).strip()))
            return Ptr(x.tmp(v.val)) if v.alt == ('string' if is_string(t) else t.split('::')[-1]) else NULL
        if isinstance(v, VarV):
            t = strip_type(tstr(n['type']))
            want = 'string' if is_string(t) else t.split('::')[-1]
            if v.alt != want:
                raise CppThrow('std::bad_variant_access')
            return v.val
        if isinstance(v, ObjV) and x.P.classes[x.objs[v.oid].cls].get('product'):
            m = re.search(r'tuple_element(?:_t)?<(\d+)', tstr0(n['inner'][0].get('type') or '') + str((n['inner'][0].get('inner') or [{}])[0].get('type')))
            if m:
                return x.field(v.oid, x.P.classes[x.objs[v.oid].cls]['fields'][int(m.group(1))]['name'])
        raise Unsupported('std::get')
    if name in ('make_pair', 'make_tuple'):
        return product(x, strip_type(tstr(n['type'])), [A(x, t) for t in args])
    if name == 'tie':
        return TieV([L(x, t) if not (isinstance(t, dict) and 'ignore' in str(t.get('referencedDecl', {}).get('name'))) else None for t in args])
    if name == 'minmax' and len(args) == 2:
        a, b = A(x, args[0]), A(x, args[1])
        c = lt(x, b, a)
        return product(x, strip_type(tstr(n['type'])).replace('&', ''), [ite(c, b, a), ite(c, a, b)])
    if name == 'minmax_element' and len(args) == 2:
        return product(x, strip_type(tstr(n['type'])), [algorithm(x, 'min_element', args, n), algorithm(x, 'last_max_element', args, n)])
    if name == 'holds_alternative':
        raise Unsupported('holds_alternative')
    if name == 'Identity':
        r, c = A(x, args[0]), A(x, args[1])
        return MatV(r, c, lambda i, j: ite(ieq(i, j), x.rval(1), x.rval(0)))
    if name in ('Zero', 'Ones', 'Constant'):
        k = len(args) - (1 if name == 'Constant' else 0)
        v = x.rval(0 if name == 'Zero' else 1) if name != 'Constant' else A(x, args[-1])
        if k == 1:
            return VecV(A(x, args[0]), lambda i: v, 'eig')
        return MatV(A(x, args[0]), A(x, args[1]), lambda i, j: v)
    if name in ('swap',):
        a, b = L(x, args[0]), L(x, args[1])
        va, vb = a.load(x), b.load(x)
        a.store(x, vb)
        b.store(x, va)
        return None
    if name == 'exchange':
        a = L(x, args[0])
        v = a.load(x)
        a.store(x, A(x, args[1]))
        return v
    if name == 'remove_if' and len(args) == 3:
        a, b = A(x, args[0]), A(x, args[1])
        v = a.loc.load(x) if isinstance(a, IterV) else None
        if not (isinstance(v, VecV) and isinstance(b, IterV) and b.loc == a.loc and x.implied(z3.And(a.pos == 0, b.pos == v.n))):
            raise Unsupported('remove_if')
        nv = erase_if(x, a.loc, A(x, args[2]), False)
        es = v.get(z3.Int('es#0'))
        if isinstance(es, SPtr):
            f = x.freshf('removed', IS, REF)
            tail = lambda j: SPtr(es.cls, f(j), es.weak)
            old = nv.fn
            a.loc.store(x, VecV(v.n, tail, v.kind, v.et))
        elif isz(es):
            f = x.freshf('removed', IS, es.sort())
            a.loc.store(x, VecV(v.n, lambda j: f(j), v.kind, v.et))
        else:
            raise Unsupported('remove_if')
        a.loc.load(x).kept = nv         # what is left once the tail is erased; until then the content is unspecified
        return IterV(a.loc, nv.n)
    if name in ('erase_if',):
        return erase_if(x, L(x, args[0]), A(x, args[1]))
    if name in ('free', '__cxa_demangle', 'to_string'):
        for a in args:
            A(x, a)
        return x.fresh('str', STR) if name == 'to_string' else Opaque(name)
    if name in ('begin', 'cbegin', 'end', 'cend', 'size'):
        return member(x, L(x, args[0]), name, [], n)
    if name == 'distance':
        a, b = A(x, args[0]), A(x, args[1])
        return z3.simplify(b.pos - a.pos)
    if name in ('next', 'prev'):
        a = A(x, args[0])
        d = A(x, args[1]) if len(args) > 1 and not (isinstance(args[1], dict) and args[1]['kind'] == 'CXXDefaultArgExpr') else z3.IntVal(1)
        return IterV(a.loc, z3.simplify(a.pos + d if name == 'next' else a.pos - d))
    if name in ('accumulate', 'for_each', 'copy', 'fill', 'transform', 'any_of', 'all_of', 'none_of', 'reduce', 'inner_product',
                'generate', 'lower_bound', 'upper_bound', 'min_element', 'max_element', 'copy_n', 'fill_n', 'iota', 'count_if', 'transform_reduce'):
        return algorithm(x, name, args, n)
    if name in ('__assert_fail', 'assert'):
        return None
    if name in ('make_optional',):
        return OptV(TRUE, A(x, args[0]))
    if name in ('time', 'clock', 'rand', 'getenv', 'now'):
        raise HiddenState('call of ' + name)
    raise Unsupported('library function ' + str(name))


def power(x, a, b):
    if x.mode == 'fp':
        raise Unsupported('pow in fp mode')
    a = num(x, a)
    bb = z3.simplify(b)
    if z3.is_int_value(bb) and 0 <= bb.as_long() <= 6 or z3.is_rational_value(bb) and bb.denominator_as_long() == 1 and 0 <= bb.numerator_as_long() <= 6:
        k = bb.as_long() if z3.is_int_value(bb) else bb.numerator_as_long()
        r = z3.RealVal(1)
        for i in range(k):
            r = a if i == 0 else r * a
        return r
    if bb.sort() == IS:
        return IPOW(a, b)
    if z3.is_app_of(bb, z3.Z3_OP_TO_REAL):
        return IPOW(a, bb.arg(0))
    return POW(a, num(x, b))


IPOW = Seq('ipow', RS, [RS], lambda a: z3.RealVal(1), lambda a, t, p: p * a)


def erase_if(x, loc, pred, store=True):
    """contract: the result is the sub-sequence of elements on which pred is false, in order"""
    v = loc.load(x)
    if not isinstance(v, VecV):
        raise Unsupported('erase_if')
    # characterise pred on a symbolic element
    i = z3.Int('e#')
    e = v.get(i)
    outs = x.enumerate(lambda: x.tobool(x.value(x.call_closure(pred, [x.tmp(e)]))))
    npc = len(x.pc)
    p = FALSE
    for k, val, s in outs:
        if k != 'normal':
            raise Unsupported('throwing predicate')
        extra = [h for h in s[1][npc:] if not isinstance(h, All)]
        for key in s[0]:
            if key in x.mem and s[0][key] is not x.mem[key]:
                raise Unsupported('predicate with side effects')
        p = z3.Or(p, z3.And(*(extra + [val])))
    nv = filtered(x, v, lambda j: z3.Not(z3.substitute(p, (i, j))))
    if not store:
        return nv
    loc.store(x, nv)
    return z3.simplify(v.n - nv.n)


def filtered(x, v, keep):
    """sub-sequence of v: length m and an increasing index map"""
    i = z3.Int('i#')
    kt = z3.simplify(keep(i))
    params, body = lift_params(kt, [i])
    key = ('filter', canon(body), tuple(str(p.sort()) for p in params))
    f = BS_CACHE.get(key)
    if f is None:
        k = len(BS_CACHE)
        f = (z3.Function('FLEN%d' % k, *([p.sort() for p in params] + [IS, IS])),
             z3.Function('FIDX%d' % k, *([p.sort() for p in params] + [IS, IS, IS])))
        BS_CACHE[key] = f
    fl, fi = f
    m = fl(*(list(params) + [v.n]))
    idx = lambda j: fi(*(list(params) + [v.n, j]))
    x.assume(z3.And(m >= 0, m <= v.n))
    old = v.fn
    return VecV(m, lambda j: old(idx(j)), v.kind, v.et)


def same_cell(L, key):
    return not any(s.key == key for s in L.slots)


def algorithm(x, name, args, n):
    """std algorithms as the loops they are"""
    from loops import run_loop
    a = [x.asiter(A(x, t)) for t in args]
    a = [t for t in a if not (isinstance(t, Opaque) and t.what in ('par', 'seq', 'unseq', 'par_unseq'))]
    fr = x.frames[-1]

    def cell(v, nm):
        key = ('v', fr.no, '%s%d' % (nm, x.newframe()))
        x.mem[key] = v
        return Cell(key)
    if name in ('accumulate', 'reduce'):
        b, e = a[0], a[1]
        acc = cell(a[2] if len(a) > 2 else x.rval(0), 'acc')
        it = cell(b.pos, 'it')

        def body():
            el = Elem(b.loc, it.load(x))
            if len(a) > 3:
                r = x.value(x.call_closure(a[3], [acc, el]))
            else:
                av, ev = acc.load(x), el.load(x)
                r = x.arith('+', av, ev) if av.sort() == x.realsort() else (x.iarith('+', av, ev, (64, True)) if ev.sort() == IS else _bad())
            acc.store(x, r)
        run_loop(x, n, lambda: it.load(x) < e.pos, body, lambda: it.store(x, z3.simplify(it.load(x) + 1)))
        return acc.load(x)
    if name in ('inner_product', 'transform_reduce') and len(a) == 4 and isinstance(a[2], IterV):
        b, e, c = a[0], a[1], a[2]
        acc = cell(a[3], 'acc')
        it = cell(z3.IntVal(0), 'it')

        def body():
            i = it.load(x)
            p = Elem(b.loc, z3.simplify(b.pos + i)).load(x)
            q = Elem(c.loc, z3.simplify(c.pos + i)).load(x)
            acc.store(x, x.arith('+', acc.load(x), x.arith('*', p, q)))
        run_loop(x, n, lambda: z3.simplify(b.pos + it.load(x)) < e.pos, body, lambda: it.store(x, z3.simplify(it.load(x) + 1)))
        return acc.load(x)
    if name == 'for_each':
        b, e, f = a[:3]
        it = cell(b.pos, 'it')
        run_loop(x, n, lambda: it.load(x) < e.pos, lambda: x.call_closure(f, [Elem(b.loc, it.load(x))]),
                 lambda: it.store(x, z3.simplify(it.load(x) + 1)))
        return f
    if name in ('any_of', 'all_of', 'none_of'):
        b, e, f = a[:3]
        it = cell(b.pos, 'it')
        res = cell(z3.BoolVal(name != 'any_of'), 'res')

        def body():
            c = x.tobool(x.value(x.call_closure(f, [Elem(b.loc, it.load(x))])))
            if x.choose(c if name != 'all_of' else z3.Not(c)):
                res.store(x, z3.BoolVal(name == 'any_of'))
                raise Brk()
        run_loop(x, n, lambda: it.load(x) < e.pos, body, lambda: it.store(x, z3.simplify(it.load(x) + 1)))
        return res.load(x)
    if name in ('lower_bound', 'upper_bound') and len(a) == 3:
        # on a sorted range: the position that separates smaller elements from the rest
        b, e, v = a
        p = x.fresh('bound', IS)
        j = z3.Int('j#b')
        w = Elem(b.loc, j).load(x)
        up = name == 'upper_bound'
        small = (w <= v) if up else (w < v)
        note(x, 'std::%s is applied to a sorted range' % name)
        x.assume(z3.And(p >= b.pos, p <= e.pos))
        x.assume(All([j], z3.And(j >= b.pos, j < p), small))
        x.assume(All([j], z3.And(j >= p, j < e.pos), z3.Not(small)))
        return IterV(b.loc, p)
    if name in ('min_element', 'max_element', 'last_max_element'):
        b, e = a[:2]
        if len(a) > 2:
            raise Unsupported(name + ' with a comparison')
        v = b.loc.load(x)
        if not x.choose(z3.simplify(b.pos < e.pos)):
            return e
        best = cell(b.pos, 'best')
        val = cell(v.get(b.pos), 'val')         # the element best points to
        it = cell(z3.simplify(b.pos + 1), 'it')

        def body():
            i = it.load(x)
            p, q = Elem(b.loc, i).load(x), val.load(x)
            if x.choose(lt(x, p, q) if name == 'min_element' else lt(x, q, p) if name == 'max_element' else z3.Not(lt(x, p, q))):
                best.store(x, i)
                val.store(x, p)
        from loops import Cand
        x.cands = x.cands + [lambda x, L, node: [Cand('elt', lambda mem, kk: mem[val.key] == v.get(mem[best.key]))]
                             if node is n and val.key in L.H[0] and not same_cell(L, val.key) else []]
        try:
            run_loop(x, n, lambda: it.load(x) < e.pos, body, lambda: it.store(x, z3.simplify(it.load(x) + 1)))
        finally:
            x.cands = x.cands[:-1]
        return IterV(b.loc, best.load(x))
    if name in ('fill', 'fill_n', 'copy', 'copy_n', 'transform', 'generate', 'iota'):
        if name == 'fill':
            b, e, v = a
            cnt, dst, fn = z3.simplify(e.pos - b.pos), b, lambda i: v
        elif name == 'fill_n':
            b, k, v = a
            cnt, dst, fn = k, b, lambda i: v
        elif name == 'copy':
            b, e, dst = a
            cnt = z3.simplify(e.pos - b.pos)
            fn = lambda i: Elem(b.loc, z3.simplify(b.pos + i)).load(x)
        elif name == 'copy_n':
            b, cnt, dst = a
            fn = lambda i: Elem(b.loc, z3.simplify(b.pos + i)).load(x)
        elif name == 'transform' and len(a) == 4:
            b, e, dst, f = a
            cnt = z3.simplify(e.pos - b.pos)
            fn = lambda i: x.value(x.call_closure(f, [Elem(b.loc, z3.simplify(b.pos + i))]))
        elif name == 'transform' and len(a) == 5:
            b, e, b2, dst, f = a
            cnt = z3.simplify(e.pos - b.pos)
            fn = lambda i: x.value(x.call_closure(f, [Elem(b.loc, z3.simplify(b.pos + i)), Elem(b2.loc, z3.simplify(b2.pos + i))]))
        elif name == 'generate':
            b, e, f = a
            cnt, dst = z3.simplify(e.pos - b.pos), b
            fn = lambda i: x.value(x.call_closure(f, []))
        else:
            raise Unsupported(name)
        if not isinstance(dst, IterV):
            raise Unsupported('output iterator')
        it = cell(z3.IntVal(0), 'it')

        def body():
            i = it.load(x)
            index(x, dst.loc, z3.simplify(dst.pos + i)).store(x, fn(i))
        run_loop(x, n, lambda: it.load(x) < cnt, body, lambda: it.store(x, z3.simplify(it.load(x) + 1)))
        return IterV(dst.loc, z3.simplify(dst.pos + cnt))
    raise Unsupported('algorithm ' + name)


def _bad():
    raise Unsupported('accumulate types')


# ------------------------------------------------------------------ member functions
def member(x, loc, name, args, n):
    v = loc.load(x)
    if isinstance(v, VecV):
        return vec_member(x, loc, v, name, args, n)
    if isinstance(v, MatV):
        return mat_member(x, loc, v, name, args, n)
    if isinstance(v, TripV):
        if name in ('reserve', 'shrink_to_fit'):
            [A(x, a) for a in args]
            return None
        if name == 'clear':
            loc.store(x, TripV(z3.IntVal(0), lambda i, j: x.rval(0)))
            return None
        if name in ('emplace_back', 'push_back'):
            a = [A(x, t) for t in args]
            if len(a) == 1 and isinstance(a[0], (tuple, list)):
                a = list(a[0][1:]) if a[0][0] == 'triplet' else list(a[0])
            i, j, w = a
            old = v.fn
            x.wlog.append((loc.root(), (i, j)))
            loc.store(x, TripV(z3.simplify(v.n + 1), lambda p, q: x.arith('+', old(p, q), ite(z3.And(ieq(p, i), ieq(q, j)), w, x.rval(0)))
                               if not (z3.is_false(z3.simplify(z3.And(ieq(p, i), ieq(q, j))))) else old(p, q)))
            return None
        if name in ('begin', 'cbegin'):
            return IterV(loc, z3.IntVal(0))
        if name in ('end', 'cend'):
            return IterV(loc, v.n)
        if name == 'size':
            return v.n
        raise Unsupported('triplet list .' + name)
    if isinstance(v, OptV):
        if name in ('has_value', 'operator bool'):
            return v.has
        if name == 'value':
            if x.choose(v.has):
                return OptLoc(loc)
            raise CppThrow('std::bad_optional_access')
        if name == 'value_or':
            d = A(x, args[0])
            return ite(v.has, v.val, d)
        if name == 'reset':
            loc.store(x, OptV(FALSE, v.val))
            return None
        if name == 'emplace':
            loc.store(x, OptV(TRUE, A(x, args[0])))
            return OptLoc(loc)
    if isinstance(v, (Ptr, SPtr)):
        if name == 'operator bool':
            return x.tobool(v)
        if name == 'get':
            return v
        if name == 'lock':
            if isinstance(v, SPtr):
                return SPtr(v.cls, v.term, False, ALIVE(v.term))
            return v
        if name == 'expired':
            if isinstance(v, SPtr):
                return z3.Not(ALIVE(v.term))
            return z3.BoolVal(v.loc is None)
        if name == 'reset':
            if args:
                loc.store(x, A(x, args[0]))
            else:
                loc.store(x, NULL)
            return None
        if name == 'swap':
            o = L(x, args[0])
            w = o.load(x)
            o.store(x, v)
            loc.store(x, w)
            return None
        if name == 'release':
            loc.store(x, NULL)
            return v
    if isinstance(v, MapV):
        return map_member(x, loc, v, name, args, n)
    if isinstance(v, ObjV):
        if name == 'shared_from_this':
            return Ptr(ObjLoc(v.oid))
        if name == 'weak_from_this':
            return Ptr(ObjLoc(v.oid))
    if isinstance(v, DistV):
        if name == 'reset':
            return None
        if name in ('mean', 'stddev', 'a', 'b', 'alpha', 'beta', 'lambda'):
            return v.params[{'mean': 0, 'stddev': 1, 'a': 0, 'b': 1, 'alpha': 0, 'beta': 1, 'lambda': 0}[name]]
    if isinstance(v, EngineV):
        c = x.contracts.get(('engine', name))
        if c is not None:
            return c(x, loc, [x.ev(a) for a in args if a['kind'] != 'CXXDefaultArgExpr'])
        if name == 'seed':
            loc.store(x, EngineV(A(x, args[0]), v.eid))
            return None
    if isinstance(v, SolverV):
        if name in ('compute', 'factorize', 'analyzePattern'):
            m = A(x, args[0])
            if name != 'analyzePattern' or v.mat is None:
                loc.store(x, SolverV(v.kind, m, decomposed(x, v.kind)))
            return loc
        if name == 'info':
            if v.ok is None:
                x.oblige(z3.BoolVal(False), 'info() before a decomposition')
                raise Infeasible()
            f = x.fresh('info', IS)
            x.assume(z3.And(f >= 1, f <= 3))
            return z3.If(v.ok, 0, f)          # Eigen::Success == 0
        if name == 'solve':
            if v.mat is None:
                x.oblige(z3.BoolVal(False), 'solve() before a decomposition')
                raise Infeasible()
            b = A(x, args[0])
            return linsolve(x, v, b)
    if isz(v) and v.sort() == STR:
        for a in args:
            if a['kind'] != 'CXXDefaultArgExpr':
                A(x, a)
        if name in ('size', 'length', 'find', 'rfind', 'compare'):
            r = x.fresh('strlen', IS)
            x.assume(z3.And(r >= 0, r < (1 << 64)))
            return r
        if name == 'empty':
            return v == x.pr.lit('')
        if name in ('replace', 'append', 'insert', 'operator+=', 'push_back', 'erase', 'assign', 'clear'):
            loc.store(x, x.fresh('str', STR))
            return loc
        if name in ('c_str', 'data', 'substr', 'operator basic_string_view'):
            return v if name != 'substr' else x.fresh('str', STR)
    if isz(v):
        if name in ('operator bool', 'operator const double', 'operator double', 'value', 'eval', 'operator int'):
            return v
    if isinstance(v, Opaque):
        if name in ('what', 'name', 'str', 'c_str'):
            return x.fresh('str', STR)
        if name in ('lock', 'unlock', 'store', 'precision', 'flush', 'setf', 'reserve'):
            return None
    if isinstance(v, TypeInfo) and name in ('name', 'hash_code'):
        return x.fresh('str', STR)
    raise Unsupported('member %s of %s' % (name, type(v).__name__))


def decomposed(x, kind):
    if kind in ('PartialPivLU', 'ColPivHouseholderQR', 'HouseholderQR', 'FullPivLU'):
        return z3.BoolVal(True)          # no failure is reported
    c = x.contracts.get(('linsolve', 'ok'))
    return c if c is not None else x.fresh('decomposed', BS)


def svd_kind(x, opts):
    """Eigen solves with a singular value decomposition only if both sets of singular vectors were asked for"""
    opts = [o for o in opts if not (isinstance(o, dict) and o.get('kind') == 'CXXDefaultArgExpr')]
    if opts:
        o = z3.simplify(A(x, opts[0]))
        if not z3.is_int_value(o):
            raise Unsupported('options of a decomposition')
        if o.as_long() & 12 and o.as_long() & 48:
            return 'JacobiSVD'
    return 'JacobiSVD without singular vectors'


def linsolve(x, s, b):
    """assumed contract of Eigen's decompositions: the returned x solves the system the
    decomposition was computed from (least squares for SVD); x is a function of (A,b)"""
    note(x, 'Eigen::%s::solve returns the solution of A x = b as a function of (A,b)' % s.kind)
    c = x.contracts.get(('linsolve', s.kind)) or x.contracts.get(('linsolve', '*'))
    if c is not None:
        return c(x, s.mat, b, s.kind)
    kind = 'lin' if s.kind in ('SparseLU', 'PartialPivLU', 'LDLT', 'LLT', 'FullPivLU', 'SimplicialLDLT') else 'lsq'
    f = z3.Function('solve_' + kind, VECID, VECID, IS, RS)
    a, bb = mat_id(x, s.mat), vec_id(x, b)
    return VecV(s.mat.c, lambda i: f(a, bb, i), 'eig')


def vec_member(x, loc, v, name, args, n):
    a = lambda i: A(x, args[i])
    if name in ('size', 'rows', 'length'):
        return v.n
    if name == 'cols':
        return z3.IntVal(1)
    if name == 'empty':
        return v.n == 0
    if name in ('front', 'back'):
        x.oblige(v.n >= 1, '%s() of a non-empty vector' % name)
        return Elem(loc, z3.IntVal(0) if name == 'front' else z3.simplify(v.n - 1))
    if name == 'data':
        return Ptr(loc)
    if name in ('begin', 'cbegin'):
        return IterV(loc, z3.IntVal(0))
    if name in ('end', 'cend'):
        return IterV(loc, v.n)
    if name in ('push_back', 'emplace_back'):
        if len(args) != 1:
            raise Unsupported('emplace_back')
        e = a(0)
        x.wlog.append((loc.root(), v.n))
        loc.store(x, append(loc.load(x), e))
        return Elem(loc, v.n)
    if name == 'erase' and len(args) == 2:
        b, e = a(0), a(1)
        if isinstance(b, IterV) and isinstance(e, IterV) and b.loc == loc and e.loc == loc and not isinstance(b.pos, str):
            v = loc.load(x)
            kept = getattr(v, 'kept', None)
            if kept is not None and x.implied(z3.And(b.pos == kept.n, e.pos == v.n)):
                loc.store(x, kept)
                return IterV(loc, kept.n)
            x.oblige(z3.And(b.pos >= 0, b.pos <= e.pos, e.pos <= v.n), 'erased range within the container')
            w, p, q = v.fn, b.pos, e.pos
            if isz(v.get(z3.Int('es#0'))):
                fn = lambda j: ite(j < p, w(j), lambda: w(z3.simplify(j + q - p)))
            else:
                fn = lambda j: w(ite(j < p, j, lambda: z3.simplify(j + q - p)))
            loc.store(x, VecV(z3.simplify(v.n - (q - p)), fn, v.kind, v.et))
            return IterV(loc, p)
    if name == 'pop_back':
        x.oblige(v.n >= 1, 'pop_back of a non-empty vector')
        loc.store(x, v.like(z3.simplify(v.n - 1), v.fn))
        return None
    if name in ('reserve', 'shrink_to_fit'):
        [A(x, t) for t in args]
        return None
    if name == 'clear':
        loc.store(x, v.like(z3.IntVal(0), v.fn))
        return None
    if name in ('resize', 'conservativeResize'):
        m = a(0)
        if v.kind == 'eig':
            if name == 'resize':
                if m.get_id() != v.n.get_id() and not x.implied(m == v.n):
                    loc.store(x, uninit_vec(x, m))
                return None
            u = uninit_vec(x, m)
            loc.store(x, v.like(m, lambda i: ite(i < v.n, lambda: v.get(i), lambda: u.get(i))))
            return None
        val = a(1) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else x.zero(v.et)
        loc.store(x, v.like(m, lambda i: ite(z3.simplify(i < v.n), lambda: v.get(i), val)))
        return None
    if name == 'assign':
        p = a(0)
        if isinstance(p, IterV):
            e = a(1)
            src = p.loc.load(x)
            loc.store(x, v.like(z3.simplify(e.pos - p.pos), lambda i: src.get(z3.simplify(i + p.pos))))
            return None
        q = a(1)
        loc.store(x, v.like(p, lambda i: q))
        return None
    if name == 'at':
        i = a(0)
        if x.choose(z3.And(i >= 0, i < v.n)):
            return Elem(loc, i)
        raise CppThrow('std::out_of_range')
    if name in ('coeff', 'coeffRef', 'operator()', 'operator[]'):
        return index(x, loc, a(0))
    if name in ('array', 'matrix'):
        return ArrLoc(loc, name == 'array')
    if name in ('eval', 'transpose', 'noalias', 'derived', 'adjoint', 'const_cast_derived'):
        return loc
    if name == 'dot':
        return dot(x, v, a(0))
    if name == 'sum':
        return bigsum(x, v.n, v.fn)
    if name == 'mean':
        s = bigsum(x, v.n, v.fn)
        return s / z3.ToReal(v.n)
    if name in ('squaredNorm',):
        return bigsum(x, v.n, lambda i: v.get(i) * v.get(i))
    if name == 'norm':
        return SQRT(bigsum(x, v.n, lambda i: v.get(i) * v.get(i)))
    if name == 'unaryExpr':
        f = a(0)
        return map_vec(x, v, f)
    if name in ('setZero', 'setOnes', 'setConstant', 'fill'):
        w = x.rval(0) if name == 'setZero' else x.rval(1) if name == 'setOnes' else a(0)
        loc.store(x, v.like(v.n, lambda i: w))
        return loc
    if name == 'cwiseProduct':
        b = a(0)
        return v.like(v.n, lambda i: v.get(i) * b.get(i))
    if name in ('cwiseMax', 'max'):
        b = a(0)
        return v.like(v.n, lambda i: fmax(x, v.get(i), b.get(i) if isinstance(b, VecV) else b))
    if name in ('cwiseMin', 'min'):
        b = a(0)
        return v.like(v.n, lambda i: fmin(x, v.get(i), b.get(i) if isinstance(b, VecV) else b))
    if name in ('cwiseAbs', 'abs'):
        return v.like(v.n, lambda i: absval(x, v.get(i)))
    if name == 'square':
        return v.like(v.n, lambda i: v.get(i) * v.get(i))
    if name == 'exp':
        return v.like(v.n, lambda i: EXP(v.get(i)))
    if name == 'log':
        return v.like(v.n, lambda i: LOG(v.get(i)))
    if name == 'sqrt':
        return v.like(v.n, lambda i: SQRT(v.get(i)))
    if name == 'pow':
        b = a(0)
        return v.like(v.n, lambda i: power(x, v.get(i), b))
    if name in ('head',):
        return SegLoc(loc, z3.IntVal(0), a(0))
    if name == 'tail':
        k = a(0)
        return SegLoc(loc, z3.simplify(v.n - k), k)
    if name == 'segment':
        return SegLoc(loc, a(0), a(1))
    if name in ('operator const double', 'value'):
        raise Unsupported('scalar of vector')
    if name == 'swap':
        o = L(x, args[0])
        w = o.load(x)
        o.store(x, v)
        loc.store(x, w)
        return None
    raise Unsupported('vector member ' + name)


def map_vec(x, v, f):
    """element-wise application of a pure functor"""
    i = z3.Int('u#%d' % x.newframe())
    outs = x.enumerate(lambda: (x.assume(z3.And(i >= 0, i < v.n)), x.value(x.call_closure(f, [x.tmp(v.get(i))])))[1])
    npc = len(x.pc)
    val = None
    for k, r, s in outs:
        if k != 'normal' or not isz(r):
            raise Unsupported('functor in unaryExpr')
        for key in s[0]:
            if key in x.mem and s[0][key] is not x.mem[key]:
                raise Unsupported('functor with side effects')
        extra = [h for h in s[1][npc:] if not isinstance(h, All)]
        val = r if val is None else z3.If(z3.And(*extra) if extra else TRUE, r, val)
    return VecV(v.n, lambda j: z3.substitute(val, (i, j)), 'eig', 'double', v.arr)


def mat_member(x, loc, m, name, args, n):
    a = lambda i: A(x, args[i])
    if name == 'rows':
        return m.r
    if name == 'cols':
        return m.c
    if name == 'size':
        return m.r * m.c
    if name == 'row':
        i = a(0)
        x.oblige(z3.And(i >= 0, i < m.r), 'row index in bounds')
        return RowLoc(loc, i)
    if name == 'col':
        j = a(0)
        x.oblige(z3.And(j >= 0, j < m.c), 'column index in bounds')
        return ColLoc(loc, j)
    if name in ('coeff', 'coeffRef', 'insert', 'operator()'):
        i, j = a(0), a(1)
        x.oblige(z3.And(i >= 0, i < m.r, j >= 0, j < m.c), 'matrix index in bounds')
        return MElem(loc, i, j)
    if name in ('transpose', 'adjoint'):
        return MatV(m.c, m.r, lambda i, j: m.get(j, i), m.arr)
    if name in ('eval', 'noalias', 'derived'):
        return loc
    if name in ('array', 'matrix'):
        return ArrLoc(loc, name == 'array')
    if name == 'resize':
        r, c = a(0), a(1)
        if m.sparse:
            loc.store(x, MatV(r, c, lambda i, j: x.rval(0), sparse=True))
        else:
            f = x.freshf('uninit', IS, IS, x.realsort())
            loc.store(x, MatV(r, c, lambda i, j: f(i, j)))
        return None
    if name in ('setZero',):
        loc.store(x, MatV(m.r, m.c, lambda i, j: x.rval(0), m.arr, m.sparse))
        return loc
    if name == 'setOnes':
        loc.store(x, MatV(m.r, m.c, lambda i, j: x.rval(1), m.arr, m.sparse))
        return loc
    if name == 'setIdentity':
        loc.store(x, MatV(m.r, m.c, lambda i, j: ite(ieq(i, j), x.rval(1), x.rval(0)), m.arr, m.sparse))
        return loc
    if name in ('makeCompressed', 'reserve', 'finalize'):
        return None
    if name == 'setFromTriplets':
        it = a(0)
        t = it.loc.load(x)
        if not isinstance(t, TripV):
            raise Unsupported('setFromTriplets')
        loc.store(x, MatV(m.r, m.c, t.fn, sparse=True))
        return None
    if name == 'diagonal':
        return DiagLoc(loc)
    if name in ('jacobiSvd', 'bdcSvd'):
        return SolverV(svd_kind(x, args), m)
    if name == 'ldlt':
        return SolverV('LDLT', m)
    if name == 'llt':
        return SolverV('LLT', m)
    if name in ('lu', 'partialPivLu', 'fullPivLu'):
        return SolverV('PartialPivLU', m)
    if name in ('colPivHouseholderQr', 'householderQr'):
        return SolverV('ColPivHouseholderQR', m)
    raise Unsupported('matrix member ' + name)


def map_find(x, loc, key):
    """fork: returns entry index or None; materialises base entries"""
    m = loc.load(x)
    for k, (ek, ev) in enumerate(m.entries):
        if x.choose(key == ek):
            return k if ev is not None else None
    if m.base is not None:
        has = z3.Function(m.base + '.has', STR, BS)(key)
        if x.choose(has):
            v = None
            for h in x.lazy_hooks:
                v = h(x, None, ('map', m.base, key), m.et)
                if v is not None:
                    break
            if v is None:
                v = x.sym(m.et, '%s[%s]' % (m.base, key))
            loc.store(x, MapV(m.entries + [(key, v)], m.base, m.et))
            return len(m.entries)
        loc.store(x, MapV(m.entries + [(key, None)], m.base, m.et))
    return None


def map_get(x, loc, key):
    k = map_find(x, loc, key)
    if k is None:
        raise Unsupported('read of an absent map entry')
    return loc.load(x).entries[k][1]


def map_set(x, loc, key, v):
    k = map_find(x, loc, key)
    m = loc.load(x)
    e = [(kk, vv) for kk, vv in m.entries]
    if k is None:
        e = [(kk, vv) for kk, vv in e if not (vv is None and kk.eq(key))] + [(key, v)]
    else:
        e[k] = (e[k][0], v)
    loc.store(x, MapV(e, m.base, m.et))


Exec.map_get = lambda self, loc, key: map_get(self, loc, key)
Exec.map_set = lambda self, loc, key, v: map_set(self, loc, key, v)


def map_member(x, loc, m, name, args, n):
    if name in ('end', 'cend'):
        return IterV(loc, 'map', None)
    if name == 'find':
        key = A(x, args[0])
        k = map_find(x, loc, key)
        return IterV(loc, 'map', None if k is None else key)
    if name in ('contains', 'count'):
        k = map_find(x, loc, A(x, args[0]))
        r = z3.BoolVal(k is not None)
        return r if name == 'contains' else z3.IntVal(1 if k is not None else 0)
    if name == 'at':
        key = A(x, args[0])
        k = map_find(x, loc, key)
        if k is None:
            raise CppThrow('std::out_of_range')
        return MapVal(loc, key)
    if name in ('insert_or_assign',):
        key, v = A(x, args[0]), A(x, args[1])
        map_set(x, loc, key, v)
        return IterV(loc, 'map', key)
    if name in ('emplace', 'try_emplace'):
        key, v = A(x, args[0]), A(x, args[1])
        k = map_find(x, loc, key)
        if k is None:
            map_set(x, loc, key, v)
        return IterV(loc, 'map', key)
    raise Unsupported('map member ' + name)


# ------------------------------------------------------------------ operators
def operator(x, name, args, n):
    op = name[len('operator'):].strip()
    if op == '<<':
        l = x.ev(args[0])
        v = x.value(l)
        if isinstance(v, Opaque):
            # stream output: evaluate the operand for its effects only when it is a repo call
            return l
        raise Unsupported('operator<<')
    if op == '()':
        o = x.ev(args[0])
        loc = o if isinstance(o, Loc) else x.tmp(o)
        v = loc.load(x)
        if isinstance(v, VecV):
            return index(x, loc, A(x, args[1]))
        if isinstance(v, MatV):
            return member(x, loc, 'coeff', args[1:], n)
        if isinstance(v, DistV):
            c = x.contracts.get(('dist', '()'))
            e = L(x, args[1])
            if c is not None:
                return c(x, loc, v, e)
            raise Unsupported('sampling outside the generator contract')
        if isinstance(v, Opaque) and v.what == 'random_device':
            r = x.fresh('random_device', IS)
            x.assume(z3.And(r >= 0, r < (1 << 32)))
            return r
        if isinstance(v, (Closure, FnRef)):
            return x.call_closure(v, [x.ev(t) for t in args[1:]])
        if isinstance(v, ObjV):
            return x.method(v.oid, 'operator()', *[x.ev(t) for t in args[1:]])
        raise Unsupported('call of ' + type(v).__name__)
    if op == '[]':
        o = x.ev(args[0])
        loc = o if isinstance(o, Loc) else x.tmp(o)
        v = loc.load(x)
        if isinstance(v, VecV):
            return index(x, loc, A(x, args[1]))
        if isinstance(v, MapV):
            key = A(x, args[1])
            k = map_find(x, loc, key)
            if k is None:
                m = loc.load(x)
                b = base_name(m.et)
                d = NULL if b in ('shared_ptr', 'unique_ptr') else VarV('int', z3.IntVal(0)) if b in ('variant', 'Parameter') or 'ariant' in m.et else make(x, strip_type(m.et), [])
                map_set(x, loc, key, d)
            return MapVal(loc, key)
        raise Unsupported('[] on ' + type(v).__name__)
    if op == '->' or (op == '*' and len(args) == 1):
        p = A(x, args[0])
        if isinstance(p, OptV):
            return OptLoc(L(x, args[0]))
        if op == '->':
            return p
        return x.deref(p)
    if op == '=':
        rn = args[1]
        r = x.ev(rn)
        v = x.value(r)
        l = x.ev(args[0])
        if isinstance(l, TieV):
            if not isinstance(v, ObjV) or not x.P.classes[x.objs[v.oid].cls].get('product'):
                raise Unsupported('std::tie assigned from ' + type(v).__name__)
            parts = [x.field(v.oid, f['name'], c).load(x) for c, f in x.P.all_fields(x.objs[v.oid].cls)]
            for d, p in zip(l.locs, parts):
                if d is not None:
                    d.store(x, p)
            return l
        l = l if isinstance(l, Loc) else x.tmp(l)
        if rn.get('valueCategory') == 'xvalue' and isinstance(r, Loc) and rn['kind'] in ('CallExpr', 'CXXStaticCastExpr', 'ImplicitCastExpr'):
            if isinstance(v, (Ptr, SPtr)):
                r.store(x, NULL)
            elif isinstance(v, VecV) and v.kind == 'std' and base_name(tstr(rn['type'])) == 'vector':
                r.store(x, empty_vec(x, v.et))
        cur = None
        if isinstance(l, (Cell, MapVal)):
            t = tstr(args[0]['type'])
            if base_name(t) == 'optional':
                v = x.conv_to(v, t)
            if isinstance(v, list):
                v = make(x, strip_type(t), [('initlist', v)])
            if base_name(t) == 'variant' and not isinstance(v, VarV):
                v = variant_of(x, v, n)
        if isinstance(v, VecV) and isinstance(l, Cell):
            old = x.mem.get(l.key)
            if isinstance(old, VecV):
                v = VecV(v.n, v.fn, old.kind, old.et, old.arr)
            elif isinstance(old, MatV):
                raise Unsupported('matrix from vector')
        if isinstance(v, ObjV):
            x.assign_obj(l.load(x).oid, v.oid)
            return l
        l.store(x, v)
        return l
    if op in ('+=', '-=', '*=', '/='):
        b = A(x, args[1])
        l = x.lv(args[0])
        a = l.load(x)
        if isz(a) and a.sort() == STR:
            l.store(x, x.fresh('str', STR))
            return l
        if isinstance(a, IterV):
            l.store(x, x.iter_arith(op[0], a, b))
            return l
        l.store(x, ew(x, op[0], a, b))
        return l
    if op in ('++', '--'):
        l = x.lv(args[0])
        v = l.load(x)
        if isinstance(v, IterV) and not isinstance(v.pos, str):
            return x.iter_step(l, v, 1 if op == '++' else -1, len(args) > 1)
        raise Unsupported(name)
    if op in ('==', '!='):
        r = x.equal(A(x, args[0]), A(x, args[1]))
        return r if op == '==' else z3.Not(r)
    if op in ('<', '>', '<=', '>='):
        return x.binop(op, A(x, args[0]), A(x, args[1]), 'bool', '')
    if op == '!':
        return z3.Not(x.tobool(A(x, args[0])))
    if op in ('+', '-', '*', '/'):
        if len(args) == 1:
            v = A(x, args[0])
            if isinstance(v, VecV):
                return v.like(v.n, lambda i: -v.get(i))
            if isinstance(v, MatV):
                return MatV(v.r, v.c, lambda i, j: -v.get(i, j), v.arr)
            raise Unsupported('unary ' + op)
        a, b = A(x, args[0]), A(x, args[1])
        if (isz(a) and a.sort() == STR) or (isz(b) and b.sort() == STR):
            return x.fresh('str', STR)
        if isinstance(a, IterV) or isinstance(b, IterV):
            return x.iter_arith(op, a, b)
        return ew(x, op, a, b)
    raise Unsupported('operator ' + op)
