"""Symbolic executor over clang AST nodes of the real code (direct style; paths by re-execution;
loops by inferred-and-checked invariants; calls on abstract receivers by contract)."""
import os, re, time
from fractions import Fraction
import z3
from logic import *
from program import *

FP = z3.Float64()
RNE = z3.RNE()


# ------------------------------------------------------------------ control flow
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass
class Infeasible(Exception): pass
class CppThrow(Exception):
    def __init__(self, cls, val=None): self.cls, self.val = cls, val
class HiddenState(Exception): pass
class PathLimit(Exception): pass


STDEXC = {'std::exception': None, 'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception',
          'std::invalid_argument': 'std::logic_error', 'std::domain_error': 'std::logic_error',
          'std::length_error': 'std::logic_error', 'std::out_of_range': 'std::logic_error',
          'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
          'std::underflow_error': 'std::runtime_error', 'std::bad_variant_access': 'std::exception',
          'std::bad_optional_access': 'std::exception', 'std::bad_weak_ptr': 'std::exception',
          'std::bad_alloc': 'std::exception', 'std::bad_cast': 'std::exception'}


def exc_isa(c, b):
    while c is not None:
        if c == b:
            return True
        c = STDEXC.get(c)
    return False


# ------------------------------------------------------------------ values
class V: pass

class ObjV(V):
    def __init__(self, oid): self.oid = oid
    def __eq__(self, o): return isinstance(o, ObjV) and o.oid == self.oid
    def __hash__(self): return hash(self.oid)

class Ptr(V):
    """pointer / smart pointer; loc None = null"""
    def __init__(self, loc): self.loc = loc
    def __eq__(self, o): return isinstance(o, Ptr) and o.loc == self.loc
    def __hash__(self): return 7

class SPtr(V):
    """shared/weak pointer to a symbolic observer-like object: a term of sort Ref"""
    def __init__(self, cls, term, weak=False, alive=None): self.cls, self.term, self.weak, self.alive = cls, term, weak, alive
    def __eq__(self, o): return isinstance(o, SPtr) and o.term.eq(self.term) and o.weak == self.weak
    def __hash__(self): return 8

class VecV(V):
    def __init__(self, n, fn, kind='std', et='double', arr=False, ver=None):
        self.n, self.fn, self.kind, self.et, self.arr = n, fn, kind, et, arr
    def get(self, i): return self.fn(i)
    def set(self, i, v):
        old = self.fn
        return VecV(self.n, lambda j: ite(ieq(j, i), v, lambda: old(j)), self.kind, self.et, self.arr)
    def like(self, n, fn, **k): return VecV(n, fn, k.get('kind', self.kind), self.et, k.get('arr', self.arr))

class MatV(V):
    def __init__(self, r, c, fn, arr=False, sparse=False): self.r, self.c, self.fn, self.arr, self.sparse = r, c, fn, arr, sparse
    def get(self, i, j): return self.fn(i, j)
    def set(self, i, j, v):
        old = self.fn
        return MatV(self.r, self.c, lambda a, b: ite(z3.And(ieq(a, i), ieq(b, j)), v, lambda: old(a, b)), self.arr, self.sparse)

class TripV(V):
    """vector of Eigen::Triplet abstracted to (length, summed matrix, bounds ok)"""
    def __init__(self, n, fn): self.n, self.fn = n, fn

class OptV(V):
    def __init__(self, has, val): self.has, self.val = has, val

class VarV(V):
    """std::variant: concrete alternative (index by type string) and value"""
    def __init__(self, alt, val): self.alt, self.val = alt, val

class MapV(V):
    """lazy association list over an optional symbolic base"""
    def __init__(self, entries, base, et): self.entries, self.base, self.et = list(entries), base, et

class IterV(V):
    def __init__(self, loc, pos, key=None): self.loc, self.pos, self.key = loc, pos, key

class Closure(V):
    def __init__(self, node, frame): self.node, self.frame = node, frame

class TypeInfo(V):
    def __init__(self, cls): self.cls = cls
    def __eq__(self, o): return isinstance(o, TypeInfo) and self.cls == o.cls

class DistV(V):
    def __init__(self, kind, params): self.kind, self.params = kind, params

class EngineV(V):
    def __init__(self, seed, eid): self.seed, self.eid = seed, eid

class SolverV(V):
    """Eigen decomposition object holding a matrix"""
    def __init__(self, kind, mat, ok=None): self.kind, self.mat, self.ok = kind, mat, ok      # ok: the decomposition succeeds

class Opaque(V):
    def __init__(self, what): self.what = what

class FnRef(V):
    def __init__(self, key, name): self.key, self.name = key, name

NULL = Ptr(None)


def ieq(a, b):
    if a.get_id() == b.get_id():
        return z3.BoolVal(True)
    return z3.simplify(a == b)


def isz(v): return z3.is_expr(v)


def ite(c, a, b):
    """a value, b value or thunk"""
    if z3.is_true(c):
        return a() if callable(a) else a
    if z3.is_false(c):
        return b() if callable(b) else b
    if callable(a): a = a()
    if callable(b): b = b()
    if isz(a) and isz(b):
        if a.get_id() == b.get_id():
            return a
        return z3.If(c, a, b)
    if a is b:
        return a
    if isinstance(a, SPtr) and isinstance(b, SPtr):
        return SPtr(a.cls, z3.If(c, a.term, b.term), a.weak, None if a.alive is None else z3.If(c, a.alive, b.alive))
    raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))


# ------------------------------------------------------------------ locations
class Loc: pass

class Cell(Loc):
    def __init__(self, key): self.key = key
    def load(self, x):
        v = x.mem.get(self.key)
        if v is None:
            v = x.lazy_cell(self.key)
        return v
    def store(self, x, v): x.mem[self.key] = v
    def root(self): return self.key
    def __eq__(self, o): return isinstance(o, Cell) and o.key == self.key
    def __hash__(self): return hash(self.key)

class ObjLoc(Loc):
    def __init__(self, oid): self.oid = oid
    def load(self, x): return ObjV(self.oid)
    def store(self, x, v): x.assign_obj(self.oid, v.oid)
    def root(self): return ('o', self.oid)
    def __eq__(self, o): return isinstance(o, ObjLoc) and o.oid == self.oid
    def __hash__(self): return hash(self.oid)

class RefTermLoc(Loc):
    """the object behind an SPtr"""
    def __init__(self, cls, term): self.cls, self.term = cls, term
    def load(self, x): return self
    def root(self): return None

class Elem(Loc):
    def __init__(self, base, idx): self.base, self.idx = base, idx
    def load(self, x):
        v = self.base.load(x)
        return v.get(self.idx)
    def store(self, x, v):
        vec = self.base.load(x)
        x.wlog.append((self.base.root(), self.idx))
        self.base.store(x, vec.set(self.idx, v))
    def root(self): return self.base.root()

class MElem(Loc):
    def __init__(self, base, i, j): self.base, self.i, self.j = base, i, j
    def load(self, x): return self.base.load(x).get(self.i, self.j)
    def store(self, x, v):
        x.wlog.append((self.base.root(), (self.i, self.j)))
        self.base.store(x, self.base.load(x).set(self.i, self.j, v))
    def root(self): return self.base.root()

class ColLoc(Loc):
    def __init__(self, base, j): self.base, self.j = base, j
    def load(self, x):
        m = self.base.load(x); j = self.j
        return VecV(m.r, lambda i: m.get(i, j), 'eig')
    def store(self, x, v):
        m = self.base.load(x); j = self.j
        x.oblige(v.n == m.r, 'size of assigned column')
        x.wlog.append((self.base.root(), (None, j)))
        self.base.store(x, MatV(m.r, m.c, lambda a, b: ite(ieq(b, j), lambda: v.get(a), lambda: m.get(a, b)), m.arr, m.sparse))
    def root(self): return self.base.root()

class RowLoc(Loc):
    def __init__(self, base, i): self.base, self.i = base, i
    def load(self, x):
        m = self.base.load(x); i = self.i
        return VecV(m.c, lambda j: m.get(i, j), 'eig')
    def store(self, x, v):
        m = self.base.load(x); i = self.i
        x.oblige(v.n == m.c, 'size of assigned row')
        x.wlog.append((self.base.root(), (i, None)))
        self.base.store(x, MatV(m.r, m.c, lambda a, b: ite(ieq(a, i), lambda: v.get(b), lambda: m.get(a, b)), m.arr, m.sparse))
    def root(self): return self.base.root()

class SegLoc(Loc):
    def __init__(self, base, off, n): self.base, self.off, self.n = base, off, n
    def load(self, x):
        v = self.base.load(x); o = self.off
        return VecV(self.n, lambda i: v.get(z3.simplify(i + o)), 'eig')
    def store(self, x, w):
        v = self.base.load(x); o = self.off; n = self.n
        self.base.store(x, v.like(v.n, lambda i: ite(z3.simplify(z3.And(i >= o, i < o + n)), lambda: w.get(z3.simplify(i - o)), lambda: v.get(i))))
    def root(self): return self.base.root()

class DiagLoc(Loc):
    def __init__(self, base): self.base = base
    def load(self, x):
        m = self.base.load(x)
        return VecV(z3.simplify(z3.If(m.r <= m.c, m.r, m.c)), lambda i: m.get(i, i), 'eig')
    def store(self, x, v):
        m = self.base.load(x)
        x.wlog.append((self.base.root(), (None, None)))
        self.base.store(x, MatV(m.r, m.c, lambda a, b: ite(ieq(a, b), lambda: v.get(a), lambda: m.get(a, b)), m.arr, m.sparse))
    def root(self): return self.base.root()

class ArrLoc(Loc):
    """.array() / .matrix() view of an Eigen object"""
    def __init__(self, base, arr): self.base, self.arr = base, arr
    def load(self, x):
        v = self.base.load(x)
        return VecV(v.n, v.fn, v.kind, v.et, self.arr) if isinstance(v, VecV) else MatV(v.r, v.c, v.fn, self.arr, v.sparse)
    def store(self, x, w):
        v = self.base.load(x)
        if isinstance(v, VecV) and isinstance(w, VecV):
            x.oblige(v.n == w.n, 'size of assigned array')
            self.base.store(x, v.like(v.n, w.fn))
        elif isinstance(v, MatV) and isinstance(w, MatV):
            x.oblige(z3.And(v.r == w.r, v.c == w.c), 'size of assigned array')
            self.base.store(x, MatV(v.r, v.c, w.fn, v.arr, v.sparse))
        else:
            raise Unsupported('assignment to an array view')
    def root(self): return self.base.root()

class OptLoc(Loc):
    def __init__(self, base): self.base = base
    def load(self, x): return self.base.load(x).val
    def store(self, x, v): self.base.store(x, OptV(z3.BoolVal(True), v))
    def root(self): return self.base.root()

class MapVal(Loc):
    def __init__(self, base, key): self.base, self.key = base, key
    def load(self, x): return x.map_get(self.base, self.key)
    def store(self, x, v): x.map_set(self.base, self.key, v)
    def root(self): return self.base.root()


class ObjRec:
    __slots__ = ('cls', 'exact', 'lazy', 'tag', 'attrs')
    def __init__(self, cls, exact, lazy, tag, attrs=None):
        self.cls, self.exact, self.lazy, self.tag, self.attrs = cls, exact, lazy, tag, attrs or {}


class Frame:
    def __init__(self, rec, decls, this, no, parent=None):
        self.rec, self.decls, self.this, self.no, self.parent = rec, decls, this, no, parent
        self.vars = {}
    def lookup(self, did):
        f = self
        while f is not None:
            if did in f.vars:
                return f.vars[did]
            f = f.parent
        return None


class Decider:
    def __init__(self, prefix):
        self.prefix, self.pos, self.taken = prefix, 0, []
        self.alts = []
    def pick(self, n):
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
            for a in range(n - 1, 0, -1):
                self.alts.append(self.taken + [a])
        self.pos += 1
        self.taken = self.taken + [c]
        return c


SKIP = {'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr',
        'SubstNonTypeTemplateParmExpr', 'FullExpr', 'CXXDefaultInitExpr'}


def skip(n):
    while n.get('kind') in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr',
                            'ImplicitCastExpr', 'ConstantExpr') and n.get('inner'):
        n = n['inner'][0]
    return n


class Exec:
    MAXPATHS = 3000

    def __init__(self, prog, prover, mode='real', contracts=None, report=None):
        self.P, self.pr, self.mode = prog, prover, mode
        self.contracts = contracts or {}
        self.report = report
        self.loop_cache = {}
        self.loop_info = {}
        self.quiet = 0
        self.limit = None
        self.inlined = set()
        self.reset()

    # ------------------------------------------------------------ state
    def reset(self):
        self.mem, self.pc, self.objs = {}, [], {}
        self.n = 0
        self.trail = ()
        self.depth = 0
        self.frames = []
        self.wlog = []
        self.seqs = []
        self.cands = []
        self.anchors = []
        self.lazy_hooks = []
        self.ctype = {}
        self.isa = {}
        self.loopk = []
        self.nloops_run = self.modonly = 0
        self.nloops = 0
        self.phase = 0

    def snap(self):
        return (dict(self.mem), list(self.pc), dict(self.objs), self.n, list(self.wlog), dict(self.isa), self.trail,
                list(self.anchors), list(self.loopk), list(self.frames), self.nloops)

    def restore(self, s):
        self.mem, self.pc, self.objs, self.n, self.wlog, self.isa, self.trail = dict(s[0]), list(s[1]), dict(s[2]), s[3], list(s[4]), dict(s[5]), s[6]
        self.anchors, self.loopk, self.frames, self.nloops = list(s[7]), list(s[8]), list(s[9]), s[10]

    def fresh(self, name, sort):
        self.n += 1
        return z3.Const('%s!%d' % (name, self.n), sort)

    def freshf(self, name, *sorts):
        self.n += 1
        return z3.Function('%s!%d' % (name, self.n), *sorts)

    def realsort(self):
        return FP if self.mode == 'fp' else RS

    def rval(self, v):
        """python number -> double constant"""
        if self.mode == 'fp':
            return z3.FPVal(float(v), FP)
        if isinstance(v, Fraction):
            return z3.RealVal(str(v))
        if isinstance(v, int):
            return z3.RealVal(v)
        if v == float('inf'):
            return z3.Real('INF')
        f = Fraction(repr(float(v)))
        return z3.RealVal(str(f))

    # ------------------------------------------------------------ assumptions / obligations
    def assume(self, f):
        if isinstance(f, All):
            self.pc.append(f)
            return
        if f is True:
            return
        f = z3.simplify(f) if self.mode != 'fp' else f
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise Infeasible()
        self.pc.append(f)

    def implied(self, g):
        if self.mode == 'fp':
            g2 = z3.simplify(g)
            if z3.is_true(g2):
                return True
            return self.fpcheck(z3.Not(g)) == z3.unsat
        return self.pr.ctx(self.pc).decide(g) is True

    def fpcheck(self, *fs):
        s = z3.Solver()
        s.set('timeout', 4000)
        for h in self.pc:
            if not isinstance(h, All):
                s.add(h)
        for f in fs:
            s.add(f)
        for f in self.pr.straxioms():
            s.add(f)
        t0 = time.time()
        r = s.check()
        self.pr.stats.add('z3-side', time.time() - t0)
        return r

    def oblige(self, goal, label, timeout=None):
        if self.quiet:
            if not isinstance(goal, All) and isz(goal):
                self.pc.append(goal)
            return
        r = self.report.obligation(self, goal, label, timeout)
        if not r and isz(goal):
            pass

    # ------------------------------------------------------------ forking
    def choose(self, cond):
        """fork on a Bool term"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.mode == 'fp':
            t = self.fpcheck(cond) != z3.unsat
            f = self.fpcheck(z3.Not(cond)) != z3.unsat
        else:
            d = self.pr.ctx(self.pc).decide(cond)
            t, f = d is not False, d is not True
        if not t and not f:
            raise Infeasible()
        if not t:
            return False
        if not f:
            return True
        c = self.decider.pick(2)
        self.trail = self.trail + (c,)
        if c == 0:
            self.pc.append(cond)
            return True
        self.pc.append(z3.simplify(z3.Not(cond)))
        return False

    def pick(self, n):
        if n == 1:
            return 0
        c = self.decider.pick(n)
        self.trail = self.trail + (c,)
        return c

    def enumerate(self, fn):
        """all paths of fn from the current state: [(outcome, value, snapshot)]"""
        s0 = self.snap()
        old = self.decider if hasattr(self, 'decider') else None
        outs, stack = [], [[]]
        depth = self.depth
        oldphase = self.phase
        self.phase = self.newphase()
        while stack:
            if self.limit and time.time() > self.limit:
                raise PathLimit('time budget of the symbolic execution')
            prefix = stack.pop()
            self.restore(s0)
            self.depth = depth
            d = self.decider = Decider(prefix)
            out = None
            try:
                out = ('normal', fn())
            except Ret as e:
                out = ('return', e.v)
            except Brk:
                out = ('break', None)
            except Cont:
                out = ('continue', None)
            except CppThrow as e:
                out = ('throw', e)
            except Infeasible:
                out = None
            except RecursionError:
                raise Unsupported('recursion')
            stack.extend(d.alts)
            if out is not None:
                outs.append((out[0], out[1], self.snap()))
            if len(outs) + len(stack) > self.MAXPATHS:
                raise PathLimit('too many paths')
        self.restore(s0)
        self.decider = old
        self.depth = depth
        self.phase = oldphase
        return outs

    def newphase(self):
        self.phasecount = getattr(self, 'phasecount', 0) + 1
        return self.phasecount

    def run(self, script):
        """run a whole proof script on every path"""
        stack = [[]]
        npaths = 0
        ph = self.newphase()
        while stack:
            if self.limit and time.time() > self.limit:
                raise PathLimit('time budget of the symbolic execution')
            prefix = stack.pop()
            self.reset()
            self.phase = ph
            d = self.decider = Decider(prefix)
            try:
                script(self)
                npaths += 1
            except CppThrow as e:
                # the contract allows no exception here: this path must be impossible
                self.oblige(z3.BoolVal(False), 'no exception (%s) under the precondition' % e.cls)
                npaths += 1
            except Infeasible:
                pass
            stack.extend(d.alts)
            if npaths > self.MAXPATHS:
                raise PathLimit('too many paths')
        return npaths

    # ------------------------------------------------------------ objects
    def new_obj(self, cls, exact=True, lazy=False, tag=None, **attrs):
        self.n += 1
        oid = self.n
        self.objs[oid] = ObjRec(cls, exact, lazy, tag or '%s#%d' % (Program.shortname(cls), oid), attrs)
        return oid

    def abstract(self, clsname, **attrs):
        """symbolic object of unknown dynamic type below clsname"""
        return self.new_obj(self.P.need(clsname), exact=False, lazy=True, **attrs)

    def lazy(self, clsname, **attrs):
        """object of exactly this class in an arbitrary state"""
        return self.new_obj(self.P.need(clsname), exact=True, lazy=True, **attrs)

    def attr(self, oid, k, d=None):
        return self.objs[oid].attrs.get(k, d)

    def field(self, oid, name, cls=None):
        return Cell(('f', oid, self.field_owner(oid, name, cls), name))

    def field_owner(self, oid, name, cls=None):
        q = cls or self.objs[oid].cls
        # innermost class from q upwards declaring the field
        for a in self.P.ancestors(q):
            if any(f['name'] == name for f in self.P.classes[a]['fields']):
                return a
        return q

    def lazy_cell(self, key):
        if key[0] == 'f':
            o = self.objs[key[1]]
            if o.lazy:
                t = None
                for f in self.P.classes[key[2]]['fields']:
                    if f['name'] == key[3]:
                        t = tstr(f['type'])
                if t is None:
                    raise Unsupported('field %s' % key[3])
                v = None
                for h in self.lazy_hooks:
                    v = h(self, key[1], key[3], t)
                    if v is not None:
                        break
                if v is None:
                    v = self.sym(t, '%s.%s' % (o.tag, key[3]))
                self.mem[key] = v
                # lazily created pre-state: also part of enclosing loop snapshots (same name every time)
                return v
            raise Unsupported('read of uninitialised field %s' % key[3])
        if key[0] == 'g':
            g = self.P.vars.get(key[1])
            if g is None:
                raise Unsupported('global %s' % key[1])
            t = tstr0(g['type'])
            if g['init'] is not None and ('const ' in t or t.startswith('constexpr')):
                fr = Frame(None, g['decls'], None, self.newframe())
                self.frames.append(fr)
                v = self.rv(g['init'])
                self.frames.pop()
                return v
            raise HiddenState('mutable global %s' % key[1])
        raise Unsupported('uninitialised variable %s' % (key,))

    def sym(self, t, name):
        """symbolic value of C++ type t"""
        s = strip_type(t)
        k = self.scalar_kind(s)
        nm = '%s' % name
        if k == 'real':
            return z3.Const(nm, self.realsort())
        if k == 'bool':
            return z3.Const(nm, BS)
        if isinstance(k, tuple):
            c = z3.Const(nm, IS)
            lo, hi = (-(1 << (k[0] - 1)), (1 << (k[0] - 1)) - 1) if k[1] else (0, (1 << k[0]) - 1)
            self.assume(z3.And(c >= lo, c <= hi))
            return c
        if k == 'enum':
            c = z3.Const(nm, IS)
            vals = self.P.enums[self.P.enum(s)]
            self.assume(z3.And(c >= min(v for _, v in vals), c <= max(v for _, v in vals)))
            return c
        if is_string(s):
            return z3.Const(nm, STR)
        b = base_name(s)
        if b in ('shared_ptr', 'unique_ptr'):
            c = self.P.cls(targs(s)[0])
            if c is None:
                raise Unsupported('pointer to %s' % s)
            oid = self.new_obj(c, exact=False, lazy=True, tag=nm)
            return Ptr(ObjLoc(oid))
        if b == 'optional':
            return OptV(z3.Const(nm + '.has', BS), self.sym(targs(s)[0], nm + '.val'))
        if b == 'vector':
            et = targs(s)[0]
            n = z3.Const(nm + '.size', IS)
            self.assume(z3.And(n >= 0, n <= (1 << 31) - 1))
            if base_name(et) in ('weak_ptr', 'shared_ptr'):
                f = z3.Function(nm + '.at', IS, REF)
                cl = self.P.cls(targs(et)[0])
                w = base_name(et) == 'weak_ptr'
                return VecV(n, lambda i: SPtr(cl, f(i), w), 'std', et)
            kk = self.scalar_kind(et)
            srt = self.realsort() if kk == 'real' else BS if kk == 'bool' else IS if kk else None
            if srt is None:
                raise Unsupported('symbolic vector of ' + et)
            f = z3.Function(nm + '.at', IS, srt)
            return VecV(n, lambda i: f(i), 'std', et)
        if b in ('unordered_map', 'map'):
            return MapV([], nm, targs(s)[1])
        if b == 'variant':
            alts = targs(s)
            a = alts[self.pick(len(alts))]
            short = 'string' if is_string(strip_type(a)) else strip_type(a).split('::')[-1]
            return VarV(short, self.sym(a, nm + ':' + short))
        c = self.P.cls(s)
        if c:
            return ObjV(self.new_obj(c, exact=True, lazy=True, tag=nm))
        return Opaque(nm + ':' + s)

    def scalar_kind(self, s):
        s = strip_type(s)
        if s in ('double', 'long double'):
            return 'real'
        if s == 'float':
            return 'float'
        if s == 'bool' or s == '_Bool':
            return 'bool'
        if s in INTS:
            return INTS[s]
        if '*' in s or '<' in s:
            return None
        b = s.split('::')[-1]
        if b in INTS and ('::' in s):
            return INTS[b]
        if s in ('Scalar', 'CoeffReturnType', 'value_type', 'RealScalar'):
            return None
        if self.P.enum(s) and not self.P.cls(s):
            return 'enum'
        return None

    # ------------------------------------------------------------ calling
    def newframe(self):
        self.n += 1
        return self.n

    def find_fn(self, cls, name, nargs=None):
        q = self.P.need(cls)
        for a in self.P.ancestors(q):
            ms = [m for m in self.P.find_methods(a, name) if nargs is None or len(m['params']) == nargs]
            if ms:
                return ms[0]
        raise Unsupported('method %s::%s not found' % (cls, name))

    def method(self, oid, name, *args, nargs=None):
        """spec-level call of a member function by name (virtual dispatch)"""
        o = self.objs[oid]
        f = self.find_fn(o.cls, name, len(args) if nargs is None else nargs)
        return self.invoke(f, oid, [a if isinstance(a, Loc) else self.tmp(a) for a in args], virtual=True)

    def value(self, v):
        return v.load(self) if isinstance(v, Loc) else v

    def construct(self, cls, *args, nargs=None):
        """spec-level object construction through the real constructor"""
        q = self.P.need(cls)
        oid = self.new_obj(q)
        self.run_ctor(q, oid, [a if isinstance(a, Loc) else self.tmp(a) for a in args])
        return oid

    def tmp(self, v):
        if isinstance(v, ObjV):
            return ObjLoc(v.oid)
        self.n += 1
        k = ('t', self.n)
        self.mem[k] = v
        return Cell(k)

    def run_ctor(self, q, oid, args, ctype=None):
        cs = [c for c in self.P.ctors(q)]
        usable = [c for c in cs if not (c['implicit'] and not c['body'] and not c['inits'] and 'CI1' not in c['key'])]
        pick = None
        if ctype:
            want = [norm_t(x) for x in params_of(ctype)]
            for c in cs:
                if [norm_t(x) for x in params_of(c['type'] or '')] == want and (c['body'] is not None or c['default'] or c['implicit']):
                    pick = c
                    break
        if pick is None:
            for c in usable:
                np = len(c['params'])
                nreq = len([p for p in c['params'] if p['default'] is None])
                if nreq <= len(args) <= np and (c['body'] is not None or c['inits']):
                    # not a copy constructor
                    if np == 1 and self.P.cls(tstr0(c['params'][0]['type'])) == q:
                        continue
                    pick = c
                    break
        if self.P.classes[q].get('product'):
            return self.product_init(q, oid, args)
        # copy / move of the same class
        if len(args) == 1:
            v = args[0].load(self) if isinstance(args[0], Loc) else args[0]
            if isinstance(v, ObjV) and self.P.derives(self.objs[v.oid].cls, q):
                own = [c for c in cs if len(c['params']) >= 1 and self.P.cls(tstr0(c['params'][0]['type'])) == q and c['body'] is not None
                       and not c['implicit'] and not c['default']]
                if own:
                    pick = own[0]
                else:
                    for c, f in self.P.all_fields(q):
                        self.mem[('f', oid, c, f['name'])] = self.copyval(self.field(v.oid, f['name'], c).load(self))
                    return
        if pick is None:
            if not args:
                self.default_init(q, oid)
                return
            # inherited constructors
            for b in self.P.bases(q):
                try:
                    self.run_ctor(b, oid, args, ctype)
                except Unsupported:
                    continue
                self.default_fields(q, oid)
                return
            raise Unsupported('constructor of %s with %d args' % (q, len(args)))
        if pick['body'] is None and not pick['inits']:
            if not args:
                self.default_init(q, oid)
                return
            if pick['implicit'] or pick['default']:
                for b in self.P.bases(q):
                    self.run_ctor(b, oid, args)
                    self.default_fields(q, oid)
                    return
        saved = self.objs[oid]
        if saved.exact:
            self.objs[oid] = ObjRec(q, True, saved.lazy, saved.tag, saved.attrs)
        self.exec_fn(pick, oid, args, ctor=True)
        self.objs[oid] = saved

    def product_init(self, q, oid, args):
        fs = self.P.classes[q]['fields']
        vs = [a.load(self) if isinstance(a, Loc) else a for a in args]
        if len(vs) == 1 and isinstance(vs[0], tuple) and vs[0][:1] == ('initlist',):
            vs = list(vs[0][1])
        if len(vs) == 1 and len(fs) != 1 and isinstance(vs[0], ObjV) and self.P.classes[self.objs[vs[0].oid].cls].get('product'):
            o = vs[0].oid
            vs = [self.field(o, f['name'], c).load(self) for c, f in self.P.all_fields(self.objs[o].cls)]
        if not vs:
            vs = [self.zero(strip_type(f['type'])) for f in fs]
        if len(vs) != len(fs):
            raise Unsupported('constructor of ' + q)
        for f, v in zip(fs, vs):
            k = self.scalar_kind(strip_type(f['type']))
            if isz(v) and k == 'real':
                v = self.toreal(v) if v.sort() == IS else v
            elif isz(v) and isinstance(k, tuple) and v.sort() != IS:
                raise Unsupported('narrowing in ' + q)
            if is_ref(f['type']):
                raise Unsupported('pair of references')
            self.mem[('f', oid, q, f['name'])] = self.copyval(v)

    def default_fields(self, q, oid):
        fr = Frame(None, None, oid, self.newframe())
        for f in self.P.classes[q]['fields']:
            self.default_field(q, oid, f)

    def default_field(self, q, oid, f):
        key = ('f', oid, q, f['name'])
        if f['init'] is not None:
            decls = self.class_decls(q)
            fr = Frame(None, decls, oid, self.newframe())
            self.frames.append(fr)
            try:
                self.mem[key] = self.rv(f['init'])
            finally:
                self.frames.pop()
            return
        self.mem[key] = self.default_value(tstr(f['type']), '%s.%s' % (self.objs[oid].tag, f['name']))

    def class_decls(self, q):
        for m in self.P.methods.get(q, ()):
            return m['decls']
        return {}

    def default_value(self, t, name):
        s = strip_type(t)
        k = self.scalar_kind(s)
        if k:
            return self.sym(s, 'uninit:%s!%d' % (name, self.newframe()))
        return self.make_lib(s, [], None)

    def default_init(self, q, oid):
        for b in self.P.bases(q):
            self.run_ctor(b, oid, [])
        self.default_fields(q, oid)

    def copyval(self, v):
        if isinstance(v, ObjV):
            o = self.objs[v.oid]
            n = self.new_obj(o.cls, o.exact, o.lazy, None, **o.attrs)
            for c, f in self.P.all_fields(o.cls):
                self.mem[('f', n, c, f['name'])] = self.copyval(self.field(v.oid, f['name'], c).load(self))
            return ObjV(n)
        return v

    def assign_obj(self, dst, src):
        o = self.objs[src]
        for c, f in self.P.all_fields(o.cls):
            self.mem[('f', dst, c, f['name'])] = self.copyval(self.field(src, f['name'], c).load(self))

    def contract_for(self, cls, name, nargs):
        for a in self.P.ancestors(cls):
            c = self.contracts.get((Program.shortname(a), name))
            if c is not None:
                return c
        return None

    def invoke(self, f, this, args, virtual=False):
        """call function record f on object this (oid or RefTermLoc) with arg Locs/values"""
        if isinstance(this, RefTermLoc):
            c = self.contract_for(this.cls, f['name'], len(args))
            if c is None:
                raise Unsupported('call of %s on a symbolic observer' % f['q'])
            self.note_contract(f, c)
            return c(self, this, args)
        if this is not None and not f['static']:
            o = self.objs[this]
            if not o.exact and (f['virtual'] or f['override'] or f['pure']) and virtual:
                c = self.contract_for(o.cls, f['name'], len(args))
                if c is None:
                    c = self.contract_for(f['cls'], f['name'], len(args))
                if c is None:
                    raise Unsupported('no contract for virtual %s' % f['q'])
                self.note_contract(f, c)
                return c(self, this, args)
            if not o.exact:
                c = self.contract_for(o.cls, f['name'], len(args)) or self.contract_for(f['cls'], f['name'], len(args))
                if c is not None:
                    self.note_contract(f, c)
                    return c(self, this, args)
            if o.exact and virtual and (f['virtual'] or f['override'] or self.is_virtual(f)):
                m = self.P.resolve(o.cls, f)
                if m is not None:
                    f = m
        c = self.contracts.get(f['q']) or self.contracts.get('=' + (f['name'] or ''))
        if c is not None:
            self.note_contract(f, c)
            return c(self, this, args)
        return self.exec_fn(f, this, args)

    def note_contract(self, f, c):
        if self.report is not None:
            self.report.used_contract(f['q'])

    def is_virtual(self, f):
        if f['virtual'] or f['override']:
            return True
        if not f['cls']:
            return False
        for a in self.P.ancestors(f['cls'])[1:]:
            for m in self.P.find_methods(a, f['name']):
                if m['virtual'] and [norm_t(x) for x in params_of(m['type'])] == [norm_t(x) for x in params_of(f['type'])]:
                    return True
        return False

    def exec_fn(self, f, this, args, ctor=False):
        if not ctor and f['name'] == 'operator=' and len(args) == 1 and (f['implicit'] or f['default']) and self.P.cls(tstr0(f['params'][0]['type'])) == f['cls']:
            o = args[0].load(self).oid          # memberwise
            for c, fl in self.P.all_fields(f['cls']):
                self.mem[('f', this, c, fl['name'])] = self.copyval(self.field(o, fl['name'], c).load(self))
            return ObjLoc(this)
        if f['body'] is None and not ctor:
            g = self.P.funcs.get(f['key'])
            if g is not None and g['body'] is not None:
                f = g
            elif f['name'] == 'operator=' and len(args) == 1:
                self.assign_obj(this, args[0].load(self).oid)
                return ObjLoc(this)
            else:
                raise Unsupported('no body for %s' % f['q'])
        if len(self.frames) > 60:
            raise Unsupported('recursion depth in %s' % f['q'])
        for fr0 in self.frames:
            if fr0.rec is f and fr0.this == this and not ctor and len([1 for z in self.frames if z.rec is f]) > 12:
                raise Unsupported('recursive call of %s' % f['q'])
        if self.report is not None:
            self.report.under_contract(f)
        fr = Frame(f, f['decls'], this, self.newframe())
        for i, p in enumerate(f['params']):
            if i < len(args):
                a = args[i]
            else:
                if p['default'] is None:
                    raise Unsupported('missing argument for %s' % f['q'])
                fr2 = Frame(None, p.get('default_decls') or f['decls'], None, self.newframe())
                self.frames.append(fr2)
                a = self.ev(p['default'])
                self.frames.pop()
            self.bind(fr, p['id'], p['type'], a)
        self.frames.append(fr)
        try:
            if ctor:
                self.run_inits(f, fr, this, args)
            if f['body'] is not None:
                self.stmt(f['body'])
            r = None
        except Ret as e:
            r = e.v
        finally:
            self.frames.pop() if self.frames and self.frames[-1] is fr else self.fixframes(fr)
        return r

    def fixframes(self, fr):
        while self.frames and self.frames[-1] is not fr:
            self.frames.pop()
        if self.frames:
            self.frames.pop()

    def bind(self, fr, did, type, a):
        if is_ref(type) or (isinstance(a, Loc) and '&&' in tstr0(type)):
            fr.vars[did] = a if isinstance(a, Loc) else self.tmp(a)
            return
        v = a.load(self) if isinstance(a, Loc) else a
        if isinstance(v, ObjV):
            fr.vars[did] = ObjLoc(v.oid)
            return
        v = self.conv_to(v, tstr(type))
        key = ('v', fr.no, did)
        self.mem[key] = v
        if isz(v) and v.sort() == IS:
            self.ctype[key] = self.scalar_kind(tstr(type))
        fr.vars[did] = Cell(key)

    def conv_to(self, v, t):
        if v is None:
            return v
        s = strip_type(t)
        if base_name(s) == 'optional' and not isinstance(v, OptV):
            if isinstance(v, Opaque) and v.what == 'nullopt':
                return OptV(z3.BoolVal(False), self.rval(0))
            return OptV(z3.BoolVal(True), v)
        return v

    def run_inits(self, f, fr, this, args):
        q = f['cls']
        done = set()
        for i in f['inits']:
            inner = (i.get('inner') or [None])[0]
            if 'baseInit' in i:
                b = self.P.cls(tstr(i['baseInit']))
                if b is None:
                    continue
                e = inner
                while e is not None and e.get('kind') in SKIP:
                    e = e['inner'][0]
                if e is None:
                    self.run_ctor(b, this, [])
                elif e['kind'] == 'CXXInheritedCtorInitExpr':
                    self.run_ctor(b, this, list(args))
                elif e['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                    a = [self.ev_arg(x) for x in self.ctor_args(e)]
                    self.run_ctor(b, this, a, (e.get('ctorType') or {}).get('qualType'))
                elif e['kind'] in ('InitListExpr', 'CXXParenListInitExpr'):
                    self.run_ctor(b, this, [self.ev_arg(x) for x in e.get('inner', ())])
                else:
                    raise Unsupported('base initialiser ' + e['kind'])
                done.add(('b', b))
            elif 'delegatingInit' in i:
                e = skip(inner)
                a = [self.ev_arg(x) for x in self.ctor_args(e)]
                self.run_ctor(q, this, a, (e.get('ctorType') or {}).get('qualType'))
                return
            elif 'anyInit' in i:
                name = i['anyInit']['name']
                fl = [x for x in self.P.classes[q]['fields'] if x['name'] == name]
                key = ('f', this, q, name)
                done.add(name)
                if inner is None or inner.get('kind') == 'CXXDefaultInitExpr' and not inner.get('inner'):
                    self.default_field(q, this, fl[0])
                elif fl and is_ref(fl[0]['type']):
                    raise Unsupported('reference member')
                else:
                    v = self.rv(inner)
                    self.mem[key] = self.conv_to(v, tstr(fl[0]['type'])) if fl else v
        for b in self.P.bases(q):
            if ('b', b) not in done:
                self.run_ctor(b, this, [])
        for fl in self.P.classes[q]['fields']:
            if fl['name'] not in done and ('f', this, q, fl['name']) not in self.mem:
                self.default_field(q, this, fl)

    def ctor_args(self, e):
        return [x for x in e.get('inner', ()) if x.get('kind')]

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        k = n.get('kind')
        if k is None:
            return
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        # expression statement
        self.ev(n)

    def s_CompoundStmt(self, n):
        for c in n.get('inner', ()):
            self.stmt(c)

    def s_NullStmt(self, n): pass

    def s_DeclStmt(self, n):
        for d in n.get('inner', ()):
            self.decl(d)

    def decl(self, d):
        k = d['kind']
        if k in ('UsingEnumDecl', 'UsingDecl', 'TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'CXXRecordDecl', 'EmptyDecl'):
            if k == 'CXXRecordDecl':
                raise Unsupported('local class')
            return
        if k == 'DecompositionDecl':
            init = [x for x in d.get('inner', ()) if x.get('kind') and x['kind'] != 'BindingDecl' and not x['kind'].endswith('Attr')]
            if d.get('storageClass') or not init:
                raise Unsupported('structured binding')
            self.decompose(d, self.ev(init[-1]) if is_ref(d['type']) else self.rv(init[-1]))
            return
        if k != 'VarDecl':
            raise Unsupported('declaration ' + k)
        fr = self.frames[-1]
        t = d['type']
        init = [x for x in d.get('inner', ()) if x.get('kind') and not x['kind'].endswith('Attr')]
        static = d.get('storageClass') in ('static',) or d.get('tls')
        ts = tstr0(t)
        if static and not (d.get('constexpr') or (ts.startswith('const ') or ts.endswith(' const'))):
            raise HiddenState('function-local static %s' % d.get('name'))
        if static and init and not d.get('constexpr'):
            # constant initialiser only: it may not read parameters or members
            if self.reads_state(init[-1]):
                raise HiddenState('function-local static %s initialised from run-time values' % d.get('name'))
        if not init:
            v = self.default_value(tstr(t), d.get('name') or '')
        elif is_ref(t):
            a = self.ev(init[-1])
            fr.vars[d['id']] = a if isinstance(a, Loc) else self.tmp(a)
            return
        else:
            v = self.rv(init[-1])
            v = self.conv_to(v, tstr(t))
            if isinstance(v, (list, tuple)):
                v = self.make_lib(strip_type(tstr(t)), [('initlist', v)], None)
        if isinstance(v, ObjV):
            fr.vars[d['id']] = ObjLoc(v.oid)
        else:
            key = ('v', fr.no, d['id'])
            self.mem[key] = v
            if isz(v) and v.sort() == IS:
                self.ctype[key] = self.scalar_kind(tstr(t))
            fr.vars[d['id']] = Cell(key)

    def decompose(self, d, a):
        """auto [x, y] = ...: each name is the corresponding member, element or map entry"""
        names = [x for x in d.get('inner', ()) if x.get('kind') == 'BindingDecl']
        fr = self.frames[-1]
        if isinstance(a, IterPair):
            parts = [self.iter_member(a.it, 'first'), self.iter_member(a.it, 'second')]
            if not is_ref(d['type']):
                parts = [x.load(self) if isinstance(x, Loc) else x for x in parts]
        else:
            v = a.load(self) if isinstance(a, Loc) else a
            if isinstance(v, list):
                v = self.make_lib('std::vector<%s>' % (tstr(d['type']).split('[')[0] if '[' in tstr(d['type']) else 'double'), [('initlist', v)], None)
            loc = a if isinstance(a, Loc) and is_ref(d['type']) else self.tmp(v)
            if isinstance(v, ObjV):
                if self.objs[v.oid].lazy and not self.objs[v.oid].exact:
                    raise Unsupported('structured binding of an abstract object')
                if not is_ref(d['type']) and isinstance(a, Loc):
                    v = self.copyval(v)
                parts = [self.field(v.oid, f['name'], c) for c, f in self.P.all_fields(self.objs[v.oid].cls)]
            elif isinstance(v, VecV):
                parts = [Elem(loc, z3.IntVal(i)) for i in range(len(names))]
            else:
                raise Unsupported('structured binding of ' + type(v).__name__)
        if len(parts) != len(names):
            raise Unsupported('structured binding')
        for x, p in zip(names, parts):
            fr.vars[x['id']] = p if isinstance(p, Loc) else self.tmp(p)

    def cell_kind(self, key):
        """C++ integer kind of a cell, if known"""
        if key[0] == 'f':
            for f in self.P.classes[key[2]]['fields']:
                if f['name'] == key[3]:
                    return self.scalar_kind(tstr(f['type']))
            return None
        return self.ctype.get(key)

    CONSTFN = {'sqrt', 'exp', 'log', 'pow', 'abs', 'fabs', 'max', 'min', 'epsilon', 'infinity', 'lowest', 'quiet_NaN', 'cos', 'sin', 'acos', 'atan', 'log1p', 'expm1', 'erf'}

    def reads_state(self, n):
        if n.get('kind') in ('CXXThisExpr',):
            return True
        if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('kind') in ('ParmVarDecl', 'VarDecl'):
            d = self.frames[-1].lookup(n['referencedDecl']['id'])
            if d is not None:
                return True
        if n.get('kind') == 'CallExpr' and n.get('inner'):
            f = n['inner'][0]
            while f.get('kind') == 'ImplicitCastExpr' and f.get('inner'):
                f = f['inner'][0]
            if f.get('kind') == 'DeclRefExpr' and f.get('referencedDecl', {}).get('name') in self.CONSTFN:
                return any(self.reads_state(c) for c in n['inner'][1:])     # a function of its arguments
        if n.get('kind') in ('CallExpr', 'CXXMemberCallExpr'):
            return True
        return any(self.reads_state(c) for c in n.get('inner', ()) if isinstance(c, dict))

    def s_ReturnStmt(self, n):
        inner = [x for x in n.get('inner', ()) if x.get('kind')]
        if not inner:
            raise Ret(None)
        fr = self.frames[-1]
        rt = None
        if fr.rec is not None:
            rt = (fr.rec.get('type') or '').split('(')[0].strip()
        v = self.ev(inner[0])
        if fr.rec is None or rt is None or not rt.endswith('&'):
            if isinstance(v, Loc):
                v = v.load(self)
            if rt and self.frames[-1].rec is not None:
                v = self.conv_to(v, rt)
                if isinstance(v, list):
                    v = self.make_lib(strip_type(rt), [('initlist', v)], None)
        raise Ret(v)

    def s_IfStmt(self, n):
        inner = n.get('inner', [])
        i = 0
        if n.get('hasInit'):
            self.stmt(inner[i]); i += 1
        if n.get('hasVar'):
            self.stmt(inner[i]); i += 1
        cond, then = inner[i], inner[i + 1]
        els = inner[i + 2] if len(inner) > i + 2 else None
        c = self.tobool(self.rv(cond))
        cs = z3.simplify(c) if isz(c) else c
        if isz(cs) and not z3.is_true(cs) and not z3.is_false(cs) and self.only_output(then) and (els is None or self.only_output(els)):
            return
        if self.choose(cs):
            self.stmt(then)
        elif els is not None:
            self.stmt(els)

    def only_output(self, n):
        """a branch that only writes to a stream"""
        if n is None or not n.get('kind'):
            return True
        if n['kind'] == 'CompoundStmt':
            return all(self.only_output(c) for c in n.get('inner', ()))
        m = n
        while m.get('kind') in ('ExprWithCleanups', 'ParenExpr'):
            m = m['inner'][0]
        if m.get('kind') == 'CXXOperatorCallExpr':
            f = skip(m['inner'][0])
            nm = (f.get('referencedDecl') or {}).get('name')
            if nm == 'operator<<':
                t = tstr0(m.get('type', ''))
                return 'ostream' in t or '__ostream_type' in t
        return m.get('kind') == 'NullStmt'

    def s_SwitchStmt(self, n):
        inner = [x for x in n.get('inner', ()) if x.get('kind')]
        cond, body = inner[-2], inner[-1]
        for pre in inner[:-2]:
            self.stmt(pre)
        v = self.rv(cond)
        items = []      # (label value or 'default' , index in flat list)
        flat = []

        def flatten(c):
            k = c.get('kind')
            if k == 'CaseStmt':
                ci = [x for x in c['inner'] if x.get('kind')]
                items.append((ci[0], len(flat)))
                flatten(ci[-1])
            elif k == 'DefaultStmt':
                items.append((None, len(flat)))
                flatten(c['inner'][0])
            else:
                flat.append(c)
        for c in body.get('inner', ()):
            flatten(c)
        start = None
        dflt = None
        for lab, idx in items:
            if lab is None:
                dflt = idx
                continue
            if self.choose(v == self.rv(lab)):
                start = idx
                break
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            for c in flat[start:]:
                self.stmt(c)
        except Brk:
            pass

    def s_BreakStmt(self, n): raise Brk()
    def s_ContinueStmt(self, n): raise Cont()

    def s_CXXTryStmt(self, n):
        inner = n['inner']
        frames = list(self.frames)
        try:
            self.stmt(inner[0])
        except CppThrow as e:
            self.frames = frames
            for c in inner[1:]:
                ci = [x for x in c.get('inner', ()) if x.get('kind')]
                var = ci[0] if ci and ci[0]['kind'] == 'VarDecl' else None
                body = ci[-1]
                if var is None:
                    ok = True
                else:
                    t = strip_type(tstr(var['type']))
                    t = t if t in STDEXC else strip_type(tstr0(var['type']))
                    ok = exc_isa(e.cls, t)
                if ok:
                    if var is not None:
                        self.frames[-1].vars[var['id']] = self.tmp(Opaque('exception:' + e.cls))
                    self.curexc = e
                    self.stmt(body)
                    return
            raise

    # loops ------------------------------------------------------
    def s_ForStmt(self, n):
        init, var, cond, inc, body = (n['inner'] + [None] * 5)[:5]
        if init and init.get('kind'):
            self.stmt(init)
        cf = (lambda: self.tobool(self.rv(cond))) if cond and cond.get('kind') else (lambda: z3.BoolVal(True))
        nf = (lambda: self.ev(inc)) if inc and inc.get('kind') else (lambda: None)
        self.loop(n, cf, lambda: self.stmt(body), nf)

    def s_WhileStmt(self, n):
        inner = [x for x in n['inner'] if x.get('kind')]
        if n.get('hasVar'):
            raise Unsupported('while with declaration')
        cond, body = inner[0], inner[1]
        self.loop(n, lambda: self.tobool(self.rv(cond)), lambda: self.stmt(body), lambda: None)

    def s_DoStmt(self, n):
        body, cond = n['inner'][0], n['inner'][1]
        # do B while(c)  ==  first = true; while (first || c) B
        fr = self.frames[-1]
        key = ('v', fr.no, 'do' + n.get('id', '') + str(self.newframe()))
        self.mem[key] = z3.BoolVal(True)

        def cf():
            f = self.mem[key]
            if self.choose(f):
                return z3.BoolVal(True)
            return self.tobool(self.rv(cond))

        def bf():
            self.mem[key] = z3.BoolVal(False)
            self.stmt(body)
        # peel the first iteration
        try:
            bf()
        except Cont:
            pass
        except Brk:
            return
        self.loop(n, lambda: self.tobool(self.rv(cond)), lambda: self.stmt(body), lambda: None)

    def s_CXXForRangeStmt(self, n):
        inner = n['inner']
        # [init?] range begin end cond inc loopvar body
        parts = [x for x in inner]
        body = parts[-1]
        loopvar = parts[-2]['inner'][0]
        rng = None
        for p in parts:
            if p.get('kind') == 'DeclStmt' and p['inner'][0].get('name', '').startswith('__range'):
                rng = p['inner'][0]
        if parts[0].get('kind') == 'DeclStmt' and parts[0]['inner'][0].get('name', '')[:2] != '__':
            self.stmt(parts[0])
        init = [x for x in rng.get('inner', ()) if x.get('kind')][-1]
        r = self.ev(init)
        loc = r if isinstance(r, Loc) else self.tmp(r)
        v = loc.load(self)
        if isinstance(v, (list, tuple)):
            v = self.make_lib('std::vector<double>', [('initlist', v)], None)
            loc = self.tmp(v)
        if not isinstance(v, VecV):
            raise Unsupported('range-for over ' + type(v).__name__)
        fr = self.frames[-1]
        ik = ('v', fr.no, 'rng%d' % self.newframe())
        self.mem[ik] = z3.IntVal(0)
        byref = is_ref(loopvar['type'])

        n0 = v.n

        def cf():
            return self.mem[ik] < loc.load(self).n if True else None

        def bf():
            self.oblige(loc.load(self).n == n0, 'container not resized while iterated')
            e = Elem(loc, self.mem[ik])
            if loopvar['kind'] == 'DecompositionDecl':
                self.decompose(loopvar, e if byref else e.load(self))
            elif byref:
                self.frames[-1].vars[loopvar['id']] = e
            else:
                self.bind(self.frames[-1], loopvar['id'], loopvar['type'], e)
            self.stmt(body)

        def nf():
            self.mem[ik] = z3.simplify(self.mem[ik] + 1)
        self.loop(n, cf, bf, nf)

    def iterate(self, n, cf, bf, nf):
        """one iteration given the condition holds"""
        try:
            bf()
        except Cont:
            pass
        nf()

    def loop(self, n, cf, bf, nf):
        from loops import run_loop
        run_loop(self, n, cf, bf, nf)

    # ------------------------------------------------------------ expressions
    def rv(self, n):
        v = self.ev(n)
        return v.load(self) if isinstance(v, Loc) else v

    def lv(self, n):
        v = self.ev(n)
        return v if isinstance(v, Loc) else self.tmp(v)

    def ev_arg(self, n):
        return self.ev(n)

    def ev(self, n):
        k = n['kind']
        if k in SKIP:
            return self.ev(n['inner'][-1 if k == 'SubstNonTypeTemplateParmExpr' else 0])
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(n)

    def e_IntegerLiteral(self, n): return z3.IntVal(int(n['value']))
    def e_CharacterLiteral(self, n): return z3.IntVal(int(n['value']))
    def e_FloatingLiteral(self, n): return self.rval(float(n['value']))
    def e_CXXBoolLiteralExpr(self, n): return z3.BoolVal(bool(n['value']))
    def e_CXXNullPtrLiteralExpr(self, n): return NULL
    def e_GNUNullExpr(self, n): return NULL

    def e_StringLiteral(self, n):
        import json as _j
        return self.pr.lit(_j.loads(n['value']) if n['value'].startswith('"') else n['value'])

    def e_CXXThisExpr(self, n):
        f = self.frames[-1]
        while f is not None and f.this is None:
            f = f.parent
        if f is None:
            raise Unsupported('this')
        return Ptr(ObjLoc(f.this))

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        k = d['kind']
        fr = self.frames[-1]
        if k == 'EnumConstantDecl':
            r = fr.decls.get(d['id'])
            if r is not None:
                return z3.IntVal(r['value'])
            return self.lib_enum(d['name'])
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            l = fr.lookup(d['id'])
            if l is not None:
                return l
            r = fr.decls.get(d['id'])
            if r is not None and r['k'] == 'gvar':
                return Cell(('g', r['q']))
            return self.lib_var(d['name'], n)
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConversionDecl'):
            r = fr.decls.get(d['id'])
            return FnRef(r['key'] if r else None, d['name'])
        raise Unsupported('reference to ' + k)

    def e_MemberExpr(self, n):
        base = n['inner'][0]
        fr = self.frames[-1]
        rid = n.get('referencedMemberDecl')
        r = fr.decls.get(rid)
        b = self.ev(base)
        if n.get('isArrow'):
            p = b.load(self) if isinstance(b, Loc) else b
            if isinstance(p, IterV):
                return self.iter_member(p, n['name'])
            if not isinstance(p, Ptr) or p.loc is None:
                if isinstance(p, Ptr):
                    self.oblige(z3.BoolVal(False), 'null pointer dereference')
                    raise Infeasible()
                raise Unsupported('-> on %s' % type(p).__name__)
            b = p.loc
        if isinstance(b, IterPair):
            return self.iter_member(b.it, n['name'])
        o = b.load(self) if isinstance(b, Loc) else b
        if isinstance(o, ObjV):
            cls = r['cls'] if r is not None and r['k'] == 'field' else None
            if r is not None and r['k'] == 'gvar':
                return Cell(('g', r['q']))
            return self.field(o.oid, n['name'], cls)
        if isinstance(o, IterV):
            return self.iter_member(o, n['name'])
        raise Unsupported('member %s of %s' % (n.get('name'), type(o).__name__))

    def iter_member(self, it, name):
        if not isinstance(it.pos, str):
            raise Unsupported('iterator member')
        if it.key is None:
            self.oblige(z3.BoolVal(False), 'dereference of end()')
            raise Infeasible()
        if name == 'second':
            return MapVal(it.loc, it.key)
        return it.key

    def e_ImplicitCastExpr(self, n): return self.cast(n)
    def e_CXXStaticCastExpr(self, n): return self.cast(n)
    def e_CStyleCastExpr(self, n): return self.cast(n)
    def e_CXXFunctionalCastExpr(self, n): return self.cast(n)
    def e_CXXConstCastExpr(self, n): return self.ev(n['inner'][0])
    def e_BuiltinBitCastExpr(self, n): raise Unsupported('bit cast')
    def e_CXXReinterpretCastExpr(self, n): raise Unsupported('reinterpret_cast')

    def cast(self, n):
        ck = n.get('castKind')
        inner = n['inner'][0]
        if ck in ('LValueToRValue', 'LValueToRValueBitCast'):
            v = self.rv(inner)
            return v
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'FunctionToPointerDecay', 'ArrayToPointerDecay',
                  'ConstructorConversion', 'UserDefinedConversion', 'BaseToDerived', 'BuiltinFnToFnPtr'):
            return self.ev(inner)
        if ck == 'ToVoid':
            self.ev(inner)
            return None
        if ck == 'NullToPointer':
            return NULL
        v = self.rv(inner)
        t = strip_type(tstr(n['type']))
        if ck == 'PointerToBoolean':
            return self.tobool(v)
        if ck == 'IntegralToBoolean':
            return self.tobool(v)
        if ck == 'FloatingToBoolean':
            return self.tobool(v)
        if ck == 'IntegralCast':
            return self.int_cast(v, t, strip_type(tstr(inner['type'])))
        if ck in ('IntegralToFloating',):
            if self.scalar_kind(t) == 'float':
                raise Unsupported('float arithmetic')
            if z3.is_bool(v):
                v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return self.toreal(v)
        if ck == 'FloatingCast':
            if self.scalar_kind(t) == 'float' or self.scalar_kind(strip_type(tstr(inner['type']))) == 'float':
                raise Unsupported('float arithmetic')
            return v
        if ck == 'FloatingToIntegral':
            return self.trunc(v, t)
        raise Unsupported('cast ' + str(ck))

    def toreal(self, v):
        if self.mode == 'fp':
            if z3.is_int_value(v):
                return z3.FPVal(float(v.as_long()), FP)
            return z3.fpRealToFP(RNE, z3.ToReal(v), FP)
        return z3.simplify(z3.ToReal(v)) if z3.is_int_value(v) else z3.ToReal(v)

    def trunc(self, v, t):
        if self.mode == 'fp':
            raise Unsupported('double to integer in fp mode')
        v2 = z3.simplify(v)
        if z3.is_app_of(v2, z3.Z3_OP_TO_REAL):
            r = v2.arg(0)
        elif z3.is_app_of(v, z3.Z3_OP_TO_REAL):
            r = v.arg(0)
        elif self.implied(v >= 0):
            r = z3.ToInt(v)
        else:
            r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        k = self.scalar_kind(t)
        return r

    def int_cast(self, v, t, st=None):
        k = self.scalar_kind(t)
        if z3.is_bool(v):
            if k == 'bool':
                return v
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if k == 'bool':
            return v != 0
        if k == 'enum' or not isinstance(k, tuple):
            return v
        return self.wrap(v, k)

    def wrap(self, t, k):
        bits, signed = k
        if z3.is_int_value(t):
            x = t.as_long()
            if signed:
                return t
            return z3.IntVal(x % (1 << bits))
        if signed:
            lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
            if self.implied(z3.And(t >= lo, t <= hi)):
                return t
            m = 1 << bits
            return z3.simplify((t + (m >> 1)) % m - (m >> 1))
        if self.implied(z3.And(t >= 0, t < (1 << bits))):
            return t
        return t % (1 << bits)

    def tobool(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, Ptr):
            return z3.BoolVal(v.loc is not None)
        if isinstance(v, SPtr):
            return v.alive if v.alive is not None else z3.BoolVal(True)
        if isinstance(v, OptV):
            return v.has
        if isinstance(v, Closure):
            return z3.BoolVal(True)
        if not isz(v):
            raise Unsupported('boolean of ' + type(v).__name__)
        if z3.is_bool(v):
            return v
        if z3.is_fp(v):
            return z3.Not(z3.fpIsZero(v))
        if v.sort() == RS:
            return v != 0
        if v.sort() == STR:
            return z3.BoolVal(True)
        return v != 0

    def e_UnaryOperator(self, n):
        op = n['opcode']
        inner = n['inner'][0]
        if op == '&':
            l = self.ev(inner)
            if isinstance(l, FnRef):
                return l
            return Ptr(l if isinstance(l, Loc) else self.tmp(l))
        if op == '*':
            p = self.rv(inner)
            return self.deref(p)
        if op in ('++', '--'):
            l = self.lv(inner)
            v = l.load(self)
            if isinstance(v, IterV):
                return self.iter_step(l, v, 1 if op == '++' else -1, n.get('isPostfix'))
            k = self.scalar_kind(tstr(n['type']))
            d = 1 if op == '++' else -1
            if k == 'real':
                nv = self.arith('+' if d > 0 else '-', v, self.rval(1))
            else:
                nv = self.iarith('+' if d > 0 else '-', v, z3.IntVal(1), k)
            l.store(self, nv)
            return v if n.get('isPostfix') else l
        v = self.rv(inner)
        if op == '!':
            return z3.Not(self.tobool(v))
        if op == '+':
            return v
        if op == '-':
            if z3.is_fp(v):
                return z3.fpNeg(v)
            k = self.scalar_kind(tstr(n['type']))
            if isinstance(k, tuple):
                return self.wrap(z3.simplify(-v), k) if not k[1] else z3.simplify(-v)
            return -v if not z3.is_rational_value(v) else z3.simplify(-v)
        raise Unsupported('unary ' + op)

    def deref(self, p):
        if isinstance(p, Ptr):
            if p.loc is None:
                self.oblige(z3.BoolVal(False), 'null pointer dereference')
                raise Infeasible()
            return p.loc
        if isinstance(p, SPtr):
            return RefTermLoc(p.cls, p.term)
        if isinstance(p, IterV):
            if isinstance(p.pos, str):
                return IterPair(p)
            return Elem(p.loc, p.pos)
        if isinstance(p, FnRef) or isinstance(p, Closure):
            return p
        if isinstance(p, OptV):
            return p.val
        raise Unsupported('dereference of ' + type(p).__name__)

    def iter_step(self, l, v, d, postfix):
        l.store(self, IterV(v.loc, z3.simplify(v.pos + d)))
        return v if postfix else l

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op in ('&&', '||'):
            x = self.tobool(self.rv(a))
            x = z3.simplify(x)
            if op == '&&' and z3.is_false(x) or op == '||' and z3.is_true(x):
                return x
            if z3.is_true(x) or z3.is_false(x):
                return self.tobool(self.rv(b))
            if self.pure(b):
                # evaluate under the guard (bounds obligations see it)
                npc = len(self.pc)
                self.pc.append(x if op == '&&' else z3.Not(x))
                y = self.tobool(self.rv(b))
                del self.pc[npc:]
                return z3.And(x, y) if op == '&&' else z3.Or(x, y)
            if self.choose(x):
                return self.tobool(self.rv(b)) if op == '&&' else z3.BoolVal(True)
            return z3.BoolVal(False) if op == '&&' else self.tobool(self.rv(b))
        if op == '=':
            v = self.rv(b)
            l = self.lv(a)
            l.store(self, v)
            return l
        x, y = self.rv(a), self.rv(b)
        return self.binop(op, x, y, tstr(n['type']), tstr(a['type']))

    def pure(self, n):
        k = n.get('kind')
        if k in ('CXXThrowExpr', 'CompoundAssignOperator', 'LambdaExpr', 'CXXNewExpr'):
            return False
        if k == 'BinaryOperator' and n.get('opcode') == '=':
            return False
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
            return False
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr'):
            f = skip(n['inner'][0]) if n.get('inner') else {}
            nm = f.get('name') or (f.get('referencedDecl') or {}).get('name')
            if nm not in ('has_value', 'value', 'size', 'empty', 'operator[]', 'operator->', 'operator bool', 'abs', 'fabs', 'exp',
                          'log', 'sqrt', 'max', 'min', 'operator*', 'isnan', 'isfinite', 'isinf', 'operator()', 'rows', 'cols', 'get',
                          'front', 'back', 'end', 'cend', 'infinity', 'operator=='):
                return False
            if nm == 'operator()' and 'Eigen' not in tstr0(n['inner'][1].get('type', '')):
                return False
        return all(self.pure(c) for c in n.get('inner', ()) if isinstance(c, dict) and c.get('kind'))

    def e_CXXRewrittenBinaryOperator(self, n):
        return self.ev(n['inner'][0])

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        b = self.rv(n['inner'][1])
        l = self.lv(n['inner'][0])
        a = l.load(self)
        lt, ct = tstr(n['inner'][0]['type']), tstr(n.get('computeLHSType') or n['type'])
        k, ck = self.scalar_kind(lt), self.scalar_kind(ct)
        if ck == 'float':
            raise Unsupported('float arithmetic')
        x = a
        if ck == 'real' and k != 'real':
            x = self.toreal(a)
        r = self.binop(op, x, b, ct, ct)
        if ck == 'real' and k != 'real':
            r = self.trunc(r, lt)
        elif isinstance(k, tuple):
            r = self.wrap(r, k)
        l.store(self, r)
        return l

    def binop(self, op, x, y, t, at):
        if op in ('==', '!='):
            r = self.equal(x, y)
            return r if op == '==' else z3.simplify(z3.Not(r)) if self.mode != 'fp' else z3.Not(r)
        if isz(x) and isz(y):
            if z3.is_bool(x):
                x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
            if z3.is_bool(y):
                y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
            if op in ('<', '>', '<=', '>='):
                if z3.is_fp(x) or z3.is_fp(y):
                    f = {'<': z3.fpLT, '>': z3.fpGT, '<=': z3.fpLEQ, '>=': z3.fpGEQ}[op]
                    return f(x, y)
                return {'<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y}[op]()
            k = self.scalar_kind(t)
            if k == 'real':
                return self.arith(op, x, y)
            if k == 'float':
                raise Unsupported('float arithmetic')
            if isinstance(k, tuple):
                return self.iarith(op, x, y, k)
            if k == 'bool' and op in ('&', '|', '^'):
                p, q = self.tobool(x), self.tobool(y)
                return {'&': z3.And(p, q), '|': z3.Or(p, q), '^': z3.Xor(p, q)}[op]
        x, y = self.asiter(x), self.asiter(y)
        if isinstance(x, IterV) or isinstance(y, IterV):
            return self.iter_arith(op, x, y)
        if isinstance(x, Ptr) and isz(y) and op in '+-':
            raise Unsupported('pointer arithmetic')
        raise Unsupported('operator %s on %s,%s' % (op, type(x).__name__, type(y).__name__))

    def asiter(self, p):
        """pointer to the first element of a container's storage"""
        if isinstance(p, Ptr) and p.loc is not None and isinstance(p.loc, (Cell, FieldLoc) if 'FieldLoc' in globals() else (Cell,)) and isinstance(p.loc.load(self), VecV):
            return IterV(p.loc, z3.IntVal(0))
        return p

    def iter_arith(self, op, x, y):
        if isinstance(x, IterV) and isz(y):
            return IterV(x.loc, z3.simplify(x.pos + y if op == '+' else x.pos - y))
        if isz(x) and isinstance(y, IterV) and op == '+':
            return IterV(y.loc, z3.simplify(y.pos + x))
        if isinstance(x, IterV) and isinstance(y, IterV) and not isinstance(x.pos, str):
            if op == '-':
                return z3.simplify(x.pos - y.pos)
            return {'<': x.pos < y.pos, '>': x.pos > y.pos, '<=': x.pos <= y.pos, '>=': x.pos >= y.pos}[op]
        raise Unsupported('iterator arithmetic')

    def arith(self, op, x, y):
        if self.mode == 'fp':
            if not z3.is_fp(x): x = self.toreal(x)
            if not z3.is_fp(y): y = self.toreal(y)
            f = {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}.get(op)
            if f is None:
                raise Unsupported('fp op ' + op)
            return f(RNE, x, y)
        if x.sort() == IS: x = z3.ToReal(x)
        if y.sort() == IS: y = z3.ToReal(y)
        for v in (x, y):
            if is_const(v) and v.decl().name() == 'INF':
                raise Unsupported('arithmetic on infinity')
        if op == '+': return x + y
        if op == '-': return x - y
        if op == '*': return x * y
        if op == '/': return x / y
        raise Unsupported('real op ' + op)

    def iarith(self, op, x, y, k):
        if op == '+': r = x + y
        elif op == '-': r = x - y
        elif op == '*': r = x * y
        elif op in ('/', '%'):
            self.oblige(y != 0, 'integer division by zero')
            if self.implied(z3.And(x >= 0, y > 0)):
                r = x / y if op == '/' else x % y
            else:
                q = z3.If(x >= 0, z3.If(y > 0, x / y, -(x / -y)), z3.If(y > 0, -((-x) / y), (-x) / (-y)))
                r = q if op == '/' else x - y * q
            return z3.simplify(r)
        elif op in ('|', '&', '^') and z3.is_int_value(z3.simplify(x)) and z3.is_int_value(z3.simplify(y)):
            a, b = z3.simplify(x).as_long(), z3.simplify(y).as_long()
            r = z3.IntVal(a | b if op == '|' else a & b if op == '&' else a ^ b)
        elif op == '<<' and z3.is_int_value(y):
            r = x * (1 << y.as_long())
        elif op == '>>' and z3.is_int_value(y):
            r = x / (1 << y.as_long())
        else:
            raise Unsupported('integer op ' + op)
        r = z3.simplify(r)
        if isinstance(k, tuple):
            return self.wrap(r, k) if not k[1] else r
        return r

    def equal(self, x, y):
        if isz(x) and isz(y):
            if z3.is_fp(x) or z3.is_fp(y):
                return z3.fpEQ(x, y)
            if z3.is_bool(x) and not z3.is_bool(y):
                x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
            if z3.is_bool(y) and not z3.is_bool(x):
                y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
            return x == y
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.loc is None or y.loc is None:
                return z3.BoolVal(x.loc is None and y.loc is None)
            return z3.BoolVal(x.loc == y.loc)
        if isinstance(x, SPtr) and isinstance(y, Ptr) and y.loc is None:
            return z3.Not(self.tobool(x))
        if isinstance(y, SPtr) and isinstance(x, Ptr) and x.loc is None:
            return z3.Not(self.tobool(y))
        if isinstance(x, SPtr) and isinstance(y, SPtr):
            return x.term == y.term
        if isinstance(x, IterV) and isinstance(y, IterV):
            if isinstance(x.pos, str) or isinstance(y.pos, str):
                if x.key is None or y.key is None:
                    return z3.BoolVal(x.key is None and y.key is None)
                return x.key == y.key
            return x.pos == y.pos
        if isinstance(x, TypeInfo) and isinstance(y, TypeInfo):
            return z3.BoolVal(x.cls == y.cls)
        if isinstance(x, OptV) and isinstance(y, OptV):
            return z3.And(x.has == y.has, z3.Implies(x.has, self.equal(x.val, y.val)))
        if isinstance(x, TieV) and isinstance(y, TieV) and len(x.locs) == len(y.locs) and None not in x.locs + y.locs:
            return z3.And(*[self.equal(a.load(self), b.load(self)) for a, b in zip(x.locs, y.locs)])
        raise Unsupported('== on %s,%s' % (type(x).__name__, type(y).__name__))

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        cv = z3.simplify(self.tobool(self.rv(c)))
        if z3.is_true(cv):
            return self.ev(a)
        if z3.is_false(cv):
            return self.ev(b)
        if self.pure(a) and self.pure(b) and self.mode != 'fp':
            npc = len(self.pc)
            self.pc.append(cv)
            x = self.rv(a)
            del self.pc[npc:]
            self.pc.append(z3.Not(cv))
            y = self.rv(b)
            del self.pc[npc:]
            if isz(x) and isz(y):
                return ite(cv, x, y)
        if self.choose(cv):
            return self.ev(a)
        return self.ev(b)

    def e_ArraySubscriptExpr(self, n):
        a, b = [x for x in n['inner'] if x.get('kind')]
        loc = self.ev(a)
        if not isinstance(loc, Loc) or not isinstance(loc.load(self), VecV):
            raise Unsupported('raw array subscript')
        import lib
        return lib.index(self, loc, self.rv(b), 'array index')

    def e_CXXDefaultArgExpr(self, n):
        raise Unsupported('default argument')

    def e_CXXThrowExpr(self, n):
        if not n.get('inner'):
            raise getattr(self, 'curexc')
        e = n['inner'][0]
        t = tstr(skip(e).get('type') or e.get('type'))
        t0 = strip_type(tstr(e.get('type')))
        t0 = 'std::' + t0.split('::')[-1] if ('std::' + t0.split('::')[-1]) in STDEXC else t0
        raise CppThrow(t0)

    def e_CXXTypeidExpr(self, n):
        if n.get('inner'):
            v = self.rv(n['inner'][0])
            if isinstance(v, ObjV):
                o = self.objs[v.oid]
                if not o.exact:
                    raise Unsupported('typeid of abstract object')
                return TypeInfo(o.cls)
        raise Unsupported('typeid')

    def e_CXXDynamicCastExpr(self, n):
        v = self.ev(n['inner'][0])
        t = tstr(n['type'])
        ptr = t.strip().endswith('*')
        c = self.P.cls(t.replace('*', ''))
        p = v.load(self) if isinstance(v, Loc) and ptr else v
        r = self.dyncast(p if ptr else Ptr(p), c)
        if ptr:
            return r
        if r.loc is None:
            raise CppThrow('std::bad_cast')
        return r.loc

    def dyncast(self, p, c):
        if not isinstance(p, Ptr):
            raise Unsupported('dynamic cast of ' + type(p).__name__)
        if p.loc is None:
            return NULL
        o = p.loc.load(self)
        if not isinstance(o, ObjV):
            raise Unsupported('dynamic cast')
        r = self.objs[o.oid]
        if r.exact:
            return Ptr(ObjLoc(o.oid)) if self.P.derives(r.cls, c) else NULL
        if self.P.derives(r.cls, c):
            return Ptr(ObjLoc(o.oid))
        if not self.P.derives(c, r.cls):
            # may still hold for a further-derived class; treat as unknown
            pass
        b = z3.Bool('isa(%s,%s)' % (r.tag, Program.shortname(c)))
        if self.choose(b):
            self.objs[o.oid] = ObjRec(r.cls, r.exact, r.lazy, r.tag, r.attrs)
            return Ptr(ObjLoc(o.oid))
        return NULL

    def e_LambdaExpr(self, n):
        fr = self.frames[-1]
        inner = n['inner']
        rec = inner[0]
        body = [x for x in inner if x.get('kind') == 'CompoundStmt'][-1]
        fields = [f for f in rec.get('inner', ()) if f.get('kind') == 'FieldDecl']
        caps = [x for x in inner[1:] if x.get('kind') and x is not body]
        nf = Frame(None, fr.decls, fr.this, self.newframe(), fr)
        for f, c in zip(fields, caps):
            s = skip(c)
            if s.get('kind') == 'DeclRefExpr' and not is_ref(f['type']):
                did = s['referencedDecl']['id']
                l = fr.lookup(did)
                if l is not None:
                    v = self.copyval(l.load(self))
                    key = ('v', nf.no, did)
                    if isinstance(v, ObjV):
                        nf.vars[did] = ObjLoc(v.oid)
                    else:
                        self.mem[key] = v
                        nf.vars[did] = Cell(key)
            elif s.get('kind') not in ('DeclRefExpr', 'CXXThisExpr'):
                raise Unsupported('init capture')
        op = [m for m in rec.get('inner', ()) if m.get('kind') == 'CXXMethodDecl' and m.get('name') == 'operator()']
        if not op:
            # generic lambda: the instantiation that is called
            tm = [m for m in rec.get('inner', ()) if m.get('kind') == 'FunctionTemplateDecl' and m.get('name') == 'operator()']
            ins = [m for m in (tm[0].get('inner', ()) if tm else ()) if m.get('kind') == 'CXXMethodDecl'][1:]
            ins = [(m, b) for m in ins for b in m.get('inner', ()) if b.get('kind') == 'CompoundStmt']
            if len(ins) != 1:
                raise Unsupported('generic lambda')
            return Closure(ins[0], nf)
        return Closure((op[0], body), nf)

    def call_closure(self, cl, args):
        if isinstance(cl, FnRef):
            f = self.P.funcs.get(cl.key)
            if f is None:
                return self.lib_call(cl.name, args, None)
            return self.invoke(f, None, args)
        if isinstance(cl, ObjV):
            return self.method(cl.oid, 'operator()', *args)
        if not isinstance(cl, Closure):
            raise Unsupported('call of ' + type(cl).__name__)
        op, body = cl.node
        fr = Frame({'type': (op.get('type') or {}).get('qualType', ''), 'q': 'lambda', 'cls': None}, cl.frame.decls, cl.frame.this, self.newframe(), cl.frame)
        ps = [p for p in op.get('inner', ()) if p.get('kind') == 'ParmVarDecl']
        for p, a in zip(ps, args):
            self.bind(fr, p['id'], p['type'], a)
        self.frames.append(fr)
        try:
            self.stmt(body)
            r = None
        except Ret as e:
            r = e.v
        finally:
            self.fixframes(fr)
        return r

    def e_InitListExpr(self, n):
        t = strip_type(tstr(n['type']))
        items = [x for x in n.get('inner', ()) if x.get('kind')]
        k = self.scalar_kind(t)
        if k:
            if not items:
                return self.zero(t)
            return self.rv(items[0])
        q = self.P.cls(t)
        if q and not self.P.classes[q].get('product'):  # clang keeps this node for aggregates only
            fs = self.P.classes[q]['fields']
            if not self.P.bases(q) and len(items) == len(fs) and not any(is_ref(f['type']) for f in fs):
                oid = self.new_obj(q)
                for f, x in zip(fs, items):
                    if x.get('kind') == 'CXXDefaultInitExpr':
                        self.default_field(q, oid, f)
                    else:
                        self.mem[('f', oid, q, f['name'])] = self.copyval(self.conv_to(self.rv(x), tstr(f['type'])))
                return ObjV(oid)
        vs = [self.rv(x) for x in items]
        return vs

    def e_CXXStdInitializerListExpr(self, n):
        return self.ev(n['inner'][0])

    def e_ImplicitValueInitExpr(self, n): return self.zero(strip_type(tstr(n['type'])))
    def e_CXXScalarValueInitExpr(self, n): return self.zero(strip_type(tstr(n['type'])))

    def zero(self, t):
        k = self.scalar_kind(t)
        if k == 'real': return self.rval(0)
        if k == 'bool': return z3.BoolVal(False)
        if k: return z3.IntVal(0)
        if t.endswith('*'): return NULL
        return self.make_lib(t, [], None)

    def e_UnaryExprOrTypeTraitExpr(self, n): raise Unsupported('sizeof')

    def e_CXXNewExpr(self, n):
        t = strip_type(tstr(n['type']).replace('*', ''))
        q = self.P.cls(t)
        e = [x for x in n.get('inner', ()) if x.get('kind')]
        if q is None or not e:
            raise Unsupported('new ' + t)
        c = e[0]
        while c.get('kind') in SKIP:
            c = c['inner'][0]
        v = self.rv(c)
        return Ptr(ObjLoc(v.oid))

    def e_CXXDeleteExpr(self, n): raise Unsupported('delete')

    def e_CXXConstructExpr(self, n): return self.make(n)
    def e_CXXTemporaryObjectExpr(self, n): return self.make(n)
    def e_CXXUnresolvedConstructExpr(self, n): raise Unsupported('unresolved template')

    def make(self, n):
        t = strip_type(tstr(n['type']))
        t0 = strip_type(tstr0(n['type']))
        args = self.ctor_args(n)
        q = self.P.cls(t) or self.P.cls(t0)
        if 'exception' in t or t in STDEXC or 'std::' + t.split('::')[-1] in STDEXC:
            return Opaque('exception:' + t)
        if q is not None:
            ct = (n.get('ctorType') or {}).get('qualType')
            a = []
            real = [x for x in args if x['kind'] != 'CXXDefaultArgExpr']
            a = [self.ev_arg(x) for x in real]
            if len(a) == 1 and isinstance(a[0], Loc):
                v = a[0].load(self)
                # by-value copy of polymorphic abstract object
            if n.get('elidable') and len(a) == 1:
                return a[0].load(self) if isinstance(a[0], Loc) else a[0]
            oid = self.new_obj(q)
            self.run_ctor(q, oid, a, ct)
            return ObjV(oid)
        real = [x for x in args if x['kind'] != 'CXXDefaultArgExpr']
        locs = [self.ev(x) for x in real]
        move = len(real) == 1 and real[0].get('valueCategory') == 'xvalue'
        return self.make_lib(t, locs, n, move)

    # library hooks implemented in lib.py
    def make_lib(self, t, args, n, move=False):
        import lib
        return lib.make(self, t, args, n, move)

    def lib_call(self, name, args, n):
        import lib
        return lib.call(self, name, args, n)

    def lib_enum(self, name):
        import lib
        return lib.enum_const(self, name)

    def lib_var(self, name, n):
        import lib
        return lib.var(self, name, n)

    # calls -------------------------------------------------------
    def e_CallExpr(self, n):
        callee = skip(n['inner'][0])
        args = [x for x in n['inner'][1:]]
        if callee['kind'] == 'DeclRefExpr':
            d = callee['referencedDecl']
            r = self.frames[-1].decls.get(d['id'])
            if d['kind'] in ('VarDecl', 'ParmVarDecl'):
                f = self.rv(callee)
                return self.call_closure(f, [self.ev_arg(x) for x in args])
            if r is not None and r['k'] == 'func':
                f = self.P.funcs.get(r['key'])
                if f is None:
                    raise Unsupported('function ' + r['q'])
                return self.invoke(f, None, self.args_for(f, args))
            return self.lib_call(d['name'], args, n)
        if callee['kind'] == 'MemberExpr':
            return self.e_CXXMemberCallExpr(n)
        f = self.rv(callee)
        return self.call_closure(f, [self.ev_arg(x) for x in args])

    def args_for(self, f, args):
        out = []
        for x in args:
            if x['kind'] == 'CXXDefaultArgExpr':
                break
            out.append(self.ev_arg(x))
        return out

    def e_CXXMemberCallExpr(self, n):
        callee = n['inner'][0]
        while callee.get('kind') == 'ParenExpr':
            callee = callee['inner'][0]
        if callee['kind'] != 'MemberExpr':
            raise Unsupported('member call through ' + callee['kind'])
        args = n['inner'][1:]
        base = callee['inner'][0]
        r = self.frames[-1].decls.get(callee.get('referencedMemberDecl'))
        b = self.ev(base)
        if callee.get('isArrow'):
            p = b.load(self) if isinstance(b, Loc) else b
            b = self.deref(p) if not isinstance(p, (Opaque,)) else p
        if r is not None and r['k'] == 'func':
            f = self.P.funcs.get(r['key'])
            if f is None:
                raise Unsupported('method ' + r['q'])
            a = self.args_for(f, args)
            if isinstance(b, RefTermLoc):
                return self.invoke(f, b, a, True)
            o = b.load(self) if isinstance(b, Loc) else b
            if not isinstance(o, ObjV):
                raise Unsupported('%s on %s' % (f['q'], type(o).__name__))
            # qualified calls (Base::f) are not virtual
            qualified = self.is_qualified(callee, base, f)
            return self.invoke(f, o.oid, a, virtual=not qualified)
        import lib
        loc = b if isinstance(b, Loc) else self.tmp(b)
        return lib.member(self, loc, callee['name'], args, n)

    def is_qualified(self, callee, base, f):
        # a qualified call casts `this` to the named base explicitly
        b = base
        while b.get('kind') == 'ParenExpr' or (b.get('kind') == 'ImplicitCastExpr' and b.get('castKind') == 'NoOp'):
            b = b['inner'][0]
        if b.get('kind') == 'ImplicitCastExpr' and b.get('castKind') in ('UncheckedDerivedToBase', 'DerivedToBase') \
                and skip(b).get('kind') == 'CXXThisExpr':
            # the current class overrides f, yet the call names the base version
            fr = self.frames[-1]
            q = fr.rec['cls'] if fr.rec is not None and fr.rec.get('cls') else None
            if q:
                m = self.P.resolve(q, f)
                if m is not None and m['cls'] != f['cls']:
                    return True
        return False

    def e_CXXOperatorCallExpr(self, n):
        callee = skip(n['inner'][0])
        args = n['inner'][1:]
        d = callee.get('referencedDecl') or {}
        r = self.frames[-1].decls.get(d.get('id'))
        name = d.get('name')
        if r is not None and r['k'] == 'func':
            f = self.P.funcs.get(r['key'])
            if f is None:
                raise Unsupported('operator ' + r['q'])
            a = [self.ev_arg(x) for x in args]
            if f['cls'] and not f['static'] and f['kind'] != 'FunctionDecl':
                if isinstance(a[0], RefTermLoc):
                    return self.invoke(f, a[0], a[1:], True)
                o = a[0].load(self) if isinstance(a[0], Loc) else a[0]
                return self.invoke(f, o.oid, a[1:], virtual=True)
            return self.invoke(f, None, a)
        import lib
        if name == 'operator()':
            o = self.rv(args[0])
            if isinstance(o, (Closure, FnRef)):
                return self.call_closure(o, [self.ev_arg(x) for x in args[1:]])
        if name == 'operator=':
            o = None
        return lib.operator(self, name, args, n)


class TieV(V):
    """std::tie: assigned component by component"""
    def __init__(self, locs): self.locs = locs


class IterPair(Loc):
    """*it of a map iterator"""
    def __init__(self, it): self.it = it
    def load(self, x): return self
    def root(self): return None


def is_string(s):
    s = strip_type(s)
    return s in ('std::string', 'string', 'std::basic_string<char>', 'basic_string<char>', 'std::string_view') or \
        s.startswith('std::basic_string<char') or s.startswith('basic_string<char') or s.startswith('std::__cxx11::basic_string<char')


def base_name(s):
    s = strip_type(s)
    i = s.find('<')
    b = s if i < 0 else s[:i]
    return b.split('::')[-1]
