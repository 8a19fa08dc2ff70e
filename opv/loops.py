"""Loops: invariants are inferred as candidates, checked for initiation and preservation on the
real loop body (all outcomes), and only what is proved inductive is assumed.  Nothing is unrolled
unless the condition is a concrete constant."""
import itertools, os
import z3
from sym import *
import sym as _sym
from algebra import LOG
from logic import is_uf


class GhostFn(V):
    """ghost map"""
    def __init__(self, fn, isorts, sort):
        self.fn, self.isorts, self.sort = fn, isorts, sort

    def get(self, *i):
        return self.fn(*i)

    def set(self, i, v):
        old = self.fn
        return GhostFn(lambda j: ite(ieq(j, i), v, lambda: old(j)), self.isorts, self.sort)


MAXUNROLL = 64


def dbg(*a):
    if os.environ.get('OPV_HOU'):
        print('        drop', a[0], a[1].name, str(a[2]).replace('\n', ' ')[:int(os.environ['OPV_HOU'])])



def same(a, b):
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.get_id() == b.get_id()
    if isinstance(a, VecV) and isinstance(b, VecV):
        return a.fn is b.fn and same(a.n, b.n)
    if isinstance(a, MatV) and isinstance(b, MatV):
        return a.fn is b.fn and same(a.r, b.r) and same(a.c, b.c)
    if isinstance(a, TripV) and isinstance(b, TripV):
        return a.fn is b.fn and same(a.n, b.n)
    if isinstance(a, GhostFn) and isinstance(b, GhostFn):
        return a.fn is b.fn
    if isinstance(a, OptV) and isinstance(b, OptV):
        return same(a.has, b.has) and same(a.val, b.val)
    if isinstance(a, IterV) and isinstance(b, IterV):
        return a.loc == b.loc and (a.pos == b.pos if isinstance(a.pos, str) or isinstance(b.pos, str) else same(a.pos, b.pos))
    if isinstance(a, MapV) and isinstance(b, MapV):
        return a.base == b.base and len(a.entries) == len(b.entries) and all(same(p, q) for e, f in zip(a.entries, b.entries) for p, q in zip(e, f))
    if isinstance(a, (ObjV, Ptr, SPtr, TypeInfo)):
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    return False


class Slot:
    """a modified piece of state: scalar ('s'), array ('a', arity) """
    def __init__(self, key, path, kind, sort, isorts=(), n=None):
        self.key, self.path, self.kind, self.sort, self.isorts = key, path, kind, sort, isorts

    def get(self, mem):
        v = mem[self.key]
        if self.path == '':
            return v
        return getattr(v, self.path)

    def at(self, mem, *i):
        return self.get(mem)(*i)

    def __repr__(self):
        return 'Slot(%s.%s)' % (self.key, self.path)


def elem_sort(fn, isorts):
    a = [z3.Const('es#%d' % k, s) for k, s in enumerate(isorts)]
    r = fn(*a)
    if isz(r):
        return r.sort()
    if isinstance(r, SPtr):
        return r
    raise Unsupported('array element in loop')


def havoc(x, key, v, changed_n):
    """fresh value of the same shape; returns value and slots"""
    nm = 'h'
    if key[0] == 'v':
        nm = 'v%s' % str(key[2])[-4:]
    elif key[0] == 'f':
        nm = str(key[3])
    elif key[0] == 'ghost':
        nm = str(key[1])
    S = []
    if isz(v):
        c = x.fresh(nm, v.sort())
        if v.sort() == IS:
            k = x.cell_kind(key)
            if isinstance(k, tuple):
                lo, hi = (-(1 << (k[0] - 1)), (1 << (k[0] - 1)) - 1) if k[1] else (0, (1 << k[0]) - 1)
                x.assume(z3.And(c >= lo, c <= hi))
                if k[1] and x.report is not None:
                    x.report.assumed('signed integer arithmetic does not overflow (loop counters stay in the range of their type)')
        return c, [Slot(key, '', 's', v.sort())]
    if isinstance(v, VecV):
        es = elem_sort(v.fn, [IS])
        n = v.n
        if changed_n:
            n = x.fresh(nm + '.n', IS)
            S.append(Slot(key, 'n', 's', IS))
        if isinstance(es, SPtr):
            f = x.freshf(nm, IS, REF)
            return VecV(n, lambda i: SPtr(es.cls, f(i), es.weak), v.kind, v.et), S
        f = x.freshf(nm, IS, es)
        S.append(Slot(key, 'fn', 'a', es, [IS]))
        return VecV(n, lambda i: f(i), v.kind, v.et, v.arr), S
    if isinstance(v, MatV):
        f = x.freshf(nm, IS, IS, RS)
        return MatV(v.r, v.c, lambda i, j: f(i, j), v.arr, v.sparse), [Slot(key, 'fn', 'a', RS, [IS, IS])]
    if isinstance(v, TripV):
        f = x.freshf(nm, IS, IS, RS)
        n = x.fresh(nm + '.n', IS)
        return TripV(n, lambda i, j: f(i, j)), [Slot(key, 'n', 's', IS), Slot(key, 'fn', 'a', RS, [IS, IS])]
    if isinstance(v, GhostFn):
        f = x.freshf(nm, *(list(v.isorts) + [v.sort]))
        return GhostFn(lambda *i: f(*i), v.isorts, v.sort), [Slot(key, 'fn', 'a', v.sort, list(v.isorts))]
    if isinstance(v, OptV):
        if not isz(v.val):
            raise Unsupported('optional object modified in loop')
        h = x.fresh(nm + '.has', BS)
        c = x.fresh(nm + '.val', v.val.sort())
        return OptV(h, c), [Slot(key, 'has', 's', BS), Slot(key, 'val', 's', v.val.sort())]
    if isinstance(v, IterV) and not isinstance(v.pos, str):
        c = x.fresh(nm + '.pos', IS)
        return IterV(v.loc, c), [Slot(key, 'pos', 's', IS)]
    if isinstance(v, SPtr):
        return SPtr(v.cls, x.fresh(nm, REF), v.weak, v.alive), []
    if isinstance(v, Opaque):
        return v, []
    raise Unsupported('%s modified in a loop' % type(v).__name__)


class Exit(Exception):
    pass


class Cand:
    def __init__(self, name, fn, core=False, pos=None, smt=False):
        self.smt = smt          # equations of this candidate are worth the SMT solver
        self.name, self.fn, self.core, self.pos = name, fn, core, pos


def is_mod(u):
    return z3.is_app(u) and u.decl().kind() in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV)


def run_loop(x, node, cf, bf, nf):
    # ---- concrete prefix
    for _ in range(MAXUNROLL + 1):
        s = x.snap()
        c = cf()
        c = z3.simplify(c) if isz(c) else z3.BoolVal(bool(c))
        if z3.is_false(c):
            return
        if not z3.is_true(c):
            if _ == 0 or True:
                x.restore(s)
            break
        if _ == MAXUNROLL:
            x.restore(s)
            break
        try:
            x.iterate(node, bf, bf, nf)
        except Brk:
            return
    x.nloops += 1
    x.nloops_run += 1
    ck = (x.phase, x.trail, x.nloops, id(node) if isinstance(node, dict) else str(node))
    got = x.loop_cache.get(ck)
    frames = list(x.frames)
    if got is None:
        got = analyse(x, node, cf, bf, nf)
        x.loop_cache[ck] = (got, node)
    else:
        got = got[0]
    if not got:
        x.oblige(z3.BoolVal(False), 'loop has a feasible exit')
        raise Infeasible()
    t0 = x.trail
    nl, lk = x.nloops, list(x.loopk)
    i = x.pick(len(got))
    kind, val, snap = got[i]
    x.restore(snap)
    x.frames = frames
    x.loopk = lk
    x.nloops = nl
    x.trail = t0 + (('L', i),)
    if kind == 'return':
        raise Ret(val)
    if kind == 'throw':
        raise CppThrow(val.cls, val.val)


class LoopInfo:
    pass


def analyse(x, node, cf, bf, nf):
    S0 = x.snap()
    x.quiet += 1
    try:
        L = infer(x, node, cf, bf, nf, S0)
    finally:
        x.quiet -= 1
    if os.environ.get('OPV_INV') and not x.quiet:
        print('    loop', (node.get('kind') if isinstance(node, dict) else node), 'slots', len(L.slots))
        show(L)
    # ---- final pass with obligations on
    x.restore(L.S0)
    H = L.H
    x.restore(H)
    for c in L.inv:
        for f in L.forms(c, H[0], L.k):
            x.assume(f)
    x.loopk = x.loopk + [L.k]
    exits = []

    def body():
        c = cf()
        if not x.choose(c):
            raise Exit()
        x.iterate(node, bf, bf, nf)

    def wrapped():
        try:
            body()
        except Exit:
            return 'exit'
        return 'cont'
    outs = x.enumerate(wrapped)
    for kind, val, snap in outs:
        if kind == 'normal' and val == 'exit':
            exits.append(('normal', None, snap))
        elif kind == 'break':
            exits.append(('normal', None, snap))
        elif kind in ('return', 'throw'):
            exits.append((kind, val, snap))
    if not x.quiet:
        terminates(x, L, [snap for kind, val, snap in outs if kind == 'continue' or (kind == 'normal' and val == 'cont')], node)
    x.restore(S0)
    x.loop_info[id(node) if isinstance(node, dict) else str(node)] = [c.name for c in L.inv]
    return exits


def terminates(x, L, conts, node):
    """a variant: an integer bounded below that every completed iteration decreases, read off the conditions tested"""
    if not conts:
        return
    Hm, base = L.H[0], len(L.H[1])
    scal = [(s.get(Hm), s) for s in L.slots if s.kind == 's' and s.sort == IS]
    names = {h.decl().name() for h, _ in scal if h.num_args() == 0}
    cands, seen = [], set()

    def add(m):
        m = z3.simplify(m)
        if m.get_id() in seen:
            return
        seen.add(m.get_id())
        us = [u.decl().name() for u in subterms(m) if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        if any(n in names for n in us) and not any(n in L.hav and n not in names for n in us):
            cands.append(m)
    for s in conts:
        for h in s[1][base:]:
            if isinstance(h, All):
                continue
            for u in subterms(h):
                if not (z3.is_app(u) and u.num_args() == 2 and u.arg(0).sort() == IS):
                    continue
                a, b = u.arg(0), u.arg(1)
                if z3.is_lt(u) or z3.is_le(u):
                    add(b - a), add(a - b)
                elif z3.is_gt(u) or z3.is_ge(u):
                    add(a - b), add(b - a)
                elif z3.is_eq(u):
                    add(a - b), add(b - a)
    for m in cands:
        for off in (0, 1):
            goals = []
            for s in conts:
                post = z3.substitute(m, *[(h, sl.get(s[0])) for h, sl in scal])
                goals.append(z3.And(m + off >= 0, post < m))
            if all(x.pr.prove(s[1], g, quick=True)[0] == 'proved' for s, g in zip(conts, goals)):
                for s, g in zip(conts, goals):
                    x.restore(s)
                    x.oblige(g, 'the loop ends')
                return
    x.report.noterm.append('no variant found for a loop in %s' % (([f.rec['q'] for f in x.frames if f.rec is not None] or ['contract'])[-1]))


def infer(x, node, cf, bf, nf, S0):
    L = LoopInfo()
    mod = {}         # key -> changed_n

    def mkhavoc():
        x.restore(L.S0)
        slots = []
        for key in sorted(mod, key=str):
            v, s = havoc(x, key, x.mem[key], mod[key])
            x.mem[key] = v
            slots += s
        k = x.fresh('@k', IS)
        x.assume(k >= 0)
        return x.snap(), slots, k

    def one_iter():
        if not x.choose(cf()):
            raise Infeasible()
        x.iterate(node, bf, bf, nf)
    L.S0 = S0
    n0 = x.nloops_run
    # ---- modified set
    for _ in range(12):
        H, slots, k = mkhavoc()
        x.restore(H)
        x.loopk = x.loopk + [k]
        x.modonly += 1
        try:
            outs = x.enumerate(one_iter)
        finally:
            x.modonly -= 1
        grow = False
        lazy = set()
        for kind, val, s in outs:
            for key, v in s[0].items():
                if key in H[0]:
                    h = H[0][key]
                    if not same(v, h):
                        cn = isinstance(v, VecV) and isinstance(h, VecV) and not same(z3.simplify(v.n - h.n), z3.IntVal(0))
                        if kind in ('normal', 'continue'):
                            if key not in mod or (cn and not mod[key]):
                                mod[key] = mod.get(key, False) or cn
                                grow = True
                elif key[0] == 'f' and key[1] in L.S0[2] and L.S0[2][key[1]].lazy:
                    lazy.add(key)
        if lazy:
            # materialise lazily created fields of pre-existing objects before the loop
            x.restore(L.S0)
            for key in sorted(lazy, key=str):
                if key not in x.mem:
                    Cell(key).load(x)
            L.S0 = x.snap()
            grow = True
        if not grow:
            break
    else:
        raise Unsupported('loop modifies an unbounded set of cells')
    mem0 = L.S0[0]
    L.H, L.slots, L.k = H, slots, k
    L.nested = x.nloops_run > n0
    L.inv = []
    if x.modonly:
        return L
    if L.nested:
        x.restore(H)
        x.loopk = x.loopk + [k]
        outs = x.enumerate(one_iter)
    Hm = H[0]
    npc = len(H[1])
    hav = set()
    for s in slots:
        g = s.get(Hm)
        if s.kind == 's':
            hav.add(g.decl().name())
        else:
            hav.add(g(*[z3.Const('es#%d' % i, q) for i, q in enumerate(s.isorts)]).decl().name())
    L.hav = hav

    def forms(c, mem, kk):
        r = c.fn(mem, kk)
        if r is None:
            return []
        return [f for f in (r if isinstance(r, (list, tuple)) else [r]) if f is not None]
    L.forms = forms

    def free(t):
        """free of undetermined havoced symbols and of symbols created inside the iteration"""
        for u in subterms(t):
            if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = u.decl().name()
                if n in hav:
                    return False
                if '!' in n and n not in L.oldsyms and n != L.k.decl().name():
                    return False
        return True
    L.oldsyms = set()
    for h in H[1]:
        for t in ([h.guard, h.concl] if isinstance(h, All) else [h]):
            for u in subterms(t):
                if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    L.oldsyms.add(u.decl().name())
    for key, v in mem0.items():
        for t in terms_of(v):
            for u in subterms(t):
                if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    L.oldsyms.add(u.decl().name())
    for kk in L.S0[8]:
        L.oldsyms.add(kk.decl().name())
    L.free = free
    L.oldsyms -= hav
    L.oldsyms.discard(L.k.decl().name())

    def conts(outs):
        return [(v, s) for kind, v, s in outs if kind in ('normal', 'continue')]

    def explore(inv):
        """iteration outcomes from the havoced state under the given invariants"""
        mk = frozenset(id(c) for c in inv)
        if mk in memo:
            return memo[mk][0]
        x.restore(H)
        for c in inv:
            for f in forms(c, Hm, L.k):
                x.assume(f)
        x.loopk = x.loopk + [L.k]
        base = len(x.pc)
        o = x.enumerate(one_iter)
        memo[mk] = ((conts(o), base), list(inv))
        return conts(o), base
    memo = {}

    def init_ok(c):
        x.restore(L.S0)
        try:
            fs = forms(c, mem0, z3.IntVal(0))
        except Unsupported:
            return False
        for f in fs:
            if x.pr.prove(x.pc, f, quick=True)[0] != 'proved':
                dbg('init', c, f)
                return False
        return True

    def houdini(fixed, cands, inited=False, quick=True):
        if not inited:
            cands = [c for c in cands if init_ok(c)]
        while cands:
            # a body with loops is explored once per set of established invariants; the candidates are added as hypotheses
            outs, base = explore(fixed if L.nested else fixed + cands)
            hyp = [f for c in cands for f in forms(c, Hm, L.k)] if L.nested else []
            bad = set()
            for _, s in outs:
                for c in cands:
                    if id(c) in bad:
                        continue
                    ok = True
                    for f in forms(c, s[0], L.k + 1):
                        if x.pr.prove(s[1] + hyp, f, None if quick else 4.0 * x.pr.scale, quick='smt' if quick and c.smt else quick)[0] != 'proved':
                            ok = False
                            dbg('step', c, f)
                            if os.environ.get('OPV_PC') and os.environ['OPV_PC'] in str(f).replace('\n',' '):
                                cx = x.pr.ctx(s[1] + hyp)
                                print('PC', *[('ALL %s -> %s' % (h.guard, h.concl) if isinstance(h, All) else h) for h in s[1] + hyp], sep='\n    ')
                                print('RW', cx.rewrite(f), x.pr.prove(s[1] + hyp, f, 5.0)[0], 'rules', getattr(cx, 'sub', None), getattr(cx, 'grules', None))
                            break
                    if not ok:
                        bad.add(id(c))
            if not bad:
                break
            cands = [c for c in cands if id(c) not in bad]
        return cands

    def houdini2(fixed, cands, inited=False):
        """the prover is incomplete: a wrong candidate can mislead it, so dropped ones are retried alone"""
        if not inited:
            cands = [c for c in cands if init_ok(c)]
        got = houdini(fixed, cands, True)
        ids = {id(c) for c in got}
        left = [c for c in cands if id(c) not in ids]
        while left and len(left) < 40:
            more = []
            base_ = fixed + got
            for c in left:
                if houdini(base_ if L.nested else fixed + got, [c], True):
                    got = got + [c]
                    more.append(id(c))
            left = [c for c in left if id(c) not in more]
            if not more:
                break
        # the value written at a position nothing else writes to is worth the full prover
        for c in left:
            if c.pos and any(g.pos == c.pos and g.name == 'frame' for g in got) and houdini(fixed + got, [c], True, False):
                got = got + [c]
        return got

    # ---- stage 1: linear progress
    first = conts(outs)
    L.nout = len(first)
    # a counter compared with != stays on its side of the bound
    x.restore(H)
    pre = []
    cts = [v for kd, v, _ in x.enumerate(lambda: cf()) if kd == 'normal' and isz(v)]
    ints = {s.get(Hm).get_id(): s for s in slots if s.kind == 's' and s.sort == IS}
    for u in {u.get_id(): u for t in cts for u in subterms(t)}.values():
        if z3.is_eq(u) and u.arg(0).sort() == IS:
            for a, b in ((u.arg(0), u.arg(1)), (u.arg(1), u.arg(0))):
                if a.get_id() in ints and not any(z3.is_app(w) and w.decl().name() in hav for w in subterms(b)):
                    s = ints[a.get_id()]
                    pre += [Cand('side', lambda mem, kk, s=s, b=b: s.get(mem) <= b), Cand('side', lambda mem, kk, s=s, b=b: s.get(mem) >= b)]
    if pre:
        pre = houdini([], pre)
        if pre:
            first, _ = explore(pre)
    lin = {}
    L.lin = lin
    st1 = []
    for s in slots:
        if s.kind != 's' or s.sort not in (IS, RS):
            continue
        h = s.get(Hm)
        d = None
        ok = True
        for _, sn in first:
            dd = s.get(sn[0]) - h
            if any(z3.is_app_of(u, z3.Z3_OP_ITE) or is_mod(u) for u in subterms(dd)):
                dd = x.pr.ctx(sn[1]).rewrite(dd)
            dd = z3.simplify(dd, som=True)
            if d is None:
                d = dd
            elif d.get_id() != dd.get_id():
                ok = False
        if d is None or not ok or not free(d) or occurs(L.k, d):
            continue
        v0 = s.get(mem0)
        lin[(s.key, s.path)] = (s, d, v0)
        if s.sort == IS:
            st1.append(Cand('lin', lambda mem, kk, s=s, d=d, v0=v0: s.get(mem) == z3.simplify(v0 + d * kk), (s.key, s.path)))
        else:
            st1.append(Cand('lin', lambda mem, kk, s=s, d=d, v0=v0: s.get(mem) == v0 + d * z3.ToReal(kk), (s.key, s.path)))
    # monotone int bounds
    for s in slots:
        if s.kind == 's' and s.sort == IS and (s.key, s.path) not in lin:
            v0 = s.get(mem0)
            st1.append(Cand('ge0', lambda mem, kk, s=s: s.get(mem) >= 0))
            st1.append(Cand('lek', lambda mem, kk, s=s, v0=v0: s.get(mem) <= v0 + kk))
            st1.append(Cand('gev0', lambda mem, kk, s=s, v0=v0: s.get(mem) >= v0))
    # unchanged-in-fact slots
    for s in slots:
        if s.kind == 's' and (s.key, s.path) not in lin:
            v0 = s.get(mem0)
            st1.append(Cand('const', lambda mem, kk, s=s, v0=v0: s.get(mem) == v0, (s.key, s.path)))
        elif s.kind == 'a':
            vs = [z3.Const('j#%d' % i, q) for i, q in enumerate(s.isorts)]
            st1.append(Cand('constarr', lambda mem, kk, s=s, vs=vs: All(vs, z3.BoolVal(True), s.at(mem, *vs) == s.at(mem0, *vs)), (s.key, s.path)))
    L.inv = pre + houdini(pre, st1)
    stc = []
    # condition at the previous iteration
    x.restore(H)
    for c in L.inv:
        for f in forms(c, Hm, L.k):
            x.assume(f)
    conds = x.enumerate(lambda: cf())
    if len(conds) == 1 and conds[0][0] == 'normal' and isz(conds[0][1]):
        ct = conds[0][1]
        back = [(s.get(Hm), (s.get(Hm) - d) if s.sort == IS else s.get(Hm) - d) for s, d, v0 in lin.values()]
        if back:
            def prev(mem, kk):
                t = z3.substitute(ct, *back)
                sub = []
                for s in slots:
                    if s.kind == 's':
                        sub.append((s.get(Hm), s.get(mem)))
                t = z3.substitute(t, *sub)
                # arrays in the condition are left to the prover only when unmodified
                return z3.Or(kk == 0, t)
            if not any(is_uf(u) and u.decl().name() in hav for u in subterms(ct)):
                stc.append(Cand('cond', prev, True))
    if stc:
        L.inv = L.inv + houdini(L.inv, stc)
    # spec candidates that are plain (order facts etc.)
    st2 = []
    for gen in x.cands:
        for c in gen(x, L, node):
            st2.append(c)

    def plain():
        """specification candidates; some become inductive only with the invariants found later"""
        got = houdini2(L.inv, st2, True) if st2 else []
        L.inv = L.inv + got
        ids = {id(c) for c in got}
        st2[:] = [c for c in st2 if id(c) not in ids]
        return got
    st2 = [c for c in st2 if init_ok(c)]
    plain()
    # ---- stage 2..n : specification sequences, then derived candidates
    L.derived = set(c.core for c in L.inv if isinstance(c.core, tuple))

    def sequences():
        cs = [c for c in seq_cands(x, L, mem0) if c.core not in L.derived]
        got = houdini2(L.inv, cs) if cs else []
        L.inv = L.inv + got
        for c in got:
            if isinstance(c.core, tuple):
                L.derived.add(c.core)
        return got
    if sequences():
        plain()
    for rnd in range(4):
        outs, base = explore(L.inv)
        if not outs:
            break
        new = derive(x, L, outs, base, rnd)
        if os.environ.get('OPV_HOU'):
            print('       round', rnd, len(outs), [c.name for c in new])
        got = houdini2(L.inv, new) if new else []
        L.inv = L.inv + got
        if rnd < 3 and got:
            got = got + sequences()
            if st2:
                got = got + plain()
        if not got and (rnd or not new):
            break
    return L


def terms_of(v):
    if isz(v):
        return [v]
    if isinstance(v, VecV):
        r = v.fn(z3.Int('es#0'))
        return [v.n] + (terms_of(r))
    if isinstance(v, SPtr):
        return [v.term]
    if isinstance(v, (MatV,)):
        return [v.r, v.c, v.fn(z3.Int('es#0'), z3.Int('es#1'))]
    if isinstance(v, TripV):
        return [v.n, v.fn(z3.Int('es#0'), z3.Int('es#1'))]
    if isinstance(v, GhostFn):
        return [v.fn(*[z3.Const('es#%d' % i, s) for i, s in enumerate(v.isorts)])]
    if isinstance(v, OptV):
        return [v.has] + terms_of(v.val)
    if isinstance(v, IterV) and isz(v.pos):
        return [v.pos]
    return []


def merged(x, L, outs, base, getter, extra=()):
    """value of getter(mem) after one iteration, as one term over the havoced state:
    per-outcome rewriting in the outcome's context, merged by branch literals"""
    acc = None
    for _, s in reversed(outs):
        t = getter(s[0])
        if not isz(t):
            return None
        c = x.pr.ctx(s[1] + list(extra))
        t = c.rewrite(t)
        if len(outs) == 1:
            return t
        lits_ = branch_lits(x, L, s, base, extra)
        g = z3.And(*lits_) if lits_ else z3.BoolVal(True)
        acc = t if acc is None else (acc if acc.get_id() == t.get_id() else z3.If(g, t, acc))
    return acc


def branch_lits(x, L, s, base, extra=()):
    out = []
    pre = x.pr.ctx(s[1][:base] + list(extra))
    full = x.pr.ctx([h for h in s[1] if isinstance(h, All)] + [h for h in s[1] if not isinstance(h, All) and z3.is_eq(h)] + list(extra))
    for h in s[1][base:]:
        if isinstance(h, All):
            continue
        t = pre.rewrite(h)
        if not L.free(t):
            t = full.rewrite(h)
        if L.free(t) and not z3.is_true(z3.simplify(t)):
            if pre.decide(t) is True:
                continue
            out.append(t)
    return out


def subst_k(x, L, t, kk):
    return z3.substitute(t, (L.k, kk))


def derive(x, L, outs, base, rnd):
    import lib
    new = []
    Hm, k = L.H[0], L.k
    mem0 = L.S0[0]
    done = L.derived
    # history of the branch conditions:  forall j<k. C(j)
    if 'hist' not in done:
        dis = []
        ok = True
        for _, s in outs:
            ls = branch_lits(x, L, s, base)
            if not ls:
                ok = False
                break
            dis.append(z3.And(*ls))
        if ok and dis:
            C = z3.simplify(z3.Or(*dis)) if len(dis) > 1 else dis[0]
            if not z3.is_true(C) and L.free(C) and occurs(k, C):
                done.add('hist')
                j = z3.Int('j#h')
                new.append(Cand('hist', lambda mem, kk, C=C, j=j: All([j], z3.And(j >= 0, j < kk), z3.substitute(C, (k, j)))))
    for s in L.slots:
        if s.kind == 's' and s.sort in (RS, IS) and (s.key, s.path) not in done:
            h = s.get(Hm)
            d = merged(x, L, outs, base, lambda mem: s.get(mem) - h)
            if d is None:
                continue
            d = cancel(d, h)
            if d is None or not L.free(d):
                # overwritten in every iteration: the value of the last one
                val = merged(x, L, outs, base, lambda mem: s.get(mem))
                if val is not None and L.free(val) and ('last', s.key, s.path) not in done:
                    done.add(('last', s.key, s.path))
                    new.append(Cand('lastall', lambda mem, kk, s=s, val=val: s.get(mem) == z3.substitute(val, (k, z3.simplify(kk - 1)))))
                    new.append(Cand('last', lambda mem, kk, s=s, val=val: z3.Or(kk == 0, s.get(mem) == z3.substitute(val, (k, z3.simplify(kk - 1))))))
                continue
            done.add((s.key, s.path))
            v0 = s.get(mem0)
            i = z3.Int('i#')
            body = z3.substitute(d, (k, i))
            if s.sort == RS:
                new.append(Cand('sum', lambda mem, kk, s=s, v0=v0, body=body, i=i: s.get(mem) == v0 + lib.sum_term(body, i, kk)))
            else:
                new.append(Cand('isum', lambda mem, kk, s=s, v0=v0, body=body, i=i: s.get(mem) == v0 + lib.isum_term(body, i, kk)))
        elif s.kind == 'a' and (s.key, s.path) not in done:
            c = array_cands(x, L, s, outs, base)
            if any(d.name in ('map', 'addmap') for d in c):
                done.add((s.key, s.path))
            new += c
    return new


def cancel(t, h):
    """t is If-tree over (.. - h): remove h"""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = cancel(t.arg(1), h), cancel(t.arg(2), h)
        if a is None or b is None:
            return None
        return z3.If(t.arg(0), a, b)
    d, c = linear(t)
    if h.get_id() in d:
        return None
    r = [(u, v) for u, v in d.values()]
    if any(occurs(h, u) for u, _ in r):
        return None
    isint = t.sort() == IS
    acc = []
    for u, v in r:
        cv = z3.IntVal(int(v)) if isint else z3.RealVal(str(v))
        acc.append(u if v == 1 else cv * u)
    if c != 0 or not acc:
        acc.append(z3.IntVal(int(c)) if isint else z3.RealVal(str(c)))
    return z3.Sum(acc) if len(acc) > 1 else acc[0]


def minus(t, h, js, k):
    """t - h with the subtraction pushed into the branches; in a branch guarded by j == e, j is replaced by e"""
    if not z3.is_app_of(t, z3.Z3_OP_ITE):
        return t - h
    c = t.arg(0)
    sub = []
    for l in (c.children() if z3.is_and(c) else [c]):
        if z3.is_eq(l):
            for p, q in ((l.arg(0), l.arg(1)), (l.arg(1), l.arg(0))):
                if any(p.eq(j) for j in js) and not any(occurs(j, q) for j in js):
                    sub.append((p, q))
                    break
    a, ha = t.arg(1), h
    if sub:
        a, ha = z3.substitute(a, *sub), z3.substitute(h, *sub)
    return z3.If(c, z3.simplify(minus(a, ha, js, k), som=True), minus(t.arg(2), h, js, k))


def array_cands(x, L, s, outs, base):
    """written position = k+c or c-k in one coordinate: pointwise invariants"""
    k = L.k
    Hm, mem0 = L.H[0], L.S0[0]
    js = [z3.Const('j#%d' % i, q) for i, q in enumerate(s.isorts)]
    # find the write positions
    post = [s.at(sn[0], *js) for _, sn in outs]
    hterm = s.at(Hm, *js)
    res = []
    poss = []
    for ax, jv in enumerate(js):
        if jv.sort() != IS:
            continue
        for t, (_, sn) in zip(post, outs):
            c = x.pr.ctx(sn[1][:base])
            for u in subterms(t):
                if z3.is_eq(u) and u.arg(0).sort() == IS:
                    d, cc = linear(c.appsub(u.arg(0)) - c.appsub(u.arg(1)))
                    if jv.get_id() in d and abs(d[jv.get_id()][1]) == 1:
                        sg = d[jv.get_id()][1]
                        # j = -(rest)/sg
                        rest = []
                        for i_, (w, v) in d.items():
                            if i_ != jv.get_id():
                                rest.append((w, -v / sg))
                        c0 = -cc / sg
                        if any(v.denominator != 1 for _, v in rest):
                            continue
                        if any(w.eq(q) for w, _ in rest for q in js):
                            continue
                        kc = [v for w, v in rest if w.eq(k)]
                        if not kc or abs(kc[0]) != 1:
                            continue
                        off = z3.simplify(z3.Sum([z3.IntVal(int(v)) * w for w, v in rest if not w.eq(k)] + [z3.IntVal(int(c0))]))
                        if not L.free(off):
                            continue
                        key = (ax, int(kc[0]), off.get_id())
                        if key not in [p[0] for p in poss]:
                            poss.append((key, ax, int(kc[0]), off))
    # coordinates at which every write happens in this loop: all other elements keep their value
    rests = []
    for ax, jv in enumerate(js):
        if len(js) < 2 or jv.sort() != IS:
            continue
        for t, (_, sn) in zip(post, outs):
            c = x.pr.ctx(sn[1][:base])
            for u in subterms(t):
                if z3.is_eq(u) and u.arg(0).sort() == IS:
                    d, cc = linear(c.appsub(u.arg(0)) - c.appsub(u.arg(1)))
                    if jv.get_id() not in d or abs(d[jv.get_id()][1]) != 1:
                        continue
                    sg = d[jv.get_id()][1]
                    rest = [(w, -v / sg) for i_, (w, v) in d.items() if i_ != jv.get_id()]
                    if any(v.denominator != 1 for _, v in rest) or any(w.eq(q) for w, _ in rest for q in js):
                        continue
                    e = z3.simplify(z3.Sum([z3.IntVal(int(v)) * w for w, v in rest] + [z3.IntVal(int(-cc / sg))]))
                    if not L.free(e) or occurs(k, e) or ('rest', ax, e.get_id()) in L.derived:
                        continue
                    L.derived.add(('rest', ax, e.get_id()))
                    rests.append((jv, e))
                    res.append(Cand('rest', lambda mem, kk, s=s, js=js, jv=jv, e=e: All(js, jv != e, s.at(mem, *js) == s.at(mem0, *js))))
    per = {ax: len([p for p in poss if p[1] == ax]) for ax in range(len(js))}
    if 1 in per.values():        # one coordinate is written at a single position per iteration
        poss = [p for p in poss if per[p[1]] == 1]
    for key, ax, sg, off in poss:
        jv = js[ax]
        kj = z3.simplify(jv - off) if sg == 1 else z3.simplify(off - jv)      # iteration writing position jv
        pos = z3.simplify(k + off) if sg == 1 else z3.simplify(off - k)
        val = merged(x, L, outs, base, lambda mem: z3.substitute(s.at(mem, *js), (jv, pos)))
        if val is None:
            continue
        okval = L.free(val)
        for jw, e in rests:
            if okval or jw.eq(jv):
                continue
            v2 = merged(x, L, outs, base, lambda mem: z3.substitute(s.at(mem, *js), (jv, pos), (jw, e)))
            if v2 is not None and L.free(v2):
                res.append(Cand('map', lambda mem, kk, s=s, js=js, kj=kj, body=v2, jw=jw, e=e: All(js, z3.And(jw == e, kj >= 0, kj < kk), s.at(mem, *js) == z3.substitute(body, (k, kj)))))
        if okval:
            body = val
            res.append(Cand('map', lambda mem, kk, s=s, js=js, kj=kj, body=body: All(js, z3.And(kj >= 0, kj < kk), s.at(mem, *js) == z3.substitute(body, (k, kj))), pos=(str(s), key)))
        elif s.sort in (RS, IS):
            hp = z3.substitute(hterm, (jv, pos))
            d = merged(x, L, outs, base, lambda mem: minus(z3.substitute(s.at(mem, *js), (jv, pos)), hp, js, k))
            d2 = cancel(d, x.pr.ctx(L.H[1]).rewrite(hp)) if d is not None else None
            if d2 is not None and L.free(d2):
                res.append(Cand('addmap', lambda mem, kk, s=s, js=js, kj=kj, d2=d2: All(js, z3.And(kj >= 0, kj < kk), s.at(mem, *js) == s.at(mem0, *js) + z3.substitute(d2, (k, kj))), pos=(str(s), key)))
        if ('frame', s.key, s.path, key) in L.derived:
            continue
        L.derived.add(('frame', s.key, s.path, key))
        res.append(Cand('frame', lambda mem, kk, s=s, js=js, kj=kj: All(js, z3.Not(z3.And(kj >= 0, kj < kk)), s.at(mem, *js) == s.at(mem0, *js)), pos=(str(s), key)))
    return res


def seq_cands(x, L, mem0):
    out = []
    ctx = x
    ints = [s.get(mem0) for s in L.slots if s.kind == 's' and s.sort == IS]
    info = {'entry': ints, 'ks': list(L.S0[8]), 'slots': L.slots, 'mem0': mem0}
    j = z3.Int('j#0')
    down = [z3.simplify(v0 + o) for s, d, v0 in L.lin.values() if s.sort == IS and z3.is_int_value(d) and d.as_long() == -1 for o in (1, 0)]
    for F, pf in x.seqs:
        plist = pf(x, info) if callable(pf) else pf
        for p in plist:
            for s in L.slots:
                if s.sort != F.sort:
                    continue
                if s.kind == 's' and F.ni == 0:
                    for off in (0, 1, 2, -1):
                        out.append(Cand('seq', lambda mem, kk, s=s, F=F, p=p, off=off: s.get(mem) == F(*(list(p) + [z3.simplify(kk + off)])), (s.key, s.path)))
                    for M in down if s.sort == RS else ():
                        # summed from the last term to the first
                        out.append(Cand('rseq', lambda mem, kk, s=s, F=F, p=p, M=M: s.get(mem) == s.get(mem0) + F(*(list(p) + [M])) - F(*(list(p) + [z3.simplify(M - kk)])), (s.key, s.path)))
                    if s.sort == RS and getattr(x, 'logseq', False):
                        # the logarithm of the sequence, or of its ratio to the first element, is accumulated
                        v0 = s.get(mem0)
                        if any(is_uf(u) and u.decl().name() == 'log' for u in subterms(v0)):
                            out.append(Cand('lseq', lambda mem, kk, s=s, F=F, p=p: [F(*(list(p) + [kk])) > 0, s.get(mem) == LOG(F(*(list(p) + [kk])))], (s.key, s.path)))
                        elif z3.is_rational_value(v0) and v0.as_fraction() == 0:
                            out.append(Cand('lseq', lambda mem, kk, s=s, F=F, p=p: [F(*(list(p) + [kk])) > 0, s.get(mem) == LOG(F(*(list(p) + [kk])) / F(*(list(p) + [z3.IntVal(0)])))], (s.key, s.path)))
                    if s.sort == BS:
                        out.append(Cand('nseq', lambda mem, kk, s=s, F=F, p=p: s.get(mem) == z3.Not(F(*(list(p) + [kk]))), (s.key, s.path)))
                elif s.kind == 'a' and F.ni == 0 and s.isorts == [IS]:
                    for off in (0, 1, -1):
                        for hi in (0, 1, 2):
                            if hi + off < 0 and hi > 0:
                                continue
                            out.append(Cand('hseq', lambda mem, kk, s=s, F=F, p=p, off=off, hi=hi:
                                            All([j], z3.And(j >= 0, j < kk + hi), s.at(mem, j) == F(*(list(p) + [z3.simplify(j + off)]))), ('h', s.key, s.path)))
                            if L.nout > 1 and isinstance(mem0[s.key], VecV) and off == 0 and hi:
                                # the last elements are written under a condition
                                out.append(Cand('hseqn', lambda mem, kk, s=s, F=F, p=p, off=off, hi=hi:
                                                All([j], z3.And(j >= 0, j < kk + hi, j < mem[s.key].n), s.at(mem, j) == F(*(list(p) + [z3.simplify(j + off)]))), ('h', s.key, s.path)))
                elif s.kind == 'a' and F.ni == len(s.isorts) and F.isorts == s.isorts:
                    js = [z3.Const('j#%d' % i, q) for i, q in enumerate(s.isorts)]
                    for off in (0, 1):
                        lo = z3.BoolVal(True)
                        out.append(Cand('aseq', lambda mem, kk, s=s, F=F, p=p, off=off, js=js, lo=lo:
                                        All(js, rng(mem[s.key], js), s.at(mem, *js) == F(*(list(p) + [z3.simplify(kk + off)] + js))), (s.key, s.path)))
    return out


def rng(v, js):
    if isinstance(v, VecV):
        return z3.And(js[0] >= 0, js[0] < v.n)
    if isinstance(v, MatV):
        return z3.And(js[0] >= 0, js[0] < v.r, js[1] >= 0, js[1] < v.c)
    return z3.BoolVal(True)


def show(L):
    for c in L.inv:
        print('      inv', c.name, [str(f).replace('\n', ' ')[:160] for f in L.forms(c, L.H[0], L.k)])
