"""Obligation discharge.  Back ends: (a) an exact rewriting + algebra normaliser for real
equalities (algebra.py), with case splits; (b) z3; (c) cvc5 on what z3 leaves open.
A goal is 'proved' only when one of them derives it from the hypotheses."""
import time, itertools
import z3
from algebra import Algebra, TooBig, EXP, LOG, SQRT, POW

RS, IS, BS = z3.RealSort(), z3.IntSort(), z3.BoolSort()
STR = z3.DeclareSort('Str')
REF = z3.DeclareSort('Ref')


class All:
    """forall vars. guard -> concl"""
    def __init__(self, vars, guard, concl):
        self.vars, self.guard, self.concl = list(vars), guard, concl

    def inst(self, args):
        sub = list(zip(self.vars, args))
        return z3.substitute(self.guard, *sub), z3.substitute(self.concl, *sub)

    def __repr__(self):
        return 'All(%s: %s -> %s)' % (self.vars, self.guard, self.concl)


class Seq:
    """Specification sequence  F(p.., t): F(p,0)=base(p); F(p,t+1)=step(p,t,prev).
    With nidx>0, F is array valued: F(p.., t, i..)."""
    REG = {}

    def __init__(self, name, sort, psorts, base, step, isorts=()):
        self.name, self.sort = name, sort
        self.np, self.ni = len(psorts), len(isorts)
        self.psorts, self.isorts = list(psorts), list(isorts)
        self.f = z3.Function(name, *(list(psorts) + [IS] + list(isorts) + [sort]))
        self.base, self.step = base, step
        assert name not in Seq.REG, 'two specification sequences named ' + name
        Seq.REG[name] = self

    def __call__(self, *a):
        a = [toterm(x, s) for x, s in zip(a, self.psorts + [IS] + self.isorts)]
        return self.f(*a)

    def unfold_at(self, args):
        """args: full arg list with t at position np, meaning value at t given t>=1"""
        p, t, i = args[:self.np], args[self.np], args[self.np + 1:]
        tm = z3.simplify(t - 1)
        prev = (lambda *j: self.f(*(list(p) + [tm] + list(j)))) if self.ni else self.f(*(list(p) + [tm]))
        return self.step(*(list(p) + [tm, prev] + list(i)))

    def base_at(self, args):
        return self.base(*(list(args[:self.np]) + list(args[self.np + 1:])))


def toterm(x, s):
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return z3.IntVal(x) if s == IS else z3.RealVal(x)
    if s == RS and z3.is_expr(x) and x.sort() == IS:
        return z3.ToReal(x)
    return x


def is_const(t):
    return z3.is_app(t) and t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED


def is_uf(t):
    return z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED


def subterms(t, seen=None, out=None):
    if seen is None:
        seen, out = set(), []
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
        st.extend(x.children())
    return out


def occurs(c, t):
    i = c.get_id()
    return any(x.get_id() == i for x in subterms(t))


class LinErr(Exception):
    pass


def linear(t):
    """int/real term -> ({id:(term,coef)}, const); non linear parts are atoms"""
    from fractions import Fraction
    acc = {}
    c0 = [Fraction(0)]

    def go(t, m):
        if z3.is_int_value(t):
            c0[0] += m * t.as_long()
            return
        if z3.is_rational_value(t):
            c0[0] += m * Fraction(t.numerator_as_long(), t.denominator_as_long())
            return
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            for x in ch:
                go(x, m)
        elif k == z3.Z3_OP_SUB:
            go(ch[0], m)
            for x in ch[1:]:
                go(x, -m)
        elif k == z3.Z3_OP_UMINUS:
            go(ch[0], -m)
        elif k == z3.Z3_OP_MUL and len(ch) == 2 and (z3.is_int_value(ch[0]) or z3.is_rational_value(ch[0])):
            v = Fraction(ch[0].as_long()) if z3.is_int_value(ch[0]) else Fraction(ch[0].numerator_as_long(), ch[0].denominator_as_long())
            go(ch[1], m * v)
        elif k == z3.Z3_OP_MUL and len(ch) == 2 and (z3.is_int_value(ch[1]) or z3.is_rational_value(ch[1])):
            v = Fraction(ch[1].as_long()) if z3.is_int_value(ch[1]) else Fraction(ch[1].numerator_as_long(), ch[1].denominator_as_long())
            go(ch[0], m * v)
        else:
            i = t.get_id()
            o = acc.get(i)
            v = (o[1] if o else 0) + m
            acc[i] = (t, v)
    go(t, Fraction(1))
    return {i: v for i, v in acc.items() if v[1] != 0}, c0[0]


def solve_int_eq(a, b):
    """a==b over ints: return (const, term) with const eliminated, or None"""
    d, c = linear(a - b)
    best = None
    for i, (t, v) in d.items():
        if is_const(t) and abs(v) == 1:
            others = [x for j, (x, _) in d.items() if j != i]
            if any(occurs(t, x) for x in others):
                continue
            # prefer havoc'd / ghost constants (names with '!')
            nm = t.decl().name()
            rank = ((1 if nm.startswith('@k!') else 0) if '!' in nm else 2, -t.get_id())
            if best is None or rank < best[0]:
                best = (rank, t, v, i)
    if best is None:
        return None
    _, t, v, i = best
    s = z3.IntVal(0) if t.sort() == IS else z3.RealVal(0)
    terms = []
    for j, (x, w) in d.items():
        if j != i:
            q = -w / v
            if q.denominator != 1 and t.sort() == IS:
                return None
            if t.sort() == IS:
                terms.append(x if q == 1 else z3.IntVal(int(q)) * x)
            else:
                terms.append(x if q == 1 else z3.RealVal(str(q)) * x)
    q = -c / v
    if q.denominator != 1 and t.sort() == IS:
        return None
    if q != 0 or not terms:
        terms.append(z3.IntVal(int(q)) if t.sort() == IS else z3.RealVal(str(q)))
    return t, (z3.Sum(terms) if len(terms) > 1 else terms[0])


class Stats:
    def __init__(self):
        self.time = {}
        self.n = {}

    def add(self, be, t):
        self.time[be] = self.time.get(be, 0) + t
        self.n[be] = self.n.get(be, 0) + 1


LITS = {}


def lits(h, out):
    """flatten conjunctions"""
    if isinstance(h, All):
        out.append(h)
        return
    i = h.get_id()
    m = LITS.get(i)
    if m is None:
        o = []
        lits_(h, o)
        if len(LITS) > 200000:
            LITS.clear()
        m = LITS[i] = (h, o)
    out.extend(m[1])


def lits_(h, out):
    if z3.is_and(h):
        for c in h.children():
            lits(c, out)
    elif z3.is_not(h) and z3.is_or(h.arg(0)):
        for c in h.arg(0).children():
            lits(z3.Not(c), out)
    elif z3.is_not(h) and z3.is_not(h.arg(0)):
        lits(h.arg(0).arg(0), out)
    elif z3.is_not(h) and z3.is_implies(h.arg(0)):
        lits(h.arg(0).arg(0), out)
        lits(z3.Not(h.arg(0).arg(1)), out)
    else:
        out.append(h)


CMP = (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT)


class Ctx:
    """hypotheses prepared for rewriting and deciding"""
    def __init__(self, P, hyps, deep=True):
        self.P = P
        self.ground, self.alls = [], []
        fl = []
        for h in hyps:
            lits(h, fl)
        for h in fl:
            (self.alls if isinstance(h, All) else self.ground).append(h)
        self.sub = []            # ordered (const, term)
        self.submap = {}
        self.rules = {}
        self.memo = {}
        self.dec = {}
        self.solver = None
        self.model = False
        self._gs = None
        self.insts = []
        self._build_sub()
        for A in self.alls:
            self._add_rule(A)
        self.derived_eqs = False
        self.grules = None
        self.unf = []            # definitions of sequences unfolded so far (case distinctions only)

    # -- substitution
    def _try_eq(self, a, b):
        a, b = self.appsub(a), self.appsub(b)
        if a.get_id() == b.get_id():
            return False
        if a.sort() == IS or (a.sort() == RS and False):
            r = solve_int_eq(a, b)
            if r is None:
                return False
            c, t = r
        else:
            pick = None
            for x, y in ((a, b), (b, a)):
                if is_const(x) and not occurs(x, y):
                    rank = (0 if '!' in x.decl().name() else 1)
                    if pick is None or rank < pick[0]:
                        pick = (rank, x, y)
            if pick is None:
                return False
            c, t = pick[1], pick[2]
        if c.sort() == BS:
            return False
        t = z3.simplify(t, som=False, arith_lhs=False) if t.sort() == IS else t
        # compose
        self.sub = [(x, z3.substitute(y, (c, t))) for x, y in self.sub] + [(c, t)]
        self.submap = None
        return True

    def appsub(self, t):
        return z3.substitute(t, *self.sub) if self.sub else t

    def _build_sub(self):
        pend = [h for h in self.ground if z3.is_eq(h) and h.arg(0).sort() in (RS, IS, STR, REF)]
        for _ in range(3):
            ch = False
            rest = []
            for h in pend:
                if self._try_eq(h.arg(0), h.arg(1)):
                    ch = True
                else:
                    rest.append(h)
            pend = rest
            if not ch:
                break
        self.pend = pend

    def _ground_rules(self):
        """equations between applications: the one with more run-time symbols is rewritten to the other"""
        g = {}

        def nsym(t):
            return len({u.get_id() for u in subterms(t) if is_const(u) and '!' in u.decl().name() and not u.decl().name().startswith('@k')})
        for h in self.pend:
            a, b = self.appsub(h.arg(0)), self.appsub(h.arg(1))
            if a.get_id() == b.get_id():
                continue
            na, nb = nsym(a), nsym(b)
            if na < nb:
                a, b, na, nb = b, a, nb, na
            if na > nb and is_uf(a) and a.decl().name() not in Seq.REG:
                g[a.get_id()] = (a, b)
        self.grules = g

    def _derive_eqs(self):
        """a<=b with hyps |- a==b : add the equality (loop exits).  Done before the first rewriting."""
        self.derived_eqs = True
        # a loop that ran at least once: (k = 0 or x = value of the last iteration)
        for g in self.gsub():
            if z3.is_or(g) and g.num_args() == 2:
                for p, q in ((0, 1), (1, 0)):
                    e, c = g.arg(p), g.arg(q)
                    if z3.is_eq(e) and z3.is_eq(c) and c.arg(0).sort() == IS and e.arg(0).sort() in (RS, IS) and is_const(e.arg(0)) and '!' in e.arg(0).decl().name() \
                            and self.decide(c) is False:
                        if self._try_eq(e.arg(0), e.arg(1)):
                            self.memo = {}
                        break
        cand = []
        seen = set()
        for g in self.gsub():
            if z3.is_not(g):
                g = g.arg(0)
            if g.decl().kind() not in CMP:
                continue
            if g.get_id() in seen:
                continue
            seen.add(g.get_id())
            a, b = g.arg(0), g.arg(1)
            if a.sort_kind() != z3.Z3_INT_SORT:
                continue
            cand.append((a, b, a - b))
        if not cand:
            return
        s = self.get_solver()
        t0 = time.time()
        m = self.some_model()
        self.P.stats.add('z3-side', time.time() - t0)
        for a, b, d in cand:
            offs = (0, 1, -1)
            if m is not None:
                v = m.eval(d, model_completion=True)
                if z3.is_int_value(v):
                    v = v.as_long()
                    if v not in offs:
                        continue
                    offs = (v,)
            for off in offs:
                a2, b2 = self.appsub(a), self.appsub(b)
                if self.decide(a2 == b2 + off) is True:
                    if self._try_eq(a2, b2 + off):
                        self.memo = {}
                    break

    # -- quantified facts as rewrite rules
    def _add_rule(self, A):
        r = getattr(A, '_rule', None)
        if r is None:
            r = A._rule = self._rule_of(A)
        if r:
            self.rules.setdefault(r[0], []).append(r[1])

    def _rule_of(self, A):
        g = A.concl
        if z3.is_eq(g):
            for l, r in ((g.arg(0), g.arg(1)), (g.arg(1), g.arg(0))):
                if is_uf(l) and l.decl().name() not in Seq.REG:
                    pat = self._pattern(l, A.vars)
                    if pat is not None and not any(is_uf(x) and x.decl().eq(l.decl()) and self._hasvar(x, A.vars) for x in subterms(r)):
                        return l.decl().name(), (A, l, pat, r)
        return ()

    def _hasvar(self, t, vs):
        ids = {v.get_id() for v in vs}
        return any(x.get_id() in ids for x in subterms(t))

    def _pattern(self, l, vs):
        """each arg: ('v',k,off) or ('g',term); all vars covered"""
        ids = {v.get_id(): k for k, v in enumerate(vs)}
        pat, cov = [], set()
        for a in l.children():
            if a.get_id() in ids:
                pat.append(('v', ids[a.get_id()], 0))
                cov.add(ids[a.get_id()])
                continue
            if a.sort() == IS:
                d, c = linear(a)
                hit = [(i, v) for i, (t, v) in d.items() if i in ids]
                if len(hit) == 1 and len(d) == 1 and hit[0][1] == 1 and c.denominator == 1:
                    pat.append(('v', ids[hit[0][0]], int(c)))
                    cov.add(ids[hit[0][0]])
                    continue
                if hit:
                    return None
            elif self._hasvar(a, vs):
                return None
            pat.append(('g', a))
        return pat if len(cov) == len(vs) else None

    def match(self, pat, args, nv):
        b = [None] * nv
        guards = []
        for p, a in zip(pat, args):
            if p[0] == 'v':
                v = a if p[2] == 0 else z3.simplify(a - p[2])
                if b[p[1]] is None:
                    b[p[1]] = v
                elif b[p[1]].get_id() != v.get_id():
                    guards.append(b[p[1]] == v)
            else:
                pa = self.appsub(p[1])
                if pa.get_id() != a.get_id():
                    if a.sort() == IS and z3.simplify(pa == a).get_id() == z3.BoolVal(True).get_id():
                        continue
                    guards.append(pa == a)
        return b, guards

    def gsub(self):
        """the ground hypotheses under the substitution"""
        if not self.ground:
            return []
        if self._gs is None or self._gs[0] != len(self.sub):
            self._gs = (len(self.sub), self.appsub(z3.And(*self.ground)).children() if len(self.ground) > 1 else [self.appsub(self.ground[0])])
        return self._gs[1]

    # -- deciding side conditions
    def get_solver(self):
        if self.solver is None:
            s = z3.Solver()
            s.set('timeout', int(500 * self.P.scale))
            for g in self.gsub():
                s.add(self.P.linabs(g))
            self.solver = s
        return self.solver

    def some_model(self):
        if self.model is False:
            s = self.get_solver()
            self.model = s.model() if s.check() == z3.sat else None
        return self.model

    def decide(self, g):
        g = z3.simplify(self.appsub(g))
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        i = g.get_id()
        if i in self.dec:
            return self.dec[i][1]
        r = None
        s = self.get_solver()
        t0 = time.time()
        neg = z3.Not(g)
        for h in self.ground:
            if h.get_id() == i:
                r = True
        if r is None:
            # one model of the hypotheses refutes one of the two sides
            mv = None
            m = self.some_model()
            if m is not None:
                mv = m.eval(g, model_completion=True)
            if not (mv is not None and z3.is_false(mv)) and s.check(neg) == z3.unsat:
                r = True
            elif not (mv is not None and z3.is_true(mv)) and s.check(g) == z3.unsat:
                r = False
            if r is None and not self.P.cheap(g):
                # the same with products and quotients as opaque terms
                ga = self.P.linabs(g)
                mv = m.eval(ga, model_completion=True) if m is not None else None
                if not (mv is not None and z3.is_false(mv)) and s.check(z3.Not(ga)) == z3.unsat:
                    r = True
                elif not (mv is not None and z3.is_true(mv)) and s.check(ga) == z3.unsat:
                    r = False
        self.P.stats.add('z3-side', time.time() - t0)
        self.dec[i] = (g, r)
        return r

    def decide_unfolded(self, g):
        """does g follow with the definitions unfolded so far?  (hypotheses may mention the folded terms)"""
        k = (g.get_id(), len(self.unf))
        if k not in self.dec:
            s = z3.Solver()
            s.set('timeout', int(200 * self.P.scale))
            for h in self.gsub():
                s.add(self.P.linabs(h))
            for h in self.unf:
                s.add(self.P.linabs(h))
            s.add(z3.Not(self.P.linabs(g)))
            t0 = time.time()
            self.dec[k] = (g, s.check() == z3.unsat)
            self.P.stats.add('z3-side', time.time() - t0)
        return self.dec[k][1]

    # -- rewriting
    def rewrite(self, t, depth=0):
        if depth > 60:
            return t
        if not self.derived_eqs:
            self._derive_eqs()
        i = t.get_id()
        m = self.memo.get(i)
        if m is not None:
            return m[1]
        if self.grules is None:
            self._ground_rules()
        if i in self.grules:
            r = self.rewrite(self.grules[i][1], depth + 1)
        else:
            r = self._rw(t, depth)
        self.memo[i] = (t, r)
        return r

    def _rw(self, t, depth):
        if not z3.is_app(t):
            return t
        n = t.num_args()
        if n == 0:
            if self.sub and is_const(t):
                r = self.appsub(t)
                if r.get_id() != t.get_id():
                    return self.rewrite(r, depth + 1)
            return t
        if z3.is_app_of(t, z3.Z3_OP_MOD) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 65536:
            a = self.rewrite(t.arg(0), depth)       # no wrap-around
            return a if self.decide(z3.And(a >= 0, a < t.arg(1))) is True else a % t.arg(1)
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c = self.rewrite(t.arg(0), depth)
            d = self.decide(c)
            if d is True:
                return self.rewrite(t.arg(1), depth)
            if d is False:
                return self.rewrite(t.arg(2), depth)
            a, b = self.rewrite(t.arg(1), depth), self.rewrite(t.arg(2), depth)
            if a.get_id() == b.get_id():
                return a
            m = minmax(c, a, b)
            if m is None:
                return z3.If(c, a, b)
            lo, hi = m.arg(0).arg(0), m.arg(0).arg(1)
            if self.decide(m.arg(0)) is True:
                return m.arg(1)
            if self.decide(hi <= lo) is True:
                return m.arg(2)
            if self.unf:
                if self.decide_unfolded(lo <= hi):
                    return m.arg(1)
                if self.decide_unfolded(hi <= lo):
                    return m.arg(2)
            return m
        ch = [self.rewrite(c, depth) for c in t.children()]
        # int arguments canonical
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            ch = [z3.simplify(c) if c.sort() == IS and not is_const(c) else c for c in ch]
            name = t.decl().name()
            if self.grules:
                g = self.grules.get(t.decl()(*ch).get_id())
                if g is not None:
                    return self.rewrite(g[1], depth + 1)
            sq = Seq.REG.get(name)
            if sq is not None:
                tt = ch[sq.np]
                if z3.is_int_value(tt):
                    if tt.as_long() == 0:
                        return self.rewrite(sq.base_at(ch), depth + 1)
                    if tt.as_long() > 0:
                        return self.rewrite(sq.unfold_at(ch), depth + 1)
                else:
                    d, c = linear(tt)
                    if c >= 1 and self.decide(tt >= 1) is True:
                        r = self.rewrite(sq.unfold_at(ch), depth + 1)
                        if z3.is_app_of(r, z3.Z3_OP_ITE) and len(self.unf) < 12:
                            self.unf.append(t.decl()(*ch) == r)
                        return r
                    if c == 0 and self.decide(tt == 0) is True:
                        return self.rewrite(sq.base_at(ch), depth + 1)
                    # a loop running downwards: the value before the step in terms of the one after it
                    if c == 0 and any(v < 0 and is_const(w) and w.decl().name().startswith('@k') for w, v in d.values()) and self.decide(tt >= 1) is True:
                        return self.rewrite(sq.unfold_at(ch), depth + 1)
            und = []
            for A, l, pat, rhs in self.rules.get(name, ()):
                b, gs = self.match(pat, ch, len(A.vars))
                if any(x is None for x in b):
                    continue
                sub = list(zip(A.vars, b))
                g = z3.And(*([z3.substitute(A.guard, *sub)] + gs)) if gs else z3.substitute(A.guard, *sub)
                d = self.decide(g)
                if d is True:
                    return self.rewrite(z3.substitute(rhs, *sub), depth + 1)
                if d is None:
                    und.append((g, rhs, sub))
            if und and depth < 40:
                g, rhs, sub = und[0]
                r = self.rewrite(z3.substitute(rhs, *sub), depth + 1)
                rest = t.decl()(*ch)
                # other rules may cover the complement
                for g2, rhs2, sub2 in und[1:]:
                    if self.decide(z3.Or(g, g2)) is True:
                        rest = self.rewrite(z3.substitute(rhs2, *sub2), depth + 1)
                        break
                g = self.rewrite(g, depth + 1)
                return z3.If(g, r, rest)
        r = rebuild(t, ch)
        if t.sort() == BS or t.decl().kind() in (z3.Z3_OP_TO_REAL, z3.Z3_OP_TO_INT):
            r = z3.simplify(r)
        return r


def minmax(c, a, b):
    """if c compares exactly the two branches: one canonical term for max / min (real arithmetic)"""
    neg = False
    while z3.is_not(c):
        neg, c = not neg, c.arg(0)
    k = c.decl().kind()
    if k not in CMP:
        return None
    p, q = c.arg(0), c.arg(1)
    if {p.get_id(), q.get_id()} != {a.get_id(), b.get_id()}:
        pv = z3.simplify(p), z3.simplify(q)
        if {pv[0].get_id(), pv[1].get_id()} != {z3.simplify(a).get_id(), z3.simplify(b).get_id()}:
            return None
        p, q = (a, b) if pv[0].get_id() == z3.simplify(a).get_id() else (b, a)
    # p less than q (up to equality)?
    less = (k in (z3.Z3_OP_LE, z3.Z3_OP_LT)) != neg
    lo, hi = (p, q) if less else (q, p)      # when c holds lo<=hi
    ismax = hi.get_id() == a.get_id()        # the branch taken when lo<=hi
    u, v = (p, q) if p.get_id() < q.get_id() else (q, p)
    return z3.If(v <= u, u, v) if ismax else z3.If(u <= v, u, v)


def rebuild(t, ch):
    if all(a.get_id() == b.get_id() for a, b in zip(t.children(), ch)):
        return t
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if k == z3.Z3_OP_MUL:
        r = ch[0]
        for c in ch[1:]:
            r = r * c
        return r
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    return t.decl()(*ch)


def replace_index(t, a, b, memo=None):
    """t with every integer subterm that differs from a by a constant rewritten in terms of b (where a == b)"""
    memo = {} if memo is None else memo
    i = t.get_id()
    if i in memo:
        return memo[i]
    r = None
    if t.sort() == IS and not z3.is_int_value(t):
        d = z3.simplify(t - a)
        if z3.is_int_value(d):
            r = z3.simplify(b + d)
    if r is None:
        ch = [replace_index(c, a, b, memo) for c in t.children()]
        r = rebuild(t, ch) if ch else t
    memo[i] = r
    return r


def find_ite(t):
    """an If condition that itself contains no If"""
    best = None
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c = x.arg(0)
            if not any(z3.is_app_of(y, z3.Z3_OP_ITE) for y in subterms(c)):
                return c
        st.extend(x.children())
    return best


class Prover:
    def __init__(self, timeout=8.0):
        self.timeout = timeout
        self.stats = Stats()
        self.cheapmemo = {}
        self.absmemo = {}
        self.abscon = {}
        self.global_axioms = []
        self.strlits = {}
        self.ctxcache = {}
        self.scale = 1.0

    def cheap(self, h):
        """is the hypothesis cheap enough for side-condition deciding (no nonlinear real products)"""
        i = h.get_id()
        r = self.cheapmemo.get(i)
        if r is None:
            ok = True
            for x in subterms(h):
                if z3.is_app(x):
                    k = x.decl().kind()
                    if k in (z3.Z3_OP_MUL,):
                        nn = [c for c in x.children() if not (z3.is_int_value(c) or z3.is_rational_value(c))]
                        if len(nn) > 1:
                            ok = False
                            break
                    elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                        if not (z3.is_int_value(x.arg(1)) or z3.is_rational_value(x.arg(1))):
                            ok = False
                            break
                    elif k == z3.Z3_OP_POWER:
                        ok = False
                        break
                    elif z3.is_fp(x):
                        pass
            r = (h, ok)
            self.cheapmemo[i] = r
        return r[1]

    def linabs(self, t):
        """products and quotients replaced by opaque constants (equal terms by the same one): weaker hypotheses, linear problem"""
        if self.cheap(t):
            return t
        i = t.get_id()
        r = self.absmemo.get(i)
        if r is not None:
            return r[1]
        nl = False
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_MUL:
                nl = sum(not (z3.is_int_value(c) or z3.is_rational_value(c)) for c in t.children()) > 1
            elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                nl = not (z3.is_int_value(t.arg(1)) or z3.is_rational_value(t.arg(1)))
            elif k == z3.Z3_OP_POWER:
                nl = True
        if nl:
            q = z3.simplify(t)
            c = self.abscon.get(q.get_id())
            if c is None:
                c = (q, z3.FreshConst(t.sort(), 'nl'))
                self.abscon[q.get_id()] = c
            out = c[1]
        else:
            out = rebuild(t, [self.linabs(c) for c in t.children()])
        self.absmemo[i] = (t, out)
        return out

    def lit(self, s):
        c = self.strlits.get(s)
        if c is None:
            c = z3.Const('str:' + s, STR)
            self.strlits[s] = c
        return c

    def straxioms(self):
        v = list(self.strlits.values())
        return [z3.Distinct(*v)] if len(v) > 1 else []

    def ctx(self, hyps):
        key = tuple(id(h) if isinstance(h, All) else h.get_id() for h in hyps)
        c = self.ctxcache.get(key)
        if c is None:
            if len(self.ctxcache) > 60:
                self.ctxcache.clear()
            c = (Ctx(self, hyps), list(hyps))
            self.ctxcache[key] = c
        return c[0]

    # ---- entry
    def prove(self, hyps, goal, timeout=None, quick=False):
        """-> (status, info): status in proved/refuted/unknown"""
        timeout = timeout or self.timeout
        if isinstance(goal, All):
            fresh = [z3.FreshConst(v.sort(), 'sk!') for v in goal.vars]
            g, c = goal.inst(fresh)
            return self.prove(list(hyps) + [g], c, timeout, quick)
        if isinstance(goal, (list, tuple)):
            for g in goal:
                r = self.prove(hyps, g, timeout, quick)
                if r[0] != 'proved':
                    return r
            return ('proved', None)
        if goal is True:
            return ('proved', 'trivial')
        if goal is False:
            goal = z3.BoolVal(False)
        if z3.is_and(goal):
            return self.prove(hyps, list(goal.children()), timeout, quick)
        if z3.is_implies(goal):
            return self.prove(list(hyps) + [goal.arg(0)], goal.arg(1), timeout, quick)
        if z3.is_true(goal):
            return ('proved', 'trivial')
        t0 = time.time()
        if z3.is_eq(goal) and goal.arg(0).sort() in (RS, IS):
            try:
                r = self.eq(hyps, goal.arg(0), goal.arg(1), 7)
            except TooBig:
                r = False
            self.stats.add('algebra', time.time() - t0)
            if r:
                return ('proved', 'algebra')
            if self.infeasible(hyps):
                return ('proved', 'z3')
            if quick is True:
                return ('unknown', None)
            if not quick and self.has_all(hyps) and self.index_cases(hyps, goal):
                return ('proved', 'algebra')
        return self.smt(hyps, goal, timeout, quick)

    def index_cases(self, hyps, goal, depth=3):
        """equation between terms over sequences at unresolved positions: resolve which positions coincide, by the prover or by cases"""
        c = self.ctx(hyps)
        g = z3.simplify(c.appsub(goal))
        apps = {}
        for u in subterms(g):
            if is_uf(u) and u.decl().name() not in Seq.REG:
                for i, a in enumerate(u.children()):
                    if a.sort() == IS:
                        apps.setdefault((u.decl().name(), i), {})[a.get_id()] = a
        pairs, seen = [], set()
        for idx in apps.values():
            v = list(idx.values())
            for i in range(len(v)):
                for j in range(i):
                    d = z3.simplify(v[i] - v[j])
                    if z3.is_int_value(d) or d.get_id() in seen:
                        continue
                    seen.add(d.get_id())
                    pairs.append((d, v[i], v[j]))
        pairs.sort(key=lambda p: len(str(p[0])))
        open_ = []
        for d, a, b in pairs[:12]:
            e = a == b
            if self.smt(hyps, e, 2.0, True)[0] == 'proved':
                return self.with_eq(hyps, goal, a, b, depth)
            if self.smt(hyps, z3.Not(e), 2.0, True)[0] != 'proved':
                open_.append((a, b))
        if depth <= 0 or not open_:
            return False
        a, b = open_[0]
        return self.with_eq(hyps, goal, a, b, depth - 1) and self.index_rest(list(hyps) + [z3.Not(a == b)], goal, depth - 1)

    def with_eq(self, hyps, goal, a, b, depth):
        return self.index_rest(list(hyps) + [a == b], goal, depth - 1, (a, b))

    def index_rest(self, hyps, goal, depth, ab=None):
        if ab is not None:
            c, k = ab if len(str(ab[0])) >= len(str(ab[1])) else (ab[1], ab[0])
            goal = replace_index(goal, c, k)
        try:
            if self.eq(hyps, goal.arg(0), goal.arg(1), 5):
                return True
        except TooBig:
            pass
        if self.smt(hyps, z3.BoolVal(False), 2.0, True)[0] == 'proved':
            return True
        return depth > 0 and self.index_cases(hyps, goal, depth)

    def eq(self, hyps, a, b, splits):
        if a.sort() == IS or b.sort() == IS:
            pass
        c = self.ctx(hyps)
        a2, b2 = c.rewrite(a), c.rewrite(b)
        a2, b2 = self.pull(a2), self.pull(b2)
        if a2.get_id() == b2.get_id():
            return True
        cond = find_ite(a2)
        if cond is None:
            cond = find_ite(b2)
        if cond is not None:
            if splits <= 0:
                return False
            d = c.decide(cond)
            if d is not None:
                v = z3.BoolVal(d)
                return self.eq(hyps, z3.substitute(a2, (cond, v)), z3.substitute(b2, (cond, v)), splits)
            for v, h in ((True, cond), (False, z3.Not(cond))):
                aa = z3.substitute(a2, (cond, z3.BoolVal(v)))
                bb = z3.substitute(b2, (cond, z3.BoolVal(v)))
                hy = list(hyps) + [h]
                if self.infeasible(hy):
                    continue
                if not self.eq(hy, aa, bb, splits - 1):
                    if self.has_all(hy) and self.smt(hy, z3.BoolVal(False), 1.0, True)[0] == 'proved':
                        continue
                    return False
            return True
        if a2.sort() == IS:
            if z3.simplify(a2 == b2).get_id() == z3.BoolVal(True).get_id():
                return True
            if c.decide(a2 == b2) is True:
                return True
        alg = Algebra(nonneg=lambda t: c.decide(t >= 0) is True, positive=lambda t: c.decide(t > 0) is True)
        return alg.equal(a2, b2)

    def pull(self, t):
        return t

    def infeasible(self, hyps):
        c = self.ctx(hyps)
        return c.get_solver().check() == z3.unsat

    # ---- z3 / cvc5
    def prepare(self, hyps, goal):
        """ground hypotheses plus instances for the ground terms of the problem"""
        c = self.ctx(hyps)
        ground = [c.appsub(h) for h in c.ground]
        neg = z3.Not(goal)
        fs = ground + [c.appsub(goal)]
        done = set()
        extra = []
        seen, terms = set(), []
        for f in fs:
            subterms(f, seen, terms)
        goalterms = {x.get_id() for x in subterms(fs[-1])}
        idx = 0
        rounds = 0
        n = 0
        frontier = list(terms)
        while frontier and rounds < 3 and n < 600:
            rounds += 1
            new = []
            for t in frontier:
                if not is_uf(t):
                    continue
                name = t.decl().name()
                sq = Seq.REG.get(name)
                if sq is not None:
                    ch = t.children()
                    tt = ch[sq.np]
                    key = ('seq', t.get_id())
                    if key not in done and (rounds <= 2):
                        done.add(key)
                        d, cc = linear(tt)
                        if z3.is_int_value(tt):
                            if tt.as_long() == 0:
                                new.append(t == sq.base_at(ch))
                            elif tt.as_long() > 0:
                                new.append(t == sq.unfold_at(ch))
                        else:
                            new.append(z3.Implies(tt == 0, t == sq.base_at(ch)))
                            if cc >= 1 or rounds == 1:
                                new.append(z3.Implies(tt >= 1, t == sq.unfold_at(ch)))
                elif name in ('exp', 'sqrt', 'log') and ('ax', t.get_id()) not in done:
                    done.add(('ax', t.get_id()))
                    x = t.arg(0)
                    if name == 'exp':
                        new.append(t > 0)
                        new.append(z3.Implies(x == 0, t == 1))
                        new.append(z3.Implies(x > 0, t > 1))
                        new.append(z3.Implies(x < 0, t < 1))
                    elif name == 'sqrt':
                        new.append(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
                for A in c.alls:
                    for l in self.triggers(A, c):
                        if l[0].decl().eq(t.decl()):
                            b, gs = c.match(l[1], t.children(), len(A.vars))
                            if any(x is None for x in b):
                                continue
                            key = (id(A),) + tuple(x.get_id() for x in b)
                            if key in done:
                                continue
                            done.add(key)
                            g, cn = A.inst(b)
                            new.append(c.appsub(z3.Implies(g, cn)))
                            n += 1
            new = [c.appsub(f) for f in new]
            extra.extend(new)
            frontier = []
            for f in new:
                o = []
                subterms(f, seen, o)
                frontier.extend(o)
        return ground, extra, c.appsub(neg)

    def triggers(self, A, c):
        tr = getattr(A, '_tr', None)
        if tr is None:
            tr = []
            for src in (A.concl, A.guard):
                for x in subterms(src):
                    if is_uf(x):
                        p = c._pattern(x, A.vars)
                        if p is not None:
                            tr.append((x, p))
            A._tr = tr
        return tr

    def smt(self, hyps, goal, timeout, quick):
        ground, extra, neg = self.prepare(hyps, goal)
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', int(1000 * (0.8 * self.scale if quick else timeout)))
        for h in ground + extra + self.straxioms() + self.global_axioms:
            s.add(h)
        s.add(neg)
        r = s.check()
        self.stats.add('z3', time.time() - t0)
        if r == z3.unsat:
            return ('proved', 'z3')
        if r == z3.sat:
            m = s.model()
            return ('refuted' if not self.has_all(hyps) else 'refuted?', m)
        if not quick:
            # rewritten form
            c = self.ctx(hyps)
            g2 = c.rewrite(goal)
            if g2.get_id() != goal.get_id():
                if z3.is_true(z3.simplify(g2)):
                    return ('proved', 'algebra')
                s = z3.Solver()
                s.set('timeout', int(1000 * timeout / 2))
                for h in ground:
                    s.add(h)
                s.add(z3.Not(g2))
                if s.check() == z3.unsat:
                    return ('proved', 'z3')
            t0 = time.time()
            rr = self.cvc5(ground + extra + self.straxioms() + self.global_axioms + [neg], timeout)
            self.stats.add('cvc5', time.time() - t0)
            if rr == 'unsat':
                return ('proved', 'cvc5')
        return ('unknown', None)

    def has_all(self, hyps):
        return any(isinstance(h, All) for h in hyps)

    def cvc5(self, fs, timeout):
        import subprocess
        s = z3.Solver()
        for f in fs:
            s.add(f)
        txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--lang=smt2', '-'], input=txt,
                               capture_output=True, text=True, timeout=timeout + 5)
            return p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
        except Exception:
            return 'unknown'
