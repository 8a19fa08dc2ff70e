"""Exact algebra over exponential rational functions: the verifier's normal-form back end for
real equalities.  Terms are z3 expressions; atoms are uninterpreted constants / applications.
Everything is exact (Fractions); laws used: commutative ring/field laws, exp(a)exp(b)=exp(a+b),
log(exp a)=a, sqrt(a)^2=a, and (only for atoms proved non-negative/positive by the caller)
sqrt(ab)=sqrt(a)sqrt(b), log(ab)=log(a)+log(b), exp(n log a)=a^n."""
from fractions import Fraction
import fastz3
import z3

EXP = z3.Function('exp', z3.RealSort(), z3.RealSort())
LOG = z3.Function('log', z3.RealSort(), z3.RealSort())
SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
POW = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())

ONE = ((), ())


class TooBig(Exception):
    pass


class Algebra:
    LIMIT = 4000

    def __init__(self, nonneg=None, positive=None):
        self.atoms = []           # atom id -> (kind, payload)
        self.index = {}
        self.cache = {}
        self.nonneg = nonneg or (lambda t: False)
        self.positive = positive or (lambda t: False)
        self.keep = []

    # ---- polynomials: {mono: Fraction}; mono = (((atom,pow),...), expo) ; expo = tuple(sorted(items))
    def const(self, c):
        return {ONE: Fraction(c)} if c else {}

    def add(self, a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mono_mul(self, m1, m2):
        d = dict(m1[0])
        for a, p in m2[0]:
            q = d.get(a, 0) + p
            if q:
                d[a] = q
            else:
                d.pop(a, None)
        if m1[1] or m2[1]:
            e = self.add(dict(m1[1]), dict(m2[1]))
            ek = self.pkey(e)
        else:
            ek = ()
        return (tuple(sorted(d.items())), ek)

    def pkey(self, p):
        return tuple(sorted(p.items(), key=lambda kv: (repr(kv[0]), kv[1])))

    def mul(self, a, b):
        r = {}
        if len(a) * len(b) > self.LIMIT * 4:
            raise TooBig()
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        r = self.reduce(r)
        if len(r) > self.LIMIT:
            raise TooBig()
        return r

    def reduce(self, p):
        """sqrt(a)^2 -> a"""
        again = False
        for m in p:
            for a, q in m[0]:
                if self.atoms[a][0] == 'sqrt' and (q >= 2 or q <= -2):
                    again = True
        if not again:
            return p
        out = {}
        for m, c in p.items():
            extra = None
            rest = []
            for a, q in m[0]:
                if self.atoms[a][0] == 'sqrt' and (q >= 2 or (q <= -2 and len(self.atoms[a][1][0]) == 1)):
                    n, d = self.atoms[a][1]
                    h = abs(q) // 2
                    base = n
                    if q < 0:
                        base = self.mono_inv(n)
                    if d != {ONE: Fraction(1)}:
                        rest.append((a, q))
                        continue
                    for _ in range(h):
                        extra = base if extra is None else self.mul(extra, base)
                    r_ = abs(q) - 2 * h
                    if r_:
                        rest.append((a, r_ if q > 0 else -r_))
                else:
                    rest.append((a, q))
            t = {(tuple(rest), m[1]): c}
            if extra is not None:
                t = self.mul(t, extra)
            out = self.add(out, t)
        return out

    def mono_inv(self, p):
        (m, c), = p.items()
        e = {k: -v for k, v in dict(m[1]).items()}
        return {(tuple((a, -q) for a, q in m[0]), self.pkey(e) if e else ()): 1 / c}

    # ---- rationals (num, den)
    U = {ONE: Fraction(1)}

    def rnorm(self, n, d):
        if not n:
            return ({}, dict(self.U))
        if len(d) == 1:
            return (self.mul(n, self.mono_inv(d)), dict(self.U))
        # scale so that den's leading coefficient is 1
        k = min(d, key=repr)
        c = d[k]
        if c != 1:
            n = {m: v / c for m, v in n.items()}
            d = {m: v / c for m, v in d.items()}
        if n == d:
            return (dict(self.U), dict(self.U))
        # exact division when the numerator is a multiple by a monomial
        return (n, d)

    def radd(self, a, b, s=1):
        if a[1] == b[1]:
            return self.rnorm(self.add(a[0], b[0], s), a[1])
        return self.rnorm(self.add(self.mul(a[0], b[1]), self.mul(b[0], a[1]), s), self.mul(a[1], b[1]))

    def rmul(self, a, b):
        if a[1] == b[0] and b[0] and b[1] == self.U:
            return (a[0], dict(self.U))
        if b[1] == a[0] and a[0] and a[1] == self.U:
            return (b[0], dict(self.U))
        return self.rnorm(self.mul(a[0], b[0]), self.mul(a[1], b[1]))

    def rdiv(self, a, b):
        if not b[0]:
            raise TooBig()
        return self.rmul(a, self.rnorm(b[1], b[0]))

    def req(self, a, b):
        if a == b:
            return True
        if a[1] == b[1]:
            return not self.add(a[0], b[0], -1)
        return not self.add(self.mul(a[0], b[1]), self.mul(b[0], a[1]), -1)

    # ---- atoms
    def atom(self, kind, payload, key=None):
        if key is None:
            key = (kind, payload)
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append((kind, payload))
            self.index[key] = i
        return ({(((i, 1),), ()): Fraction(1)}, dict(self.U))

    def fapp(self, kind, name, args):
        """interned application; args are rationals (or opaque hashables)"""
        for i, (k, p) in enumerate(self.atoms):
            if k == kind and p[0] == name and len(p[1]) == len(args):
                ok = True
                for x, y in zip(p[1], args):
                    if isinstance(x, tuple) and isinstance(y, tuple) and isinstance(x[0], dict) and isinstance(y[0], dict):
                        if not self.req(x, y):
                            ok = False
                            break
                    elif x is not y and (isinstance(x, tuple) or isinstance(y, tuple) or not x == y):
                        ok = False
                        break
                if ok:
                    return ({(((i, 1),), ()): Fraction(1)}, dict(self.U))
        i = len(self.atoms)
        self.atoms.append((kind, (name, args)))
        return ({(((i, 1),), ()): Fraction(1)}, dict(self.U))

    # ---- z3 -> rational
    def norm(self, t):
        k = t.get_id()
        r = self.cache.get(k)
        if r is None:
            self.keep.append(t)
            r = self._norm(t)
            self.cache[k] = r
        return r

    def _norm(self, t):
        d = t.decl()
        k = d.kind()
        ch = t.children()
        if z3.is_rational_value(t):
            return (self.const(Fraction(t.numerator_as_long(), t.denominator_as_long())), dict(self.U))
        if z3.is_int_value(t):
            return (self.const(t.as_long()), dict(self.U))
        if k == z3.Z3_OP_ADD:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.radd(r, self.norm(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.radd(r, self.norm(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            r = self.norm(ch[0])
            return ({m: -c for m, c in r[0].items()}, r[1])
        if k == z3.Z3_OP_MUL:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.rmul(r, self.norm(c))
            return r
        if k == z3.Z3_OP_DIV:
            return self.rdiv(self.norm(ch[0]), self.norm(ch[1]))
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) or (k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1):
            n = ch[1].as_long() if z3.is_int_value(ch[1]) else ch[1].numerator_as_long()
            if abs(n) <= 8:
                return self.ipow(self.norm(ch[0]), n)
        if k in (z3.Z3_OP_TO_REAL,):
            return self.norm(ch[0])
        if k == z3.Z3_OP_UNINTERPRETED:
            name = d.name()
            if name == 'exp' and len(ch) == 1:
                return self.exp(self.norm(ch[0]))
            if name == 'log' and len(ch) == 1:
                return self.log(self.norm(ch[0]), ch[0])
            if name == 'sqrt' and len(ch) == 1:
                return self.sqrt(self.norm(ch[0]), ch[0])
            if name == 'pow' and len(ch) == 2:
                e = self.norm(ch[1])
                if e[1] == self.U and (not e[0] or list(e[0]) == [ONE]):
                    c = e[0].get(ONE, Fraction(0))
                    if c.denominator == 1 and abs(c) <= 8:
                        return self.ipow(self.norm(ch[0]), int(c))
                    if c == Fraction(1, 2):
                        return self.sqrt(self.norm(ch[0]), ch[0])
            if not ch:
                return self.atom('c', t.get_id(), ('c', name, str(t.sort())))
            args = []
            for c in ch:
                if z3.is_arith(c):
                    args.append(self.norm(c))
                else:
                    args.append(c.get_id())
                    self.keep.append(c)
            return self.fapp('f', name, args)
        # anything else (If, div, mod, select ...): opaque atom by structural identity
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            return self.fapp('f', 'op%d' % k, [self.norm(c) for c in ch])
        return self.atom('c', t.get_id(), ('t', t.get_id()))

    def ipow(self, r, n):
        if n == 0:
            return (dict(self.U), dict(self.U))
        base = r
        if n < 0:
            base = self.rnorm(r[1], r[0])
            n = -n
        out = base
        for _ in range(n - 1):
            out = self.rmul(out, base)
        return out

    def exp(self, r):
        if r[1] == self.U:
            p = dict(r[0])
            if not p:
                return (dict(self.U), dict(self.U))
            # exp(n*log a + rest) -> a^n exp(rest)
            pre = {ONE: Fraction(1)}
            for m, c in list(p.items()):
                if m[1] == () and len(m[0]) == 1 and m[0][0][1] == 1 and c.denominator == 1 and abs(c) <= 4:
                    a = self.atoms[m[0][0][0]]
                    if a[0] == 'log':
                        n, d = a[1]
                        if d == self.U:
                            base = n if c > 0 else (self.mono_inv(n) if len(n) == 1 else None)
                            if base is not None:
                                for _ in range(abs(int(c))):
                                    pre = self.mul(pre, base)
                                del p[m]
            ek = self.pkey(p) if p else ()
            return (self.mul({((), ek): Fraction(1)}, pre), dict(self.U))
        return self.fapp('f', 'exp', [r])

    def log(self, r, term):
        if r[1] == self.U and len(r[0]) == 1:
            (m, c), = r[0].items()
            if c == 1 and not m[0]:
                return (dict(m[1]), dict(self.U))
            if c > 0 and all(self.atom_pos(a) for a, q in m[0]):
                out = (dict(m[1]), dict(self.U))
                for a, q in m[0]:
                    la = self.atom_log(({(((a, 1),), ()): Fraction(1)}, dict(self.U)))
                    out = self.radd(out, self.rmul((self.const(q), dict(self.U)), la))
                if c != 1:
                    out = self.radd(out, self.atom_log((self.const(c), dict(self.U))))
                return out
        return self.atom_log(r)

    def atom_log(self, r):
        for i, (k, p) in enumerate(self.atoms):
            if k == 'log' and self.req(p, r):
                return ({(((i, 1),), ()): Fraction(1)}, dict(self.U))
        self.atoms.append(('log', r))
        return ({(((len(self.atoms) - 1, 1),), ()): Fraction(1)}, dict(self.U))

    def atom_sqrt(self, r):
        for i, (k, p) in enumerate(self.atoms):
            if k == 'sqrt' and self.req(p, r):
                return ({(((i, 1),), ()): Fraction(1)}, dict(self.U))
        self.atoms.append(('sqrt', r))
        return ({(((len(self.atoms) - 1, 1),), ()): Fraction(1)}, dict(self.U))

    def sqrt(self, r, term):
        if r[1] == self.U and not r[0]:
            return ({}, dict(self.U))
        if r[1] == self.U and len(r[0]) == 1:
            (m, c), = r[0].items()
            import math
            if c > 0 and all(self.atom_nn(a) for a, q in m[0]):
                out = (dict(self.U), dict(self.U))
                for a, q in m[0]:
                    if q % 2 == 0:
                        f = ({(((a, q // 2),), ()): Fraction(1)}, dict(self.U))
                    else:
                        s = self.atom_sqrt(({(((a, 1),), ()): Fraction(1)}, dict(self.U)))
                        f = self.ipow(s, q)
                    out = self.rmul(out, f)
                if m[1]:
                    e = {k: v / 2 for k, v in dict(m[1]).items()}
                    out = self.rmul(out, ({((), self.pkey(e)): Fraction(1)}, dict(self.U)))
                if c != 1:
                    sn, sd = math.isqrt(c.numerator), math.isqrt(c.denominator)
                    if sn * sn == c.numerator and sd * sd == c.denominator:
                        out = self.rmul(out, (self.const(Fraction(sn, sd)), dict(self.U)))
                    else:
                        out = self.rmul(out, self.atom_sqrt((self.const(c), dict(self.U))))
                return out
        return self.atom_sqrt(r)

    # sign knowledge about atoms: ask the caller about the z3 term behind an atom
    def atom_term(self, a):
        k, p = self.atoms[a]
        if k == 'c':
            for t in self.keep:
                if t.get_id() == p:
                    return t
        return None

    def atom_nn(self, a):
        k, p = self.atoms[a]
        if k == 'sqrt':
            return True
        t = self.term_of(a)
        return t is not None and self.nonneg(t)

    def atom_pos(self, a):
        t = self.term_of(a)
        return t is not None and self.positive(t)

    def term_of(self, a):
        # the first z3 term whose normal form is exactly this atom
        for t in self.keep:
            r = self.cache.get(t.get_id())
            if r is not None and r[1] == self.U and len(r[0]) == 1:
                (m, c), = r[0].items()
                if c == 1 and m == (((a, 1),), ()):
                    return t
        return None

    def equal(self, a, b):
        return self.req(self.norm(a), self.norm(b))
