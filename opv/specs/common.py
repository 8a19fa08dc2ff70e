"""helpers shared by the contracts"""
import z3
from logic import *
from sym import *
from program import *
from session import Script
import lib, loops

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def enumval(x, enum, name):
    q = x.P.enum(enum)
    if q is None:
        raise Unsupported('enum ' + enum)
    for n, v in x.P.enums[q]:
        if n == name:
            return z3.IntVal(v)
    raise Unsupported('enumerator %s::%s' % (enum, name))


def finite(x, name):
    v = z3.Const(name, x.realsort())
    if x.mode == 'fp':
        x.assume(z3.And(z3.Not(z3.fpIsNaN(v)), z3.Not(z3.fpIsInf(v))))
    return v


def anyd(x, name):
    """any double at all"""
    return z3.Const(name, x.realsort())


def num(x, v):
    return x.rval(v)


def feq(x, a, b):
    """numerically equal (+0 == -0); NaN equals NaN"""
    if x.mode == 'fp':
        return z3.Or(z3.fpEQ(a, b), z3.And(z3.fpIsNaN(a), z3.fpIsNaN(b)))
    return a == b


def attempt(x, fn):
    """('ok', value) or ('throw', class)"""
    fr = list(x.frames)
    try:
        return 'ok', fn()
    except CppThrow as e:
        x.frames = fr
        return 'throw', e.cls


def expect_valid(x, valid, fn, label, exc='std::invalid_argument'):
    """fn() succeeds exactly when `valid`; otherwise throws exc. Returns value or raises Infeasible on throw"""
    st, v = attempt(x, fn)
    if st == 'throw':
        x.oblige(z3.Not(valid), label + ': a valid argument is accepted')
        x.oblige(z3.BoolVal(exc_isa(v, exc)), label + ': rejection is %s' % exc)
        raise Infeasible()
    x.oblige(valid, label + ': an invalid argument is rejected')
    return v


def frame_unchanged(x, before, label, allow=lambda key: False):
    """every cell existing in `before` (a mem dict) has the same value now"""
    for key, v in before.items():
        if key[0] not in ('f',) or allow(key):
            continue
        w = x.mem.get(key)
        if w is v:
            continue
        if loops.same(v, w):
            continue
        g = value_eq(x, v, w)
        x.oblige(g, '%s: %s unchanged' % (label, key[3]))


def value_eq(x, v, w):
    if isz(v) and isz(w):
        if z3.is_fp(v):
            return v == w
        return v == w
    if isinstance(v, VecV) and isinstance(w, VecV):
        i = z3.Int('i#f')
        a, b = v.get(i), w.get(i)
        if isinstance(a, SPtr):
            a, b = a.term, b.term
        return [v.n == w.n, All([i], z3.And(i >= 0, i < v.n), a == b)]
    if isinstance(v, OptV) and isinstance(w, OptV):
        return z3.And(v.has == w.has, z3.Implies(v.has, v.val == w.val))
    if loops.same(v, w):
        return TRUE
    return FALSE


def oid_of(x, v):
    """object behind a smart pointer / ObjV"""
    if isinstance(v, Loc):
        v = v.load(x)
    if isinstance(v, Ptr):
        if v.loc is None:
            x.oblige(z3.BoolVal(False), 'the returned pointer is not null')
            raise Infeasible()
        v = v.loc.load(x)
    if isinstance(v, ObjV):
        return v.oid
    raise Unsupported('object expected, got %s' % type(v).__name__)


def getter(x, oid, name, *a):
    return x.value(x.method(oid, name, *a))
