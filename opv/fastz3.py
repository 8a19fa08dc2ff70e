"""Faster Python binding: same z3 library, read-only accessors without the per-call error query and debug assertions."""
import z3
import z3.z3 as Z
from z3 import z3core as C
from z3.z3consts import *

class lib:
    def __getattr__(self, nm):
        return getattr(C, nm).__defaults__[0].f


lib = lib()


def install():
    # accessors that cannot fail on a well-formed term
    for nm in ('Z3_get_ast_kind', 'Z3_get_ast_id', 'Z3_is_eq_ast', 'Z3_get_app_num_args', 'Z3_get_app_arg', 'Z3_get_app_decl',
               'Z3_get_sort', 'Z3_get_sort_kind', 'Z3_get_decl_kind', 'Z3_inc_ref', 'Z3_dec_ref', 'Z3_get_ast_hash', 'Z3_is_algebraic_number'):
        f = getattr(lib, nm)
        setattr(Z, nm, f)
    Z.Z3_DEBUG = False
    kind, sort, skind, alg = lib.Z3_get_ast_kind, lib.Z3_get_sort, lib.Z3_get_sort_kind, lib.Z3_is_algebraic_number
    inc, dec, aid = lib.Z3_inc_ref, lib.Z3_dec_ref, lib.Z3_get_ast_id
    old = Z._to_expr_ref
    BoolRef, ArithRef, IntNumRef, RatNumRef = Z.BoolRef, Z.ArithRef, Z.IntNumRef, Z.RatNumRef

    CAN = {}            # one Python object per term; it keeps the term alive, so its id stays unique

    def to_expr(a, ctx):
        cr = ctx.ctx
        if isinstance(a, Z.Pattern):
            return old(a, ctx)
        i = aid(cr, a)
        r = CAN.get(i)
        if r is None:
            if len(CAN) > 600000:
                CAN.clear()
            r = CAN[i] = make(a, ctx, cr)
            r._id = i
        return r

    def make(a, ctx, cr):
        k = kind(cr, a)
        if k == Z3_QUANTIFIER_AST:
            return Z.QuantifierRef(a, ctx)
        sk = skind(cr, sort(cr, a))
        if sk == Z3_BOOL_SORT:
            return BoolRef(a, ctx)
        if sk == Z3_INT_SORT:
            return IntNumRef(a, ctx) if k == Z3_NUMERAL_AST else ArithRef(a, ctx)
        if sk == Z3_REAL_SORT:
            if k == Z3_NUMERAL_AST:
                return RatNumRef(a, ctx)
            if not alg(cr, a):
                return ArithRef(a, ctx)
        return old(a, ctx)
    Z._to_expr_ref = to_expr
    getctx = Z._get_ctx

    def init(self, ast, ctx=None):
        self.ast = ast
        if ctx is None:
            ctx = getctx(None)
        self.ctx = ctx
        inc(ctx.ctx, ast)

    def delete(self):
        c = self.ctx.ctx
        if c is not None and self.ast is not None and dec is not None:
            dec(c, self.ast)
            self.ast = None

    def get_id(self):
        try:
            return self._id
        except AttributeError:
            self._id = i = aid(self.ctx.ctx, self.ast)
            return i

    def eq(self, other):
        return get_id(self) == get_id(other)
    Z.AstRef.__init__ = init
    Z.AstRef.__del__ = delete
    Z.ExprRef.get_id = get_id
    Z.ExprRef.eq = eq
    appnum, apparg = lib.Z3_get_app_num_args, lib.Z3_get_app_arg

    def num_args(self):
        return len(kids(self))

    def arg(self, i):
        return kids(self)[i]

    def kids(self):
        try:
            return self._ch
        except AttributeError:
            c = self.ctx
            cr, a = c.ctx, self.ast
            self._ch = r = [to_expr(apparg(cr, a, i), c) for i in range(appnum(cr, a))] if kind(cr, a) == Z3_APP_AST else []
            return r

    def children(self):
        return list(kids(self))
    olddecl, oldsort = Z.ExprRef.decl, Z.ExprRef.sort

    def decl(self):
        try:
            return self._decl
        except AttributeError:
            self._decl = d = olddecl(self)
            return d
    Z.ExprRef.decl = decl
    okind, oname = Z.FuncDeclRef.kind, Z.FuncDeclRef.name

    def dkind(self):
        try:
            return self._kind
        except AttributeError:
            self._kind = k = okind(self)
            return k

    def dname(self):
        try:
            return self._name
        except AttributeError:
            self._name = k = oname(self)
            return k
    Z.FuncDeclRef.kind = dkind
    Z.FuncDeclRef.name = dname
    for cls in (Z.ExprRef, Z.BoolRef, Z.ArithRef):
        os_ = cls.__dict__.get('sort')
        if os_ is not None:
            def sort_(self, os_=os_):
                try:
                    return self._sort
                except AttributeError:
                    self._sort = k = os_(self)
                    return k
            cls.sort = sort_
    Z.ExprRef.num_args = num_args
    Z.ExprRef.arg = arg
    Z.ExprRef.children = children

    def isapp(a):
        try:
            return a._app
        except AttributeError:
            k = kind(a.ctx.ctx, a.ast)
            a._app = r = k == Z3_NUMERAL_AST or k == Z3_APP_AST
            return r

    def is_app(a):
        return isinstance(a, Z.ExprRef) and isapp(a)
    Z.is_app = is_app
    z3.is_app = is_app

    def is_app_of(a, k):
        return isinstance(a, Z.ExprRef) and isapp(a) and a.decl().kind() == k
    Z.is_app_of = is_app_of
    z3.is_app_of = is_app_of


install()
