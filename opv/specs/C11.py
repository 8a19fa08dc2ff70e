"""Geometric Brownian motion and Heston paths."""
from specs.models import *

G = Seq('GBM', RS, [], lambda: S0, lambda t, p: p * EXP((R - C - SIG * SIG / 2) * DT + SIG * SQRT(DT) * SN(t)))


def gbm(x):
    a = world(x)
    x.assume(T >= 0)
    m = x.construct('GeometricBrownianMotionModel', *a)
    return m, G, {'snormal': ST, 'normal': 0, 'poisson': 0}, [(G, [()])], []


def bridge(x):
    a = world(x)
    m = x.construct('GeometricBrownianMotionModel', *a)
    s, t0, t1 = z3.Reals('Snext tj tj1')
    x.assume(z3.And(s > 0, t0 >= 0, t1 > 0, t0 <= t1))
    v = x.value(x.method(m, 'simulatePriceBackward', s, t0, t1))
    x.oblige(v == S0 * EXP(t0 / t1 * LOG(s / S0) + SQRT(t0 * (t1 - t0) / t1) * SIG * SN(0)), 'the backward price is the Brownian bridge between the spot and the next price', 15)
    x.oblige(x.mem[cnt('snormal')] == 1, 'one normal draw')


KA, TH, SV, RHO, V0 = z3.Reals('kappa theta sigma_v rho v0')
CIR = z3.Function('CIR', RS, RS, RS, RS, RS, RS, RS)
VP = lambda v: z3.If(v > 0, v, 0)


def heston_path(cir, n):
    VH = Seq('VH' + n, RS, [], lambda: V0, lambda t, p: cir(p, SN(2 * t)))
    SH = Seq('SH' + n, RS, [], lambda: S0, lambda t, p: p * EXP((R - C - VP(VH(t)) / 2) * DT + SQRT(VP(VH(t)) * DT) * (RHO * SN(2 * t) + SQRT(1 - RHO * RHO) * SN(2 * t + 1))))
    return VH, SH


cir_uf = lambda v, z: CIR(v, DT, KA, TH, SV, z)
cir_euler = lambda v, z: v + KA * (TH - VP(v)) * DT + SV * SQRT(VP(v) * DT) * z
cir_milstein = lambda v, z: cir_euler(v, z) + SV * SV * DT * (z * z - 1) / 4


def cir_contract(x, this, a):
    v = a[0]
    r = CIR(*[x.value(t) for t in a])
    v.store(x, r)
    return None


def cir_arg(x, kind):
    if kind == 'any':
        x.contracts[('CIRDiscretization', 'update')] = cir_contract
        return [Ptr(ObjLoc(x.abstract('CIRDiscretization')))]
    if kind == 'null':
        return [NULL]
    return [Ptr(ObjLoc(x.construct(kind)))]


def heston(kind):
    VH, SH = heston_path(cir_uf if kind == 'any' else cir_milstein if 'Milstein' in kind else cir_euler, kind)

    def setup(x):
        a = world(x)
        x.assume(z3.And(T >= 0, RHO >= -1, RHO <= 1, V0 >= 0, SV >= 0))
        st, m = attempt(x, lambda: x.construct('HestonModel', *(a + [KA, TH, SV, RHO, V0] + cir_arg(x, kind))))
        x.oblige(z3.BoolVal(st == 'ok'), 'Heston: valid parameters are accepted')
        if st != 'ok':
            raise Infeasible()
        return m, SH, {'snormal': 2 * ST, 'normal': 0, 'poisson': 0}, [(VH, [()]), (SH, [()])], []
    return setup


def heston_reject(x):
    a = world(x)
    st, m = attempt(x, lambda: x.construct('HestonModel', *(a + [KA, TH, SV, RHO, V0, NULL])))
    valid = z3.And(RHO >= -1, RHO <= 1, V0 >= 0, SV >= 0)
    if st == 'ok':
        x.oblige(valid, 'Heston: invalid parameters are rejected')
    else:
        x.oblige(z3.Not(valid), 'Heston: valid parameters are accepted')
        x.oblige(z3.BoolVal(exc_isa(m, 'std::logic_error')), 'Heston: rejection is a logic_error')


SCRIPTS = both('GBM', gbm) + [Script('GBM bridge', bridge)] + both('Heston', heston('any')) + both('Heston default', heston('null'))[:1] + [Script('Heston validation', heston_reject)]
