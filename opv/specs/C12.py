"""Jump models: Merton, Bates, Kou; variance gamma."""
from specs.models import *
import specs.C11 as H

LAM, MUJ, SJ = z3.Reals('lambda muJ sigmaJ')
POI = DRAW['poisson']
NJ = lambda t: POI(t, LAM * DT)
# number of jumps drawn before step t; sum of m jumps starting with the n-th
CN = Seq('CN', IS, [], lambda: z3.IntVal(0), lambda t, p: p + NJ(t))
JS = Seq('JS', RS, [IS], lambda n: z3.RealVal(0), lambda n, m, p: p + DRAW['normal'](n + m, MUJ, SJ))
BASE = lambda t: (R - C - SIG * SIG / 2) * DT + SIG * SQRT(DT) * SN(t)
KAPPA = EXP(MUJ + SJ * SJ / 2) - 1
MER = Seq('MERTON', RS, [], lambda: S0, lambda t, p: p * EXP(BASE(t) - LAM * KAPPA * DT + JS(CN(t), NJ(t))))


def jump_world(x):
    a = world(x)
    x.assume(z3.And(T > 0, LAM > 0))
    return a


def start(kind):
    """the jump sum that started at the current value of a draw counter (the counter's value when the loop is entered)"""
    def f(x, info):
        return [(z3.simplify(info['mem0'][cnt(kind)]),)]
    return f


def build(x, cls, args, what):
    st, m = attempt(x, lambda: x.construct(cls, *args))
    x.oblige(z3.BoolVal(st == 'ok'), what + ': valid parameters are accepted')
    if st != 'ok':
        raise Infeasible()
    return m


def merton(x):
    a = jump_world(x)
    x.assume(SJ > 0)
    m = build(x, 'MertonJumpDiffusionModel', a + [LAM, MUJ, SJ], 'Merton')
    return m, MER, {'snormal': ST, 'poisson': ST, 'normal': CN(ST)}, [(CN, [()]), (JS, start('normal')), (MER, [()])], []


VB, _ = H.heston_path(H.cir_uf, 'bates')
BAT = Seq('BATES', RS, [], lambda: S0, lambda t, p: p * EXP((R - C - H.VP(VB(t)) / 2 - LAM * KAPPA) * DT + SQRT(H.VP(VB(t)) * DT) * (H.RHO * SN(2 * t) + SQRT(1 - H.RHO * H.RHO) * SN(2 * t + 1)) + JS(CN(t), NJ(t))))


def bates(x):
    a = jump_world(x)
    x.assume(z3.And(SJ > 0, H.V0 > 0, H.KA > 0, H.SV > 0, H.RHO >= -1, H.RHO <= 1))
    m = build(x, 'BatesModel', a + [H.KA, H.TH, H.SV, H.RHO, H.V0, LAM, MUJ, SJ] + H.cir_arg(x, 'any'), 'Bates')
    return m, BAT, {'snormal': 2 * ST, 'poisson': ST, 'normal': CN(ST)}, [(CN, [()]), (JS, start('normal')), (VB, [()]), (BAT, [()])], [jump_factor]


def jump_factor(x, L, node):
    """the price after j jumps of a step is the price before them times exp of the sum of the j jump sizes"""
    mem0 = L.S0[0]
    n0 = z3.simplify(mem0[cnt('normal')])
    for s in L.slots:
        if s.kind == 's' and s.sort == RS:
            yield loops.Cand('spec', lambda mem, kk, s=s: s.get(mem) == s.get(mem0) * EXP(JS(n0, kk)), (s.key, s.path))


P_, E1, E2 = z3.Reals('p eta1 eta2')
U = lambda n: DRAW['uniform_real'](n, z3.RealVal(0), z3.RealVal(1))


def reject(cls, names, valid, pre=None):
    def f(x):
        a = world(x)
        st, m = attempt(x, lambda: x.construct(cls, *(a + names)))
        if st == 'ok':
            x.oblige(valid, cls + ': invalid parameters are rejected')
        else:
            x.oblige(z3.Not(valid), cls + ': valid parameters are accepted')
            x.oblige(z3.BoolVal(exc_isa(m, 'std::invalid_argument')), cls + ': rejection is an invalid_argument')
    return Script(cls + ' validation', f)


# exponential draws made for up jumps so far within the shared stream: jump j of a step uses uniform draw u0+j and exponential draw e0+j
KJ = Seq('KJ', RS, [IS], lambda n: z3.RealVal(0), lambda n, m, p: p + z3.If(U(n + m) < P_, DRAW['exponential'](n + m, E1), -DRAW['exponential'](n + m, E2)))
MUK = P_ * E1 / (E1 - 1) + (1 - P_) * E2 / (E2 + 1)
KOU = Seq('KOU', RS, [], lambda: S0, lambda t, p: p * EXP(BASE(t) - LAM * (MUK - 1) * DT + KJ(CN(t), NJ(t))))


def kou(x):
    a = jump_world(x)
    x.assume(z3.And(P_ >= 0, P_ <= 1, E1 > 1, E2 > 0))
    m = build(x, 'KouModel', a + [LAM, P_, E1, E2], 'Kou')
    return m, KOU, {'snormal': ST, 'poisson': ST, 'uniform_real': CN(ST), 'exponential': CN(ST)}, [(CN, [()]), (KJ, start('uniform_real')), (KOU, [()])], []


NU, VTH = z3.Reals('nu vgtheta')
GAM = lambda t: DRAW['gamma'](t, DT / NU, NU)
VG = Seq('VG', RS, [], lambda: S0, lambda t, p: p * EXP((R - C + LOG(1 - VTH * NU - SIG * SIG * NU / 2) / NU) * DT + VTH * GAM(t) + SIG * SQRT(GAM(t)) * SN(t)))


def vg(x):
    a = world(x)
    x.assume(z3.And(T > 0, NU > 0, 1 - VTH * NU - SIG * SIG * NU / 2 > 0))
    m = build(x, 'VarianceGammaModel', a + [NU, VTH], 'VG')
    return m, VG, {'snormal': ST, 'gamma': ST, 'normal': 0, 'poisson': 0}, [(VG, [()])], []


SCRIPTS = both('Merton', merton) + both('Bates', bates) + both('Kou', kou) + both('VG', vg) + [
    reject('MertonJumpDiffusionModel', [LAM, MUJ, SJ], SJ > 0),
    reject('BatesModel', [H.KA, H.TH, H.SV, H.RHO, H.V0, LAM, MUJ, SJ, NULL], z3.And(SJ > 0, H.V0 > 0, H.KA > 0, H.SV > 0, H.RHO >= -1, H.RHO <= 1)),
    reject('KouModel', [LAM, P_, E1, E2], z3.And(P_ >= 0, P_ <= 1, E1 > 1, E2 > 0)),
    reject('VarianceGammaModel', [NU, VTH], NU > 0)]
