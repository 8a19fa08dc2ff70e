"""CIR variance discretisations."""
from specs.models import *
import specs.C11 as H

V, D, K, TH, SV, Z = z3.Reals('V dt kappa theta sigma_v z')
VP = H.VP


def scheme(cls, want):
    def f(x):
        x.assume(D >= 0)
        o = x.construct(cls)
        c = x.tmp(V)
        x.method(o, 'update', c, D, K, TH, SV, Z)
        x.oblige(c.load(x) == want, cls + ': the updated variance', 15)
    return Script(cls + '::update', f)


EULER = V + K * (TH - VP(V)) * D + SV * SQRT(VP(V) * D) * Z


def via(x):
    """the Milstein step is the Euler step plus its correction, and neither touches anything but V"""
    x.assume(D >= 0)
    e, m = x.construct('CIRExplicitEulerDiscretization'), x.construct('CIRMilsteinDiscretization')
    before = dict(x.mem)
    a, b = x.tmp(V), x.tmp(V)
    x.method(e, 'update', a, D, K, TH, SV, Z)
    x.method(m, 'update', b, D, K, TH, SV, Z)
    x.oblige(b.load(x) - a.load(x) == SV * SV * D * (Z * Z - 1) / 4, 'Milstein correction', 15)
    frame_unchanged(x, before, 'update')


SCRIPTS = [scheme('CIRExplicitEulerDiscretization', EULER), scheme('CIRMilsteinDiscretization', EULER + SV * SV * D * (Z * Z - 1) / 4), Script('Milstein minus Euler', via)]
for k in ('CIRExplicitEulerDiscretization', 'CIRMilsteinDiscretization'):
    SCRIPTS += both('Heston with ' + k, H.heston(k))[:1]
