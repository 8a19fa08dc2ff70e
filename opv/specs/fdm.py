"""shared set-up of the finite-difference contracts: V(t,j) is the price at time level t (t dt to maturity) and grid
point j.  The PDE is used through its contract only (arbitrary coefficient and boundary functions of time and space)."""
from specs.common import *

D, C, R, F, BL, BR = [z3.Function(n, RS, RS, RS) for n in ('D', 'C', 'R', 'F', 'BL', 'BR')]
IC = z3.Function('IC', RS, RS)
SOL = z3.Function('SOL', IS, IS, RS)      # solution of the linear system of step t
J, N = z3.Ints('J N')
XD, TD, S0 = z3.Reals('xDom tDom S0')
DX, DT = XD / z3.ToReal(J - 1), TD / z3.ToReal(N - 1)
STEP = ('ghost', 'solves')
TK = z3.Const('tk', STR)


def X(j):
    return z3.ToReal(toterm(j, IS)) * DX


def tm(t):
    return z3.ToReal(toterm(t, IS)) * DT


def explicit(t, V, j):
    u, y = tm(t), X(j)
    vxx = (V(j + 1) - 2 * V(j) + V(j - 1)) / (DX * DX)
    vx = (V(j + 1) - V(j - 1)) / (2 * DX)
    return V(j) + DT * (D(u, y) * vxx + C(u, y) * vx + R(u, y) * V(j) - F(u, y))


def levels(name, interior):
    return Seq(name, RS, [], lambda j: IC(X(j)),
               lambda t, V, j: z3.If(j == 0, BL(tm(t + 1), X(j)), z3.If(j == J - 1, BR(tm(t + 1), X(j)), interior(t, V, j))), [IS])


VE = levels('VE', explicit)
VI = levels('VI', lambda t, V, j: SOL(t, j - 1))


def world(x):
    """PDE, option, market data and interpolation known by their contracts only"""
    x.assume(z3.And(J >= 3, N >= 2, J <= (1 << 31) - 1, N <= (1 << 31) - 1, XD > 0, TD > 0))
    pde = x.abstract('ConvectionDiffusionPDE')
    for n, f in (('diffusion', D), ('convection', C), ('reaction', R), ('rightHandSide', F), ('boundaryLeft', BL), ('boundaryRight', BR)):
        x.contracts[('ConvectionDiffusionPDE', n)] = lambda x, this, a, f=f: f(x.value(a[0]), x.value(a[1]))
    x.contracts[('ConvectionDiffusionPDE', 'initialCondition')] = lambda x, this, a: IC(x.value(a[0]))
    return pde, x.abstract('EuropeanOption'), x.abstract('IMarketData')


def make(x, cls, pde, opt, md, interp=None, solver='none'):
    p = lambda o: Ptr(None) if o is None else Ptr(ObjLoc(o))
    a = [XD, J, TD, N, p(pde), p(opt), p(md), p(interp)]
    if solver != 'none':
        a.append(p(solver))
    return x.construct('FDM::OneFactor::' + cls, *a)


def state(V):
    """the new prices at the head of the time loop are those of the current level (from the first step on)"""
    j = z3.Int('j#0')

    def gen(x, L, node):
        for s in L.slots:
            if s.kind == 'a' and s.isorts == [IS] and s.sort == RS:
                yield loops.Cand('level', lambda mem, kk, s=s: All([j], z3.And(j >= 0, j < mem[s.key].n, kk >= 1), s.at(mem, j) == V(kk, j)))
    return gen
