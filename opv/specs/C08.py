"""European / digital / double-digital Monte-Carlo price: discounted arithmetic mean of the payoffs of N simulated paths."""
from specs.mc import *

SUM = Seq('SUMsp', RS, [], lambda: z3.RealVal(0), lambda i, p: p + PAY(P(i, ST - 1)))


def go(opt):
    def f(x):
        price(x, 'SinglePathMCPricer', opt, [(SUM, [()])], SUM)
    return Script('SinglePathMCPricer on %s' % opt, f)


SCRIPTS = [go(o) for o in ('EuropeanOption', 'DigitalOption', 'DoubleDigitalOption')]
