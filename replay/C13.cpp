#include "mdlh.h"
using namespace mdl;
static void body() {
    for (int i = 0; i < N(200000); ++i) {
        Heston h{val(-3, 5), val(-1, 1), val(-2, 2), 0, 0};
        double V = coin(0.1) ? 0.0 : val(-0.5, 2), dt = coin(0.1) ? 0.0 : val(0, 1), z = val(-4, 4);
        scene(D("V=", V, " dt=", dt, " z=", z, show(h)));
        double a = V, b = V;
        CIRExplicitEulerDiscretization().update(a, dt, h.ka, h.th, h.sv, z);
        CIRMilsteinDiscretization().update(b, dt, h.ka, h.th, h.sv, z);
        eq(a, euler(V, dt, h, z), "explicit Euler step", 1e-9, 1e-11);
        eq(b, milstein(V, dt, h, z), "Milstein step", 1e-9, 1e-11);
    }
    for (int i = 0; i < N(2000); ++i) {
        World u = world(true);
        Heston h = heston(false);
        bool mil = coin();
        u.desc += show(h);
        HestonModel m("A", u.md, u.gen, h.ka, h.th, h.sv, h.rho, h.v0, mil ? (std::shared_ptr<CIRDiscretization>) std::make_shared<CIRMilsteinDiscretization>() : std::make_shared<CIRExplicitEulerDiscretization>());
        compare(u, m, mil ? "Heston with Milstein" : "Heston with Euler", [&] {
            Draws d(u);
            std::vector<double> p;
            double S = u.S0, V = h.v0;
            for (unsigned t = 0; t < u.steps; ++t) p.push_back(S = hestonStep(u, h, d, mil ? milstein : euler, S, V, 0));
            return p;
        });
    }
}
RP_MAIN(body)
