#include "mdlh.h"
using namespace mdl;
static void body() {
    for (int i = 0; i < N(6000); ++i) {
        World w = world(true);
        {
            GeometricBrownianMotionModel m("A", w.md, w.gen);
            compare(w, m, "GBM", [&] {
                Draws d(w);
                std::vector<double> p;
                double S = w.S0;
                for (unsigned t = 0; t < w.steps; ++t) p.push_back(S *= std::exp((w.r - w.c - w.sigma * w.sigma / 2) * w.dt + w.sigma * std::sqrt(w.dt) * d.sn()));
                return p;
            });
            double t1 = coin(0.1) ? std::pow(10, uni(-9, 3)) : val(0.01, 4), t0 = coin(0.2) ? (coin() ? 0.0 : t1) : t1 * uni(0, 1), sn = val(0.1, 400);
            w.reset(w.seed + 1);
            scene(D("GBM bridge S_next=", sn, " t=", t0, " next=", t1, " ", w.desc));
            double z = Draws(w).sn();
            eq(m.simulatePriceBackward(sn, t0, t1), w.S0 * std::exp(t0 / t1 * std::log(sn / w.S0) + std::sqrt(t0 * (t1 - t0) / t1) * w.sigma * z), "bridge", 1e-8);
        }
        World u = world(true);
        Heston h = heston(false);
        auto sc = scheme();
        u.desc += show(h);
        HestonModel m("A", u.md, u.gen, h.ka, h.th, h.sv, h.rho, h.v0, sc.second);
        compare(u, m, "Heston", [&] {
            Draws d(u);
            std::vector<double> p;
            double S = u.S0, V = h.v0;
            for (unsigned t = 0; t < u.steps; ++t) p.push_back(S = hestonStep(u, h, d, sc.first, S, V, 0));
            return p;
        });
        Heston g{edge(-2, 2), edge(-2, 2), edge(-2, 2), edge(-2, 2), edge(-2, 2)};
        accepts<std::logic_error>(g.rho >= -1 && g.rho <= 1 && g.v0 >= 0 && g.sv >= 0, "Heston validation" + show(g), [&] { HestonModel q("A", u.md, u.gen, g.ka, g.th, g.sv, g.rho, g.v0); });
    }
}
RP_MAIN(body)
