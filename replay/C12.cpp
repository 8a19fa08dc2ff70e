#include "mdlh.h"
using namespace mdl;
static double kappa(double mu, double s) { return std::exp(mu + s * s / 2) - 1; }
static void body() {
    for (int i = 0; i < N(3000); ++i) {
        double lam = coin(0.2) ? val(5, 60) : val(0.01, 4), mu = val(-0.5, 0.5), sj = val(0.01, 0.6);
        {
            World w = world();
            w.desc += D(" lambda=", lam, " muJ=", mu, " sigmaJ=", sj);
            MertonJumpDiffusionModel m("A", w.md, w.gen, lam, mu, sj);
            compare(w, m, "Merton", [&] {
                Draws d(w);
                std::poisson_distribution<> po(lam * w.dt);
                std::normal_distribution<> jd(mu, sj);
                std::vector<double> p;
                double S = w.S0;
                for (unsigned t = 0; t < w.steps; ++t) {
                    double e = (w.r - w.c - w.sigma * w.sigma / 2 - lam * kappa(mu, sj)) * w.dt + w.sigma * std::sqrt(w.dt) * d.sn();
                    int n = (int) d.other(PO, po);
                    for (int j = 0; j < n; ++j) e += d.other(NO, jd);
                    p.push_back(S *= std::exp(e));
                }
                return p;
            });
        }
        {
            World w = world();
            Heston h = heston(true);
            auto sc = scheme();
            w.desc += show(h) + D(" lambda=", lam, " muJ=", mu, " sigmaJ=", sj);
            BatesModel m("A", w.md, w.gen, h.ka, h.th, h.sv, h.rho, h.v0, lam, mu, sj, sc.second);
            compare(w, m, "Bates", [&] {
                Draws d(w);
                std::poisson_distribution<> po(lam * w.dt);
                std::normal_distribution<> jd(mu, sj);
                std::vector<double> p;
                double S = w.S0, V = h.v0;
                for (unsigned t = 0; t < w.steps; ++t) {
                    S = hestonStep(w, h, d, sc.first, S, V, -lam * kappa(mu, sj));
                    int n = (int) d.other(PO, po);
                    for (int j = 0; j < n; ++j) S *= std::exp(d.other(NO, jd));
                    p.push_back(S);
                }
                return p;
            });
        }
        {
            World w = world();
            double q = coin(0.1) ? (coin() ? 0.0 : 1.0) : val(0, 1), e1 = val(1.1, 30), e2 = val(0.1, 30);
            w.desc += D(" lambda=", lam, " p=", q, " eta1=", e1, " eta2=", e2);
            KouModel m("A", w.md, w.gen, lam, q, e1, e2);
            compare(w, m, "Kou", [&] {
                Draws d(w);
                std::poisson_distribution<> po(lam * w.dt);
                std::uniform_real_distribution<> un(0, 1);
                std::exponential_distribution<> up(e1), down(e2);
                std::vector<double> p;
                double S = w.S0, mj = q * e1 / (e1 - 1) + (1 - q) * e2 / (e2 + 1);
                for (unsigned t = 0; t < w.steps; ++t) {
                    double e = (w.r - w.c - w.sigma * w.sigma / 2 - lam * (mj - 1)) * w.dt + w.sigma * std::sqrt(w.dt) * d.sn();
                    int n = (int) d.other(PO, po);
                    for (int j = 0; j < n; ++j) { if (d.other(UN, un) < q) e += d.other(EX, up); else e -= d.other(EX, down); }
                    p.push_back(S *= std::exp(e));
                }
                return p;
            });
        }
        {
            World w = world();
            double nu = val(0.05, 2), th = val(-0.5, 0.2);
            if (1 - th * nu - w.sigma * w.sigma * nu / 2 > 1e-3) {
                w.desc += D(" nu=", nu, " theta=", th);
                VarianceGammaModel m("A", w.md, w.gen, nu, th);
                compare(w, m, "VG", [&] {
                    Draws d(w);
                    std::gamma_distribution<> ga(w.dt / nu, 1 / (1 / nu));
                    std::vector<double> p;
                    double S = w.S0;
                    for (unsigned t = 0; t < w.steps; ++t) {
                        double g = d.other(GA, ga), z = d.sn();
                        p.push_back(S *= std::exp((w.r - w.c + std::log(1 - th * nu - w.sigma * w.sigma * nu / 2) / nu) * w.dt + th * g + w.sigma * std::sqrt(g) * z));
                    }
                    return p;
                });
            }
        }
        World w = world();
        double a = edge(-2, 2), b = edge(-2, 2), c = edge(-1, 3), e = edge(-2, 2);
        accepts<std::invalid_argument>(a > 0, D("Merton sigmaJ=", a), [&] { MertonJumpDiffusionModel m("A", w.md, w.gen, 1.0, 0.1, a); });
        accepts<std::invalid_argument>(b > 0, D("VG nu=", b), [&] { VarianceGammaModel m("A", w.md, w.gen, b, 0.1); });
        accepts<std::invalid_argument>(b >= 0 && b <= 1 && c > 1 && e > 0, D("Kou p=", b, " eta1=", c, " eta2=", e), [&] { KouModel m("A", w.md, w.gen, 1.0, b, c, e); });
        Heston g{edge(-2, 2), edge(-2, 2), edge(-2, 2), edge(-2, 2), edge(-2, 2)};
        if (coin()) { g.ka = std::fabs(g.ka); g.v0 = std::fabs(g.v0); g.sv = std::fabs(g.sv); a = std::fabs(a); }
        accepts<std::invalid_argument>(g.rho >= -1 && g.rho <= 1 && g.v0 > 0 && g.sv > 0 && g.ka > 0 && a > 0, "Bates validation" + show(g) + D(" sigmaJ=", a), [&] { BatesModel m("A", w.md, w.gen, g.ka, g.th, g.sv, g.rho, g.v0, 1.0, 0.1, a); });
    }
}
RP_MAIN(body)
