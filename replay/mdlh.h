// stock models driven by a generator with one engine per distribution class
#pragma once
#include "harness.h"
#include "market_data/market_data.h"
#include "model/gbm_model.h"
#include "model/heston_model.h"
#include "model/bates_model.h"
#include "model/kou_model.h"
#include "model/merton_jump_diffusion_model.h"
#include "model/variance_gamma_model.h"
#include "model/discretization/explicit_euler_cir_discretization.h"
#include "model/discretization/milstein_cir_discretization.h"
#include "random/distribution/standard_normal_distribution.h"
#include "random/distribution/poisson_distrib.h"
#include "random/distribution/gamma_distrib.h"
#include "random/distribution/exponential_distr.h"
#include "random/distribution/continuous_uniform_distrib.h"
namespace mdl {
    using namespace OptionPricer;
    using namespace rp;
    enum { SN, NO, PO, EX, GA, UN, KINDS };
    struct Engines {
        std::mt19937 e[KINDS];
        long n[KINDS] = {};
        explicit Engines(unsigned s) { for (int i = 0; i < KINDS; ++i) e[i].seed(s * 31 + i); }
    };
    struct Gen : NumberGenerator {
        std::shared_ptr<Engines> E;
        Gen(unsigned d, std::shared_ptr<Engines> q) : NumberGenerator(d, 1u), E(std::move(q)) {}
        double operator()(Distribution& d) const override {
            int k = dynamic_cast<StandardNormalDistribution*>(&d) ? SN : dynamic_cast<NormalDistribution*>(&d) ? NO : dynamic_cast<PoissonDistribution*>(&d) ? PO
                  : dynamic_cast<ExponentialDistribution*>(&d) ? EX : dynamic_cast<GammaDistribution*>(&d) ? GA : UN;
            ++E->n[k];
            return d(E->e[k]);
        }
    };
    inline double pert = 0;
    struct World {
        std::shared_ptr<MarketData> md;
        double S0, sigma, r, c, T, dt;
        bool hasc;
        unsigned steps, seed;
        std::shared_ptr<Engines> got, ref;
        std::shared_ptr<Gen> gen;
        std::string desc;
        double sn() { ++ref->n[SN]; return std::normal_distribution<>(0, 1)(ref->e[SN]); }
        void reset(unsigned s) { *got = Engines(s); *ref = Engines(s); }
    };
    inline World world(bool t0 = false) {
        World w;
        w.md = MarketData::getInstance();
        w.S0 = val(1, 300), w.sigma = coin(0.1) ? 0 : val(0, 0.9), w.r = coin(0.1) ? 0 : val(-0.1, 0.2), w.hasc = coin(), w.c = w.hasc ? val(0, 0.2) : 0;
        w.md->addStock("A", w.S0, w.sigma, w.hasc ? std::optional<double>(w.c) : std::nullopt);
        w.md->addStock("B", 17.0, 0.11, 0.03);
        w.md->setR(w.r);
        w.T = t0 && coin(0.1) ? 0.0 : val(0.01, 5);
        w.steps = coin(0.05) ? ival(1, 400) : ri(1, 12);
        w.dt = w.T / w.steps;
        w.seed = ri(0, 1 << 30);
        w.got = std::make_shared<Engines>(w.seed), w.ref = std::make_shared<Engines>(w.seed);
        w.gen = std::make_shared<Gen>(w.steps, w.got);
        w.desc = D("S=", w.S0, " sigma=", w.sigma, " r=", w.r, " c=", w.hasc ? D(w.c) : std::string("none"), " T=", w.T, " steps=", w.steps, " seed=", w.seed);
        return w;
    }
    /// normal draws are pairs inside one std::normal_distribution: the reference keeps one object per simulation
    struct Draws {
        World& w;
        std::normal_distribution<> nd{0, 1};
        explicit Draws(World& q) : w(q) {}
        double sn() { ++w.ref->n[SN]; return nd(w.ref->e[SN]); }
        template <typename Dist> double other(int k, Dist& d) { ++w.ref->n[k]; return d(w.ref->e[k]); }
    };
    /// compares whole paths and terminal prices with the reference recursion `path`
    template <typename F> void compare(World& w, StockModel& m, const std::string& nm, F&& path) {
        scene(nm + " " + w.desc);
        for (int rep = 0; rep < (coin(0.2) ? 2 : 1); ++rep) {
            // the truncated variance recursions can amplify rounding: steps where the reference itself, perturbed by 1e-13, moves are not compared
            Engines keep = *w.ref;
            pert = 1e-13;
            std::vector<double> want2 = path(), got;
            *w.ref = keep;
            pert = 0;
            std::vector<double> want = path();
            size_t ok = 0;
            while (ok < want.size() && close(want[ok], want2[ok], 1e-9)) ++ok;
            if (coin()) {
                got = m.simulatePrices(w.T);
                if (check(got.size() == w.steps, D(nm, ": ", got.size(), " prices for ", w.steps, " steps")))
                    for (unsigned t = 0; t < ok; ++t) if (!eq(got[t], want[t], D(nm, ": price at step ", t), 1e-8)) return;
            } else {
                double g = m.simulatePriceAtMaturity(w.T);
                if (ok == want.size() && !eq(g, want.back(), nm + ": terminal price", 1e-8)) return;
            }
            for (int k = 0; k < KINDS; ++k) if (!check(w.got->n[k] == w.ref->n[k], D(nm, ": ", w.got->n[k], " draws of class ", k, " instead of ", w.ref->n[k]))) return;
        }
    }
    struct Heston { double ka, th, sv, rho, v0; };
    inline Heston heston(bool strict) {
        Heston h{val(strict ? 0.01 : -1, 4), val(0, 0.5), strict || !coin(0.1) ? val(0.01, 1.5) : 0.0, coin(0.1) ? (coin() ? 1.0 : -1.0) : val(-1, 1), strict || !coin(0.1) ? val(0.001, 0.5) : 0.0};
        return h;
    }
    inline std::string show(const Heston& h) { return D(" kappa=", h.ka, " theta=", h.th, " sigma_v=", h.sv, " rho=", h.rho, " v0=", h.v0); }
    inline double euler(double V, double dt, const Heston& h, double z) { return V + h.ka * (h.th - std::max(V, 0.0)) * dt + h.sv * std::sqrt(std::max(V, 0.0) * dt) * z; }
    inline double milstein(double V, double dt, const Heston& h, double z) { return euler(V, dt, h, z) + h.sv * h.sv * dt * (z * z - 1) / 4; }
    struct Other : CIRDiscretization {
        void update(double& V, const double& dt, const double& k, const double& th, const double& sv, const double& z) const override { V = 0.5 * V + 0.01 * k * dt + 0.3 * th + 0.02 * sv * z; }
    };
    inline double other(double V, double dt, const Heston& h, double z) { return 0.5 * V + 0.01 * h.ka * dt + 0.3 * h.th + 0.02 * h.sv * z; }
    using Scheme = double (*)(double, double, const Heston&, double);
    inline std::pair<Scheme, std::shared_ptr<CIRDiscretization>> scheme() {
        switch (ri(0, 3)) {
            case 0: return {euler, nullptr};
            case 1: return {euler, std::make_shared<CIRExplicitEulerDiscretization>()};
            case 2: return {milstein, std::make_shared<CIRMilsteinDiscretization>()};
            default: return {other, std::make_shared<Other>()};
        }
    }
    /// the price one step later and the variance one step later
    inline double hestonStep(World& w, const Heston& h, Draws& d, Scheme s, double S, double& V, double extra) {
        double z1 = d.sn(), z2 = d.sn(), v = std::max(V, 0.0);
        S *= std::exp((w.r - w.c - 0.5 * v + extra) * w.dt + std::sqrt(v * w.dt) * (h.rho * z1 + std::sqrt(1 - h.rho * h.rho) * z2));
        V = s(V, w.dt, h, z1);
        V += pert * (1 + V);
        return S;
    }
    template <typename E, typename F> void accepts(bool valid, const std::string& what, F&& make) {
        scene(what);
        bool any = false, right = false;
        try { make(); } catch (const E&) { any = right = true; } catch (...) { any = true; }
        check(any == !valid, valid ? "valid parameters rejected" : "invalid parameters accepted");
        if (any) check(right, "rejected with another exception");
    }
    inline double edge(double lo, double hi) {
        static const double sp[] = {0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 1.0000000000000002, -1.0000000000000002, 0.9999999999999999};
        return coin(0.4) ? sp[ri(0, 8)] : val(lo, hi);
    }
}
