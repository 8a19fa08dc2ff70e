// scripted stock model: hands out given paths, so that a pricer's result can be computed independently
#pragma once
#include "opts.h"
#include "model/base_model.h"
#include "solver/monte_carlo/mc_single_path.h"
#include "solver/monte_carlo/mc_asian.h"
#include "solver/monte_carlo/mc_lookback.h"
#include "solver/monte_carlo/mc_barrier.h"
namespace mch {
    using namespace OptionPricer;
    using namespace rp;
    struct Gen : NumberGenerator {
        explicit Gen(unsigned d) : NumberGenerator(d, 1u) {}
        double operator()(Distribution&) const override { return 0.25; }
    };
    struct Paths {
        std::vector<std::vector<double>> P;
        mutable size_t used = 0;
        mutable bool badT = false;
        double T = 1;
    };
    struct Model : StockModel {
        std::shared_ptr<Paths> p;
        Model(std::shared_ptr<IMarketData> md, unsigned steps, std::shared_ptr<Paths> q) : StockModel("A", std::move(md), std::make_shared<Gen>(steps)), p(std::move(q)) {}
        const std::vector<double>& next(double T) const {
            if (T != p->T) p->badT = true;
            size_t i = p->used++;
            return p->P[i < p->P.size() ? i : p->P.size() - 1];
        }
        double simulatePriceAtMaturity(const double& T) const override { return next(T).back(); }
        std::vector<double> simulatePrices(const double& T) const override { return next(T); }
    };
    struct World {
        std::shared_ptr<MarketData> md;
        std::shared_ptr<Paths> ps = std::make_shared<Paths>();
        std::shared_ptr<Model> model;
        double r, T, K, KU, B;
        unsigned steps, N;
        BarrierDirection dir;
        std::string desc;
    };
    /// an arbitrary world: paths around the strike and barrier, often exactly on them
    inline World world() {
        World w;
        w.md = MarketData::getInstance();
        w.md->addStock("A", 100.0, 0.2);
        w.r = coin(0.1) ? 0.0 : val(-0.2, 0.3);
        w.md->setR(w.r);
        w.T = coin(0.1) ? 0.0 : val(0, 5);
        w.K = val(50, 150);
        w.KU = w.K + val(0, 40);
        w.B = coin() ? std::round(uni(60, 140)) : val(60, 140);
        w.dir = coin() ? BarrierDirection::Up : BarrierDirection::Down;
        w.steps = coin(0.05) ? ival(1, 400) : ri(1, 9);
        w.N = coin(0.05) ? ival(1, 600) : ri(1, 7);
        if (coin(0.0008)) { w.N = ri(65530, 70000); w.steps = ri(1, 3); }     // beyond 16 bits
        else if (coin(0.0008)) { w.steps = ri(65530, 70000); w.N = ri(1, 2); }
        w.ps->T = w.T;
        double spread = coin() ? 50 : 8, mid = coin() ? w.B : w.K;
        for (unsigned i = 0; i < w.N; ++i) {
            std::vector<double> p;
            for (unsigned t = 0; t < w.steps; ++t) {
                switch (ri(0, 9)) {
                    case 0: p.push_back(w.B); break;
                    case 1: p.push_back(w.K); break;
                    case 2: p.push_back(val(1, 300)); break;
                    case 3: if (t) { p.push_back(p.back()); break; }
                    default: p.push_back(std::max(0.5, mid + uni(-spread, spread)));
                }
            }
            if (coin(0.1)) {     // the barrier is touched at one step only, often the first or the last
                bool up = w.dir == BarrierDirection::Up;
                for (double& v : p) if (up ? v >= w.B : v <= w.B) v = up ? w.B * uni(0.6, 0.99) : w.B * uni(1.01, 1.5);
                p[coin(0.4) ? 0 : coin(0.4) ? p.size() - 1 : ri(0, (int) p.size() - 1)] = w.B;
            }
            w.ps->P.push_back(p);
        }
        w.model = std::make_shared<Model>(w.md, w.steps, w.ps);
        w.desc = D("r=", w.r, " T=", w.T, " K=", w.K, " KU=", w.KU, " B=", w.B, w.dir == BarrierDirection::Up ? " up" : " down", " N=", w.N, " steps=", w.steps, " path0=", V(w.ps->P[0]));
        return w;
    }
    template <typename Pr, typename F, typename S> void price(World& w, const std::string& nm, bool put, S&& spec) {
        auto p = opts::params("A", w.T, w.K, w.KU, w.B, w.dir);
        F f;
        auto o = put ? f.createPutOption(p) : f.createCallOption(p);
        w.ps->used = 0;
        w.ps->badT = false;
        scene(nm + (put ? " put " : " call ") + w.desc);
        Pr pr(o, w.md, w.model);
        if (coin(0.2)) { w.r = val(-0.1, 0.2); w.md->setR(w.r); }
        double s = 0;
        for (auto& q : w.ps->P) s += spec(q);
        double want = s / w.N * std::exp(-w.r * w.T), got = 0;
        for (int rep = 0; rep < (coin(0.2) ? 2 : 1); ++rep) {
            w.ps->used = 0;
            got = pr.calculatePrice(w.N);
            eq(got, want, nm + ": discounted average payoff");
            check(w.ps->used == w.N, D(nm, ": simulated ", w.ps->used, " paths instead of ", w.N));
            check(!w.ps->badT, nm + ": path simulated to a different maturity");
        }
    }
    inline double sgn(bool put, double a) { return std::max(put ? -a : a, 0.0); }
    inline double mn(const std::vector<double>& p) { return *std::min_element(p.begin(), p.end()); }
    inline double mx(const std::vector<double>& p) { return *std::max_element(p.begin(), p.end()); }
}
