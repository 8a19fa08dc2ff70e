#include "fdmh.h"
using namespace fdm;
struct Rec : Interpolation {
    mutable std::vector<double> xs, ys;
    mutable double at = 0;
    mutable long n = 0;
    double interpolate(const std::vector<double>& a, const std::vector<double>& b, const double& t) const override {
        xs = a, ys = b, at = t, ++n;
        return 17.25 + t;
    }
};
static void body() {
    std::cerr.setstate(std::ios::failbit);
    for (long i = 0; i < N(3000); ++i) {
        auto md = MarketData::getInstance();
        int s = i % 3, ms = s ? ri(0, 3) : 0, im = ri(0, 2);
        Case k = make(s == 0 || coin());
        bool ok = true;
        auto want = ref(k, TH[s], ok);
        double S = coin(0.2) ? k.X / (k.J - 1.0) * ri(0, k.J - 1) : uni(0, k.X);
        if (S <= 0) S = k.X / 3;
        md->addStock("A", S, 0.2);
        md->addStock("B", k.X * 0.123, 0.2);
        bool before = coin(), late = coin();
        auto o = option(k.T, 100);
        scene(D(text(s, ms, k), " S=", S, " interpolation=", im, " solve() first=", before, " price updated=", late), ok);
        if (!ok) continue;
        std::shared_ptr<Interpolation> in;
        auto rec = std::make_shared<Rec>();
        if (im == 1) in = rec;
        if (im == 2) in = std::make_shared<QuadraticInterpolation>();
        auto f = solver(s, ms, k, o, md, in);
        std::vector<double> g1;
        if (before) g1 = f->solve();
        if (late) md->updateStockPrice("A", S = std::max(1e-3, S * 0.7));
        double p = f->calculatePrice();
        auto g2 = f->solve(), g3 = f->solve();
        check(g2 == g3 && (!before || g1 == g2), "later calls of solve return the same prices");
        check(f->calculatePrice() == p || std::isnan(p), "pricing twice gives the same price");
        std::vector<double> xs;
        double m = 1, dx = k.X / (k.J - 1.0);
        for (size_t j = 0; j < k.J; ++j) xs.push_back(j * dx), m = std::max(m, std::fabs(want[j]));
        if (im == 1) {
            check(rec->n == 2, "the interpolation given is used");
            check(rec->xs == xs && rec->ys == g2, "it gets the grid and the final prices");
            check(rec->at == S, D("it is evaluated at the stock price in force: ", rec->at, ", expected ", S));
            eq(p, 17.25 + S, "its value is the price");
        } else {
            LinearInterpolation l; QuadraticInterpolation q;
            eq(p, im ? q.interpolate(xs, want, S) : l.interpolate(xs, want, S), "price is the interpolated last time level", 1e-6, 1e-6 * m);
        }
        double S2 = uni(0.1, 0.9) * k.X;
        md->updateStockPrice("A", S2);
        double p2 = f->calculatePrice();
        if (im == 1) eq(p2, 17.25 + S2, "the price follows the stock price");
        else { LinearInterpolation l; QuadraticInterpolation q; eq(p2, im ? q.interpolate(xs, want, S2) : l.interpolate(xs, want, S2), "the price follows the stock price", 1e-6, 1e-6 * m); }
    }
}
RP_MAIN(body)
