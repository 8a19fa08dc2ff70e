#include "fdmh.h"
using namespace fdm;
static void body() {
    std::cerr.setstate(std::ios::failbit);   // the solvers print stability warnings
    auto md = MarketData::getInstance();
    md->addStock("A", 100.0, 0.2);
    for (long i = 0; i < N(4000); ++i) {
        int s = i % 3, ms = s ? ri(0, 3) : 0;
        Case k = make(s == 0 || coin());
        auto o = option(k.T, 100);
        bool ok = true;
        auto want = ref(k, TH[s], ok);
        scene(text(s, ms, k), ok);
        if (!ok) continue;
        auto f = solver(s, ms, k, o, md, nullptr);
        std::vector<double> got;
        try { got = f->solve(); } catch (const std::exception& e) { check(false, D("threw on regular systems: ", e.what())); continue; }
        if (!check(got.size() == k.J, D("one price per grid point: ", got.size()))) continue;
        double m = 1;
        for (double w : want) m = std::max(m, std::fabs(w));
        for (size_t j = 0; j < k.J; ++j) eq(got[j], want[j], D("price at grid point ", j), 1e-7, 1e-7 * m);
    }
}
RP_MAIN(body)
