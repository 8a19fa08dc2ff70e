#include "harness.h"
#include "mch.h"
using namespace OptionPricer;
using namespace mch;
static void body() {
    for (int k = 0; k < N(15000); ++k) {
        World w = world();
        bool put = coin();
        price<SinglePathMCPricer, EuropeanOptionFactory>(w, "european", put, [&](const std::vector<double>& p) { return sgn(put, p.back() - w.K); });
        price<SinglePathMCPricer, DigitalOptionFactory>(w, "digital", put, [&](const std::vector<double>& p) { return (put ? p.back() < w.K : p.back() > w.K) ? 1.0 : 0.0; });
        price<SinglePathMCPricer, DoubleDigitalOptionFactory>(w, "double digital", put, [&](const std::vector<double>& p) { return p.back() >= w.K && p.back() <= w.KU ? 1.0 : 0.0; });
    }
}
RP_MAIN(body)
