#include "harness.h"
#include "mch.h"
using namespace OptionPricer;
using namespace mch;
static void body() {
    for (int k = 0; k < N(15000); ++k) {
        World w = world();
        bool put = coin();
        price<ArithmeticAsianMCPricer, ArithmeticAsianOptionFactory>(w, "arithmetic asian", put, [&](const std::vector<double>& p) {
            double s = 0; for (double v : p) s += v; return sgn(put, s / p.size() - w.K); });
        price<GeometricAsianMCPricer, GeometricAsianOptionFactory>(w, "geometric asian", put, [&](const std::vector<double>& p) {
            double s = 0; for (double v : p) s += std::log(v); return sgn(put, std::exp(s / p.size()) - w.K); });
        price<FloatingStrikeLookbackMCPricer, FloatingStrikeLookbackOptionFactory>(w, "floating lookback", put, [&](const std::vector<double>& p) {
            return put ? std::max(mx(p) - p.back(), 0.0) : std::max(p.back() - mn(p), 0.0); });
        price<FixedStrikeLookbackMCPricer, FixedStrikeLookbackOptionFactory>(w, "fixed lookback", put, [&](const std::vector<double>& p) {
            return put ? std::max(w.K - mn(p), 0.0) : std::max(mx(p) - w.K, 0.0); });
    }
}
RP_MAIN(body)
