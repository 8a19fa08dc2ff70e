#include "harness.h"
#include "mch.h"
using namespace OptionPricer;
using namespace mch;
template <typename F> static void active(bool in) {
    static const double sp[] = {NAN, INFINITY, -INFINITY, 0.0, -0.0, 5e-324};
    double B = coin(0.1) ? sp[ri(0, 5)] : val(0, 300);
    auto d = coin() ? BarrierDirection::Up : BarrierDirection::Down;
    F f;
    auto p = opts::params("A", 1, 100, 0, B, d);
    auto o = coin() ? f.createCallOption(p) : f.createPutOption(p);
    for (int i = 0; i < 12; ++i) {
        double S = i == 0 ? B : i == 1 ? std::nextafter(B, 1e300) : i == 2 ? std::nextafter(B, -1e300) : coin(0.2) ? sp[ri(0, 5)] : coin() ? B * (1 + uni(-1e-3, 1e-3)) : val(0, 300);
        scene(D(in ? "knock-in" : "knock-out", " isActive S=", S, " B=", B, d == BarrierDirection::Up ? " up" : " down"));
        bool touch = d == BarrierDirection::Up ? S >= B : S <= B;
        check(o->isActive(S) == (touch == in), "isActive");
    }
}
static void body() {
    MarketData::getInstance()->addStock("A", 100.0, 0.2);
    for (int k = 0; k < N(300); ++k) { active<KnockInBarrierOptionFactory>(true); active<KnockOutBarrierOptionFactory>(false); }
    for (int k = 0; k < N(15000); ++k) {
        World w = world();
        bool put = coin();
        auto hit = [&](const std::vector<double>& p) {
            for (double s : p) if (w.dir == BarrierDirection::Up ? s >= w.B : s <= w.B) return true;
            return false;
        };
        price<KnockInBarrierMCPricer, KnockInBarrierOptionFactory>(w, "knock-in", put, [&](const std::vector<double>& p) { return hit(p) ? sgn(put, p.back() - w.K) : 0; });
        price<KnockOutBarrierMCPricer, KnockOutBarrierOptionFactory>(w, "knock-out", put, [&](const std::vector<double>& p) { return hit(p) ? 0 : sgn(put, p.back() - w.K); });
    }
}
RP_MAIN(body)
