#include "harness.h"
#include "opts.h"
using namespace OptionPricer;
using namespace rp;
static double any() {
    static const double sp[] = {NAN, -NAN, INFINITY, -INFINITY, 0.0, -0.0, 5e-324, -5e-324, 1e308, -1e-12, 1e-12, -1.0, 1.0};
    return coin(0.4) ? sp[ri(0, 12)] : val(-200, 400);
}
static bool ok(double k) { return k >= 0; }
template <typename P> static void terms(const P& p, const std::string& w, PayoffType t) {
    check(p.getPayoffType() == t, w + ": type reported");
    auto c = p.clone();
    check(c && c->getPayoffType() == t, w + ": clone type");
    check(*c == p && p == *c && !(*c != p), w + ": clone equal");
    check(dynamic_cast<const P*>(c.get()) != nullptr, w + ": clone class");
    for (int i = 0; i < 3; ++i) {
        double S = val(-10, 400), e = val(-10, 400);
        if constexpr (std::is_same_v<P, PayoffLookbackFloatingStrike>) eq((*c)(S, e), p(S, e), w + ": clone amount", 0, 0);
        else eq((*c)(S), p(S), w + ": clone amount", 0, 0);
    }
}
static void body() {
    auto md = MarketData::getInstance();
    md->addStock("S", 100.0, 0.2);
    const PayoffType ty[] = {PayoffType::Call, PayoffType::Put, PayoffType::DoubleDigital};
    for (long i = 0; i < N(4000); ++i) {
        double K = any(), L = coin(0.2) ? K : any();
        PayoffType t = ty[ri(0, 2)], u = ty[ri(0, 2)];
        scene(D("K=", K, " K2=", L, " type=", (int) t, " type2=", (int) u));
        bool good = ok(K) && t != PayoffType::DoubleDigital;
        auto bad = [&](auto f, const char* w) { check(throws<std::invalid_argument>(f), std::string(w) + ": invalid terms raise std::invalid_argument"); };
        if (good) {
            try {
                PayoffVanilla v(t, K); PayoffDigital d(t, K);
                check(v.getK() == K && d.getK() == K, "strike reported");
                check(dynamic_cast<PayoffSingleStrike&>(*v.clone()).getK() == K && dynamic_cast<PayoffSingleStrike&>(*d.clone()).getK() == K, "clone strike");
                terms(v, "vanilla", t); terms(d, "digital", t);
                check(!(v == d) && !(d == v) && v != d, "vanilla differs from digital");
                if (ok(L) && u != PayoffType::DoubleDigital) {
                    PayoffVanilla v2(u, L); PayoffDigital d2(u, L);
                    bool same = K == L && t == u;
                    check((v == v2) == same && (v2 == v) == same && (v != v2) == !same, "vanilla equality");
                    check((d == d2) == same && (d2 == d) == same && (d != d2) == !same, "digital equality");
                }
            } catch (const std::exception& e) { check(false, D("valid terms rejected: ", e.what())); }
        } else {
            bad([&] { PayoffVanilla v(t, K); }, "vanilla");
            bad([&] { PayoffDigital v(t, K); }, "digital");
        }
        if (ok(K) && ok(L)) {
            try {
                PayoffDoubleDigital p(K, L);
                check(p.getKL() == K && p.getKU() == L, "double digital strikes reported");
                auto c = p.clone();
                auto& q = dynamic_cast<PayoffDoubleStrikes&>(*c);
                check(q.getKL() == K && q.getKU() == L, "double digital clone strikes");
                terms(p, "double digital", PayoffType::DoubleDigital);
                double a = coin() ? K : std::fabs(val(0, 400)), b = coin() ? L : std::fabs(val(0, 400));
                PayoffDoubleDigital r(a, b);
                bool same = a == K && b == L;
                check((p == r) == same && (r == p) == same && (p != r) == !same, D("double digital equality with ", a, ",", b));
            } catch (const std::exception& e) { check(false, D("valid strikes rejected: ", e.what())); }
        } else bad([&] { PayoffDoubleDigital p(K, L); }, "double digital");
        if (t != PayoffType::DoubleDigital) {
            PayoffLookbackFloatingStrike p(t);
            terms(p, "lookback", t);
            if (u != PayoffType::DoubleDigital) {
                PayoffLookbackFloatingStrike q(u);
                check((p == q) == (t == u) && (p != q) == (t != u), "lookback equality");
            }
        } else bad([&] { PayoffLookbackFloatingStrike p(t); }, "lookback");
        // options: maturity
        if (i % 4 == 0) {
            double T = any(), k = std::fabs(val(0, 300)), B = val(1, 300), S = val(-10, 400), e = val(0, 400);
            scene(D("options T=", T, " K=", k, " B=", B, " S=", S, " e=", e));
            opts::each(opts::params("S", T, k, k + 5, B, coin() ? BarrierDirection::Up : BarrierDirection::Down), [&](const std::string& w, auto make) {
                if (T >= 0) {
                    try {
                        std::shared_ptr<Option> o = make();
                        check(o->getT() == T, w + ": maturity");
                        double got = 0, want = 0;
                        if (w.find("float") != std::string::npos) { got = o->payoff(S, e); want = o->getPayoff()(S, e); }
                        else { got = o->payoff(S); want = o->getPayoff()(S); }
                        eq(got, want, w + ": pays its payoff", 0, 0);
                    } catch (const std::exception& ex) { check(false, w + ": rejected: " + ex.what()); }
                } else check(throws<std::invalid_argument>(make), w + ": invalid maturity raises std::invalid_argument");
            });
        }
    }
}
RP_MAIN(body)
