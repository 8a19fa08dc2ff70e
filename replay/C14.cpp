#include "harness.h"
#include "random/distribution/standard_normal_distribution.h"
#include "random/distribution/poisson_distrib.h"
#include "random/distribution/gamma_distrib.h"
#include "random/distribution/exponential_distr.h"
#include "random/distribution/continuous_uniform_distrib.h"
using namespace OptionPricer;
using namespace rp;
static double edge(double lo, double hi) {
    static const double sp[] = {0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 1e-300, -1e-300};
    return coin(0.4) ? sp[ri(0, 7)] : val(lo, hi);
}
template <typename F> static void accepts(bool valid, const std::string& what, F&& make) {
    scene(what);
    bool any = false, right = false;
    try { make(); } catch (const std::invalid_argument&) { any = right = true; } catch (...) { any = true; }
    check(any == !valid, valid ? "valid parameters rejected" : "invalid parameters accepted");
    if (any) check(right, "rejected with another exception");
}
template <typename R> static void draws(Distribution& d, R ref, const std::string& what, bool quant = false) {
    unsigned s = ri(0, 1 << 30);
    std::mt19937 a(s), b(s);
    scene(D(what, " seed=", s));
    for (int i = 0; i < 12; ++i) eq(d(a), (double) ref(b), D(what, ": draw ", i), 1e-12);
    check(a == b, what + ": another number of engine values used");
    if (!quant) check(throws<std::logic_error>([&] { (void) d.inv_cdf(val(0.01, 0.99)); }), what + ": inv_cdf does not raise a logic_error");
}
static void body() {
    for (int i = 0; i < N(8000); ++i) {
        double a = edge(-5, 5), b = edge(-5, 5);
        accepts(b > 0, D("normal mu=", a, " sigma=", b), [&] { NormalDistribution d(a, b); });
        accepts(a > 0, D("poisson lambda=", a), [&] { PoissonDistribution d(a); });
        accepts(a > 0, D("exponential lambda=", a), [&] { ExponentialDistribution d(a); });
        accepts(a > 0 && b > 0, D("gamma alpha=", a, " beta=", b), [&] { GammaDistribution d(a, b); });
        accepts(a < b, D("uniform a=", a, " b=", b), [&] { ContinuousUniformDistribution d(a, b); });
        double m = val(-10, 10), p = val(0.01, 20), q = val(0.01, 20);
        { NormalDistribution d(m, p); draws(d, std::normal_distribution<>(m, p), D("normal ", m, " ", p)); }
        { PoissonDistribution d(p); draws(d, std::poisson_distribution<>(p), D("poisson ", p)); }
        { ExponentialDistribution d(p); draws(d, std::exponential_distribution<>(p), D("exponential ", p)); }
        { GammaDistribution d(p, q); draws(d, std::gamma_distribution<>(p, 1 / q), D("gamma ", p, " ", q)); }
        { ContinuousUniformDistribution d(m, m + p); draws(d, std::uniform_real_distribution<>(m, m + p), D("uniform ", m, " ", m + p)); }
        { ContinuousUniformDistribution d; draws(d, std::uniform_real_distribution<>(0, 1), "default uniform"); }
        { StandardNormalDistribution d; draws(d, std::normal_distribution<>(0, 1), "standard normal", true); }
    }
}
RP_MAIN(body)
