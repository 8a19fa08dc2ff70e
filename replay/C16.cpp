#include "harness.h"
#include "random/distribution/standard_normal_distribution.h"
using namespace OptionPricer;
using namespace rp;
static double moro(double u) {
    static const long double A[] = {2.50662823884L, -18.61500062529L, 41.39119773534L, -25.44106049637L}, B[] = {-8.47351093090L, 23.08336743743L, -21.06224101826L, 3.13082909833L},
        C[] = {0.3374754822726147L, 0.9761690190917186L, 0.1607979714918209L, 0.0276438810333863L, 0.0038405729373609L, 0.0003951896511919L, 0.0000321767881768L, 0.0000002888167364L, 0.0000003960315187L};
    long double y = (long double) u - 0.5L;
    if (fabsl(y) < 0.42L) {
        long double r = y * y, n = 0, d = 0;
        for (int i = 3; i >= 0; --i) n = n * r + A[i], d = (d + B[i]) * r;
        return y * n / (d + 1);
    }
    long double r = logl(-logl(y > 0 ? 1 - (long double) u : u)), s = 0;
    for (int i = 8; i >= 0; --i) s = s * r + C[i];
    return y < 0 ? -s : s;
}
static double cdf(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
static void body() {
    StandardNormalDistribution d;
    static const double sp[] = {0.0, -0.0, 1.0, -1.0, 2.0, 5e-324, -5e-324, 1e-300, 0.9999999999999999, 1.0000000000000002, 0.5, 0.08, 0.92, 1e-16, INFINITY, -INFINITY};
    for (int i = 0; i < N(300000); ++i) {
        double q = coin(0.1) ? sp[ri(0, 15)] : coin(0.1) ? val(-3, 3) : coin(0.2) ? std::pow(10.0, uni(-12, 0)) : coin(0.1) ? (coin() ? 0.08 : 0.92) + uni(-1e-6, 1e-6) : val(0, 1);
        scene(D("quantile ", q));
        if (!(q > 0 && q < 1)) { check(throws<std::invalid_argument>([&] { (void) d.inv_cdf(q); }), "quantile outside (0,1) accepted"); continue; }
        double v = d.inv_cdf(q);
        double y = q - 0.5;
        if (std::fabs(std::fabs(y) - 0.42) > 1e-12) eq(v, moro(q), "inv_cdf", 1e-9, 1e-12);
        if (q > 1e-9 && q < 1 - 1e-9) {
            eq(d.inv_cdf(1 - q), -v, "antisymmetry", 1e-7, 1e-9);
            check(std::fabs(cdf(v) - q) < 1e-8, D("inv_cdf is not the inverse of the distribution function: cdf(", v, ")=", cdf(v)));
        }
    }
}
RP_MAIN(body)
