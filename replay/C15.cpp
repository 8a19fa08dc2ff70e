#include "harness.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "random/number_generator/sobol_quasi_random_generator.h"
#include "random/number_generator/faure_quasi_random_generator.h"
#include "random/distribution/standard_normal_distribution.h"
#include "random/distribution/gamma_distrib.h"
#include "random/distribution/poisson_distrib.h"
using namespace OptionPricer;
using namespace rp;
struct Id : Distribution {
    double inv_cdf(const double& q) const override { return q; }
    double operator()(std::mt19937& g) const override { return g(); }
};
template <typename G, typename E> static void quasi(const std::string& nm) {
    unsigned dim = coin(0.9) ? ri(1, 12) : coin(0.9) ? ri(13, 60) : ri(61, 400), seed = coin(0.1) ? 0 : ri(0, coin() ? 50 : 100000);
    scene(D(nm, " dim=", dim, " seed=", seed));
    G g(dim, seed);
    check(g.getDim() == dim, nm + ": getDim");
    E e(dim);
    e.seed(seed);
    Id id;
    int n = dim * ri(1, 5) + ri(0, dim);
    for (int i = 0; i < n; ++i)
        if (!eq(g(id), e() / (double) E::max(), D(nm, ": number ", i), 1e-12)) return;
}
template <typename G> static void dims(const std::string& nm) {
    scene(nm + " dimension 0");
    check(throws<std::invalid_argument>([] { G g(0u, 3u); }), nm + ": dimension 0 accepted");
    check(throws<std::invalid_argument>([] { G g(0u); }), nm + ": dimension 0 accepted (random seed)");
}
static void body() {
    dims<PseudoRandomNumberGenerator>("pseudo");
    dims<SobolGenerator>("sobol");
    dims<FaureGenerator>("faure");
    for (int i = 0; i < N(3000); ++i) {
        quasi<SobolGenerator, boost::random::sobol>("sobol");
        quasi<FaureGenerator, boost::random::faure>("faure");
        unsigned dim = ri(1, 300), s = coin(0.1) ? (coin() ? 0u : 0xffffffffu) : ri(0, 1 << 30), s2 = ri(0, 1 << 30);
        scene(D("pseudo dim=", dim, " seed=", s));
        PseudoRandomNumberGenerator g(dim, s), h(dim, s2);
        check(g.getDim() == dim, "pseudo: getDim");
        Id id;
        std::mt19937 e(s), e2(s2);
        StandardNormalDistribution sn;
        PoissonDistribution po(3);
        std::normal_distribution<> rn(0, 1);
        std::poisson_distribution<> rp_(3);
        for (int k = 0; k < 20; ++k) {
            int w = ri(0, 3);
            if (w == 0) eq(g(id), e(), D("pseudo: draw ", k));
            if (w == 1) eq(h(id), e2(), D("second pseudo generator: draw ", k));
            if (w == 2) eq(g(sn), rn(e), D("pseudo: normal draw ", k));
            if (w == 3) eq(g(po), rp_(e), D("pseudo: Poisson draw ", k));
        }
        scene("random seed");
        if (i < 20) { PseudoRandomNumberGenerator r(dim); check(r.getDim() == dim, "getDim"); (void) r(id); }
    }
}
RP_MAIN(body)
