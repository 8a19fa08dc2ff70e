#include "harness.h"
#include <numeric>
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/monomial.h"
using namespace OptionPricer;
using namespace rp;
// explicit polynomials
static long double binom(int n, int k) { long double r = 1; for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i; return r; }
static long double poly(int fam, int n, long double x, long double& mag) {
    long double s = 0;
    mag = 0;
    auto add = [&](long double t) { s += t; mag += std::fabs((double) t); };
    if (fam == 0) for (int k = 0; 2 * k <= n; ++k) add(binom(n, 2 * k) * powl(x * x - 1, k) * powl(x, n - 2 * k));
    if (fam == 1) { long double f = 1; for (int k = 0; k <= n; ++k) { if (k) f *= k; add(binom(n, k) * powl(-x, k) / f); } }
    if (fam == 2) for (int k = 0; k <= n; ++k) add(binom(n, k) * binom(n, k) * powl((x - 1) / 2, n - k) * powl((x + 1) / 2, k));
    if (fam == 3) add(powl(x, n));
    return s;
}
static const char* nm[] = {"Chebyshev", "Laguerre", "Legendre", "monomial"};
static std::unique_ptr<BasisFunction> make(int f, unsigned n) {
    switch (f) {
        case 0: return std::make_unique<ChebyshevBasisFunction>(n);
        case 1: return std::make_unique<LaguerreBasisFunction>(n);
        case 2: return std::make_unique<LegendreBasisFunction>(n);
        default: return std::make_unique<MonomialBasisFunction>(n);
    }
}
static void body() {
    for (int f = 0; f < 4; ++f) {
        scene(D(nm[f], " with 0 basis functions"));
        check(throws<std::invalid_argument>([&] { make(f, 0); }), "zero basis functions are rejected");
    }
    for (int i = 0; i < N(6000); ++i) {
        int f = ri(0, 3), d = coin(0.1) ? ri(10, 20) : coin(0.02) ? ri(21, 40) : ri(1, 8), m = coin(0.1) ? ri(0, 1) : ri(1, 9);
        Eigen::VectorXd x(m);
        for (int k = 0; k < m; ++k) x[k] = coin(0.15) ? ri(-2, 2) : uni(-2.5, 2.5);
        scene(D(nm[f], " number of functions=", d, " x=", x.transpose()), m > 0);
        auto b = make(f, d);
        for (int rep = 0; rep < 2; ++rep) {
            Eigen::MatrixXd A = b->generate(x);
            if (!check(A.rows() == m && A.cols() == d, D("size of the basis matrix: ", A.rows(), "x", A.cols()))) return;
            for (int k = 0; k < m; ++k)
                for (int n = 0; n < d; ++n) {
                    long double mag, w = poly(f, n, x[k], mag);
                    eq(A(k, n), (double) w, D(nm[f], " of degree ", n, " at ", x[k]), 1e-8, 1e-9 * (1 + (double) mag));
                }
        }
    }
}
RP_MAIN(body)
