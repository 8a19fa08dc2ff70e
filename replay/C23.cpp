#include "harness.h"
#include <stdexcept>
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/regression/ridge.h"
#include "numerical_analysis/regression/lasso.h"
using namespace OptionPricer;
using namespace rp;
static void body() {
    for (double l : {-1e-300, -0.5, -3.0}) {
        scene(D("lambda=", l));
        check(throws<std::invalid_argument>([&] { RidgeRegression r(l); }), "ridge rejects a negative lambda");
        check(throws<std::invalid_argument>([&] { LassoRegression r(l); }), "lasso rejects a negative lambda");
    }
    LeastSquaresRegression ls;
    for (int i = 0; i < N(4000); ++i) {
        int d = ri(1, 6), m = coin(0.15) ? ri(1, d) : d + ri(0, 12);
        Eigen::MatrixXd A(m, d);
        Eigen::VectorXd y(m);
        for (int r = 0; r < m; ++r) { y[r] = val(-10, 10); for (int c = 0; c < d; ++c) A(r, c) = coin(0.05) ? 0 : val(-4, 4); }
        bool deficient = d > 1 && coin(0.2);
        if (deficient) A.col(d - 1) = 2 * A.col(0);
        double lam = coin(0.2) ? 0 : uni(0.01, 3);
        scene(D("lambda=", lam, " A=", A, " y=", y.transpose()));
        // reference least-squares solution of minimal norm
        Eigen::CompleteOrthogonalDecomposition<Eigen::MatrixXd> cod(A);
        Eigen::JacobiSVD<Eigen::MatrixXd> sv(A);
        const auto& s = sv.singularValues();
        bool ill = false;
        for (int k = 0; k < s.size(); ++k) { double q = s[k] / s[0]; if (!(s[0] > 0) || (q > 1e-13 && q < 1e-4)) ill = true; }
        if (ill) continue;
        Eigen::VectorXd ref = cod.solve(y);
        try {
            Eigen::VectorXd b = ls.solve(A, y);
            if (!check(b.size() == d, "one coefficient per column")) return;
            for (int k = 0; k < d; ++k) eq(b[k], ref[k], D("least-squares coefficient ", k), 1e-6, 1e-6);
            LassoRegression la(lam);
            b = la.solve(A, y);
            if (!check(b.size() == d, "one coefficient per column")) return;
            for (int k = 0; k < d; ++k) {
                double w = ref[k] > lam ? ref[k] - lam : ref[k] < -lam ? ref[k] + lam : 0;
                eq(b[k], w, D("lasso coefficient ", k), 1e-6, 1e-6);
            }
            RidgeRegression ri_(lam);
            if (lam > 0 || (!deficient && m >= d && s[s.size() - 1] > 1e-3 * s[0])) {
                b = ri_.solve(A, y);
                if (!check(b.size() == d, "one coefficient per column")) return;
                Eigen::VectorXd res = A.transpose() * (A * b - y) + lam * b;
                double sc = 1 + A.squaredNorm() * (1 + b.cwiseAbs().maxCoeff()) + A.norm() * y.norm();
                check(res.cwiseAbs().maxCoeff() <= 1e-9 * sc, D("ridge normal equations violated by ", res.transpose(), " coefficients ", b.transpose()));
            }
        } catch (const std::exception& e) { check(false, D("threw: ", e.what())); }
    }
}
RP_MAIN(body)
