#include "harness.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
using namespace OptionPricer;
using namespace rp;
static void one(MatrixSolver& s, const char* nm, int n, bool dom, bool tri) {
    Eigen::MatrixXd A = Eigen::MatrixXd::Zero(n, n);
    Eigen::VectorXd b(n);
    for (int i = 0; i < n; ++i) {
        b[i] = val(-10, 10);
        double sum = 0;
        for (int j = 0; j < n; ++j)
            if (j != i && (!tri || std::abs(i - j) == 1)) {
                double v = coin(0.1) ? 0 : val(-5, 5);
                A(i, j) = v;
                sum += std::fabs(v);
            }
        A(i, i) = !dom && !tri && coin(0.2) ? 0 : (coin() ? 1 : -1) * (dom ? sum + val(0.5, 3) : val(1, 6));
    }
    if (coin(0.1)) { double k = std::pow(10, uni(-14, 14)); A *= k; }
    if (coin(0.1)) b *= std::pow(10, uni(-14, 14));
    Eigen::SparseMatrix<double> S = A.sparseView();
    S.makeCompressed();
    scene(D(nm, " n=", n, " A=", A, " b=", b.transpose()), n > 1);
    Eigen::VectorXd x;
    Eigen::FullPivLU<Eigen::MatrixXd> f(A);
    const Eigen::VectorXd piv = f.matrixLU().diagonal().cwiseAbs();
    const bool regular = piv.minCoeff() > 1e-6 * piv.maxCoeff();
    try { x = s.solve(S, b); } catch (const std::exception& e) {
        check(!regular, D("threw on a regular system: ", e.what()));
        return;
    }
    if (!check(x.size() == n, "size of the solution")) return;
    if (!regular) return;
    if (!dom && tri && std::string(nm) == "Thomas") {   // no pivoting: needs nonzero, well-scaled pivots
        double p = A(0, 0), least = 1e-2 * A.cwiseAbs().maxCoeff() / 6;
        for (int i = 1; i < n; ++i) { if (std::fabs(p) < least) return; p = A(i, i) - A(i, i - 1) * A(i - 1, i) / p; }
        if (std::fabs(p) < least) return;
    }
    double r = (A * x - b).cwiseAbs().maxCoeff();
    check(r <= 1e-250 + 1e-6 * (b.cwiseAbs().maxCoeff() + x.cwiseAbs().maxCoeff() * A.cwiseAbs().maxCoeff()), D("residual ", r, " x=", x.transpose()));
}
static void body() {
    ThomasAlgorithm th;
    LUDecompositionSolver lu;
    PartialPivotingLUSolver pp;
    for (long i = 0; i < N(1500); ++i) {
        int n = coin(0.1) ? ival(2, 80) : ri(2, 9);
        one(th, "Thomas", n, coin(0.7), true);
        one(lu, "sparse LU", coin(0.1) ? 1 : n, coin(0.7), coin());
        one(pp, "partial pivoting LU", coin(0.1) ? 1 : n, coin(0.7), coin());
    }
    for (int n : {0, 1}) {
        Eigen::SparseMatrix<double> S(n, n);
        Eigen::VectorXd b = Eigen::VectorXd::Zero(n);
        scene(D("Thomas n=", n));
        check(throws<std::invalid_argument>([&] { th.solve(S, b); }), "a system smaller than 2x2 is rejected");
    }
}
RP_MAIN(body)
