// finite-difference solvers on a scripted PDE, with an independent reference of the three schemes
#pragma once
#include "harness.h"
#include "opts.h"
#include "option/single_path/european_option.h"
#include "solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_implicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
#include <Eigen/Dense>
namespace fdm {
    using namespace OptionPricer;
    using namespace rp;
    namespace F1 = OptionPricer::FDM::OneFactor;
    struct Coef { double a[4]; double operator()(double t, double x) const { return a[0] + a[1] * std::sin(t + a[3]) + a[2] * std::cos(x - a[3]); } };
    inline Coef coef(double s) { return {{uni(-s, s), uni(-s, s), uni(-s, s), uni(0, 6)}}; }
    struct Pde : PDE::OneFactor::ConvectionDiffusionPDE {
        Coef d, c, r, f, l, u, i;
        Pde(double s) : d(coef(s)), c(coef(s)), r(coef(s)), f(coef(s)), l(coef(3)), u(coef(3)), i(coef(3)) { d.a[0] = 2.2 * s; }
        double diffusion(const double& t, const double& x) const override { return d(t, x); }
        double convection(const double& t, const double& x) const override { return c(t, x); }
        double reaction(const double& t, const double& x) const override { return r(t, x); }
        double rightHandSide(const double& t, const double& x) const override { return f(t, x); }
        double boundaryLeft(const double& t, const double& x) const override { return l(t, x); }
        double boundaryRight(const double& t, const double& x) const override { return u(t, x); }
        double initialCondition(const double& x) const override { return i(x, x); }
    };
    struct Case { double X, T; unsigned long J, N; Pde p{1}; };
    inline Case make(bool small) {
        Case k;
        k.J = coin(0.15) ? 3 : coin(0.05) ? ri(30, 60) : ri(3, 9);
        k.N = coin(0.15) ? 2 : ri(2, 9);
        if (coin(0.003)) k.J = ri(257, 300), k.N = ri(2, 3);
        else if (coin(0.003)) k.J = ri(3, 4), k.N = ri(257, 700);
        k.X = val(0.5, 8);
        double dx = k.X / (k.J - 1.0), dt = small ? dx * dx * uni(0.02, 0.2) : uni(0.01, 0.7);
        k.T = dt * (k.N - 1.0);
        k.p = Pde(uni(0.2, 1.2));
        return k;
    }
    // theta = 0 explicit, 1 implicit, 1/2 Crank-Nicolson; ok is false when a system is close to singular
    inline std::vector<double> ref(const Case& k, double th, bool& ok) {
        size_t J = k.J, m = J - 2;
        double dx = k.X / (J - 1.0), dt = k.T / (k.N - 1.0);
        std::vector<double> V(J), W(J);
        auto L = [&](double t, size_t j, double lo, double mid, double hi) {
            double x = j * dx;
            return k.p.d(t, x) * (hi - 2 * mid + lo) / (dx * dx) + k.p.c(t, x) * (hi - lo) / (2 * dx) + k.p.r(t, x) * mid - k.p.f(t, x);
        };
        for (size_t j = 0; j < J; ++j) V[j] = k.p.i(j * dx, j * dx);
        for (unsigned long n = 0; n + 1 < k.N; ++n) {
            double t0 = n * dt, t1 = (n + 1) * dt;
            W[0] = k.p.l(t1, 0), W[J - 1] = k.p.u(t1, (J - 1) * dx);
            Eigen::MatrixXd M = Eigen::MatrixXd::Identity(m, m);
            Eigen::VectorXd q(m);
            for (size_t j = 1; j + 1 < J; ++j) {
                q[j - 1] = V[j];
                if (th < 1) q[j - 1] += (1 - th) * dt * L(t0, j, V[j - 1], V[j], V[j + 1]);
                if (th > 0) {
                    // the implicit operator, probed with unit vectors
                    double z = L(t1, j, 0, 0, 0), lo = L(t1, j, 1, 0, 0) - z, mi = L(t1, j, 0, 1, 0) - z, hi = L(t1, j, 0, 0, 1) - z;
                    q[j - 1] += th * dt * z;
                    M(j - 1, j - 1) -= th * dt * mi;
                    if (j > 1) M(j - 1, j - 2) -= th * dt * lo; else q[j - 1] += th * dt * lo * W[0];
                    if (j + 2 < J) M(j - 1, j) -= th * dt * hi; else q[j - 1] += th * dt * hi * W[J - 1];
                }
            }
            if (th > 0) {
                Eigen::FullPivLU<Eigen::MatrixXd> f(M);
                if (f.rcond() < 1e-4) ok = false;
                q = f.solve(q);
            }
            for (size_t j = 1; j + 1 < J; ++j) { W[j] = q[j - 1]; if (!(std::fabs(W[j]) < 1e8)) ok = false; }
            V = W;
        }
        return V;
    }
    inline std::shared_ptr<MatrixSolver> msolver(int k, const Case& c) {
        if (k == 1) return std::make_shared<LUDecompositionSolver>();
        if (k == 2) return std::make_shared<PartialPivotingLUSolver>();
        if (k == 3 && c.J >= 4) return std::make_shared<ThomasAlgorithm>();
        return nullptr;
    }
    inline std::unique_ptr<F1::FDMSolver> solver(int s, int ms, const Case& k, std::shared_ptr<EuropeanOption> o, std::shared_ptr<IMarketData> md, std::shared_ptr<Interpolation> in) {
        auto p = std::make_unique<Pde>(k.p);
        if (s == 0) return std::make_unique<F1::EulerExplicitFDM>(k.X, k.J, k.T, k.N, std::move(p), o, md, in);
        if (s == 1) return std::make_unique<F1::EulerImplicitFDM>(k.X, k.J, k.T, k.N, std::move(p), o, md, in, msolver(ms, k));
        return std::make_unique<F1::CrankNicolsonFDMSolver>(k.X, k.J, k.T, k.N, std::move(p), o, md, in, msolver(ms, k));
    }
    inline const char* NM[] = {"explicit Euler", "implicit Euler", "Crank-Nicolson"};
    inline const double TH[] = {0, 1, 0.5};
    inline std::string text(int s, int ms, const Case& k) {
        std::ostringstream o;
        o.precision(17);
        o << NM[s] << " solver=" << ms << " J=" << k.J << " N=" << k.N << " xDom=" << k.X << " tDom=" << k.T << " coefficients(d,c,r,f,left,right,init)=";
        for (auto* c : {&k.p.d, &k.p.c, &k.p.r, &k.p.f, &k.p.l, &k.p.u, &k.p.i}) { o << "("; for (double a : c->a) o << a << " "; o << ")"; }
        return o.str();
    }
    inline std::shared_ptr<EuropeanOption> option(double T, double K, const std::string& id = "A") {
        EuropeanOptionFactory f;
        return std::dynamic_pointer_cast<EuropeanOption>(std::shared_ptr<Option>(f.createCallOption(opts::params(id, T, K, K + 5))));
    }
}
