#include "harness.h"
#include "mch.h"
#include "model/gbm_model.h"
#include "model/merton_jump_diffusion_model.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "random/number_generator/sobol_quasi_random_generator.h"
#include "solver/monte_carlo/mc_american.h"
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/regression/ridge.h"
using namespace OptionPricer;
using namespace mch;
// strategies with a result that is easy to follow: the value depends on every row given
struct Bf : BasisFunction {
    mutable long calls = 0;
    explicit Bf(unsigned d) : BasisFunction(d) {}
    Eigen::MatrixXd generate(const Eigen::VectorXd& x) const override {
        ++calls;
        Eigen::MatrixXd m(x.size(), numberBasis_);
        for (int i = 0; i < x.size(); ++i) for (unsigned j = 0; j < numberBasis_; ++j) m(i, j) = j == 0 ? 1.0 : std::sin(0.7 * j * x(i)) + 0.01 * x(i);
        return m;
    }
};
struct Rg : Regression {
    double a;
    explicit Rg(double s) : a(s) {}
    Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd& y) const override {
        Eigen::VectorXd c(A.cols());
        for (int j = 0; j < A.cols(); ++j) { double s = 0; for (int i = 0; i < y.size() && i < A.rows(); ++i) s += y(i) * (1 + 0.1 * j) + 0.02 * A(i, j) * (i + 1); c(j) = a * s / y.size() / A.cols(); }
        return c;
    }
};
struct Flat : Regression {   // with one constant basis function: the fitted value is exactly c on every path
    double c;
    explicit Flat(double v) : c(v) {}
    Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd&) const override { return Eigen::VectorXd::Constant(A.cols(), c); }
};
typedef std::shared_ptr<BasisFunction> BP;
typedef std::shared_ptr<Regression> RP;
// one step of the strategy: v holds the cash flows of the next date, s the prices at this one
static void step(std::vector<double>& v, const std::vector<double>& s, double K, bool put, double disc, BasisFunction& bf, Regression& rg, bool& close, bool& some) {
    std::vector<size_t> in;
    for (size_t i = 0; i < s.size(); ++i) if (sgn(put, s[i] - K) > 0) in.push_back(i);
    for (auto& q : v) q *= disc;
    if (in.empty()) return;
    some = true;
    Eigen::VectorXd x(in.size()), y(in.size());
    for (size_t m = 0; m < in.size(); ++m) x(m) = s[in[m]], y(m) = v[in[m]];
    Eigen::MatrixXd A = bf.generate(x);
    Eigen::VectorXd c = rg.solve(A, y);
    for (size_t m = 0; m < in.size(); ++m) {
        double cont = 0, ex = sgn(put, s[in[m]] - K);
        for (int j = 0; j < A.cols(); ++j) cont += A(m, j) * c(j);
        if (std::fabs(ex - cont) <= 1e-7 * (std::fabs(ex) + std::fabs(cont))) close = true;     // rounding decides
        if (ex > cont) v[in[m]] = ex;
    }
}
static double mean(const std::vector<double>& v) { double s = 0; for (double q : v) s += q; return s / v.size(); }
static void body() {
    for (long k = 0; k < N(15000); ++k) {
        World w = world();
        if (w.steps > 20) w.steps = 20;
        for (auto& p : w.ps->P) p.resize(w.steps);
        w.model = std::make_shared<Model>(w.md, w.steps, w.ps);
        bool put = coin();
        auto pp = opts::params("A", w.T, w.K, w.KU, w.B, w.dir);
        AmericanOptionFactory f;
        auto o = std::dynamic_pointer_cast<AmericanOption>(put ? f.createPutOption(pp) : f.createCallOption(pp));
        BP bf = std::make_shared<Bf>(ri(1, 4));
        RP rg = std::make_shared<Rg>(val(0.2, 1.5));
        int kind = ri(0, 5);
        bool exact = kind == 0 && coin();       // whole numbers: ties between exercise and continuation are exact
        if (exact) {
            w.K = std::round(w.K);
            pp = opts::params("A", w.T, w.K, w.KU, w.B, w.dir);
            o = std::dynamic_pointer_cast<AmericanOption>(put ? f.createPutOption(pp) : f.createCallOption(pp));
            for (auto& p : w.ps->P) for (auto& q : p) q = w.K + ri(-6, 6);
            bf = std::make_shared<Bf>(1);
            rg = std::make_shared<Flat>(ri(0, 5));
            w.desc += D(" whole prices, path0=", V(w.ps->P[0]), " fitted value ", rg->solve(Eigen::MatrixXd(1, 1), Eigen::VectorXd(1))(0));
        }
        double got, want, dt = w.T / w.steps, disc = std::exp(-w.r * dt);
        bool close = false, some = false;
        std::vector<double> v;
        if (kind < 3) {
            scene(D("american ", put ? "put " : "call ", w.desc), false);
            for (auto& p : w.ps->P) v.push_back(sgn(put, p.back() - w.K));
            for (int j = (int) w.steps - 2; j >= 0; --j) {
                std::vector<double> s;
                for (auto& p : w.ps->P) s.push_back(p[j]);
                step(v, s, w.K, put, disc, *bf, *rg, close, some);
            }
            want = mean(v) * disc;
            if (close && !exact) continue;
            scene(D("american ", put ? "put " : "call ", w.desc), some);
            AmericanMCPricer pr(o, w.md, w.model, bf, rg);
            for (int rep = 0; rep < 2; ++rep) {
                w.ps->used = 0, w.ps->badT = false;
                got = pr.calculatePrice(w.N);
                eq(got, want, "american: discounted mean cash flow of the exercise strategy on the simulated paths");
                check(w.ps->used == w.N, D("american: simulated ", w.ps->used, " paths instead of ", w.N));
                check(!w.ps->badT, "american: path simulated to a different maturity");
                if (coin(0.7)) break;
            }
            continue;
        }
        // twin models: same seed, same draws
        w.md->addStock("A", w.K * uni(0.8, 1.2), uni(0.05, 0.6));
        unsigned seed = ri(1, 100000), steps = w.steps;
        double T = w.T = val(0.1, 3);
        pp = opts::params("A", T, w.K, w.KU, w.B, w.dir);
        o = std::dynamic_pointer_cast<AmericanOption>(put ? f.createPutOption(pp) : f.createCallOption(pp));
        dt = T / steps, disc = std::exp(-w.r * dt);
        auto gen = [&]() -> std::shared_ptr<NumberGenerator> {
            if (kind == 4) return std::make_shared<SobolGenerator>(steps, seed);
            return std::make_shared<PseudoRandomNumberGenerator>(steps, seed); };
        auto mk = [&]() -> std::shared_ptr<StockModel> {
            if (kind == 5) return std::make_shared<MertonJumpDiffusionModel>("A", w.md, gen(), 0.5, -0.1, 0.2);
            return std::make_shared<GeometricBrownianMotionModel>("A", w.md, gen()); };
        auto m1 = mk(), m2 = mk();
        std::string d = D("american ", put ? "put" : "call", kind == 3 ? " GBM pseudo" : kind == 4 ? " GBM Sobol" : " Merton pseudo", " seed=", seed, " N=", w.N, " steps=", steps, " T=", T, " r=", w.r, " K=", w.K);
        scene(d, false);
        if (kind == 3) {
            std::vector<double> s;
            for (unsigned i = 0; i < w.N; ++i) s.push_back(m2->simulatePriceAtMaturity(T));
            for (double q : s) v.push_back(sgn(put, q - w.K));
            for (int j = (int) steps - 1; j > 0; --j) {
                for (auto& q : s) q = m2->simulatePriceBackward(q, j * dt, (j + 1) * dt);
                step(v, s, w.K, put, disc, *bf, *rg, close, some);
            }
        } else {
            std::vector<std::vector<double>> P;
            for (unsigned i = 0; i < w.N; ++i) P.push_back(m2->simulatePrices(T));
            for (auto& p : P) v.push_back(sgn(put, p.back() - w.K));
            for (int j = (int) steps - 2; j >= 0; --j) {
                std::vector<double> s;
                for (auto& p : P) s.push_back(p[j]);
                step(v, s, w.K, put, disc, *bf, *rg, close, some);
            }
        }
        if (close) continue;
        scene(d, some);
        try { got = AmericanMCPricer(o, w.md, m1, bf, rg).calculatePrice(w.N); } catch (const std::exception& e) { check(false, D("american: pricing raised ", e.what())); continue; }
        eq(got, mean(v) * disc, "american: discounted mean cash flow of the exercise strategy", 1e-7);
        eq(m1->simulatePriceAtMaturity(T), m2->simulatePriceAtMaturity(T), "american: no more and no fewer numbers are drawn");
    }
}
RP_MAIN(body)
