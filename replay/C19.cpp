#include "harness.h"
#include "opts.h"
#include "option/single_path/european_option.h"
#include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
using namespace OptionPricer;
using namespace rp;
template <typename F> static void one(const char* nm, const ParameterObject& p, double T, double K) {
    auto md = MarketData::getInstance();
    md->addStock("A", 100.0, 0.2);
    md->addStock("B", 77.0, 0.55, 0.08);
    if (coin()) md->updateStockCoupon("A", val(0, 1));
    md->setR(val(-0.1, 0.2));
    bool put = coin();
    F f;
    std::shared_ptr<EuropeanOption> o = std::dynamic_pointer_cast<EuropeanOption>(std::shared_ptr<Option>(put ? f.createPutOption(p) : f.createCallOption(p)));
    if (!check(!!o, "the factory makes a EuropeanOption")) return;
    PDE::OneFactor::BlackScholesPDE pde(o, md);
    double sig = 0.2, r = md->getR(), S0 = 100;
    auto c = md->getStockData("A")->getCoupon();
    if (coin()) md->updateStockSigma("A", sig = coin(0.1) ? 0 : val(0, 1.5));
    if (coin()) md->setR(r = coin(0.1) ? 0 : val(-0.2, 0.3));
    if (coin()) md->updateStockCoupon("A", c = coin(0.3) ? std::nullopt : std::optional<double>(val(0, 1)));
    if (coin()) md->updateStockPrice("A", S0 = val(1, 300));
    for (int i = 0; i < 4; ++i) {
        double t = coin(0.2) ? (coin() ? 0 : T) : val(0, 2 * T + 1), x = coin(0.2) ? (coin() ? 0 : K) : val(0, 400);
        scene(D(nm, put ? " put" : " call", " K=", K, " T=", T, " r=", r, " sigma=", sig, " c=", c ? D(*c) : std::string("none"), " S=", S0, " t=", t, " x=", x));
        double cc = c.value_or(0.0);
        eq(pde.diffusion(t, x), sig * sig * x * x / 2, "diffusion is sigma^2 x^2 / 2");
        eq(pde.convection(t, x), (r - cc) * x, "convection is (r - c) x");
        eq(pde.reaction(t, x), -r, "reaction is -r");
        eq(pde.rightHandSide(t, x), 0, "no source term");
        eq(pde.initialCondition(x), o->payoff(x), "the initial condition is the payoff");
        eq(pde.boundaryLeft(t, x), put ? K * std::exp(-r * t) : 0, "left boundary is the discounted payoff at 0");
        eq(pde.boundaryRight(t, x), put ? 0 : x * std::exp(-cc * t) - K * std::exp(-r * t), "right boundary is the forward value");
    }
}
static void body() {
    for (long i = 0; i < N(15000); ++i) {
        auto md = MarketData::getInstance();
        md->addStock("A", 100.0, 0.2);
        double T = coin(0.1) ? 0 : val(0, 5), K = val(1, 200);
        auto p = opts::params("A", T, K, K + 5);
        one<EuropeanOptionFactory>("vanilla", p, T, K);
    }
}
RP_MAIN(body)
