#include "harness.h"
#include "opts.h"
#include "solver/monte_carlo/mc_solver.h"
#include "solver/monte_carlo/builder/mc_builder_single_path.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"
#include "solver/monte_carlo/builder/mc_builder_asian.h"
#include "solver/monte_carlo/builder/mc_builder_barrier.h"
#include "solver/monte_carlo/builder/mc_builder_lookback.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/regression/ridge.h"
using namespace OptionPricer;
using namespace rp;
typedef std::shared_ptr<Option> O;
// no volatility: the default model is seeded at random, and its paths must be comparable
// market data of its own, next to the singleton
struct Md : IMarketData {
    double r = 0.07;
    std::shared_ptr<StockData> a = std::make_shared<StockData>(80.0, 0.0), b = std::make_shared<StockData>(130.0, 0.0, 0.02);
    void addObserver(const std::shared_ptr<MarketDataObserver>&) override {}
    void removeObserver() override {}
    std::shared_ptr<const StockData> getStockData(const std::string& t) const override { return t == "A" ? a : b; }
    double getR() const override { return r; }
    void setR(const double& v) override { r = v; }
};
struct Kind { std::string n; std::function<O()> mk; };
static std::vector<Kind> kinds() {
    std::vector<Kind> k;
    for (const char* t : {"A", "B"}) {
        auto p = std::make_shared<ParameterObject>(opts::params(t, t[0] == 'A' ? 1.0 : 0.6, 95.0, 120.0, 110.0));
        opts::each(*p, [&](const std::string& n, auto) {
            k.push_back({n + " " + t, {}});
        });
        size_t i = k.size() - 20;
        auto two = [&](auto f) { auto g = std::make_shared<decltype(f)>(); k[i++].mk = [g, p] { return O(g->createCallOption(*p)); }; k[i++].mk = [g, p] { return O(g->createPutOption(*p)); }; };
        two(EuropeanOptionFactory()), two(DigitalOptionFactory()), two(DoubleDigitalOptionFactory()), two(AmericanOptionFactory()), two(ArithmeticAsianOptionFactory()),
        two(GeometricAsianOptionFactory()), two(KnockInBarrierOptionFactory()), two(KnockOutBarrierOptionFactory()), two(FloatingStrikeLookbackOptionFactory()), two(FixedStrikeLookbackOptionFactory());
    }
    return k;
}
typedef std::shared_ptr<IMarketData> M;
typedef std::shared_ptr<StockModel> S;
typedef std::function<std::unique_ptr<MCPricer>(O, M, S, std::shared_ptr<BasisFunction>, std::shared_ptr<Regression>)> Ref;
static S model(M md, const std::string& t, unsigned steps, unsigned seed) { return std::make_shared<GeometricBrownianMotionModel>(t, md, std::make_shared<PseudoRandomNumberGenerator>(steps, seed)); }
static S defmodel(M md, const std::string& t) { return std::make_shared<GeometricBrownianMotionModel>(t, md, std::make_shared<PseudoRandomNumberGenerator>(52)); }
template <typename B> static void one(const char* nm, std::vector<Kind>& ks, std::function<bool(O)> mine, Ref ref, M inst) {
    B b;
    bool amer = std::is_same_v<B, AmericanMCBuilder>;
    scene(D(nm, " without an option"));
    check(throws<std::logic_error>([&] { b.build(); }) && !throws<std::invalid_argument>([&] { b.build(); }), "building without an option raises std::logic_error");
    O o;
    M md = inst;
    S mo, mine2;   // the model given and its twin
    std::shared_ptr<BasisFunction> bf = std::make_shared<MonomialBasisFunction>(3);
    std::shared_ptr<Regression> rg = std::make_shared<LeastSquaresRegression>();
    std::string hist = nm;
    for (int step = 0; step < 14; ++step) {
        int op = step == 0 ? 0 : ri(0, amer ? 6 : 4);
        if (op == 0) {
            auto& k = ks[ri(0, ks.size() - 1)];
            O q = coin(0.5) ? k.mk() : nullptr;
            while (!q || (coin(0.9) && !mine(q))) { auto& k2 = ks[ri(0, ks.size() - 1)]; q = k2.mk(); hist.resize(hist.size()); if (mine(q)) { break; } }
            scene(D(hist, " setOption"));
            if (!mine(q)) {
                if (!check(throws<std::invalid_argument>([&] { b.setOption(q); }), D(nm, " rejects an option of another kind with std::invalid_argument"))) return;
                // whether the previous option is kept is not specified: set one of its kind
                do q = ks[ri(0, ks.size() - 1)].mk(); while (!mine(q));
            }
            MCBuilder* r = nullptr;
            try { r = &b.setOption(q); } catch (const std::exception& e) { check(false, D(nm, " accepts an option of its kind: ", e.what())); return; }
            check(r == &b, "setOption returns the builder");
            o = q;
            hist += D(" setOption(", o->getID(), ")");
        } else if (op == 1) {
            md = coin() ? inst : M(std::make_shared<Md>());
            check(&b.setMarketData(md) == &b, "setMarketData returns the builder");
            hist += md == inst ? " setMarketData(instance)" : " setMarketData(own)";
        } else if (op == 2 && coin()) {
            unsigned st = ri(1, 12), sd = ri(1, 1000);
            std::string t = coin() ? "A" : "B";
            mo = model(md, t, st, sd), mine2 = model(md, t, st, sd);
            check(&b.setStockPriceModel(mo) == &b, "setStockPriceModel returns the builder");
            hist += D(" setStockPriceModel(gbm ", t, " steps=", st, " seed=", sd, ")");
        } else if (op == 5) {
            if constexpr (std::is_same_v<B, AmericanMCBuilder>) { bf = coin() ? std::shared_ptr<BasisFunction>(std::make_shared<LaguerreBasisFunction>(ri(1, 4))) : std::make_shared<MonomialBasisFunction>(ri(1, 4)); b.setBasisFunctionStrategy(bf); hist += " setBasisFunctionStrategy"; }
        } else if (op == 6) {
            if constexpr (std::is_same_v<B, AmericanMCBuilder>) { rg = coin() ? std::shared_ptr<Regression>(std::make_shared<RidgeRegression>(0.5)) : std::make_shared<LeastSquaresRegression>(); b.setRegressionStrategy(rg); hist += " setRegressionStrategy"; }
        }
        if (coin(0.4)) {
            unsigned long n = ri(1, 12);
            hist += " build";
            scene(D(hist, " price(", n, ")"), step > 2);
            MCSolver s(n);
            auto pr = b.build();
            if (!check(!!pr, "build gives a pricer")) return;
            s.setPricer(std::move(pr));
            double want = ref(o, md, mine2 ? mine2 : defmodel(md, o->getID()), bf, rg)->calculatePrice(n);
            eq(s.solve(), want, "the price is that of the pricer made of the parts last given");
        }
    }
}
template <typename X> static bool is(O o) { return !!std::dynamic_pointer_cast<X>(o); }
template <typename P, typename X> static Ref mk() { return [](O o, M m, S s, auto, auto) { return std::make_unique<P>(std::dynamic_pointer_cast<X>(o), m, s); }; }
struct Cnt : MCPricer {
    unsigned long* n; double k;
    Cnt(unsigned long* p, double q) : MCPricer(nullptr, nullptr), n(p), k(q) {}
    double calculatePrice(const unsigned long& N) const override { ++*n; return N * 3.0 + k; }
};
static void body() {
    auto inst = MarketData::getInstance();
    inst->addStock("A", 100.0, 0.0);
    inst->addStock("B", 90.0, 0.0, 0.03);
    inst->setR(0.04);
    auto ks = kinds();
    for (long i = 0; i < N(60); ++i) {
        one<MCSinglePathBuilder>("single path", ks, is<SinglePathOption>, mk<SinglePathMCPricer, SinglePathOption>(), inst);
        one<AmericanMCBuilder>("american", ks, is<AmericanOption>, [](O o, M m, S s, auto b, auto r) { return std::make_unique<AmericanMCPricer>(std::dynamic_pointer_cast<AmericanOption>(o), m, s, b, r); }, inst);
        one<ArithmeticAsianMCBuilder>("arithmetic asian", ks, is<ArithmeticAsianOption>, mk<ArithmeticAsianMCPricer, ArithmeticAsianOption>(), inst);
        one<GeometricAsianMCBuilder>("geometric asian", ks, is<GeometricAsianOption>, mk<GeometricAsianMCPricer, GeometricAsianOption>(), inst);
        one<KnockInBarrierMCBuilder>("knock-in", ks, is<KnockInBarrierOption>, mk<KnockInBarrierMCPricer, KnockInBarrierOption>(), inst);
        one<KnockOutBarrierMCBuilder>("knock-out", ks, is<KnockOutBarrierOption>, mk<KnockOutBarrierMCPricer, KnockOutBarrierOption>(), inst);
        one<FloatingStrikeLookbackMCBuilder>("floating lookback", ks, is<FloatingStrikeLookbackOption>, mk<FloatingStrikeLookbackMCPricer, FloatingStrikeLookbackOption>(), inst);
        one<FixedStrikeLookbackMCBuilder>("fixed lookback", ks, is<FixedStrikeLookbackOption>, mk<FixedStrikeLookbackMCPricer, FixedStrikeLookbackOption>(), inst);
    }
    for (long i = 0; i < N(2000); ++i) {
        unsigned long n = coin() ? 100000 : ival(1, 100000), calls = 0, want = 0;
        bool def = coin();
        MCSolver s0, s1(n), &s = def ? s0 : s1;
        if (def) n = 100000;
        std::string h = D("MCSolver N=", n);
        double k = 0;
        bool have = false;
        for (int j = 0; j < 8; ++j) {
            if (coin(0.3)) { n = ival(1, 100000); s.setN(n); h += D(" setN(", n, ")"); }
            if (coin(0.3)) { k = val(0, 9); s.setPricer(std::make_unique<Cnt>(&calls, k)); have = true; h += " setPricer"; }
            scene(D(h, " solve"), j > 2);
            if (!have) { check(throws<std::logic_error>([&] { (void) s.solve(); }), "solving without a pricer raises std::logic_error"); continue; }
            ++want;
            eq(s.solve(), n * 3.0 + k, "the pricer last set prices with the number of paths last set");
            check(calls == want, "priced once");
        }
    }
}
RP_MAIN(body)
