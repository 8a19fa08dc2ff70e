#include "harness.h"
#include "opts.h"
using namespace OptionPricer;
using namespace rp;
template <typename T> static const char* tn() { return std::is_same_v<T, int> ? "int" : std::is_same_v<T, double> ? "double" : std::is_same_v<T, std::string> ? "string" : "direction"; }
template <typename T> static void get(const ParameterObject& p, const std::string& n, const std::map<std::string, ParameterObject::Parameter>& M) {
    auto it = M.find(n);
    bool has = it != M.end() && std::holds_alternative<T>(it->second);
    try {
        T v = p.getParameter<T>(n);
        check(has, std::string("getParameter<") + tn<T>() + ">(" + n + ") must raise");
        if (has) check(v == std::get<T>(it->second), std::string("getParameter<") + tn<T>() + ">(" + n + ") is the value last set");
    } catch (const std::invalid_argument&) { check(!has, std::string("getParameter<") + tn<T>() + ">(" + n + ") lost"); }
}
static ParameterObject::Parameter rnd() {
    switch (ri(0, 3)) {
        case 0: return ri(-3, 300);
        case 1: return val(-10, 300);
        case 2: return std::string(coin() ? "A" : "B");
        default: return coin() ? BarrierDirection::Up : BarrierDirection::Down;
    }
}
static std::shared_ptr<MarketData> md;
template <typename Opt, typename Fac> static void fac(const ParameterObject& p, const std::map<std::string, ParameterObject::Parameter>& M, const std::string& w, int kind) {
    // kind: 0 vanilla payoff, 1 digital, 2 double digital, 3 floating lookback; +10 barrier
    bool bar = kind >= 10;
    kind %= 10;
    auto isd = [&](const char* n) { auto it = M.find(n); return it != M.end() && std::holds_alternative<double>(it->second); };
    auto dv = [&](const char* n) { return std::get<double>(M.at(n)); };
    for (int put = 0; put < 2; ++put) {
        bool good = M.count("ticker") && std::holds_alternative<std::string>(M.at("ticker")) && isd("T") && dv("T") >= 0;
        if (good) { auto t = std::get<std::string>(M.at("ticker")); good = t == "A" || t == "B"; }
        if (kind <= 1) good = good && isd("K") && dv("K") >= 0;
        if (kind == 2) good = good && isd("K1") && isd("K2") && dv("K1") >= 0 && dv("K2") >= 0;
        if (bar) good = good && isd("B") && M.count("direction") && std::holds_alternative<BarrierDirection>(M.at("direction"));
        try {
            Fac f;
            std::shared_ptr<Opt> o = put ? f.createPutOption(p) : f.createCallOption(p);
            if (!check(good && o, w + ": missing, mistyped or invalid parameters must raise")) continue;
            check(o->getT() == dv("T"), w + ": maturity");
            check(o->getID() == std::get<std::string>(M.at("ticker")), w + ": ticker");
            const Payoff& q = o->getPayoff();
            auto t = put ? PayoffType::Put : PayoffType::Call;
            if (kind == 0) check(q == PayoffVanilla(t, dv("K")), w + ": payoff");
            if (kind == 1) check(q == PayoffDigital(t, dv("K")), w + ": payoff");
            if (kind == 2) check(q == PayoffDoubleDigital(dv("K1"), dv("K2")), w + ": payoff");
            if (kind == 3) check(q == PayoffLookbackFloatingStrike(t), w + ": payoff");
            if constexpr (std::is_base_of_v<BarrierOption, Opt>) {
                double B = dv("B");
                bool up = std::get<BarrierDirection>(M.at("direction")) == BarrierDirection::Up, in = std::is_same_v<Opt, KnockInBarrierOption>;
                for (double S : {B, std::nextafter(B, 1e300), std::nextafter(B, -1e300), B + 1, B - 1, 0.0, 1000.0})
                    check(o->isActive(S) == ((up ? S >= B : S <= B) == in), D(w, ": barrier and direction at S=", S, " B=", B, up ? " up" : " down"));
            }
        } catch (const std::invalid_argument&) { check(!good, w + ": valid parameters rejected"); }
    }
}
struct Probe : MarketDataObserver { using MarketDataObserver::MarketDataObserver; void update() override {} };
static void body() {
    md = MarketData::getInstance();
    md->addStock("A", 100.0, 0.2);
    md->addStock("B", 50.0, 0.3, 0.01);
    const std::vector<std::string> names = {"ticker", "T", "K", "K1", "K2", "B", "direction", "k", "strike", ""};
    for (long i = 0; i < N(1500); ++i) {
        ParameterObject p;
        std::map<std::string, ParameterObject::Parameter> M;
        std::string log;
        auto set = [&](const std::string& n, ParameterObject::Parameter v) {
            p.setParameter(n, v); M[n] = v;
            log += n + "=" + std::visit([](auto& a) { if constexpr (std::is_same_v<std::decay_t<decltype(a)>, BarrierDirection>) return std::string(a == BarrierDirection::Up ? "Up" : "Down"); else return D(a); }, v) + "; ";
        };
        double K1 = val(0, 200);
        set("ticker", std::string(coin() ? "A" : "B")); set("T", coin(0.1) ? -0.5 : val(0, 3)); set("K", coin(0.05) ? -1.0 : val(0, 200)); set("K1", K1); set("K2", K1 + val(0, 100));
        set("B", val(1, 300)); set("direction", coin() ? BarrierDirection::Up : BarrierDirection::Down);
        if (coin(0.3)) { p = ParameterObject(); M.clear(); log = ""; }
        int k = coin() ? 0 : ri(0, 6);
        for (int j = 0; j < k; ++j) set(names[ri(0, 9)], rnd());
        if (coin(0.1)) set("ticker", std::string("unknown"));
        scene(log);
        for (auto& n : names) {
            check(p.hasParameter(n) == (M.count(n) > 0), "hasParameter(" + n + ")");
            get<int>(p, n, M); get<double>(p, n, M); get<std::string>(p, n, M); get<BarrierDirection>(p, n, M);
        }
        fac<EuropeanOption, EuropeanOptionFactory>(p, M, "european", 0);
        fac<DigitalOption, DigitalOptionFactory>(p, M, "digital", 1);
        fac<DoubleDigitalOption, DoubleDigitalOptionFactory>(p, M, "double digital", 2);
        fac<AmericanOption, AmericanOptionFactory>(p, M, "american", 0);
        fac<ArithmeticAsianOption, ArithmeticAsianOptionFactory>(p, M, "arithmetic asian", 0);
        fac<GeometricAsianOption, GeometricAsianOptionFactory>(p, M, "geometric asian", 0);
        fac<KnockInBarrierOption, KnockInBarrierOptionFactory>(p, M, "knock-in", 10);
        fac<KnockOutBarrierOption, KnockOutBarrierOptionFactory>(p, M, "knock-out", 10);
        fac<FloatingStrikeLookbackOption, FloatingStrikeLookbackOptionFactory>(p, M, "floating lookback", 3);
        fac<FixedStrikeLookbackOption, FixedStrikeLookbackOptionFactory>(p, M, "fixed lookback", 0);
    }
}
RP_MAIN(body)
