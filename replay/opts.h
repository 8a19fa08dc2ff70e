// the ten option factories of /repo behind one visitor
#pragma once
#include "option/single_path/factory_european_option.h"
#include "option/single_path/factory_digital_option.h"
#include "option/single_path/factory_double_digital_option.h"
#include "option/path_dependent/factory_american_option.h"
#include "option/path_dependent/factory_asian_option.h"
#include "option/path_dependent/factory_barrier_option.h"
#include "option/path_dependent/factory_lookback_option.h"
#include "payoff/single_strike/payoff_vanilla.h"
#include "payoff/single_strike/payoff_digital.h"
#include "payoff/double_strikes/payoff_double_digital.h"
#include "payoff/payoff_floating_strike_lookback.h"
#include "option/parameter_object.h"
#include "market_data/market_data.h"

namespace opts {
    using namespace OptionPricer;
    inline ParameterObject params(const std::string& t, double T, double K, double KU = 0, double B = 0, BarrierDirection d = BarrierDirection::Up) {
        ParameterObject p;
        p.setParameter("ticker", t);
        p.setParameter("T", T);
        p.setParameter("K", K);
        p.setParameter("K1", K);
        p.setParameter("K2", KU);
        p.setParameter("B", B);
        p.setParameter("direction", d);
        return p;
    }
    template <typename F> auto call(const ParameterObject& p) { F f; return f.createCallOption(p); }
    template <typename F> auto put(const ParameterObject& p) { F f; return f.createPutOption(p); }
    template <typename Fac, typename V> void one(const ParameterObject& p, const std::string& n, V&& v) {
        v(n + " call", [&] { Fac f; return f.createCallOption(p); });
        v(n + " put", [&] { Fac f; return f.createPutOption(p); });
    }
    template <typename V> void each(const ParameterObject& p, V&& v) {
        one<EuropeanOptionFactory>(p, "european", v);
        one<DigitalOptionFactory>(p, "digital", v);
        one<DoubleDigitalOptionFactory>(p, "doubledigital", v);
        one<AmericanOptionFactory>(p, "american", v);
        one<ArithmeticAsianOptionFactory>(p, "arithmetic asian", v);
        one<GeometricAsianOptionFactory>(p, "geometric asian", v);
        one<KnockInBarrierOptionFactory>(p, "knock-in", v);
        one<KnockOutBarrierOptionFactory>(p, "knock-out", v);
        one<FloatingStrikeLookbackOptionFactory>(p, "floating lookback", v);
        one<FixedStrikeLookbackOptionFactory>(p, "fixed lookback", v);
    }
}
