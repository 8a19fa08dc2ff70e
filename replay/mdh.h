// reference model of the market-data registry
#pragma once
#include "market_data/market_data.h"
#include <map>
#include <optional>
namespace mdm {
    using namespace OptionPricer;
    struct St { double S, s; std::optional<double> c; };
    inline bool valid(const St& v) { return v.S > 0 && v.s >= 0 && (!v.c || (*v.c >= 0 && *v.c <= 1)); }
    inline bool same(const StockData& d, const St& v) {
        auto c = d.getCoupon();
        return d.getPrice() == v.S && d.getSigma() == v.s && c.has_value() == v.c.has_value() && (!c || *c == *v.c);
    }
    inline double any(double lo, double hi) {
        static const double sp[] = {NAN, -NAN, INFINITY, -INFINITY, 0.0, -0.0, 5e-324, -5e-324, -1.0, 1.0, 1e-9, -1e-9, 1.0000000001};
        return rp::coin(0.35) ? sp[rp::ri(0, 12)] : rp::val(lo, hi);
    }
    inline std::string show(const St& v) { return rp::D("S=", v.S, " sigma=", v.s, " c=", v.c ? rp::D(*v.c) : std::string("none")); }
}
