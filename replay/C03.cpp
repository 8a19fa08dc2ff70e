#include "harness.h"
#include "mdh.h"
using namespace OptionPricer;
using namespace rp;
using namespace mdm;
static void body() {
    auto md = MarketData::getInstance();
    std::string log;
    for (long i = 0; i < N(8000); ++i) {
        St v{any(-50, 500), any(-0.5, 2), std::nullopt};
        if (coin(0.7)) v.c = any(-0.5, 1.5);
        scene(D("construct ", show(v)));
        if (valid(v)) {
            try {
                StockData d(v.S, v.s, v.c);
                check(same(d, v), "a new stock has the values given");
                StockData e(d);
                check(d == e && !(d != e), "equal to its copy");
            } catch (const std::exception& e) { check(false, D("valid stock rejected: ", e.what())); }
        } else check(throws<std::invalid_argument>([&] { StockData d(v.S, v.s, v.c); }), "invalid stock raises std::invalid_argument");
        // any history of updates through the registry
        St cur{val(1, 500), val(0, 1), coin() ? std::optional<double>(val(0, 1)) : std::nullopt};
        if (coin()) md->addStock("X", cur.S, cur.s, cur.c);
        else { cur.c = std::nullopt; md->addStock("X", cur.S, cur.s); }
        log = "add " + show(cur);
        for (int k = 0; k < 4; ++k) {
            St w = cur;
            int op = ri(0, 2);
            if (op == 0) w.S = any(-50, 500);
            else if (op == 1) w.s = any(-0.5, 2);
            else w.c = coin(0.2) ? std::nullopt : std::optional<double>(any(-0.5, 1.5));
            log += D("; update", op == 0 ? "Price " : op == 1 ? "Sigma " : "Coupon ", show(w));
            scene(log);
            auto f = [&] { if (op == 0) md->updateStockPrice("X", w.S); else if (op == 1) md->updateStockSigma("X", w.s); else md->updateStockCoupon("X", w.c); };
            if (valid(w)) {
                if (anythrow(f)) check(false, "valid update rejected");
                else cur = w;
            } else check(throws<std::invalid_argument>(f), "invalid update raises std::invalid_argument");
            check(same(*md->getStockData("X"), cur), D("stock is ", show(cur), " but reports S=", md->getStockData("X")->getPrice(), " sigma=", md->getStockData("X")->getSigma()));
        }
    }
}
RP_MAIN(body)
