#include "harness.h"
#include "mdh.h"
using namespace OptionPricer;
using namespace rp;
using namespace mdm;
static void body() {
    auto md = MarketData::getInstance();
    check(throws<std::invalid_argument>([&] { (void) md->getStockData("A"); }), "a new registry knows no stock");
    std::map<std::string, St> M;
    double r = md->getR();
    const std::vector<std::string> names = {"A", "B", "AA", "a", "", "GOOGL", "GOOG", "A ", "0", "A\0B"};
    std::vector<std::string> log;
    std::vector<std::pair<std::string, std::shared_ptr<const StockData>>> held;
    for (long i = 0; i < N(6000); ++i) {
        std::string t = coin(0.05) ? D("T", ri(0, 40)) : names[ri(0, (int) names.size() - 1)];
        int op = ri(0, 6);
        St w{any(-50, 500), any(-0.5, 2), coin(0.3) ? std::nullopt : std::optional<double>(any(-0.5, 1.5))};
        std::string what = op == 0 || op == 1 ? "addStock" : op == 2 ? "updateStockPrice" : op == 3 ? "updateStockSigma" : op == 4 ? "updateStockCoupon" : op == 5 ? "setR" : "getInstance";
        log.push_back(D(what, "(", t, ",", show(w), ")"));
        if (log.size() > 12) log.erase(log.begin());
        std::string d;
        for (auto& l : log) d += l + "; ";
        scene(d);
        bool known = M.count(t);
        if (op <= 1) {
            if (op == 1) w.c = std::nullopt;
            auto f = [&] { if (op == 1) md->addStock(t, w.S, w.s); else md->addStock(t, w.S, w.s, w.c); };
            if (valid(w)) {
                if (anythrow(f)) check(false, "valid stock rejected");
                else { M[t] = w; std::erase_if(held, [&](auto& h) { return h.first == t; }); }
            } else check(throws<std::invalid_argument>(f), "invalid stock raises std::invalid_argument");
        } else if (op <= 4) {
            auto f = [&] { if (op == 2) md->updateStockPrice(t, w.S); else if (op == 3) md->updateStockSigma(t, w.s); else md->updateStockCoupon(t, w.c); };
            St n = known ? M[t] : St{};
            if (op == 2) n.S = w.S; else if (op == 3) n.s = w.s; else n.c = w.c;
            if (known && valid(n)) {
                if (anythrow(f)) check(false, "valid update rejected"); else M[t] = n;
            } else check(throws<std::invalid_argument>(f), "unknown ticker or invalid value raises std::invalid_argument");
        } else if (op == 5) {
            r = val(-0.1, 0.3);
            md->setR(r);
        } else {
            check(MarketData::getInstance() == md, "the registry is always the same object");
            md = MarketData::getInstance();
        }
        check(md->getR() == r, D("rate is ", md->getR(), ", expected ", r));
        for (auto& n : names) {
            try {
                auto s = md->getStockData(n);
                check(M.count(n) && same(*s, M[n]), "look-up of '" + n + "'");
                if (coin(0.02)) held.push_back({n, s});
            } catch (const std::invalid_argument&) { check(!M.count(n), "stock '" + n + "' lost"); }
        }
        if (held.size() > 20) held.erase(held.begin(), held.begin() + 10);
        for (auto& h : held) if (M.count(h.first)) check(same(*h.second, M[h.first]), "a handle shows the current values of '" + h.first + "'");
    }
}
RP_MAIN(body)
