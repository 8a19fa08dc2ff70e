#include "harness.h"
#include "mdh.h"
#include "opts.h"
using namespace OptionPricer;
using namespace rp;
using namespace mdm;
static std::shared_ptr<MarketData> md;
struct Obs : MarketDataObserver {
    int n = 0, mode = 0;
    double seen = 0, seenR = 0;
    std::vector<std::shared_ptr<MarketDataObserver>>* born = nullptr;
    explicit Obs(const std::string& id) : MarketDataObserver(id) {}
    void update() override {
        ++n;
        seenR = md->getR();
        try { seen = md->getStockData(getID())->getPrice(); } catch (...) {}
        if (mode == 1 && born) { auto o = std::make_shared<Obs>(getID()); born->push_back(o); md->addObserver(o); }
        if (mode == 2) md->removeObserver();
    }
};
static void body() {
    md = MarketData::getInstance();
    const std::vector<std::string> names = {"A", "B", "AB"};
    for (auto& n : names) md->addStock(n, 100.0, 0.2);
    for (long round = 0; round < N(150); ++round) {
        std::vector<std::shared_ptr<Obs>> live;
        std::vector<int> reg, want;
        std::vector<std::shared_ptr<MarketDataObserver>> born;
        std::string log;
        for (int step = 0; step < 40; ++step) {
            int op = ri(0, 8);
            std::string id = coin(0.1) ? "ZZ" : names[ri(0, 2)];
            double v = val(-20, 300);
            if (op <= 1) {
                auto o = std::make_shared<Obs>(id);
                o->mode = coin(0.1) ? ri(1, 2) : 0; o->born = &born;
                int k = coin(0.15) ? 2 : 1;
                for (int i = 0; i < k; ++i) md->addObserver(o);
                live.push_back(o); reg.push_back(k); want.push_back(0);
                log += D("add#", live.size() - 1, "(", id, ")x", k, "; ");
            } else if (op == 2) {
                if (live.empty()) continue;
                int i = ri(0, (int) live.size() - 1);
                log += D("drop#", i, "; ");
                live.erase(live.begin() + i); reg.erase(reg.begin() + i); want.erase(want.begin() + i);
            } else if (op == 3) { md->removeObserver(); log += "removeObserver; "; }
            else {
                bool all = op == 8, okk = all || (id != "ZZ" && (op == 4 ? v > 0 : op == 5 ? v >= 0 : op == 6 ? v >= 0 && v <= 1 : true));
                auto f = [&] { if (op == 4) md->updateStockPrice(id, v); else if (op == 5) md->updateStockSigma(id, v);
                    else if (op == 6) md->updateStockCoupon(id, v); else if (op == 7) md->updateStockCoupon(id, std::nullopt); else md->setR(v / 1000); };
                log += D("op", op, "(", id, ",", v, "); ");
                scene(log);
                bool t = anythrow(f);
                check(t == !okk, "the change is accepted exactly when valid");
                for (size_t i = 0; i < live.size(); ++i) {
                    int w = okk && (all || live[i]->getID() == id) ? reg[i] : 0;
                    want[i] += w;
                    check(live[i]->n == want[i], D("observer #", i, " (", live[i]->getID(), ") notified ", live[i]->n, " times in all, expected ", want[i]));
                    live[i]->n = want[i];
                    if (w && all) check(live[i]->seenR == v / 1000, "the new rate is visible when notified");
                    if (w && op == 4) check(live[i]->seen == v, "the new price is visible when notified");
                }
                born.clear();
                md->removeObserver();
            }
        }
        // options follow the same rules and may die at any time
        if (round % 10 == 0) {
            scene("options come and go");
            std::vector<std::shared_ptr<Option>> os;
            for (int i = 0; i < 10; ++i) {
                opts::each(opts::params("A", 1, 100, 110, 120), [&](const std::string&, auto mk) { if (coin()) os.push_back(mk()); });
                md->updateStockPrice("A", val(1, 300));
                md->setR(0.01);
                if (coin()) os.clear();
                md->updateStockSigma("A", 0.3);
            }
        }
    }
}
RP_MAIN(body)
