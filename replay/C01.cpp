#include "harness.h"
#include "payoff/single_strike/payoff_vanilla.h"
#include "payoff/single_strike/payoff_digital.h"
#include "payoff/double_strikes/payoff_double_digital.h"
#include "payoff/payoff_floating_strike_lookback.h"
using namespace OptionPricer;
using namespace rp;
static double mx0(double v) { return v > 0 ? v : 0.0; }
static void body() {
    for (long i = 0; i < N(60000); ++i) {
        double K = val(0, coin() ? 300 : 1e6), S = coin(0.15) ? K : val(-10, coin() ? 300 : 1e6);
        if (coin(0.1)) S = std::nextafter(K, coin() ? -1e300 : 1e300);
        double K2 = coin(0.1) ? K : K + val(0, 200), e = coin(0.1) ? S : val(0, 400);
        if (coin(0.2)) S = coin() ? K : K2;
        scene(D("K=", K, " K2=", K2, " S=", S, " extreme=", e));
        eq(PayoffVanilla(PayoffType::Call, K)(S), mx0(S - K), "vanilla call", 0, 0);
        eq(PayoffVanilla(PayoffType::Put, K)(S), mx0(K - S), "vanilla put", 0, 0);
        eq(PayoffDigital(PayoffType::Call, K)(S), S > K, "digital call", 0, 0);
        eq(PayoffDigital(PayoffType::Put, K)(S), S < K, "digital put", 0, 0);
        eq(PayoffDoubleDigital(K, K2)(S), K <= S && S <= K2, "double digital", 0, 0);
        eq(PayoffLookbackFloatingStrike(PayoffType::Call)(S, e), mx0(S - e), "floating lookback call", 0, 0);
        eq(PayoffLookbackFloatingStrike(PayoffType::Put)(S, e), mx0(e - S), "floating lookback put", 0, 0);
    }
}
RP_MAIN(body)
