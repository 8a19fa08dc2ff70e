#include "harness.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
using namespace OptionPricer;
using namespace rp;
static void body() {
    LinearInterpolation L;
    QuadraticInterpolation Q;
    for (int i = 0; i < N(60000); ++i) {
        int n = coin(0.1) ? ival(1, 300) : ri(1, 9);
        std::vector<double> x, y;
        double a = val(-50, 50);
        for (int k = 0; k < n; ++k) { x.push_back(a); a += coin(0.2) ? 1.0 : uni(0.05, 3); y.push_back(coin(0.1) ? 0.0 : val(-100, 100)); }
        if (coin(0.05)) { double s = std::pow(10, ri(-12, 9)); for (double& v : x) v *= s; }
        double t;
        switch (ri(0, 4)) {
            case 0: t = x[ri(0, n - 1)]; break;
            case 1: t = coin() ? x[0] - uni(0, 2) : x[n - 1] + uni(0, 2); break;
            case 2: t = uni(x[0] - 0.1, x[n - 1] + 0.1); break;
            default: t = uni(x[0], x[n - 1]);
        }
        scene(D("t=", t, " x=", V(x), " y=", V(y)));
        double wl, wq;
        int k = 0;
        if (t <= x[0]) wl = wq = y[0];
        else if (t >= x[n - 1]) wl = wq = y[n - 1];
        else {
            while (!(x[k] <= t && t < x[k + 1])) ++k;
            wl = wq = y[k] + (t - x[k]) * (y[k + 1] - y[k]) / (x[k + 1] - x[k]);
            if (k > 0 && k < n - 2) {
                wq = 0;
                for (int p = k - 1; p <= k + 1; ++p) {
                    double w = y[p];
                    for (int q = k - 1; q <= k + 1; ++q) if (q != p) w *= (t - x[q]) / (x[p] - x[q]);
                    wq += w;
                }
            }
        }
        eq(L.interpolate(x, y, t), wl, "linear interpolation", 1e-9, 1e-9);
        eq(Q.interpolate(x, y, t), wq, "quadratic interpolation", 1e-9, 1e-7);
    }
}
RP_MAIN(body)
