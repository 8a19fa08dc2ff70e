// Replay harness: drives the real code of /repo and compares with independent oracles.
// Used to turn a failed proof obligation into a failing input; bounded by construction.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <csignal>
#include <cstring>
#include <unistd.h>
#include <string>
#include <vector>
#include <random>
#include <fstream>
#include <sstream>
#include <iostream>
#include <limits>
#include <functional>
#include <algorithm>
#include <memory>

namespace rp {
    inline char at_buf[4096];
    inline long cases = 0, nontrivial = 0, nfail = 0, nsample = 0;
    inline std::mt19937_64 rng;
    inline double scale = 1;
    inline std::vector<double> pool;

    inline void on_signal(int s) {
        const char* w = s == SIGALRM ? "FAIL hang (no result within 20 s) at: " : "FAIL crash at: ";
        (void) !write(1, w, strlen(w));
        (void) !write(1, at_buf, strnlen(at_buf, sizeof at_buf));
        (void) !write(1, "\n", 1);
        _exit(1);
    }
    template <typename... A> std::string D(const A&... a) {
        std::ostringstream o;
        o.precision(17);
        ((o << a), ...);
        return o.str();
    }
    template <typename T> std::string V(const std::vector<T>& v) {
        std::ostringstream o;
        o.precision(17);
        o << "[";
        for (size_t i = 0; i < v.size() && i < 24; ++i) o << (i ? "," : "") << v[i];
        if (v.size() > 24) o << ",..(" << v.size() << ")";
        o << "]";
        return o.str();
    }
    inline std::string esc(std::string s) {
        for (auto& c : s) if (c == '\n') c = ' ';
        return s;
    }
    /// starts one case; the description is what a failure reports
    inline void scene(const std::string& d, bool nt = true) {
        ++cases;
        if (nt) ++nontrivial;
        strncpy(at_buf, esc(d).c_str(), sizeof at_buf - 1);
        if (nsample < 3 && nt && cases % 37 == 1) { ++nsample; printf("SAMPLE %s\n", at_buf); }
        alarm(20);
    }
    inline bool check(bool ok, const std::string& what) {
        if (!ok) {
            ++nfail;
            printf("FAIL %s :: %s\n", esc(what).c_str(), at_buf);
            if (nfail >= 8) { printf("CASES %ld %ld\n", cases, nontrivial); fflush(stdout); _exit(1); }
        }
        return ok;
    }
    inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-12) {
        if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
        if (a == b) return true;
        return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
    }
    inline bool eq(double got, double want, const std::string& what, double rel = 1e-9, double abs = 1e-12) {
        return check(close(got, want, rel, abs), D(what, ": got ", got, ", expected ", want));
    }
    inline double uni(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }
    inline int ri(int a, int b) { return std::uniform_int_distribution<int>(a, b)(rng); }
    inline bool coin(double p = 0.5) { return uni(0, 1) < p; }
    /// a value in [lo,hi]: uniform, near a literal of the program, round, or at the ends
    inline double val(double lo, double hi) {
        switch (ri(0, 7)) {
            case 0: {
                std::vector<double> in;
                for (double p : pool) if (p >= lo && p <= hi) in.push_back(p);
                if (!in.empty()) {
                    double p = in[ri(0, (int) in.size() - 1)];
                    switch (ri(0, 3)) {
                        case 0: return p;
                        case 1: return std::min(hi, std::max(lo, std::nextafter(p, 1e300)));
                        case 2: return std::min(hi, std::max(lo, p + 1e-3 * (1 + std::fabs(p))));
                        default: return std::min(hi, std::max(lo, p - 1e-3 * (1 + std::fabs(p))));
                    }
                }
                return uni(lo, hi);
            }
            case 1: return std::min(hi, std::max(lo, std::round(uni(lo, hi))));
            case 2: return coin() ? lo : hi;
            default: return uni(lo, hi);
        }
    }
    inline int ival(int lo, int hi) {
        if (ri(0, 5) == 0) {
            std::vector<int> in;
            for (double p : pool) for (int d = -1; d <= 1; ++d)
                if (p + d >= lo && p + d <= hi && p == std::floor(p)) in.push_back((int) p + d);
            if (!in.empty()) return in[ri(0, (int) in.size() - 1)];
        }
        if (ri(0, 5) == 0) return coin() ? lo : hi;
        return ri(lo, hi);
    }
    inline long N(long base) { return (long) (base * scale); }
    template <typename E, typename F> bool throws(F&& f) {
        try { f(); } catch (const E&) { return true; } catch (...) { return false; }
        return false;
    }
    template <typename F> bool anythrow(F&& f) {
        try { f(); } catch (...) { return true; }
        return false;
    }
    inline void start(int argc, char** argv) {
        unsigned long s = argc > 1 ? strtoul(argv[1], nullptr, 10) : 1;
        scale = argc > 2 ? atof(argv[2]) : 1;
        rng.seed(s * 7919 + 13);
        if (argc > 3) {
            std::ifstream f(argv[3]);
            std::string l;
            while (std::getline(f, l)) { double v = atof(l.c_str()); if (std::isfinite(v)) { pool.push_back(v); pool.push_back(-v); } }
        }
        if (pool.empty()) pool = {0, 1};
        setvbuf(stdout, nullptr, _IOLBF, 0);
        signal(SIGALRM, on_signal);
        signal(SIGSEGV, on_signal);
        signal(SIGABRT, on_signal);
        signal(SIGFPE, on_signal);
    }
    inline int finish() {
        alarm(0);
        printf("CASES %ld %ld\n", cases, nontrivial);
        fflush(stdout);
        return nfail ? 1 : 0;
    }
}
#define RP_MAIN(body) int main(int argc, char** argv) { rp::start(argc, argv); \
    try { body(); } catch (const std::exception& e) { rp::check(false, std::string("unexpected exception: ") + e.what()); } \
    catch (...) { rp::check(false, "unexpected exception"); } return rp::finish(); }
