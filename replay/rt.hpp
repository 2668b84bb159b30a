// Runtime of the contract-evaluation drivers: deterministic generation, exact small-integer data, failure reports.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_map>
#include <queue>
#include <algorithm>
#include <functional>
#include <fstream>
#include <iostream>
#include <sstream>
#include <optional>
#include <memory>
#include <chrono>
#include <random>
#include <thread>
#include <mutex>
#include <complex>
#include <cstring>
#include <cstdarg>
#include <unordered_set>
#include <stdexcept>
#include <numeric>
#include <array>
#include <list>
#include <iomanip>
#include <fcntl.h>
#include <unistd.h>
namespace rt {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    int i(int lo, int hi) { return lo + (int)((next() >> 11) % (uint64_t)(hi - lo + 1)); }   // inclusive
    bool b() { return next() >> 63; }
    double r(int range = 6) { return (double)i(-range, range); }
    double nz(int range = 6) { int v = 0; while (!v) v = i(-range, range); return v; }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
inline uint64_t seed = 1; inline int scale = 1; inline std::string skip;
inline std::map<std::string, long> counts; inline std::string cur; inline long total = 0;
inline int real_out = 1;
inline bool skipped(const std::string& id) { return ("," + skip + ",").find("," + id + ",") != std::string::npos; }
inline void emit(const std::string& s) { (void)!write(real_out, s.data(), s.size()); }
inline void init(int argc, char** argv) {
    if (argc > 1) seed = strtoull(argv[1], 0, 10);
    if (argc > 2) scale = atoi(argv[2]);
    if (argc > 3) skip = argv[3];
    // the library prints; keep its output away from the report
    fflush(stdout); real_out = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n);
}
inline std::string str(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
inline std::string str(const std::vector<double>& v) { std::string s = "["; for (auto x : v) s += str(x) + " "; return s + "]"; }
template <class T> std::string strv(const std::vector<T>& v) { std::string s = "["; for (auto x : v) s += std::to_string(x) + " "; return s + "]"; }
// announce a case; a crash inside the code under test is attributed to the last announced case
inline void begin(const std::string& contract, const std::string& input) { counts[contract]++; total++; cur = contract + "  input: " + input; }
[[noreturn]] inline void fail(const std::string& msg) {
    emit("FAIL contract " + cur + "\n  " + msg + "\n");
    _exit(1);
}
inline bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
inline bool close_(double a, double b, double tol = 1e-9) {
    if (same(a, b)) return true;
    double m = std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
    return std::fabs(a - b) <= tol * m;
}
inline void eq(double got, double want, const std::string& what) { if (!same(got, want)) fail(what + ": got " + str(got) + ", contract says " + str(want)); }
inline void near(double got, double want, const std::string& what, double tol = 1e-9) { if (!close_(got, want, tol)) fail(what + ": got " + str(got) + ", contract says " + str(want)); }
inline void ok(bool c, const std::string& what) { if (!c) fail(what); }
inline int done() {
    std::string s;
    for (auto& [k, v] : counts) s += "COUNT " + k + " " + std::to_string(v) + "\n";
    emit(s + "TOTAL " + std::to_string(total) + "\nOK\n");
    _exit(0);
}
}
extern "C" inline void rt_on_crash() { rt::emit("FAIL (sanitizer or crash) contract " + rt::cur + "\n"); }
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#include <csignal>
namespace rt {
inline void on_signal(int) { rt_on_crash(); _exit(97); }
inline void start(int argc, char** argv) {
    init(argc, argv);
    __sanitizer_set_death_callback(rt_on_crash);
    signal(SIGABRT, on_signal);
    std::set_terminate([] { emit("FAIL (uncaught exception) contract " + cur + "\n"); _exit(96); });
}
}
