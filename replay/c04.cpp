#include "rt.hpp"
#include "algebra/coo.hpp"
using namespace rt;
template <class T> struct Conv;
static uint32_t pick(Rng& g) {
    uint32_t s[] = {0u, 1u, 2u, 3u, 5u, 255u, 256u, 65535u, 65536u, 65537u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu, 1u << 20, (1u << 20) + 1, 1u << 31, 1u << 16};
    return g.i(0, 3) ? s[g.i(0, 17)] : (uint32_t)g.next();
}
int main(int argc, char** argv) {
    start(argc, argv);
    Rng g(seed);
    for (int rep = 0; rep < 400 * scale; rep++) {
        uint32_t m = g.i(0, 20);
        begin("constructor", "m=" + std::to_string(m));
        nikfemm::MatCOOSymmetric<double> A(m); ok(A.m == m && A.elems.empty(), "empty matrix of the given order");
        std::map<std::pair<uint32_t, uint32_t>, double> ref;
        std::string log;
        for (int k = 0; k < 60; k++) {
            uint32_t i = pick(g), j = pick(g); if (g.i(0, 2) == 0 && !ref.empty()) { auto it = ref.begin(); std::advance(it, g.i(0, ref.size() - 1)); i = it->first.first; j = it->first.second; if (g.i(0, 3) == 0) std::swap(i, j); }
            int op = g.i(0, 2); double v = g.r(99);
            log += (op == 0 ? " set(" : op == 1 ? " add(" : " get(") + std::to_string(i) + "," + std::to_string(j) + ")";
            begin("operator()", "sequence:" + log);
            if (i > j) {
                bool thrown = false;
                try { double& r = A(i, j); (void)r; } catch (...) { thrown = true; }
                ok(thrown, "access below the diagonal is not rejected");
            } else {
                auto& e = ref[{i, j}];
                eq(A(i, j), e, "value before the write");
                if (op == 0) { A(i, j) = v; e = v; } else if (op == 1) { A(i, j) += v; e += v; }
                eq(A(i, j), e, "value after the write");
            }
            ok(A.elems.size() == ref.size(), "number of stored entries");
            ok(A.m == m, "order changed");
            for (auto& [ij, w] : ref) { auto it = A.elems.find((uint64_t)ij.first << 32 | ij.second); ok(it != A.elems.end() && it->second == w, "entry (" + std::to_string(ij.first) + "," + std::to_string(ij.second) + ") lost or changed"); }
        }
        for (auto& [ij, w] : ref) eq(A(ij.first, ij.second), w, "final read");
    }
    return done();
}
