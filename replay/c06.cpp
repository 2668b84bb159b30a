#include "rt.hpp"
#include "algebra/system.hpp"
#include "algebra/non_linear.hpp"
using namespace rt;
int main(int argc, char** argv) {
    start(argc, argv);
    Rng g(seed);
    for (int rep = 0; rep < 1500 * scale; rep++) {
        int n = g.i(1, 9); nikfemm::System<double> S(n); int dens = g.i(0, 100);
        std::vector<std::vector<double>> A(n, std::vector<double>(n, 0.0)); std::vector<double> b(n);
        std::string in = "n=" + std::to_string(n);
        for (int i = 0; i < n; i++) { b[i] = S.b[i] = g.r(); for (int j = i; j < n; j++) if (g.i(0, 99) < dens || (i == j && g.b())) { double v = g.r(); S.A(i, j) = v; A[i][j] = A[j][i] = v; in += " A(" + std::to_string(i) + "," + std::to_string(j) + ")=" + str(v); } }
        in += " b=" + str(b);
        for (int q = 0; q < 3; q++) {   // several conditions, the same node twice included
            int k = g.i(0, n - 1); double v = g.i(0, 5) ? g.r() : 0;
            in += " impose(" + std::to_string(k) + "," + str(v) + ")";
            begin("addDirichletBoundaryCondition", in);
            auto before = S.A.elems;
            S.addDirichletBoundaryCondition(k, v);
            for (int i = 0; i < n; i++) if (i != k) { b[i] -= A[i][k] * v; A[i][k] = A[k][i] = 0; }
            A[k][k] = 1; b[k] = v;
            ok((int)S.A.m == n && (int)S.b.size() == n, "order changed");
            for (int i = 0; i < n; i++) eq(S.b[i], b[i], "right-hand side " + std::to_string(i));
            for (int i = 0; i < n; i++) for (int j = i; j < n; j++) {
                auto it = S.A.elems.find((uint64_t)i << 32 | (uint64_t)j);
                eq(it == S.A.elems.end() ? 0.0 : it->second, A[i][j], "matrix entry " + std::to_string(i) + "," + std::to_string(j));
            }
            for (auto& [key, val] : S.A.elems) { (void)val; ok((int)(key >> 32) < n && (int)(key & 0xffffffff) < n && (key >> 32) <= (key & 0xffffffff), "entry outside the upper triangle"); if (key != ((uint64_t)k << 32 | (uint64_t)k)) ok(before.count(key), "a new entry appeared"); }
            for (auto& [key, val] : before) { (void)val; ok(S.A.elems.count(key), "an entry disappeared"); }
        }
    }
    for (int rep = 0; rep < 700 * scale; rep++) {      // expression entries, read at a permeability vector
        typedef nikfemm::NonLinearExpression Ex;
        int n = g.i(1, 7); nikfemm::System<Ex> S(n); std::vector<double> mu(5); for (auto& m : mu) m = std::ldexp(1.0, g.i(-2, 2));
        std::vector<std::vector<double>> A(n, std::vector<double>(n, 0.0)); std::vector<double> b(n); std::string in = "expressions n=" + std::to_string(n) + " mu=" + str(mu);
        auto rnd = [&](Ex& e) { double c = g.r(), v = c; e += c; in += str(c); for (int t = g.i(0, 3); t > 0; t--) { double d = g.r(); int id = g.i(0, 4); e += nikfemm::NonLinearTerm{d, (uint32_t)id}; v += d / mu[id]; in += "+" + str(d) + "/mu" + std::to_string(id); } return v; };
        for (int i = 0; i < n; i++) { in += " b" + std::to_string(i) + "="; b[i] = rnd(S.b[i]); for (int j = i; j < n; j++) if (i == j || g.b()) { in += " A(" + std::to_string(i) + "," + std::to_string(j) + ")="; A[i][j] = A[j][i] = rnd(S.A(i, j)); } }
        for (int q = 0; q < 3; q++) {
            int k = g.i(0, n - 1); double v = g.i(0, 2) ? g.r() : 0; in += " impose(" + std::to_string(k) + "," + str(v) + ")";
            begin("addDirichletBoundaryCondition(expressions)", in); S.addDirichletBoundaryCondition(k, v);
            for (int i = 0; i < n; i++) if (i != k) { b[i] -= A[i][k] * v; A[i][k] = A[k][i] = 0; }
            A[k][k] = 1; b[k] = v;
            ok((int)S.A.m == n && (int)S.b.size() == n, "order changed");
            for (int i = 0; i < n; i++) eq(S.b[i].evaluate(mu), b[i], "right-hand side " + std::to_string(i));
            for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { auto it = S.A.elems.find((uint64_t)i << 32 | (uint64_t)j); eq(it == S.A.elems.end() ? 0.0 : it->second.evaluate(mu), A[i][j], "matrix entry " + std::to_string(i) + "," + std::to_string(j)); }
        }
    }
    return done();
}
