#include "rt.hpp"
#include "geometry/vector.hpp"
#include "algebra/math.hpp"
using namespace rt;
typedef std::vector<double> V;
int main(int argc, char** argv) {
    start(argc, argv);
    Rng g(seed);
    double nan = std::nan("");
    for (int rep = 0; rep < 6 * scale; rep++) for (int n = 0; n <= 70; n++) {
        V a(n), b(n); for (auto& x : a) x = g.r(9); for (auto& x : b) x = g.r(9);
        double s = 0, q = 0; for (int i = 0; i < n; i++) { s += a[i] * b[i]; q += a[i] * a[i]; }
        std::string in = "a=" + str(a) + " b=" + str(b);
        begin("dot", in); eq(nikfemm::dot(a, b), s, "dot product");
        begin("dot(aliased)", in); eq(nikfemm::dot(a, a), q, "dot product of a vector with itself");
        begin("squareSum", in); eq(nikfemm::squareSum(a), q, "square sum");
        begin("norm", in); near(nikfemm::norm(a), std::sqrt(q), "norm");
        begin("isnan(vector)", in); ok(!nikfemm::isnan(a), "NaN reported in a vector without NaN");
        for (int p = 0; p < n; p++) { V c = a; c[p] = nan; begin("isnan(vector)", "n=" + std::to_string(n) + " NaN at " + std::to_string(p)); ok(nikfemm::isnan(c), "NaN entry not reported"); }
        if (n > 3) { V c = a; int p = g.i(0, n - 1), q = (p + g.i(1, n - 1)) % n; c[p] = INFINITY; c[q] = -INFINITY; begin("isnan(vector)", str(c)); ok(!nikfemm::isnan(c), "NaN reported in a vector without NaN"); c[p] = c[q] = 1e308; begin("isnan(vector)", str(c)); ok(!nikfemm::isnan(c), "NaN reported in a vector without NaN"); }
        // infinities and huge values are not NaN
        if (n) { V c = a; c[g.i(0, n - 1)] = g.b() ? INFINITY : -1e308; begin("isnan(vector)", str(c)); ok(!nikfemm::isnan(c), "NaN reported in a vector without NaN"); }
        nikfemm::MatCSRSymmetric M; M.m = n; M.nnz = g.i(0, 8); M.row_ptr.assign(n + 1, M.nnz); M.row_ptr[0] = 0; M.col_ind.assign(M.nnz, 0); M.val.resize(M.nnz); M.diag = a; for (auto& x : M.val) x = g.r();
        begin("isnan(matrix)", in); ok(!nikfemm::isnan(M), "NaN reported in a matrix without NaN");
        for (int p = 0; p < (int)M.nnz; p++) { auto c = M; c.val[p] = nan; begin("isnan(matrix)", "NaN in val at " + std::to_string(p) + " of " + std::to_string(M.nnz)); ok(nikfemm::isnan(c), "NaN off-diagonal value not reported"); }
        for (int p = 0; p < n; p++) { auto c = M; c.diag[p] = nan; begin("isnan(matrix)", "NaN in diag at " + std::to_string(p) + " of " + std::to_string(n)); ok(nikfemm::isnan(c), "NaN diagonal value not reported"); }
        double sc[] = {0.0, -1.5, 1e308, INFINITY, -INFINITY, 4e-320};
        for (double x : sc) { begin("isnan(double)", str(x)); ok(!nikfemm::isnan(x), "NaN reported for a number"); }
        begin("isnan(double)", "NaN"); ok(nikfemm::isnan(nan), "NaN not reported");
        std::vector<nikfemm::Vector> w; for (int i = 0; i < n; i++) w.push_back(nikfemm::Vector(g.r(9), g.r(9)));
        auto w0 = w; begin("element_wise_norm", "n=" + std::to_string(n));
        V m = nikfemm::element_wise_norm(w); ok((int)m.size() == n, "length of the magnitudes");
        for (int i = 0; i < n; i++) { near(m[i], std::sqrt(w0[i].x * w0[i].x + w0[i].y * w0[i].y), "magnitude " + std::to_string(i)); ok(w[i].x == w0[i].x && w[i].y == w0[i].y, "input changed"); }
    }
    return done();
}
