#include "rt.hpp"
#include "algebra/solvers.hpp"
using namespace rt; using namespace nikfemm;
namespace nikfemm { void multSSORPreconditioner(const MatCSRSymmetric& A, std::vector<double>& result, const std::vector<double>& cv, double omega); }
int main(int argc, char** argv) {
    start(argc, argv);
    Rng g(seed);
    for (int rep = 0; rep < 6000 * scale; rep++) {
        int n = g.i(1, 8), dens = g.i(0, 100);
        MatCSRSymmetric M; M.m = n; M.row_ptr.assign(1, 0); std::vector<std::vector<double>> U(n, std::vector<double>(n, 0.0)); std::string in = "n=" + std::to_string(n);
        for (int i = 0; i < n; i++) {
            M.diag.push_back(std::ldexp(g.b() ? 1.0 : -1.0, g.i(-1, 2)) * (g.i(0, 3) ? 1 : 3));
            for (int j = i + 1; j < n; j++) if (g.i(0, 99) < dens) { U[i][j] = g.nz(); M.col_ind.push_back(j); M.val.push_back(U[i][j]); }
            M.row_ptr.push_back(M.val.size());
        }
        M.nnz = M.val.size();
        for (auto& r : U) in += " " + str(r);
        std::vector<double> r(n), z(n); for (auto& v : r) v = g.r(); for (auto& v : z) v = g.r(100);
        double w = g.i(-4, 12) / 4.0; if (g.i(0, 9) == 0) w = 1.3;
        begin("multSSORPreconditioner", in + " diag=" + str(M.diag) + " r=" + str(r) + " w=" + str(w) + " result before=" + str(z));
        auto M2 = M; auto r2 = r;
        multSSORPreconditioner(M, z, r, w);
        ok((int)z.size() == n, "the result changed its length"); ok(r == r2, "the input vector changed");
        ok(M.val == M2.val && M.diag == M2.diag && M.row_ptr == M2.row_ptr && M.col_ind == M2.col_ind && M.m == M2.m && M.nnz == M2.nnz, "the matrix changed");
        std::vector<double> y(n), e(n);
        for (int i = 0; i < n; i++) { double s = M.diag[i] * z[i], a = std::fabs(s); for (int j = i + 1; j < n; j++) { s += w * U[i][j] * z[j]; a += std::fabs(w * U[i][j] * z[j]); } y[i] = s / M.diag[i]; e[i] = a / std::fabs(M.diag[i]); }
        for (int i = 0; i < n; i++) {
            double s = M.diag[i] * y[i], a = std::fabs(M.diag[i]) * e[i] + std::fabs(w * (2 - w) * r[i]); for (int j = 0; j < i; j++) { s += w * U[j][i] * y[j]; a += std::fabs(w * U[j][i]) * e[j]; }
            ok(std::fabs(s - w * (2 - w) * r[i]) <= 1e-9 * (a + 1e-3), "row " + std::to_string(i) + ": ((D+wU^T) D^-1 (D+wU) z) is " + str(s) + ", w(2-w)r is " + str(w * (2 - w) * r[i]) + ", z=" + str(z));
        }
    }
    return done();
}
