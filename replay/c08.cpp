#include "rt.hpp"
#include "algebra/solvers.hpp"
#include "algebra/math.hpp"
using namespace rt; using namespace nikfemm;
int main(int argc, char** argv) {
    start(argc, argv);
    Rng g(seed);
    for (int rep = 0; rep < 400 * scale; rep++) {
        int n = g.i(1, 12), dens = g.i(0, 100); std::vector<std::vector<double>> A(n, std::vector<double>(n, 0.0));
        std::string in = "n=" + std::to_string(n);
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (g.i(0, 99) < dens) A[i][j] = A[j][i] = g.i(-8, 8) / 4.0;
        for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += std::fabs(A[i][j]); A[i][i] = s + g.i(1, 8) / 2.0; }      // diagonally dominant: positive definite
        MatCSRSymmetric M; M.m = n; M.row_ptr.assign(1, 0);
        for (int i = 0; i < n; i++) { M.diag.push_back(A[i][i]); for (int j = i + 1; j < n; j++) if (A[i][j] != 0) { M.col_ind.push_back(j); M.val.push_back(A[i][j]); } M.row_ptr.push_back(M.val.size()); }
        M.nnz = M.val.size();
        std::vector<double> b(n), x0(n); for (auto& v : b) v = g.i(-16, 16) / 2.0; bool zero = g.b(); for (auto& v : x0) v = zero ? 0 : g.i(-16, 16) / 2.0;
        double err = std::pow(10.0, -g.i(0, 7)), omega = g.i(2, 18) / 10.0;
        for (auto& r : A) in += " " + str(r);
        in += " b=" + str(b) + " x0=" + str(x0) + " maxError=" + str(err) + " omega=" + str(omega);
        for (int s = 0; s < 4; s++) for (uint32_t budget : {20000u, (uint32_t)g.i(0, 3)}) {
            const char* nm[] = {"conjugateGradientSolver", "preconditionedJacobiConjugateGradientSolver", "preconditionedSSORConjugateGradientSolver", "preconditionedIncompleteCholeskyConjugateGradientSolver"};
            auto x = x0; auto M2 = M; auto b2 = b;
            begin(nm[s], in + " maxIterations=" + std::to_string(budget));
            if (s == 0) conjugateGradientSolver(M, b, x, err, budget); else if (s == 1) preconditionedJacobiConjugateGradientSolver(M, b, x, err, budget);
            else if (s == 2) preconditionedSSORConjugateGradientSolver(M, b, x, omega, err, budget); else preconditionedIncompleteCholeskyConjugateGradientSolver(M, b, x, err, budget);
            ok((int)x.size() == n, "the solution changed its length"); ok(b == b2, "the right-hand side changed"); ok(M.val == M2.val && M.diag == M2.diag && M.row_ptr == M2.row_ptr && M.col_ind == M2.col_ind && M.m == M2.m, "the matrix changed");
            double q = 0, bn = 1; for (int i = 0; i < n; i++) { double r = b[i]; for (int j = 0; j < n; j++) r -= A[i][j] * x[j]; q += r * r; bn += b[i] * b[i]; }
            // twenty thousand iterations are not used up on these matrices (at most twelve unknowns, well conditioned): an early stop
            if (budget > 100) ok(q <= err * err * (1 + 1e-6) + 1e-22 * bn, "stopped early with squared residual " + str(q) + ", requested below " + str(err * err));
        }
    }
    return done();
}
