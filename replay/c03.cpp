#include "csrgen.hpp"
#include "algebra/math.hpp"
using namespace rt; using namespace nikfemm;
typedef std::vector<double> V;
template <class M> void run(Rng& g, const char* name, bool lo, bool up, int n, int dens) {
    M A = random_csr<M>(g, n, dens); V x(n), r(n); for (auto& v : x) v = g.r(); for (auto& v : r) v = g.r(100);
    if (n && g.i(0, 3) == 0) r[g.i(0, n - 1)] = NAN;   // previous content is irrelevant
    M B = A; V x0 = x;
    begin(name, show_csr(A) + " x=" + str(x) + " previous output=" + str(r));
    mult(r, A, x);
    ok((int)r.size() == n, "output length");
    ok(x == x0, "input vector changed");
    ok(A.m == B.m && A.nnz == B.nnz && A.row_ptr == B.row_ptr && A.col_ind == B.col_ind && A.val == B.val && A.diag == B.diag, "matrix changed");
    for (int i = 0; i < n; i++) {
        double s = 0;
        for (int j = 0; j < n; j++) if (i == j || (i < j && up) || (i > j && lo)) s += dense(A, i, j) * x0[j];
        eq(r[i], s, "entry " + std::to_string(i));
    }
}
int main(int argc, char** argv) {
    start(argc, argv);
    Rng g(seed);
    for (int rep = 0; rep < 60 * scale; rep++) for (int n = 0; n <= 12; n++) {
        int d[] = {0, 15, 40, 100}; int dens = d[g.i(0, 3)];
        run<MatCSRSymmetric>(g, "mult(symmetric)", true, true, n, dens);
        run<MatCSRLowerTri>(g, "mult(lower)", true, false, n, dens);
        run<MatCSRUpperTri>(g, "mult(upper)", false, true, n, dens);
    }
    return done();
}
