#include "rt.hpp"
#include "algebra/non_linear.hpp"
using namespace rt; using namespace nikfemm;
typedef NonLinearExpression Ex; typedef std::vector<double> V;
static const int NE = 6, NM = 3;
struct Val { double v[NM]; };
int main(int argc, char** argv) {
    start(argc, argv); Rng g(seed);
    V mu[NM];
    auto newmu = [&] { for (auto& m : mu) { m.assign(NE, 0); for (auto& x : m) x = std::ldexp((double)g.i(1, 7), g.i(-3, 2)); } };
    auto check = [&](Ex& e, const Val& s, const char* what) { for (int q = 0; q < NM; q++) { V m = mu[q]; near(e.evaluate(m), s.v[q], what); ok(m == mu[q], "permeabilities changed"); } };
    for (int rep = 0; rep < 1500 * scale; rep++) {
        newmu(); std::vector<Ex> e(4); std::vector<Val> s(4, Val{{0, 0, 0}}); std::string log;
        begin("NonLinearExpression (default)", ""); check(e[0], s[0], "a fresh expression is zero");
        int n = g.i(1, 25);
        for (int k = 0; k < n; k++) {
            int a = g.i(0, 3), b = g.i(0, 3), op = g.i(0, 9), id = g.i(0, NE - 1); double d = g.i(0, 9) ? g.r(9) : 0;
            if (b == a) b = (a + 1) & 3;
            static const char* names[] = {"=double", "=expr", "+=double", "+=term", "+=expr", "-=double", "-=term", "-=expr", "*double", "copy"};
            log += std::string(" e") + std::to_string(a) + names[op] + "(" + (op == 1 || op == 4 || op == 7 || op == 8 || op == 9 ? "e" + std::to_string(b) + "," : "") + str(d) + (op == 3 || op == 6 ? "," + std::to_string(id) : "") + ")";
            begin(std::string("NonLinearExpression ") + names[op], log);
            NonLinearTerm t{d, (uint32_t)id}; Ex* r = &e[a]; const Val sb = s[b];
            auto each = [&](auto f) { for (int q = 0; q < NM; q++) s[a].v[q] = f(s[a].v[q], q); };
            switch (op) {
                case 0: r = &(e[a] = d); each([&](double, int) { return d; }); break;
                case 1: r = &(e[a] = e[b]); each([&](double, int q) { return sb.v[q]; }); break;
                case 2: r = &(e[a] += d); each([&](double x, int) { return x + d; }); break;
                case 3: r = &(e[a] += t); each([&](double x, int q) { return x + d / mu[q][id]; }); break;
                case 4: r = &(e[a] += e[b]); each([&](double x, int q) { return x + sb.v[q]; }); break;
                case 5: r = &(e[a] -= d); each([&](double x, int) { return x - d; }); break;
                case 6: r = &(e[a] -= t); each([&](double x, int q) { return x - d / mu[q][id]; }); break;
                case 7: r = &(e[a] -= e[b]); each([&](double x, int q) { return x - sb.v[q]; }); break;
                case 8: e[a] = e[b] * d; each([&](double, int q) { return sb.v[q] * d; }); break;
                case 9: { Ex c(e[b]); c += 1.0; e[a] = c; each([&](double, int q) { return sb.v[q] + 1; }); break; }
            }
            ok(r == &e[a], "the operator returns its object");
            for (int i = 0; i < 4; i++) check(e[i], s[i], "value");
        }
    }
    for (int rep = 0; rep < 400 * scale; rep++) {
        newmu(); int m = g.i(1, 7); MatCOOSymmetric<Ex> coo(m); std::map<const Ex*, Val> sh;
        std::string in = "n=" + std::to_string(m);
        for (int i = 0; i < m; i++) for (int j = i; j < m; j++) if (i == j || g.i(0, 2) == 0) {
            Ex& e = coo(i, j); Val v{{0, 0, 0}}; int n = g.i(0, 5); double c = g.r(9); e += c; for (auto& x : v.v) x = c;
            in += " (" + std::to_string(i) + "," + std::to_string(j) + ")=" + str(c);
            for (int t = 0; t < n; t++) { double d = g.r(9); int id = g.i(0, NE - 1); e += NonLinearTerm{d, (uint32_t)id}; for (int q = 0; q < NM; q++) v.v[q] += d / mu[q][id]; in += "+" + str(d) + "/mu" + std::to_string(id); }
            sh[&coo.elems[(uint64_t)i << 32 | (uint64_t)j]] = v;
        }
        begin("NonLinearMatCSRSymmetric::evaluate", in); NonLinearMatCSRSymmetric A(coo);
        int seq[] = {0, 1, 1, 2, 0};
        for (int q : seq) { V mm = mu[q]; A.evaluate(mm); ok(mm == mu[q], "permeabilities changed"); ok(A.diag.size() == A.m && A.val.size() == A.nnz, "lengths");
            for (uint32_t i = 0; i < A.m; i++) near(A.diag[i], sh.at(A.diag_expr[i]).v[q], "diagonal " + std::to_string(i));
            for (uint32_t i = 0; i < A.nnz; i++) near(A.val[i], sh.at(A.expr[i]).v[q], "off-diagonal entry " + std::to_string(i)); }
    }
    return done();
}
