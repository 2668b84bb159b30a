#include "rt.hpp"
#include "algebra/math.hpp"
using namespace nikfemm; using namespace rt;
typedef std::vector<double> V;
static V gen(Rng& g, int n, bool nz) { V v(n); for (auto& x : v) x = nz ? std::ldexp(1.0, g.i(-3, 3)) * (g.b() ? 1 : -1) : g.r(20); return v; }
int main(int argc, char** argv) {
    start(argc, argv);
    Rng g(seed);
    std::vector<int> sizes; for (int i = 0; i <= 40; i++) sizes.push_back(i);
    for (int i : {63, 64, 65, 100, 127, 129, 1000, 1003}) sizes.push_back(i);
    const char* names[] = {"mult(r,d,v)", "mult(r,v,v)", "add(r,v,v)", "sub(r,v,v)", "div(r,v,d)", "div(r,v,v)", "sub(r,v,d)", "add(r,v,d)", "copy(r,v)", "addScaled(r,v,d,v)"};
    for (int rep = 0; rep < 3 * scale; rep++) for (int n : sizes) for (int op = 0; op < 10; op++) for (int al = 0; al < 5; al++) {
        bool two = op == 1 || op == 2 || op == 3 || op == 5 || op == 9;
        if (!two && al > 1) continue;
        // al: 0 distinct, 1 r=a, 2 r=b, 3 a=b, 4 all
        V r0 = gen(g, n, true), a0 = gen(g, n, true), b0 = gen(g, n, true); double d = std::ldexp(1.0, g.i(-3, 3)) * (g.b() ? 1 : -1);
        if (op != 4 && g.i(0, 4) == 0) d = 0; if (g.i(0, 6) == 0) d = g.b() ? 1 : -1;
        if (op != 5 && n && g.i(0, 3) == 0) { int z = g.i(0, n - 1); a0[z] = 0; b0[g.i(0, n - 1)] = 0; }
        V R = r0, A = a0, B = b0;
        V* r = &R; V* a = &A; V* b = &B;
        if (al == 1) a = r; if (al == 2) b = r; if (al == 3) b = a; if (al == 4) a = b = r;
        V av = *a, bv = *b;
        begin(names[op], "n=" + std::to_string(n) + " aliasing=" + std::to_string(al) + " d=" + str(d) + " a=" + str(av) + " b=" + str(bv));
        switch (op) {
            case 0: mult(*r, d, *a); break; case 1: mult(*r, *a, *b); break; case 2: add(*r, *a, *b); break; case 3: sub(*r, *a, *b); break;
            case 4: div(*r, *a, d); break; case 5: div(*r, *a, *b); break; case 6: sub(*r, *a, d); break; case 7: add(*r, *a, d); break;
            case 8: copy(*r, *a); break; case 9: addScaled(*r, *a, d, *b); break;
        }
        ok((int)r->size() == n, "output length changed");
        for (int i = 0; i < n; i++) {
            double x = av[i], y = bv[i], w = 0;
            switch (op) { case 0: w = d * x; break; case 1: w = x * y; break; case 2: w = x + y; break; case 3: w = x - y; break; case 4: w = x / d; break; case 5: w = x / y; break;
                case 6: w = x - d; break; case 7: w = x + d; break; case 8: w = x; break; case 9: w = x + d * y; break; }
            eq((*r)[i], w, "entry " + std::to_string(i));
        }
        if (a != r) ok(*a == av, "first input changed");
        if (b != r) ok(*b == bv, "second input changed");
    }
    return done();
}
