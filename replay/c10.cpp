#include "meshgen.hpp"
#include "current_density/multilayer_simulation.hpp"
#include <map>
using namespace rt; using namespace nikfemm;
// a fan of n triangles around node 0 (corners listed in any rotation and orientation)
static void fan(CurrentDensityMesh& m, Rng& g, int n, int nreg) {
    auto& d = m.data; d.numberofpoints = n + 1; d.numberoftriangles = n;
    d.pointlist = (Vector*)malloc((n + 1) * sizeof(Vector)); d.pointmarkerlist = (int*)malloc((n + 1) * sizeof(int)); d.trianglelist = (Elem*)malloc(n * sizeof(Elem)); d.triangleattributelist = (double*)malloc(n * sizeof(double));
    int hub = g.i(0, n); std::vector<int> rim; for (int i = 0; i <= n; i++) if (i != hub) rim.push_back(i);
    d.pointlist[hub].x = g.r(2); d.pointlist[hub].y = g.r(2); d.pointmarkerlist[hub] = 0;
    for (int i = 0; i < n; i++) { double a = 2 * M_PI * i / n, r = 1 + g.i(0, 4) * 0.25; d.pointlist[rim[i]].x = d.pointlist[hub].x + r * cos(a); d.pointlist[rim[i]].y = d.pointlist[hub].y + r * sin(a); d.pointmarkerlist[rim[i]] = 1; }
    for (int i = 0; i < n; i++) { int q[3] = {hub, rim[i], rim[(i + 1) % n]}; int r = g.i(0, 2); bool f = g.b(); for (int s = 0; s < 3; s++) d.trianglelist[i].verts[s] = q[f ? (r + 3 - s) % 3 : (r + s) % 3]; d.triangleattributelist[i] = g.i(0, nreg - 1); }
}
int main(int argc, char** argv) {
    start(argc, argv); Rng g(seed);
    for (int rep = 0; rep < 500 * scale; rep++) {
        CurrentDensityMesh m; int nr = g.i(1, 3); m.depth = g.i(1, 5) * 0.5;
        for (int r = 0; r < nr; r++) m.drawing.drawRegion(Vector(r, 7), CurrentDensityProp{(float)(1 + r * 3)});
        double h[] = {1, 0.25, 1024}; if (g.i(0, 2)) grid(m, g, g.i(1, 4), g.i(1, 4), h[g.i(0, 2)], g.r(9), g.r(9), nr); else fan(m, g, g.i(3, g.i(0, 4) ? 30 : 300), nr);
        int np = m.data.numberofpoints, nt = m.data.numberoftriangles; auto p = m.data.pointlist;
        std::string in = show(m) + " depth " + str(m.depth) + " regions"; for (int e = 0; e < nt && e < 40; e++) in += " " + str(m.data.triangleattributelist[e]);
        std::map<std::pair<int, int>, double> K, M;
        for (int e = 0; e < nt; e++) { int* v = m.data.trianglelist[e].verts; double D = area2(m, e), s = m.drawing.region_map[(int)m.data.triangleattributelist[e]].sigma;
            double gx[3], gy[3]; for (int k = 0; k < 3; k++) { auto &a = p[v[(k + 1) % 3]], &b = p[v[(k + 2) % 3]]; gx[k] = (a.y - b.y) / D; gy[k] = (b.x - a.x) / D; }
            for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) if (v[k] <= v[l]) { double w = std::fabs(D) / 2 * (gx[k] * gx[l] + gy[k] * gy[l]) * s * m.depth; K[{v[k], v[l]}] += w; M[{v[k], v[l]}] += std::fabs(w) + std::fabs(D) * s * m.depth * (gx[k] * gx[k] + gy[k] * gy[k] + gx[l] * gx[l] + gy[l] * gy[l]); } }
        begin("CurrentDensityMesh::getFemSystem", in);
        auto S = m.getFemSystem(); ok((int)S.A.m == np && (int)S.b.size() == np, "order of the system");
        for (double b : S.b) ok(b == 0, "right-hand side is not zero");
        for (auto& q : S.A.elems) { int i = q.first >> 32, j = q.first & 0xffffffff; ok(i <= j && j < np, "entry outside the upper triangle"); if (!K.count({i, j})) ok(q.second == 0, "entry (" + std::to_string(i) + "," + std::to_string(j) + ") of nodes sharing no triangle is " + str(q.second)); }
        for (auto& q : K) { uint64_t k = (uint64_t)q.first.first << 32 | q.first.second; double x = S.A.elems.count(k) ? S.A.elems[k] : 0;
            ok(std::fabs(x - q.second) <= 1e-8 * M[q.first], "entry (" + std::to_string(q.first.first) + "," + std::to_string(q.first.second) + ") is " + str(x) + ", should be " + str(q.second)); }
    }
    return done();
}
