#include "meshgen.hpp"
#include "magnetostatic/mesh.hpp"
#include "current_density/mesh.hpp"
using namespace rt; using namespace nikfemm;
typedef NonLinearExpression Ex;
int main(int argc, char** argv) {
    start(argc, argv); Rng g(seed);
    for (int rep = 0; rep < 1200 * scale; rep++) {       // inversion
        CurrentDensityMesh m; double R = std::ldexp((double)g.i(1, 5), g.i(-3, 3)); int nx = g.i(1, 5), ny = g.i(1, 5);
        double h = 2 * R / std::max(nx, ny) * (g.i(0, 3) ? 0.7 : 0.02); grid(m, g, nx, ny, h, -nx * h / 2 + g.i(-3, 3) * h / 16 + h / 37, -ny * h / 2 + h / 53, 1);
        m.radius = R; m.center = Vector(0, 0); auto& d = m.data; std::vector<Vector> p; std::vector<int> mk;
        for (int i = 0; i < d.numberofpoints; i++) { if (g.i(0, 4) == 0) d.pointmarkerlist[i] = g.i(0, 3); p.push_back(d.pointlist[i]); mk.push_back(d.pointmarkerlist[i]); }
        begin("kelvinTransformCentered", "radius=" + str(R) + " " + show(m)); m.kelvinTransformCentered();
        ok(d.numberofpoints == (int)p.size(), "number of nodes");
        for (size_t i = 0; i < p.size(); i++) { Vector q = d.pointlist[i]; double m2 = p[i].x * p[i].x + p[i].y * p[i].y; if (m2 == 0) continue; std::string at = "node " + std::to_string(i) + " marker " + std::to_string(mk[i]);
            double s = mk[i] ? 1 : std::sqrt(m2) * 100 < R ? 100 * R / std::sqrt(m2) : R * R / m2; if (!mk[i] && std::fabs(std::sqrt(m2) * 100 / R - 1) < 1e-6) continue;
            near(q.x / R, p[i].x * s / R, at + " x"); near(q.y / R, p[i].y * s / R, at + " y"); ok(d.pointmarkerlist[i] == mk[i], "marker changed"); }
    }
    for (int rep = 0; rep < 1200 * scale; rep++) {       // condition at infinity
        MagnetostaticMesh m; int nx = g.i(1, 4), ny = g.i(1, 4); grid(m, g, nx, ny, 1, -g.i(0, nx), -g.i(0, ny), 1); auto& d = m.data;
        if (g.i(0, 2) == 0) for (int i = 0; i < d.numberofpoints; i++) { d.pointlist[i].x = std::floor(d.pointlist[i].x + 0.5); d.pointlist[i].y = std::floor(d.pointlist[i].y + 0.5); }
        if (g.i(0, 7) == 0) { d.numberofpoints = 3; }
        int n = d.numberofpoints; System<Ex> S(n); std::vector<double> mu = {1};
        std::vector<std::vector<double>> A(n, std::vector<double>(n, 0.0)); std::vector<double> b(n);
        for (int i = 0; i < n; i++) { b[i] = g.nz(); S.b[i] = b[i]; for (int j = i; j < n; j++) if (i == j || g.i(0, 3) == 0) { double v = g.nz(); S.A(i, j) = v; A[i][j] = A[j][i] = v; } }
        begin("addDirichletInfiniteBoundaryConditions", show(m)); m.addDirichletInfiniteBoundaryConditions(S);
        std::vector<int> hit; auto val = [&](int i, int j) { auto it = S.A.elems.find((uint64_t)i << 32 | (uint64_t)j); return it == S.A.elems.end() ? 0.0 : it->second.evaluate(mu); };
        std::vector<double> r; for (int i = 0; i < n; i++) r.push_back(d.pointlist[i].x * d.pointlist[i].x + d.pointlist[i].y * d.pointlist[i].y);
        // fixed nodes: identity row and column, zero right-hand side
        for (int i = 0; i < n; i++) { bool id = val(i, i) == 1 && S.b[i].evaluate(mu) == 0; for (int j = 0; j < n && id; j++) if (j != i && val(std::min(i, j), std::max(i, j)) != 0) id = false; if (id) hit.push_back(i); }
        ok(hit.size() == 3, std::to_string(hit.size()) + " nodes have a value of zero imposed");
        for (int i = 0; i < n; i++) if (std::find(hit.begin(), hit.end(), i) == hit.end()) { eq(S.b[i].evaluate(mu), b[i], "right-hand side of free node " + std::to_string(i)); for (int h : hit) ok(r[i] <= r[h], "node " + std::to_string(i) + " is farther than node " + std::to_string(h)); for (int j = i; j < n; j++) if (std::find(hit.begin(), hit.end(), j) == hit.end()) eq(val(i, j), A[i][j], "entry of free nodes"); }
    }
    return done();
}
