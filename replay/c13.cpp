#include "meshgen.hpp"
#include "current_density/multilayer_simulation.hpp"
#include "current_density/simulation.hpp"
using namespace rt; using namespace nikfemm;
typedef std::map<std::pair<uint32_t, uint32_t>, double> Mat;
static Mat get(System<double>& s) { Mat m; for (auto& e : s.A.elems) m[{(uint32_t)(e.first >> 32), (uint32_t)(e.first & 0xffffffffu)}] = e.second; return m; }
static void check(System<double>& s, Mat before, std::vector<double> b0, const CurrentDensityMesh& m, Vector p, double V, uint32_t base) {
    Mat after = get(s); double best = INFINITY; auto& d = m.data;
    auto d2 = [&](int i) { double u = d.pointlist[i].x - p.x, v = d.pointlist[i].y - p.y; return u * u + v * v; };
    for (int i = 0; i < d.numberofpoints; i++) best = std::min(best, d2(i));
    if (d.numberofpoints == 0) { ok(after == before && s.b == b0, "a layer without nodes must leave the system unchanged"); return; }
    std::string why;
    for (int k = 0; k < d.numberofpoints; k++) if (d2(k) == best) {      // some nearest node explains the result
        uint32_t n = base + k; bool good = true; why = "node " + std::to_string(n);
        for (size_t i = 0; i < b0.size(); i++) { double a = 0; auto key = i < n ? std::make_pair((uint32_t)i, n) : std::make_pair(n, (uint32_t)i); auto it = before.find(key); if (it != before.end()) a = it->second; double w = i == n ? V : b0[i] - V * a; if (std::fabs(s.b[i] - w) > 1e-9 * (1 + std::fabs(w))) { good = false; why += " b[" + std::to_string(i) + "]=" + str(s.b[i]) + " expected " + str(w); } }
        Mat w = before; for (auto& e : w) if (e.first.first == n || e.first.second == n) e.second = 0; w[{n, n}] = 1; if (w != after) { good = false; why += " matrix differs"; }
        if (good) return;
    }
    ok(false, "value not imposed on a nearest node: " + why);
}
int main(int argc, char** argv) {
    start(argc, argv); Rng g(seed);
    auto fill = [&](System<double>& s, uint32_t n) { for (uint32_t i = 0; i < n; i++) { s.b[i] = g.r(9); s.A(i, i) = g.nz(9); } for (uint32_t k = 0; k < 3 * n; k++) { uint32_t i = g.i(0, n - 1), j = g.i(0, n - 1); if (i > j) std::swap(i, j); s.A(i, j) = g.r(9); } };
    auto pt = [&](CurrentDensityMesh& m) { if (m.data.numberofpoints && g.i(0, 2) == 0) return m.data.pointlist[g.i(0, m.data.numberofpoints - 1)]; return Vector(g.i(-20, 20) * 0.25, g.i(-20, 20) * 0.25); };
    auto sq = [&](CurrentDensityMesh& m) { grid(m, g, g.i(1, 3), g.i(1, 3), 1, g.i(-2, 2), g.i(-2, 2), 1); if (g.b()) for (int i = 0; i < m.data.numberofpoints; i++) { m.data.pointlist[i].x = std::floor(m.data.pointlist[i].x); m.data.pointlist[i].y = std::floor(m.data.pointlist[i].y); } };
    // the whole layout in another unit of length (exact: powers of two)
    auto unit = [&] { double u[] = {1, 1, 1024, 1.0 / 4096, 1.0 / (1 << 30)}; return u[g.i(0, 4)]; };
    auto scaled = [&](CurrentDensityMesh& m, double k) { for (int i = 0; i < m.data.numberofpoints; i++) { m.data.pointlist[i].x *= k; m.data.pointlist[i].y *= k; } };
    for (int rep = 0; rep < 800 * scale; rep++) {
        CurrentDensitySimulation s; sq(s.mesh); if (g.i(0, 19) == 0) s.mesh.data.numberofpoints = 0; uint32_t n = s.mesh.data.numberofpoints;
        System<double> y(n); if (n) fill(y, n); auto A = get(y); auto b = y.b; Vector p = pt(s.mesh); double V = g.r(7);
        { double k = unit(); scaled(s.mesh, k); p.x *= k; p.y *= k; }
        begin("CurrentDensitySimulation::setVoltage", "p=(" + str(p.x) + "," + str(p.y) + ") V=" + str(V) + " " + show(s.mesh)); s.setVoltage(y, p, V); check(y, A, b, s.mesh, p, V, 0);
    }
    for (int rep = 0; rep < 800 * scale; rep++) {
        int L = g.i(1, 4); MultiLayerCurrentDensitySimulation s((uint32_t)L); uint32_t n = 0; std::vector<uint32_t> base; std::string in;
        for (int l = 0; l < L; l++) { sq(s.meshes[l]); if (g.i(0, 9) == 0) s.meshes[l].data.numberofpoints = 0; base.push_back(n); n += s.meshes[l].data.numberofpoints; in += " layer " + show(s.meshes[l]); }
        System<double> y(n); if (n) fill(y, n); int l = g.i(0, L - 1); auto A = get(y); auto b = y.b; Vector p = pt(s.meshes[l]); double V = g.r(7);
        { double k = unit(); for (auto& m : s.meshes) scaled(m, k); p.x *= k; p.y *= k; }
        begin("MultiLayerCurrentDensitySimulation::setVoltage", "layer " + std::to_string(l) + " p=(" + str(p.x) + "," + str(p.y) + ") V=" + str(V) + in); s.setVoltage(y, p, V, l); check(y, A, b, s.meshes[l], p, V, base[l]);
    }
    return done();
}
