#include "meshgen.hpp"
#include "current_density/mesh.hpp"
using namespace rt; using namespace nikfemm;
struct Rect { double x0, y0, x1, y1; bool has(double x, double y) const { return x0 <= x && x <= x1 && y0 <= y && y <= y1; } bool has(const Rect& r) const { return has(r.x0, r.y0) && has(r.x1, r.y1); } };
int main(int argc, char** argv) {
    start(argc, argv); Rng g(seed);
    for (int rep = 0; rep < 500 * scale; rep++) {
        CurrentDensityMesh m; int nx = g.i(1, 5), ny = g.i(1, 5); m.center = Vector(g.i(-3, 3) * 0.5, g.i(-3, 3) * 0.25); m.depth = g.i(1, 6) * 0.5; grid(m, g, nx, ny, 1, 0, 0, 1);
        std::vector<Rect> R; int n = g.i(0, 4); std::string in = "polygons";
        for (int i = 0; i < n; i++) { Rect r; if (i && g.b()) { auto& q = R[g.i(0, i - 1)]; r = {q.x0 + 0.5, q.y0 + 0.5, q.x1 - 0.5, q.y1 - 0.5}; if (r.x0 >= r.x1 || r.y0 >= r.y1) r = {q.x0 - 1, q.y0 - 1, q.x1 + 1, q.y1 + 1}; } else { r.x0 = g.i(-2, nx) - 0.25; r.y0 = g.i(-2, ny) - 0.25; r.x1 = r.x0 + g.i(1, 4) + 0.5; r.y1 = r.y0 + g.i(1, 4) + 0.5; }
            bool dup = false; for (auto& q : R) dup |= q.has(r) && r.has(q); if (dup) { i--; n--; continue; }
            R.push_back(r); std::vector<Vector> v = {{r.x0, r.y0}, {r.x1, r.y0}, {r.x1, r.y1}, {r.x0, r.y1}}; std::rotate(v.begin(), v.begin() + g.i(0, 3), v.end()); if (g.b()) std::reverse(v.begin(), v.end());
            m.drawing.polygons.push_back(Polygon(v)); for (auto& p : v) in += " (" + str(p.x) + "," + str(p.y) + ")"; in += ";"; }
        double px = g.r(2 * nx) * 0.5 + 0.125, py = g.r(2 * ny) * 0.5 + 0.0625; Vector p(px + m.center.x, py + m.center.y), ax(g.r(4), g.r(4)); double rho = g.i(1, 9);
        in += " centre (" + str(m.center.x) + "," + str(m.center.y) + ") depth " + str(m.depth) + " point (" + str(p.x) + "," + str(p.y) + ") axis (" + str(ax.x) + "," + str(ax.y) + ") density " + str(rho) + " " + show(m);
        std::vector<Rect> Q; for (auto& r : R) if (r.has(px, py)) { bool inner = true; for (auto& q : R) if (q.has(px, py) && !(q.has(r) && r.has(q)) && r.has(q)) inner = false; if (inner) Q.push_back(r); }
        begin("Mesh::computeAreaIntegral", in);
        double A = 0, M = 0, J = 0; Vector b; bool thrown = false; try { A = m.computeAreaIntegral(p); } catch (std::exception&) { thrown = true; }
        ok(thrown == Q.empty(), thrown ? "rejected although a polygon contains the point" : "no polygon contains the point, but a value is returned"); if (thrown) continue;
        M = m.computeMass(p, rho); b = m.computeBarycenter(p); J = m.computeInertiaMoment(p, ax, rho);
        bool anyA = false, anyM = false, anyB = false, anyJ = false; std::string w;
        for (auto& r : Q) { double a = 0, bx = 0, by = 0, j = 0; for (int e = 0; e < m.data.numberoftriangles; e++) { bool all = true; double cx = 0, cy = 0; for (int k = 0; k < 3; k++) { Vector q = m.data.pointlist[m.data.trianglelist[e].verts[k]]; all &= r.has(q.x, q.y); cx += q.x / 3; cy += q.y / 3; }
                if (!all) continue; cx += m.center.x; cy += m.center.y; double t = std::fabs(area2(m, e)) / 2; a += t; bx += t * cx; by += t * cy; j += t * ((cx - ax.x) * (cx - ax.x) + (cy - ax.y) * (cy - ax.y)); }
            double s = 1e-9 * (1 + std::fabs(j) * rho * m.depth); w += " area " + str(a) + " barycentre (" + str(bx / a) + "," + str(by / a) + ") inertia " + str(j * rho * m.depth);
            anyA |= std::fabs(A - a) < s; anyM |= std::fabs(M - a * m.depth * rho) < s * 10; anyJ |= std::fabs(J - j * m.depth * rho) < s; anyB |= a == 0 || (std::fabs(b.x * a - bx) < s && std::fabs(b.y * a - by) < s); }
        ok(anyA, "area " + str(A) + ", should be one of" + w); begin("Mesh::computeMass", in); ok(anyM, "mass " + str(M) + " of" + w);
        begin("Mesh::computeBarycenter", in); ok(anyB, "barycentre (" + str(b.x) + "," + str(b.y) + "), should be one of" + w); begin("Mesh::computeInertiaMoment", in); ok(anyJ, "inertia " + str(J) + ", should be one of" + w);
    }
    return done();
}
