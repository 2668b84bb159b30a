#include "rt.hpp"
#include "geometry/vector.hpp"
#include "triangle/triangle.h"
#include "mesh/mesh.hpp"
using namespace rt; using nikfemm::Vector;
static std::string S(Vector v) { return "(" + str(v.x) + "," + str(v.y) + ")"; }
static void veq(Vector a, double x, double y, const char* w) { eq(a.x, x, std::string(w) + ".x"); eq(a.y, y, std::string(w) + ".y"); }
static void vnear(Vector a, double x, double y, const char* w) { near(a.x, x, std::string(w) + ".x"); near(a.y, y, std::string(w) + ".y"); }
int main(int argc, char** argv) {
    start(argc, argv);
    Rng g(seed);
    auto rv = [&]() { return g.i(0, 15) == 0 ? Vector(0, 0) : g.i(0, 7) == 0 ? Vector(g.r(3) * 1e6, g.r(3) * 1e-6) : Vector(g.r(9), g.r(9)); };
    for (int rep = 0; rep < 4000 * scale; rep++) {
        Vector a = rv(), b = g.i(0, 9) == 0 ? a : rv(), c = g.i(0, 9) == 0 ? b : rv(); double d = g.r(7), nz = g.nz(4);
        std::string in = "a=" + S(a) + " b=" + S(b) + " c=" + S(c) + " d=" + str(d) + " nz=" + str(nz);
        begin("Vector::Vector", in); veq(Vector(a.x, d), a.x, d, "components"); veq(Vector(), 0, 0, "default");
        begin("Vector::operator+", in); veq(a + b, a.x + b.x, a.y + b.y, "sum");
        begin("Vector::operator-", in); veq(a - b, a.x - b.x, a.y - b.y, "difference"); veq(-a, -a.x, -a.y, "negation");
        begin("Vector::operator*", in); veq(a * d, a.x * d, a.y * d, "scaled"); near(a * b, a.x * b.x + a.y * b.y, "dot product");
        begin("Vector::operator/", in); vnear(a / nz, a.x / nz, a.y / nz, "quotient");
        begin("Vector::operator^", in); near(a ^ b, a.x * b.y - a.y * b.x, "cross product");
        begin("Vector compound assignment", in);
        { Vector t = a; Vector r = (t += b); veq(t, a.x + b.x, a.y + b.y, "+="); veq(r, t.x, t.y, "+= result"); t = a; r = (t -= b); veq(t, a.x - b.x, a.y - b.y, "-="); veq(r, t.x, t.y, "-= result");
          t = a; r = (t *= d); veq(t, a.x * d, a.y * d, "*="); veq(r, t.x, t.y, "*= result"); t = a; r = (t /= nz); vnear(t, a.x / nz, a.y / nz, "/="); veq(r, t.x, t.y, "/= result");
          t = a; r = t.translate(b); veq(t, a.x + b.x, a.y + b.y, "translate"); veq(r, t.x, t.y, "translate result");
          t = a; t += t; veq(t, 2 * a.x, 2 * a.y, "a += a"); t = a; t -= t; veq(t, 0, 0, "a -= a"); }
        begin("Vector::operator==", in); { double q = std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)); if (std::fabs(q - EPSILON) > 1e-6 * EPSILON) { ok((a == b) == (q < EPSILON), "equality"); ok((a != b) == !(q < EPSILON), "inequality"); }
          double ang = 0.37 * rep; for (double f : {0.25, 0.9, 1.1, 4.0}) { Vector o(f * EPSILON * std::cos(ang), f * EPSILON * std::sin(ang)), z(0, 0); ok((o == z) == (f < 1), "points " + str(f) + " EPSILON apart"); ok((o != z) == (f >= 1), "points " + str(f) + " EPSILON apart"); } }
        begin("Vector::norm", in); near(a.norm(), std::sqrt(a.x * a.x + a.y * a.y), "norm"); near(a.normSquared(), a.x * a.x + a.y * a.y, "squared norm");
        begin("Vector::normalize", in); { Vector t = a; Vector r = t.normalize(); double l = std::sqrt(a.x * a.x + a.y * a.y); if (l == 0) veq(t, 0, 0, "zero vector"); else vnear(t, a.x / l, a.y / l, "unit vector"); veq(r, t.x, t.y, "result"); }
        begin("Vector::normal", in); veq(a.normal(), -a.y, a.x, "normal");
        double an[] = {0.0, d, 0.3 * d, PI, -PI / 2, 1e-3, 100.0};
        for (double x : an) { begin("Vector::rotate", in + " angle=" + str(x)); double s = std::sin(x), k = std::cos(x); vnear(a.rotate(x), a.x * k - a.y * s, a.x * s + a.y * k, "rotated");
            vnear(a.rotate(x, b), b.x + (a.x - b.x) * k - (a.y - b.y) * s, b.y + (a.x - b.x) * s + (a.y - b.y) * k, "rotated about b"); }
        double cr = (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); double tol = 1e-9;
        begin("Vector areas", in); near(Vector::doubleOrientedArea(a, b, c), cr, "doubleOrientedArea", tol); near(Vector::orientedArea(a, b, c), cr / 2, "orientedArea", tol); near(Vector::area(a, b, c), std::fabs(cr) / 2, "area", tol); near(Vector::area(b, a, c), std::fabs(cr) / 2, "area", tol); near(Vector::area(c, b, a), std::fabs(cr) / 2, "area", tol);
        begin("Vector::distance", in); double q2 = (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y); near(Vector::distance(a, b), std::sqrt(q2), "distance"); near(Vector::distanceSquared(a, b), q2, "distanceSquared");
        begin("Vector::lerp", in); double t = g.i(-2, 6) * 0.25; vnear(Vector::lerp(a, b, t), (1 - t) * a.x + t * b.x, (1 - t) * a.y + t * b.y, "lerp t=" ); vnear(Vector::midPoint(a, b), (a.x + b.x) / 2, (a.y + b.y) / 2, "midPoint");
        begin("Vector angles", in); { double u = a.x - b.x, v = a.y - b.y, p = c.x - b.x, q = c.y - b.y; double w = std::atan2(u * q - v * p, u * p + v * q); near(Vector::orientedAngle(a, b, c), w, "orientedAngle", 1e-7); near(Vector::absoluteAngle(a, b, c), std::fabs(w), "absoluteAngle", 1e-7); }
    }
    for (int rep = 0; rep < 300 * scale; rep++) {
        int n = g.i(3, 9), m = g.i(1, 6); std::vector<Vector> pts(n); for (auto& p : pts) p = rv(); std::vector<nikfemm::Elem> el(m);
        for (auto& e : el) { int p = g.i(0, n - 1), q = (p + g.i(1, n - 1)) % n, r = 0; do r = g.i(0, n - 1); while (r == p || r == q); e.verts[0] = p; e.verts[1] = q; e.verts[2] = r; }
        nikfemm::MeshData D; D.pointlist = pts.data(); D.trianglelist = el.data(); D.numberofpoints = n; D.numberoftriangles = m;
        for (int i = 0; i < m; i++) {
            int v[3] = {el[i].verts[0], el[i].verts[1], el[i].verts[2]}; Vector a = pts[v[0]], b = pts[v[1]], c = pts[v[2]];
            double cr = (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x);
            begin("MeshData", "element " + std::to_string(i) + " a=" + S(a) + " b=" + S(b) + " c=" + S(c));
            Vector q = D.getElemBarycenter(i); vnear(q, (a.x + b.x + c.x) / 3, (a.y + b.y + c.y) / 3, "barycentre");
            near(D.getDoubleOrientedArea(i), cr, "double oriented area of the element"); near(D.getOrientedArea(i), cr / 2, "oriented area of the element"); near(D.getArea(i), std::fabs(cr) / 2, "area of the element");
            int pm[6][3] = {{0,1,2},{1,2,0},{2,0,1},{0,2,1},{2,1,0},{1,0,2}};
            for (int k = 0; k < 6; k++) { int x = v[pm[k][0]], y = v[pm[k][1]], z = v[pm[k][2]]; double s = k < 3 ? 1 : -1; near(D.getDoubleOrientedArea(x, y, z), s * cr, "double oriented area of vertices"); near(D.getOrientedArea(x, y, z), s * cr / 2, "oriented area of vertices"); near(D.getArea(x, y, z), std::fabs(cr) / 2, "area of vertices"); }
            ok(el[i].verts[0] == v[0] && el[i].verts[1] == v[1] && el[i].verts[2] == v[2], "element changed");
        }
        for (auto* p : {&D}) { p->pointlist = nullptr; p->trianglelist = nullptr; }
    }
    return done();
}
