#include "rt.hpp"
#include "geometry/polygon.hpp"
#include "geometry/segment.hpp"
using namespace rt; using namespace nikfemm;
static double cr(Vector a, Vector b, Vector p) { return (a.x - p.x) * (b.y - p.y) - (b.x - p.x) * (a.y - p.y); }      // exact on the generated grid
static bool in(double v, double a, double b) { return (a <= v && v <= b) || (b <= v && v <= a); }
static bool on(Vector p, Vector a, Vector b) { return cr(a, b, p) == 0 && in(p.x, a.x, b.x) && in(p.y, a.y, b.y); }
static std::string S(Vector p) { return "(" + str(p.x) + "," + str(p.y) + ")"; }
static std::string L(const std::vector<Vector>& v) { std::string s; for (auto& p : v) s += S(p); return s; }
static bool inside(const std::vector<Vector>& v, Vector p) {
    size_t n = v.size(); bool odd = false;
    for (size_t j = 0; j < n; j++) { Vector a = v[(j + n - 1) % n], b = v[j]; if (on(p, a, b)) return true;
        // a downward-shifted ray to +x
        if ((a.y < p.y && p.y <= b.y && (a.x - p.x) * (b.y - a.y) + (p.y - a.y) * (b.x - a.x) > 0) || (b.y < p.y && p.y <= a.y && (a.x - p.x) * (b.y - a.y) + (p.y - a.y) * (b.x - a.x) < 0)) odd = !odd; }
    return odd;
}
static double dist(Vector p, Vector a, Vector b) {
    double l = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y), t = l == 0 ? 0 : ((p.x - a.x) * (b.x - a.x) + (p.y - a.y) * (b.y - a.y)) / l; t = t < 0 ? 0 : t > 1 ? 1 : t;
    return std::hypot(p.x - (a.x + t * (b.x - a.x)), p.y - (a.y + t * (b.y - a.y)));
}
static void one(Rng& g, const std::vector<Vector>& v, int R, double k) {
    Polygon P(v); std::string in_ = L(v);
    for (int q = 0; q < 12; q++) {
        Vector p(k * g.i(-R - 1, R + 1), k * g.i(-R - 1, R + 1)); if (g.i(0, 2) == 0 && v.size()) { size_t i = g.i(0, v.size() - 1); p = v[i]; Vector o = v[(i + 1) % v.size()]; if (g.b()) p = Vector((p.x + o.x) / 2, (p.y + o.y) / 2); }
        std::string s = S(p) + " in " + in_; bool w = inside(v, p);
        begin("Polygon::contains(Vector)", s); ok(P.contains(p) == w, w ? "reported outside, should be contained" : "reported contained, should be outside");
        double e = k * g.i(0, 3) * 0.375; bool near_ = false, unsure = false; for (size_t i = 0; i < v.size(); i++) { double d = dist(p, v[i], v[(i + 1) % v.size()]); near_ |= d <= e; unsure |= std::fabs(d - e) < 1e-9 * (1 + e) && d != e; }
        if (!unsure) { begin("Polygon::contains(Vector, bool, double)", s + " tolerance " + str(e)); ok(P.contains(p, true, e) == (w || near_), "with the boundary counting"); ok(P.contains(p, false, e) == (w && !near_), "with the boundary not counting"); }
        if (v.size()) { std::vector<Vector> u = v; std::rotate(u.begin(), u.begin() + g.i(0, v.size() - 1), u.end()); begin("Polygon::contains(Vector)", S(p) + " in " + L(u)); ok(Polygon(u).contains(p) == w, "another starting vertex"); std::reverse(u.begin(), u.end()); begin("Polygon::contains(Vector)", S(p) + " in " + L(u)); ok(Polygon(u).contains(p) == w, "another direction"); }
    }
    std::vector<Vector> o; int m = g.i(0, 5); for (int i = 0; i < m; i++) o.push_back(Vector(k * g.i(-R, R) * 0.5, k * g.i(-R, R) * 0.5)); bool all = true; for (auto& p : o) all &= inside(v, p);
    begin("Polygon::contains(Polygon)", L(o) + " in " + in_); ok(P.contains(Polygon(o)) == all, "contains exactly when all vertices are contained");
    Polygon Q(v); begin("Polygon::operator==", in_); ok(Q == P && !(Q != P), "equal to itself"); if (v.size()) { size_t i = g.i(0, v.size() - 1); if (g.b()) Q.points[i].x += k; else Q.points[i].y -= k; ok(!(Q == P) && Q != P, "a vertex differs"); Q = P; Q.points.pop_back(); ok(!(Q == P) && Q != P, "number of vertices differs"); ok(!(P == Q) && P != Q, "number of vertices differs"); }
    Vector d(k * g.i(-9, 9) * 0.25, k * g.i(-9, 9) * 0.5); Q = P; begin("Polygon::translate", in_ + " by " + S(d)); Polygon* r = &Q.translate(d); ok(r == &Q && Q.points.size() == v.size(), "the polygon itself"); for (size_t i = 0; i < v.size(); i++) { near(Q.points[i].x, v[i].x + d.x, "x of vertex " + str(i)); near(Q.points[i].y, v[i].y + d.y, "y of vertex " + str(i)); }
    double a = g.i(-20, 20) * 0.37; Q = P; begin("Polygon::rotate", in_ + " by " + str(a) + " about " + S(d)); r = &Q.rotate(a, d); ok(r == &Q && Q.points.size() == v.size(), "the polygon itself");
    for (size_t i = 0; i < v.size(); i++) { double dx = v[i].x - d.x, dy = v[i].y - d.y; near(Q.points[i].x, d.x + dx * std::cos(a) - dy * std::sin(a), "x of vertex " + str(i)); near(Q.points[i].y, d.y + dx * std::sin(a) + dy * std::cos(a), "y of vertex " + str(i)); }
}
int main(int argc, char** argv) {
    start(argc, argv); Rng g(seed);
    for (int rep = 0; rep < 3000 * scale; rep++) {
        int n = g.i(0, 9), R = g.b() ? 3 : 12; double ks[] = {1, 0.25, 64}; double k = ks[g.i(0, 2)]; std::vector<Vector> v; for (int i = 0; i < n; i++) { if (i && g.i(0, 3) == 0) v.push_back(g.b() ? Vector(v.back().x, k * g.i(-R, R)) : Vector(k * g.i(-R, R), v.back().y)); else v.push_back(Vector(k * g.i(-R, R), k * g.i(-R, R))); }
        one(g, v, R, k);
    }
    return done();
}
