#include "rt.hpp"
#define private public
#define protected public
#include "drawing/drawing.hpp"
#undef private
#undef protected
#include "current_density/properties.hpp"
using namespace rt; using namespace nikfemm;
static std::string S(Vector p) { return "(" + str(p.x) + "," + str(p.y) + ")"; }
static double dist(Vector a, Vector b) { return std::hypot(a.x - b.x, a.y - b.y); }
static void enclosing(const std::vector<Vector>& v) {
    std::string i; for (auto p : v) i += S(p);
    begin("Circle::getEnclosingCircle", i);
    Circle c = Circle::getEnclosingCircle(v); ok(c.radius >= 0, "negative radius");
    for (auto p : v) ok(dist(c.center, p) <= c.radius * (1 + 1e-12) + 1e-12, "point " + S(p) + " is outside the circle " + S(c.center) + " r=" + str(c.radius));
    begin("Circle::containsPoints", i);
    for (double r : {0.0, c.radius * 0.5 + 0.125, c.radius + 1}) {
        Circle k(Vector(std::floor(c.center.x), std::floor(c.center.y)), r); bool all = true, edge = false;
        for (auto p : v) { double d = dist(k.center, p); if (std::fabs(d - r) < 1e-9) edge = true; if (d > r) all = false; }
        if (!edge) { ok(k.containsPoints(v) == all, "containsPoints"); for (auto p : v) ok(k.contains(p) == (dist(k.center, p) <= r), "contains"); }
    }
}
static void circle(Vector o, double r, unsigned n, bool other) {
    begin("Drawing::drawCircle", S(o) + " r=" + str(r) + " n=" + std::to_string(n));
    Drawing<CurrentDensityProp> d; 
    if (other) d.drawPolygon(std::vector<Vector>{Vector(o.x + 90 * r, o.y), Vector(o.x + 91 * r, o.y), Vector(o.x + 91 * r, o.y + r)});
    size_t P = d.polygons.size(), s0 = d.segments.size();
    if (other) d.drawCircle(Circle(o, r), n); else d.drawCircle(o, r, n);
    ok(d.polygons.size() == P + 1, "one polygon more");
    auto& v = d.polygons.back().points; ok(v.size() == n, "n vertices");
    double tol = 1e-9 * std::max(1.0, std::max(r, std::max(std::fabs(o.x), std::fabs(o.y)))) * 10;
    for (unsigned k = 0; k < n; k++) {
        double a = 2 * M_PI * (k + 1) / n; Vector w(o.x + r * std::cos(a), o.y + r * std::sin(a));
        ok(dist(v[k], w) <= tol, "vertex " + std::to_string(k) + " is " + S(v[k]) + ", equally spaced would be " + S(w));
        ok(std::fabs(dist(v[k], o) - r) <= tol, "vertex off the circle");
    }
    ok(n == 0 || dist(v[n - 1], Vector(o.x + r, o.y)) <= tol, "the last vertex is the start");
    // sides: every consecutive pair is joined by a segment
    ok(d.segments.size() - s0 == (n == 1 ? 1 : n == 2 ? 1 : n), "number of sides");
    for (unsigned k = 0; k < n; k++) {
        Vector a = v[(k + n - 1) % n], b = v[k]; bool found = false;
        for (auto& s : d.segments) { Vector p = d.points[s.p1], q = d.points[s.p2]; if ((dist(p, a) < 1e-6 * r + tol && dist(q, b) < 1e-6 * r + tol) || (dist(q, a) < 1e-6 * r + tol && dist(p, b) < 1e-6 * r + tol)) found = true; }
        ok(found, "consecutive vertices are not joined");
    }
}
int main(int argc, char** argv) {
    start(argc, argv); Rng g(seed);
    for (int n = 0; n < 20000 * scale; n++) {
        double s[] = {1, 0.25, 1024, 1.0 / 4096}; double k = s[g.i(0, 3)]; int R = g.b() ? 4 : 40;
        double ox = g.i(-3, 3) * 16 * k, oy = g.i(-3, 3) * 16 * k;
        auto v = [&] { return Vector(ox + k * g.i(-R, R), oy + k * g.i(-R, R)); };
        Vector a = v(), b = v(), c = v();
        begin("Circle::getCircleFromPoints (3)", S(a) + S(b) + S(c));
        if ((b.x - a.x) * (c.y - a.y) != (b.y - a.y) * (c.x - a.x)) {
            Circle q = Circle::getCircleFromPoints(a, b, c); double m = 1e-7 * std::max(1.0, q.radius);
            ok(std::fabs(dist(q.center, a) - q.radius) <= m && std::fabs(dist(q.center, b) - q.radius) <= m && std::fabs(dist(q.center, c) - q.radius) <= m, "not through all three points: centre " + S(q.center) + " radius " + str(q.radius));
        }
        begin("Circle::getCircleFromPoints (2)", S(a) + S(b));
        Circle q = Circle::getCircleFromPoints(a, b); near(q.radius * 2, dist(a, b), "diameter"); near(q.center.x * 2, a.x + b.x, "centre x"); near(q.center.y * 2, a.y + b.y, "centre y");
        near(q.circumference(), 2 * M_PI * q.radius, "circumference");
        std::vector<Vector> p; int m = g.i(1, 9); for (int i = 0; i < m; i++) p.push_back(v());
        enclosing(p);
    }
    for (unsigned n = 0; n < 60; n++) for (int t = 0; t < 3; t++) circle(Vector(g.r(20) * 0.5, g.r(20)), g.i(1, 40) * 0.25, n, t == 2);
    circle(Vector(1, 2), 1024, 360, false); circle(Vector(-3, 0), 0.5, 500, true);
    return done();
}
