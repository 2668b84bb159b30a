#include "rt.hpp"
#include "geometry/segment.hpp"
using namespace rt; using nikfemm::Vector; using nikfemm::Segment;
static std::string S(Vector p) { return "(" + str(p.x) + "," + str(p.y) + ")"; }
static double tri(Vector a, Vector b, Vector c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }   // exact on the generated grid
static bool in(double v, double a, double b) { return (a <= v && v <= b) || (b <= v && v <= a); }
static bool on(Vector p, Vector a, Vector b) { return tri(a, b, p) == 0 && in(p.x, a.x, b.x) && in(p.y, a.y, b.y); }
static int sg(double v) { return (v > 0) - (v < 0); }
// do the open segments share a point / do the closed ones
static bool share(Vector a, Vector b, Vector p, Vector q) {
    if (on(a, p, q) || on(b, p, q) || on(p, a, b) || on(q, a, b)) return true;
    return sg(tri(a, b, p)) * sg(tri(a, b, q)) < 0 && sg(tri(p, q, a)) * sg(tri(p, q, b)) < 0;
}
static bool cross(Vector a, Vector b, Vector p, Vector q) {
    if (sg(tri(a, b, p)) * sg(tri(a, b, q)) < 0 && sg(tri(p, q, a)) * sg(tri(p, q, b)) < 0) return true;
    if (tri(a, b, p) != 0 || tri(a, b, q) != 0 || tri(p, q, a) != 0 || tri(p, q, b) != 0) return false;
    // collinear: along the dominant axis, interiors overlap
    auto key = [](Vector v, bool ox) { return ox ? v.x : v.y; };
    bool ox = a.x != b.x || p.x != q.x;
    double l1 = std::min(key(a, ox), key(b, ox)), h1 = std::max(key(a, ox), key(b, ox)), l2 = std::min(key(p, ox), key(q, ox)), h2 = std::max(key(p, ox), key(q, ox));
    bool pt1 = l1 == h1, pt2 = l2 == h2;
    if (pt1 && pt2) return a.x == p.x && a.y == p.y;
    if (pt1) return l2 < l1 && l1 < h2;
    if (pt2) return l1 < l2 && l2 < h1;
    return std::max(l1, l2) < std::min(h1, h2);
}
static void segs(Vector a, Vector b, Vector p, Vector q) {
    std::string i = S(a) + S(b) + " with " + S(p) + S(q);
    begin("Segment::segmentsIntersect", i);
    bool r = Segment::segmentsIntersect(a, b, p, q);
    if (cross(a, b, p, q)) ok(r, "segments that cross inside both not reported");
    if (r) ok(share(a, b, p, q), "reported, but the segments have no common point");
}
static void point(Vector p, Vector a, Vector b) {
    std::string i = S(p) + " to " + S(a) + S(b);
    begin("Segment::pointSegmentDistance", i);
    double d = Segment::pointSegmentDistance(p, a, b), e = Segment::pointSegmentDistance(p, Segment(a, b)), f = Segment::pointSegmentDistance(p, b, a);
    double L = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y), t = L == 0 ? 0 : ((p.x - a.x) * (b.x - a.x) + (p.y - a.y) * (b.y - a.y)) / L;
    t = t < 0 ? 0 : t > 1 ? 1 : t;
    double w = std::hypot(p.x - (a.x + t * (b.x - a.x)), p.y - (a.y + t * (b.y - a.y)));
    near(d, w, "distance"); near(e, w, "distance (segment overload)"); near(f, w, "distance with the end points swapped");
    begin("Segment::pointInSegmentBB", i);
    bool box = in(p.x, a.x, b.x) && in(p.y, a.y, b.y);
    ok(Segment::pointInSegmentBB(p, a, b) == box && Segment::pointInSegmentBB(p, Segment(a, b)) == box, "bounding box");
    begin("Segment::length", i); near(Segment(a, b).length(), std::sqrt(L), "length");
}
int main(int argc, char** argv) {
    start(argc, argv); Rng g(seed);
    // every quadruple on a 3x3 grid, with translations and scales
    Vector G[9]; for (int i = 0; i < 9; i++) G[i] = Vector(i % 3, i / 3);
    for (int a = 0; a < 9; a++) for (int b = 0; b < 9; b++) for (int p = 0; p < 9; p++) {
        point(G[p], G[a], G[b]);
        for (int q = 0; q < 9; q++) segs(G[a], G[b], G[p], G[q]);
    }
    for (int n = 0; n < 20000 * scale; n++) {
        double s[] = {1, 0.25, 1024, 1.0 / 4096, 1.0 / (1 << 30), 1 << 30}; double k = s[g.i(0, 5)]; int R = g.b() ? 4 : 40;
        double ox = g.i(-3, 3) * 16 * k, oy = g.i(-3, 3) * 16 * k;
        auto v = [&] { return Vector(ox + k * g.i(-R, R), oy + k * g.i(-R, R)); };
        Vector a = v(), b = v(), p = v(), q = v();
        if (g.i(0, 5) == 0) b.x = a.x; if (g.i(0, 5) == 0) q.y = p.y;
        if (g.i(0, 4) == 0) { double m = g.i(-4, 4); p = Vector(a.x + m * (b.x - a.x), a.y + m * (b.y - a.y)); }        // collinear
        if (g.i(0, 4) == 0) { double m = g.i(-4, 4); q = Vector(a.x + m * (b.x - a.x), a.y + m * (b.y - a.y)); }
        segs(a, b, p, q); segs(p, q, a, b); segs(b, a, p, q); segs(a, b, q, p);
        point(p, a, b);
        begin("Segment::operator==", S(a) + S(b) + S(p) + S(q));
        ok(Segment(a, b) == Segment(b, a) && Segment(a, b) == Segment(a, b), "a segment equals itself in either order");
        if (std::fabs(a.x - p.x) > 1e-3 && std::fabs(a.x - q.x) > 1e-3) ok(!(Segment(a, b) == Segment(p, q)) && Segment(a, b) != Segment(p, q), "segments with different end points are different");
    }
    return done();
}
