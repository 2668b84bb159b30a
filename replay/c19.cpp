#include "rt.hpp"
#define private public
#define protected public
#include "drawing/drawing.hpp"
#undef private
#undef protected
#include "current_density/properties.hpp"
#include "magnetostatic/properties.hpp"
using namespace rt; using namespace nikfemm; typedef Drawing<CurrentDensityProp> D;
static std::string S(Vector p) { return "(" + str(p.x) + "," + str(p.y) + ")"; }
static bool eqv(Vector a, Vector b) { return a.x == b.x && a.y == b.y; }
static double tri(Vector a, Vector b, Vector c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static int sg(double v) { return (v > 0) - (v < 0); }
static bool cross(Vector a, Vector b, Vector p, Vector q) { return sg(tri(a, b, p)) * sg(tri(a, b, q)) < 0 && sg(tri(p, q, a)) * sg(tri(p, q, b)) < 0; }
static bool share(Vector a, Vector b, Vector p, Vector q) {
    auto in = [](double v, double x, double y) { return std::min(x, y) <= v && v <= std::max(x, y); };
    auto on = [&](Vector v, Vector x, Vector y) { return tri(x, y, v) == 0 && in(v.x, x.x, y.x) && in(v.y, x.y, y.y); };
    return cross(a, b, p, q) || on(a, p, q) || on(b, p, q) || on(p, a, b) || on(q, a, b);
}
static int find(const D& d, Vector p) { for (size_t i = 0; i < d.points.size(); i++) if (eqv(d.points[i], p)) return i; return -1; }
static bool joined(const D& d, Vector a, Vector b) { for (auto& s : d.segments) { Vector p = d.points[s.p1], q = d.points[s.p2]; if ((eqv(p, a) && eqv(q, b)) || (eqv(q, a) && eqv(p, b))) return true; } return false; }
static bool seg(D& d, Vector a, Vector b, const std::string& hist, bool as_segment) {
    begin("Drawing::drawSegment", hist + "+ " + S(a) + S(b));
    D o = d; bool thrown = false, crosses = false, meets = false, old = joined(d, a, b);
    for (auto& s : o.segments) {
        Vector p = o.points[s.p1], q = o.points[s.p2];
        if (eqv(p, a) || eqv(p, b) || eqv(q, a) || eqv(q, b)) continue;
        if (cross(a, b, p, q)) crosses = true; if (share(a, b, p, q)) meets = true;
    }
    try { if (as_segment) d.drawSegment(Segment(a, b)); else d.drawSegment(a, b); } catch (std::exception&) { thrown = true; }
    if (!old) { ok(!crosses || thrown, "a segment that crosses an older one was accepted"); }
    if (thrown) { ok(meets, "a segment that meets no older one was rejected"); return false; }
    size_t want = o.points.size() + (find(o, a) < 0) + (find(o, b) < 0 && !eqv(a, b)) + (eqv(a, b) && find(o, a) < 0);
    ok(d.points.size() == want, "number of points");
    for (size_t i = 0; i < o.points.size(); i++) ok(eqv(d.points[i], o.points[i]), "an older point changed");
    for (size_t i = 0; i < o.segments.size(); i++) ok(d.segments[i].p1 == o.segments[i].p1 && d.segments[i].p2 == o.segments[i].p2, "an older segment changed");
    for (auto& s : d.segments) ok(s.p1 < d.points.size() && s.p2 < d.points.size(), "a segment refers to no point");
    ok(d.segments.size() == o.segments.size() + !old, old ? "an existing segment was stored again" : "the new segment was not stored");
    ok(joined(d, a, b), "the requested ends are not joined");
    ok(d.polygons.size() == o.polygons.size() && d.regions.size() == o.regions.size() && d.region_map.size() == o.region_map.size(), "something else changed");
    return true;
}
template <class Prop> static void materials(const std::vector<Prop>& pool, Rng& g, const char* what) {
    Drawing<Prop> d; std::vector<Prop> seen; std::string h;
    for (int i = 0; i < 14; i++) {
        int k = g.i(0, pool.size() - 1); h += std::to_string(k) + " ";
        begin(std::string("Drawing::getRegionId/drawRegion ") + what, h);
        uint32_t id; if (g.b()) id = d.getRegionId(pool[k]); else { d.drawRegion(Vector(i, -i), pool[k]); auto& r = d.regions.back(); ok(r.first.x == i && r.first.y == -i, "seed"); id = r.second; }
        uint32_t want = seen.size(); for (uint32_t j = 0; j < seen.size(); j++) if (seen[j] == pool[k]) { want = j; break; }
        if (want == seen.size()) seen.push_back(pool[k]);
        ok(id == want, "index of the material"); ok(d.region_map.size() == seen.size(), "number of stored materials");
        for (uint32_t j = 0; j < seen.size(); j++) { ok(d.region_map[j] == seen[j], "an earlier index changed its meaning"); ok(*d.getRegionPtrFromId(j) == seen[j] && d.getRegionPtrFromId(j) == &d.region_map[j], "lookup"); }
        for (uint32_t bad : {(uint32_t)seen.size(), (uint32_t)seen.size() + 1, 0xffffffffu}) { bool t = false; try { d.getRegionPtrFromId(bad); } catch (std::runtime_error&) { t = true; } ok(t, "an unknown index was accepted"); }
    }
}
int main(int argc, char** argv) {
    start(argc, argv); Rng g(seed);
    for (int n = 0; n < 1500 * scale; n++) {
        D d; int R = g.i(2, 5); std::string h;
        auto v = [&] { return Vector(g.i(-R, R), g.i(-R, R)); };
        int m = g.i(1, 12);
        for (int i = 0; i < m; i++) { Vector a = v(), b = v(); if (i && g.i(0, 3) == 0 && d.segments.size()) { auto s = d.segments[g.i(0, d.segments.size() - 1)]; a = d.points[s.p2]; if (g.b()) b = d.points[s.p1]; } if (eqv(a, b) && find(d, a) < 0) continue; if (seg(d, a, b, h, g.b())) h += S(a) + S(b) + " "; else { break; } }
    }
    for (int n = 0; n < 300 * scale; n++) {
        std::vector<CurrentDensityProp> c; for (int i = 0; i < 6; i++) c.push_back({g.r(4) * (i % 2 ? 1 : 0.5)}); materials(c, g, "(conductivity)");
        std::vector<MagnetostaticProp> p; for (int i = 0; i < 8; i++) p.push_back(MagnetostaticProp{(double)g.i(0, 1), {(double)g.i(0, 1), (double)g.i(0, 1)}, (double)g.i(1, 2), {}}); materials(p, g, "(magnetostatic)");
    }
    for (int n = 0; n < 2000 * scale; n++) {
        D d; double ox = g.i(-9, 9) * 0.5, oy = g.i(-9, 9); Vector a(ox, oy), b(ox + g.nz(9), oy + g.nz(9));
        begin("Drawing::drawRectangle", S(a) + S(b));
        bool wh = g.b(); if (wh) d.drawRectangle(a, b.x - a.x, b.y - a.y); else d.drawRectangle(a, b);
        Vector q[4] = {a, Vector(b.x, a.y), b, Vector(a.x, b.y)};
        ok(d.polygons.size() == 1 && d.polygons[0].points.size() == 4 && d.points.size() == 4 && d.segments.size() == 4, "counts");
        for (int i = 0; i < 4; i++) { ok(eqv(d.polygons[0].points[i], q[i]), "corner"); ok(joined(d, q[i], q[(i + 1) % 4]), "side"); }
        // a star-shaped polygon beside it
        int m = g.i(3, 8); std::vector<Vector> p; for (int i = 0; i < m; i++) { double t = 2 * M_PI * i / m, r = g.i(2, 6); p.push_back(Vector(ox + 100 + std::round(64 * r * std::cos(t)) / 64, oy + std::round(64 * r * std::sin(t)) / 64)); }
        begin("Drawing::drawPolygon", "star with " + std::to_string(m) + " corners");
        D e = d; int how = g.i(0, 2); if (how == 0) d.drawPolygon(p); else if (how == 1) d.drawPolygon(Polygon(p)); else d.drawPolygon(p.data(), p.size());
        ok(d.polygons.size() == 2 && d.polygons[1].points.size() == (size_t)m && d.polygons[0].points.size() == 4, "polygon count");
        for (int i = 0; i < m; i++) { ok(eqv(d.polygons[1].points[i], p[i]), "polygon corner"); ok(joined(d, p[i], p[(i + 1) % m]), "polygon side"); }
        ok(d.segments.size() == e.segments.size() + m, "number of sides");
        begin("Drawing::drawPoint", S(a)); size_t np = d.points.size(); Vector z(ox + 0.25, oy + 300); d.drawPoint(z); ok(d.points.size() == np + 1 && eqv(d.points.back(), z), "point appended");
        d.drawRegion(Vector(ox, oy), {1.0}); d.drawRegion(Vector(oy, ox), {2.0});
        e = d; Vector t(g.r(8), g.r(8) * 0.5); begin("Drawing::translate", S(t)); d.translate(t);
        auto sh = [&](Vector o, Vector w) { ok(w.x == o.x + t.x && w.y == o.y + t.y, "not shifted by the vector: " + S(o) + " became " + S(w)); };
        ok(d.points.size() == e.points.size() && d.polygons.size() == e.polygons.size() && d.regions.size() == e.regions.size() && d.segments.size() == e.segments.size(), "counts");
        for (size_t i = 0; i < e.points.size(); i++) sh(e.points[i], d.points[i]);
        for (size_t i = 0; i < e.polygons.size(); i++) { ok(d.polygons[i].points.size() == e.polygons[i].points.size(), "corners"); for (size_t j = 0; j < e.polygons[i].points.size(); j++) sh(e.polygons[i].points[j], d.polygons[i].points[j]); }
        for (size_t i = 0; i < e.regions.size(); i++) { sh(e.regions[i].first, d.regions[i].first); ok(e.regions[i].second == d.regions[i].second, "region index"); }
    }
    return done();
}
