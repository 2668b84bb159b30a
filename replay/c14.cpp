#include "meshgen.hpp"
#include "current_density/multilayer_simulation.hpp"
using namespace rt; using namespace nikfemm;
static void grad(CurrentDensityMesh& m, int e, const double* z, double& gx, double& gy) {
    auto p = m.data.pointlist; int* v = m.data.trianglelist[e].verts; double D = area2(m, e);
    gx = ((p[v[2]].y - p[v[0]].y) * (z[v[1]] - z[v[0]]) - (p[v[1]].y - p[v[0]].y) * (z[v[2]] - z[v[0]])) / D;
    gy = ((p[v[1]].x - p[v[0]].x) * (z[v[2]] - z[v[0]]) - (p[v[2]].x - p[v[0]].x) * (z[v[1]] - z[v[0]])) / D;
}
int main(int argc, char** argv) {
    start(argc, argv); Rng g(seed);
    for (int rep = 0; rep < 400 * scale; rep++) {
        CurrentDensityMesh m; double h[] = {1, 0.25, 1024}; grid(m, g, g.i(1, 4), g.i(1, 4), h[g.i(0, 2)], g.r(9), g.r(9), 1);
        int np = m.data.numberofpoints, nt = m.data.numberoftriangles; std::vector<double> z(np + (g.b() ? 0 : g.i(0, 3))); bool aff = g.b(); double A = g.r(5), B = g.r(5), C = g.r(5);
        for (int i = 0; i < (int)z.size(); i++) z[i] = aff && i < np ? A + B * m.data.pointlist[i].x + C * m.data.pointlist[i].y : g.r(20);
        std::string in = show(m) + " values" + list(z); auto z0 = z;
        begin("Mesh::computeGrad", in); auto G = m.computeGrad(z); ok((int)G.size() == nt, "one vector per triangle"); 
        begin("Mesh::computeCurl", in); auto K = m.computeCurl(z); ok((int)K.size() == nt, "one vector per triangle"); ok(z == z0, "the field is not changed");
        for (int e = 0; e < nt; e++) { double gx, gy; grad(m, e, z.data(), gx, gy); double s = 1e-9 * (1 + std::fabs(gx) + std::fabs(gy));
            begin("Mesh::computeGrad", in + " triangle " + std::to_string(e)); ok(std::fabs(G[e].x - gx) <= s && std::fabs(G[e].y - gy) <= s, "gradient (" + str(G[e].x) + "," + str(G[e].y) + "), should be (" + str(gx) + "," + str(gy) + ")");
            if (aff) ok(std::fabs(G[e].x - B) < 1e-6 * (1 + std::fabs(B)) && std::fabs(G[e].y - C) < 1e-6 * (1 + std::fabs(C)), "gradient of an affine field");
            begin("Mesh::computeCurl", in + " triangle " + std::to_string(e)); ok(std::fabs(K[e].x - gy) <= s && std::fabs(K[e].y + gx) <= s, "curl (" + str(K[e].x) + "," + str(K[e].y) + "), should be (" + str(gy) + "," + str(-gx) + ")"); }
    }
    for (int rep = 0; rep < 200 * scale; rep++) {
        int L = g.i(1, 4); MultiLayerCurrentDensitySimulation s((uint32_t)L); std::vector<double> V; std::string in;
        for (int l = 0; l < L; l++) { auto& m = s.meshes[l]; int nr = g.i(1, 3); m.depth = g.i(1, 5); for (int r = 0; r < nr; r++) m.drawing.drawRegion(Vector(r, l), CurrentDensityProp{(float)(1 + r + 4 * l)}); grid(m, g, g.i(1, 3), g.i(1, 3), 1, g.r(5), g.r(5), nr); in += " layer: " + show(m); for (int i = 0; i < m.data.numberofpoints; i++) V.push_back(g.r(12)); }
        in += " V" + list(V); begin("MultiLayerCurrentDensitySimulation::computePowerDensity", in);
        auto P = s.computePowerDensity(V); size_t o = 0, q = 0;
        for (int l = 0; l < L; l++) { auto& m = s.meshes[l]; for (int e = 0; e < m.data.numberoftriangles; e++, q++) { double gx, gy; grad(m, e, V.data() + o, gx, gy); double sg = m.drawing.region_map[(int)m.data.triangleattributelist[e]].sigma, w = sg * (gx * gx + gy * gy);
            ok(q < P.size() && std::fabs(P[q] - w) <= 1e-9 * (1 + w), "layer " + std::to_string(l) + " triangle " + std::to_string(e) + ": power density " + (q < P.size() ? str(P[q]) : "missing") + ", should be " + str(w)); } o += m.data.numberofpoints; }
        ok(P.size() == q, "one value per triangle");
    }
    return done();
}
