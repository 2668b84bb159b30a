// Random triangle meshes in the layout the mesher hands over (malloc'ed arrays owned by Mesh).
#pragma once
#include "rt.hpp"
#include "triangle/triangle.h"
#include "drawing/drawing.hpp"
#include "mesh/mesh.hpp"
namespace rt {
// nx*ny grid with random jitter, random diagonals, random vertex order and orientation; triangle t gets region reg[i % nreg]
template <typename M> void grid(M& m, Rng& g, int nx, int ny, double h, double ox, double oy, int nreg, bool shuffle = true) {
    using namespace nikfemm; auto& d = m.data;
    int np = (nx + 1) * (ny + 1), nt = 2 * nx * ny;
    std::vector<int> id(np); for (int i = 0; i < np; i++) id[i] = i;
    if (shuffle) for (int i = np - 1; i > 0; i--) std::swap(id[i], id[g.i(0, i)]);
    d.numberofpoints = np; d.numberoftriangles = nt;
    d.pointlist = (Vector*)malloc(np * sizeof(Vector)); d.pointmarkerlist = (int*)malloc(np * sizeof(int));
    d.trianglelist = (Elem*)malloc(nt * sizeof(Elem)); d.triangleattributelist = (double*)malloc(nt * sizeof(double));
    for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) { int k = id[j * (nx + 1) + i];
        double jx = g.i(-2, 2) * h / 8, jy = g.i(-2, 2) * h / 8;
        d.pointlist[k].x = ox + i * h + jx; d.pointlist[k].y = oy + j * h + jy; d.pointmarkerlist[k] = (i == 0 || j == 0 || i == nx || j == ny); }
    int t = 0;
    for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
        int a = id[j * (nx + 1) + i], b = id[j * (nx + 1) + i + 1], c = id[(j + 1) * (nx + 1) + i + 1], e = id[(j + 1) * (nx + 1) + i];
        int T[2][3]; if (g.b()) { int q[2][3] = {{a, b, c}, {a, c, e}}; memcpy(T, q, sizeof T); } else { int q[2][3] = {{a, b, e}, {b, c, e}}; memcpy(T, q, sizeof T); }
        for (int k = 0; k < 2; k++) { int r = g.i(0, 2); bool fl = shuffle && g.b();
            for (int s = 0; s < 3; s++) d.trianglelist[t].verts[s] = T[k][fl ? (r + 3 - s) % 3 : (r + s) % 3];
            d.triangleattributelist[t] = g.i(0, nreg - 1); t++; }
    }
}
template <typename M> double area2(M& m, int e) { auto& d = m.data; auto p = d.pointlist; int* v = d.trianglelist[e].verts; return (p[v[1]].x - p[v[0]].x) * (p[v[2]].y - p[v[0]].y) - (p[v[1]].y - p[v[0]].y) * (p[v[2]].x - p[v[0]].x); }
template <typename M> std::string show(M& m) { std::string s = "nodes"; for (int i = 0; i < m.data.numberofpoints && i < 40; i++) s += " (" + str(m.data.pointlist[i].x) + "," + str(m.data.pointlist[i].y) + ")"; s += " triangles"; for (int i = 0; i < m.data.numberoftriangles && i < 40; i++) { s += " ["; for (int k = 0; k < 3; k++) s += std::to_string(m.data.trianglelist[i].verts[k]) + (k < 2 ? "," : "]"); } return s; }
template <typename V> std::string list(const V& v) { std::string s; for (auto x : v) s += " " + str(x); return s; }
}
