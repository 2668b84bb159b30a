"""C14: gradient, curl and power density of a nodal field."""
from meshspec import *
from vals import isimp
def field_req(c): d = c.this.field("data"); return mesh_wf(d) + nondeg(c, d) + [("one value per node", c[0].leaf("len") >= npts(d))]
def per_tri(c, name, rot):
    """the gradient (gx, gy) of the affine function through the three nodal values: unique, and independent of the vertex order"""
    d = c.this.field("data"); e = c.any("e", I); r = c.res; f = c[0]; inr = z3.And(0 <= e, e < ntri(d))
    p = corner(c, d, e); z = [sel(f.leaf("#"), vert(d, e, k)) for k in range(3)]
    gx, gy = map(c.ghost, rot(sel(r.leaf("#", "x"), e), sel(r.leaf("#", "y"), e)))
    D = c.ghost(tri2(*p)); a1, b1, c1, a2, b2, c2 = [c.ghost(u) for q in (1, 2) for u in (x(p[q]) - x(p[0]), y(p[q]) - y(p[0]), z[q] - z[0])]
    return [("one vector per triangle", r.leaf("len") == ntri(d)),
            ("lemma: not degenerate", z3.Implies(inr, D != 0), ["pc", D]),
            ("lemma: twice the area", D == a1 * b2 - b1 * a2, [D, a1, b1, a2, b2]),
            ("closed form", z3.Implies(inr, z3.And(gx * D == c1 * b2 - c2 * b1, gy * D == a1 * c2 - a2 * c1)), ["pc", "defs", "lemma: not degenerate", "lemma: twice the area"]),
            ("lemma: affine", z3.Implies(inr, z3.And(gx * a1 + gy * b1 == c1, gx * a2 + gy * b2 == c2)), ["closed form", "lemma: not degenerate", "lemma: twice the area"]),
            ("quotient", z3.Implies(inr, z3.And(gx == (c1 * b2 - c2 * b1) / D, gy == (a1 * c2 - a2 * c1) / D)), ["closed form", "lemma: not degenerate"]),
            (name, z3.Implies(inr, z3.And(*[gx * (x(p[k]) - x(p[0])) + gy * (y(p[k]) - y(p[0])) == z[k] - z[0] for k in (1, 2)])), ["lemma: affine", "defs"])]
CONTRACTS = [
    Contract(MC + "computeGrad", ["std::vector<double>&"], requires=field_req, ensures=lambda c: per_tri(c, "gradient of the interpolant", lambda gx, gy: (gx, gy)), private=["closed form", "gradient of the interpolant"]),
    Contract(MC + "computeCurl", ["std::vector<double>&"], requires=field_req, ensures=lambda c: per_tri(c, "curl of the interpolant", lambda gx, gy: (-gy, gx))),
]
SIM = "MultiLayerCurrentDensitySimulation::"
def layer(c, i): return c.this.field("meshes").elem(i)
def nl(c): return c.this.field("meshes").leaf("len")
def off(c, i): return Sum(lambda q: npts(layer(c, q).field("data")), 0, i)
def eoff(c, i): return Sum(lambda q: ntri(layer(c, q).field("data")), 0, i)
def pd_req(c):
    i, e = z3.FreshConst(I, "i"), z3.FreshConst(I, "e"); m = layer(c, i); d = m.field("data"); at = sel(d.leaf("triangleattributelist", "#"), e)
    r = z3.And(0 <= i, i < nl(c))
    return [(n, z3.ForAll([i], z3.Implies(r, f))) for n, f in mesh_wf(d) + nondeg(c, d)] + [
        ("triangle attributes are region numbers of the layer's drawing", z3.ForAll([i, e], z3.Implies(z3.And(r, 0 <= e, e < ntri(d)), z3.And(at >= 0, at == z3.ToReal(z3.ToInt(at)), at < z3.ToReal(m.field("drawing").field("region_map").leaf("len")))))),
        ("assume: region counts fit 31 bits", z3.ForAll([i], m.field("drawing").field("region_map").leaf("len") < 2**31)),
        ("attribute array", z3.ForAll([i], z3.Implies(r, d.leaf("triangleattributelist", "len") == ntri(d)))),
        ("one value per node", c[0].leaf("len") >= off(c, nl(c))),
        ("assume: counts fit 64 bits", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= nl(c)), z3.And(off(c, i) < 2**63, eoff(c, i) < 2**63, off(c, i) >= 0, eoff(c, i) >= 0)))), ]
def pd_at(c, i, e):
    m = layer(c, i); d = m.field("data"); p = corner(c, d, e); z = [sel(c[0].leaf("#"), off(c, i) + vert(d, e, k)) for k in range(3)]
    D = tri2(*p); gx = (y(p[2]) - y(p[0])) * (z[1] - z[0]) - (y(p[1]) - y(p[0])) * (z[2] - z[0]); gy = (x(p[1]) - x(p[0])) * (z[2] - z[0]) - (x(p[2]) - x(p[0])) * (z[1] - z[0])
    sig = sel(m.field("drawing").leaf("region_map", "#", "sigma"), z3.ToInt(sel(d.leaf("triangleattributelist", "#"), e)))
    return D, gx, gy, sig
GX, GY = z3.Function("gradx!", I, I, R), z3.Function("grady!", I, I, R)
def pd_names(c):
    i, e = z3.FreshConst(I, "i"), z3.FreshConst(I, "e"); D, gx, gy, sig = pd_at(c, i, e)
    return [("assume: names for the components of the gradient in triangle e of layer i", z3.And(z3.ForAll([i, e], GX(i, e) == gx / D, patterns=[GX(i, e)]), z3.ForAll([i, e], GY(i, e) == gy / D, patterns=[GY(i, e)])))]
def pd_val(c, i, e): return (GX(i, e) * GX(i, e) + GY(i, e) * GY(i, e)) * pd_at(c, i, e)[3]
def pd_ens(c):
    i, e = c.any("i", I), c.any("e", I); D, gx, gy, sig = pd_at(c, i, e)
    return [("one value per triangle of every layer", c.res.leaf("len") == eoff(c, nl(c))), ("conductivity times squared gradient", z3.Implies(z3.And(0 <= i, i < nl(c), 0 <= e, e < ntri(layer(c, i).field("data"))), sel(c.res.leaf("#"), eoff(c, i) + e) == pd_val(c, i, e)))]
def pd_ind(c):
    """the layers' slices do not overlap"""
    i, j = z3.FreshConst(I, "i"), z3.FreshConst(I, "j")
    return [(n, [i], j, i + 1, nl(c), z3.Implies(z3.And(0 <= i, i < nl(c)), o(c, i) + m(layer(c, i).field("data")) <= o(c, j))) for n, o, m in (("node slices", off, npts), ("element slices", eoff, ntri))]
def pd_cand(c, ex, L):
    """the finished layers' entries keep their values (whatever the result vector is called)"""
    out = []
    if L.bound is None or not ex.implied(L.pre, L.bound == nl(c)): return out
    for root, path in L.M:
        if path != ("#",) or L.pre.roots[root].d[path].sort() != z3.ArraySort(I, R): continue
        def f(cx, root=root):
            i, e = z3.Int("ic!"), z3.Int("ec!"); v = cx.st.roots[root]; D, gx, gy, sig = pd_at(c, i, e); P = sel(v.leaf("#"), eoff(c, i) + e)
            b = z3.Implies(z3.And(0 <= e, e < ntri(layer(c, i).field("data"))), P == pd_val(c, i, e))
            if not cx.goal: return z3.ForAll([i, e], z3.Implies(z3.And(0 <= i, i < cx.w), b))
            return z3.And(z3.ForAll([i, e], z3.Implies(z3.And(0 <= i, i < isimp(cx.w - 1)), b)), z3.Implies(cx.w > 0, z3.ForAll([e], z3.substitute(b, (i, isimp(cx.w - 1))))))
        out.append(("finished layers keep their power density", f))
    return out
CONTRACTS += [Contract(SIM + "computePowerDensity", ["std::vector<double>&"], requires=lambda c: pd_req(c) + pd_names(c), ensures=pd_ens, inductions=pd_ind, candidates=[pd_cand])]
UNITS = ["tu/gridmesh.cpp", "tu/current.cpp"]
REPLAY_SRC = ["geometry/vector.cpp", "geometry/circle.cpp", "geometry/segment.cpp", "geometry/polygon.cpp", "utils/utils.cpp", "current_density/mesh.cpp", "current_density/multilayer_simulation.cpp", "current_density/properties.cpp", "algebra/csr.cpp", "algebra/math.cpp", "algebra/solvers.cpp", "triangle/triangle.cpp", "triangle/util.cpp"]
