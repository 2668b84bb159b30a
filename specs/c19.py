"""C19: the drawing."""
from drawing import *
PR = "CurrentDensityProp"
def sig(v, k): return sel(v.leaf("#", "sigma"), k)
def rm(d): return d.field("region_map")
def regs(d): return d.field("regions")
def distinct(d):
    i, j = z3.FreshConst(I, "i"), z3.FreshConst(I, "j")
    return [("materials are stored once", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < vlen(rm(d))), sig(rm(d), i) != sig(rm(d), j)))), ("assume: material count fits 32 bits", vlen(rm(d)) < 2**32 - 1)]
def region_ens(c, o, n, pr, res):
    return [("the index holds that material", z3.And(0 <= res, res < vlen(rm(n)), sig(rm(n), res) == pr)), ("materials are stored once", distinct(n)[0][1]), ("earlier indices keep their meaning", prefix(rm(o), rm(n))),
            ("an equal material is reused", z3.Implies(z3.Not(each(rm(o), lambda k: sig(rm(o), k) != pr)), vlen(rm(n)) == vlen(rm(o)))), ("at most one material more", vlen(rm(n)) <= vlen(rm(o)) + 1)]
may = dict(throws_if=lambda c: z3.BoolVal(True), throw_frame=False, requires=lambda c: wf(c.this), candidates=[wf_inv])
mods = (("this", "points"), ("this", "segments"), ("this", "polygons"), ("this", "drawn!"))
def sides(c, pairs, poly, same_as=None):
    """the drawn pairs, in order, and the polygon that is recorded"""
    o, n = c.this, c.this_new; T0, T1 = trace(o), trace(n); po, pn = o.field("polygons"), n.field("polygons"); last = elem(pn, vlen(po)).field("points")
    sm = lambda a, b: z3.And(x(a) == x(b), y(a) == y(b))
    k = c.any("k", I)
    return [("one polygon is added", vlen(pn) == vlen(po) + 1), ("earlier polygons are kept", prefix(po, pn)), ("sides are drawn", vlen(T1) == vlen(T0) + len(pairs)),
            ("sides join consecutive corners", z3.And(*[z3.And(sm(elem(T1, vlen(T0) + i).field("p1"), a), sm(elem(T1, vlen(T0) + i).field("p2"), b)) for i, (a, b) in enumerate(pairs)])),
            ("the polygon has the corners", z3.And(vlen(last) == len(poly), *[sm(elem(last, i), p) for i, p in enumerate(poly)]))]
def corners(c, a, b): return [a, vec(c, x(b), y(a)), b, vec(c, x(a), y(b))]
def rect(get):
    def f(c):
        q = corners(c, *get(c)); return wf(c.this_new)[:1] + sides(c, list(zip(q, q[1:] + q[:1])), q)
    return f
def poly_ens(get):
    def f(c):
        V_, n_, at_ = get(c); o, n = c.this, c.this_new; T0, T1 = trace(o), trace(n); po, pn = o.field("polygons"), n.field("polygons"); last = elem(pn, vlen(po)).field("points"); k = c.any("k", I)
        sm = lambda a, b: z3.And(x(a) == x(b), y(a) == y(b)); e = elem(T1, vlen(T0) + k)
        return wf(n)[:1] + [("one polygon is added", vlen(pn) == vlen(po) + 1), ("earlier polygons are kept", prefix(po, pn)), ("one side per corner", vlen(T1) == vlen(T0) + n_),
                ("sides join consecutive corners, closing on the first", z3.Implies(z3.And(0 <= k, k < n_), z3.And(sm(e.field("p1"), at_(k)), sm(e.field("p2"), at_(z3.If(k == n_ - 1, 0, k + 1)))))),
                ("the polygon has the corners", z3.And(vlen(last) == n_, z3.Implies(z3.And(0 <= k, k < n_), sm(elem(last, k), at_(k)))))]
    return f
def moved(v, d, path): 
    """v with the coordinates under path shifted by d"""
    k = z3.FreshConst(I, "k"); r = dict(v.d)
    for ax, e in (("x", x(d)), ("y", y(d))):
        p = path + (ax,); r[p] = z3.Lambda([k], sel(v.d[p], k) + e)
    return Val(v.t, r)
def trans(c):
    o = c.this; d = c[0]; i, k = z3.FreshConst(I, "i"), z3.FreshConst(I, "k"); po = o.field("polygons"); r = dict(po.d)
    return {("this", "points"): moved(pts(o), d, ("#",)), ("this", "regions"): moved(regs(o), d, ("#", "first"))}
def trans_ens(c):
    o, n = c.this.field("polygons"), c.this_new.field("polygons"); d = c[0]; i, k = c.any("i", I), c.any("k", I)
    a, b = elem(o, i).field("points"), elem(n, i).field("points"); r = z3.And(0 <= i, i < vlen(o)); s = z3.And(r, 0 <= k, k < vlen(a))
    return [("as many polygons", vlen(o) == vlen(n)), ("as many corners", z3.Implies(r, vlen(a) == vlen(b))), ("corners shifted", z3.Implies(s, z3.And(x(elem(b, k)) == x(elem(a, k)) + x(d), y(elem(b, k)) == y(elem(a, k)) + y(d))))]
def ptr_n(c): return [("assume: the array has n corners", vlen(c[0]) >= c[1].z), ("at least one corner", c[1].z > 0)]
CONTRACTS = [segxc(), drawseg(),
    Contract(DR + "drawSegment", ["Segment"], modifies=mods[:2] + mods[3:], ensures=lambda c: wf(c.this_new)[:1] + [("one side drawn", vlen(trace(c.this_new)) == vlen(trace(c.this)) + 1), ("its ends", same_val(elem(trace(c.this_new), vlen(trace(c.this))), c[0]))], **may),
    Contract(DR + "getRegionId", [PR], requires=lambda c: distinct(c.this), modifies=(("this", "region_map"),), ensures=lambda c: region_ens(c, c.this, c.this_new, c[0].leaf("sigma"), c.res.z)),
    Contract(DR + "getRegionPtrFromId", [U], throws=lambda c: c[0].z >= vlen(rm(c.this)), result_ref=lambda c, obj, a: obj.f("region_map").i(c[0].z)),
    Contract(DR + "drawRegion", ["Vector", PR], requires=lambda c: distinct(c.this), modifies=(("this", "region_map"), ("this", "regions")), ensures=lambda c: region_ens(c, c.this, c.this_new, c[1].leaf("sigma"), elem(regs(c.this_new), vlen(regs(c.this))).leaf("second")) + [
        ("one region more", vlen(regs(c.this_new)) == vlen(regs(c.this)) + 1), ("earlier regions are kept", prefix(regs(c.this), regs(c.this_new))),
        ("seed at the point", z3.And(x(elem(regs(c.this_new), vlen(regs(c.this))).field("first")) == x(c[0]), y(elem(regs(c.this_new), vlen(regs(c.this))).field("first")) == y(c[0])))]),
    Contract(DR + "drawPoint", ["Vector"], effects=lambda c: {("this", "points"): pushed(pts(c.this), c[0])}),
    Contract(DR + "drawRectangle", ["Vector"] * 2, modifies=mods, ensures=rect(lambda c: (c[0], c[1])), **may),
    Contract(DR + "drawRectangle", ["Vector", "double", "double"], modifies=mods, ensures=rect(lambda c: (c[0], vec(c, x(c[0]) + c[1].z, y(c[0]) + c[2].z))), **may),
    Contract(DR + "drawPolygon", [V + "&"], modifies=mods, ensures=poly_ens(lambda c: (c[0], vlen(c[0]), lambda k: elem(c[0], k))), **dict(may, requires=lambda c: wf(c.this) + [("at least one corner", vlen(c[0]) > 0)])),
    Contract(DR + "drawPolygon", ["Polygon"], modifies=mods, ensures=poly_ens(lambda c: (c[0].field("points"), vlen(c[0].field("points")), lambda k: elem(c[0].field("points"), k))), **dict(may, requires=lambda c: wf(c.this) + [("at least one corner", vlen(c[0].field("points")) > 0)])),
    Contract(DR + "translate", ["Vector"], effects=trans, modifies=(("this", "polygons"),), ensures=trans_ens),
    Contract(PR + "::operator==", [PR + "&"], result=lambda c: boolean(c.this.leaf("sigma") == c[0].leaf("sigma"))),
]
UNITS = ["tu/drawing.cpp"]
REPLAY_SRC = ["geometry/segment.cpp", "geometry/vector.cpp", "geometry/circle.cpp", "geometry/polygon.cpp", "utils/utils.cpp", "current_density/properties.cpp", "magnetostatic/properties.cpp"]
