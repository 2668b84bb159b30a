"""C18: circles."""
from geo import *
from contracts import Contract
CI = "Circle::"; DR = "Drawing<CurrentDensityProp>::"
V = "std::vector<Vector>"
PI = z3.Q(3141592653589793, 10**15)
def cen(c): return c.field("center")
def rad(c): return c.leaf("radius")
def elem(v, k): return Val(v.t.e, {("x",): sel(v.leaf("#", "x"), k), ("y",): sel(v.leaf("#", "y"), k)})
def vlen(v): return v.leaf("len")
def each(v, f):
    k = z3.FreshConst(I, "k"); return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < vlen(v)), f(k)))
def through(c, p, circ): return [("passes through %s" % n, rad(circ) * rad(circ) == d2(cen(circ), q)) for n, q in p] + [("radius is not negative", rad(circ) >= 0)]
def inside(circ, p): return SQRT(d2(cen(circ), p)) <= rad(circ)
CONTRACTS = [
    Contract(CI + "Circle", ["Vector", "double"], effects=lambda c: {("this", "center"): c[0], ("this", "radius"): c[1]}),
    Contract(CI + "Circle", [], effects=lambda c: {("this", "center"): vec(c, z3.RealVal(0), z3.RealVal(0)), ("this", "radius"): real(z3.RealVal(0))}),
    Contract(CI + "contains", ["Vector"], result=lambda c: boolean(inside(c.this, c[0]))),
    Contract(CI + "circumference", [], result=lambda c: real(2 * PI * rad(c.this))),
    Contract(CI + "getCircleFromPoints", ["Vector"] * 3, requires=lambda c: [("not on one line", tri2(c[0], c[1], c[2]) != 0)], ensures=lambda c: through(c, [("point %d" % i, c[i]) for i in range(3)], c.res)),
    Contract(CI + "getCircleFromPoints", ["Vector"] * 2, ensures=lambda c: through(c, [("point %d" % i, c[i]) for i in range(2)], c.res) + [("the points are a diameter", z3.And(x(c[0]) + x(c[1]) == 2 * x(cen(c.res)), y(c[0]) + y(c[1]) == 2 * y(cen(c.res)), 4 * rad(c.res) * rad(c.res) == d2(c[0], c[1])))]),
    Contract(CI + "containsPoints", [V], ensures=lambda c: [("exactly when every point is inside", c.res.z == each(c[0], lambda k: inside(c.this, elem(c[0], k))))]),
    Contract(CI + "getEnclosingCircle", [V], requires=lambda c: [("not empty", vlen(c[0]) > 0)], ensures=lambda c: [("radius is not negative", rad(c.res) >= 0), ("every point is inside", each(c[0], lambda k: SQRT(d2(cen(c.res), elem(c[0], k))) <= rad(c.res)))]),
]
UNITS = ["tu/drawing.cpp"]
REPLAY_SRC = ["geometry/segment.cpp", "geometry/vector.cpp", "geometry/circle.cpp", "geometry/polygon.cpp", "utils/utils.cpp"]
from drawing import *
import drawing
SETUP = drawing.SETUP
def circle_ens(get):
    def f(c):
        p, r, n = get(c); old, new = c.this, c.this_new; step = 2 * PI / z3.ToReal(n); po, pn = old.field("polygons"), new.field("polygons"); T0, T1 = trace(old), trace(new)
        last = elem(pn, vlen(po)).field("points")
        pt = lambda k: Val(p.t, {("x",): x(p) + r * COS(z3.ToReal(k) * step), ("y",): y(p) + r * SIN(z3.ToReal(k) * step)})
        same = lambda a, b: z3.And(x(a) == x(b), y(a) == y(b))
        e = lambda k: elem(T1, vlen(T0) + k)
        start = Val(p.t, {("x",): x(p) + r, ("y",): y(p)})
        return [("one polygon is added", z3.And(vlen(pn) == vlen(po) + 1)), ("earlier polygons are kept", prefix(po, pn)), ("n vertices", vlen(last) == n),
                ("vertices equally spaced in angle", every(c, last, lambda k: same(elem(last, k), pt(k + 1)))), ("vertices on the circle", every(c, last, lambda k: d2(p, elem(last, k)) == r * r)),
                ("n sides are drawn", vlen(T1) == vlen(T0) + n),
                ("sides join consecutive vertices", z3.And(*[z3.Implies(n > 0, z3.And(same(e(z3.IntVal(0)).field("p1"), start)))] + [every(c, last, lambda k: z3.And(same(e(k).field("p2"), elem(last, k)), z3.Implies(k > 0, same(e(k).field("p1"), elem(last, k - 1)))))])),
                ("the last vertex is at the full angle", z3.Implies(n > 0, same(elem(last, n - 1), Val(p.t, {("x",): x(p) + r * COS(2 * PI), ("y",): y(p) + r * SIN(2 * PI)}))))]
    return f
mods = (("this", "points"), ("this", "segments"), ("this", "polygons"), ("this", "drawn!"))
may = dict(throws_if=lambda c: z3.BoolVal(True), throw_frame=False, requires=lambda c: wf(c.this), candidates=[wf_inv])
CONTRACTS += [segxc(), drawseg(),
    Contract(DR + "drawCircle", ["Vector", "double", U], modifies=mods, ensures=lambda c: wf(c.this_new)[:1] + circle_ens(lambda c: (c[0], c[1].z, c[2].z))(c), **may),
    Contract(DR + "drawCircle", ["Circle", U], modifies=mods, ensures=lambda c: wf(c.this_new)[:1] + circle_ens(lambda c: (c[0].field("center"), c[0].leaf("radius"), c[1].z))(c), **may)]
