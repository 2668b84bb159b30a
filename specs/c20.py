"""C20: integrals over the innermost polygon around a point."""
from meshspec import *
from poly import *
from vals import isimp, TVec
def polys(m): return m.field("drawing").field("polygons")
def npoly(m): return polys(m).leaf("len")
def poly(m, i): return polys(m).elem(i)
def shifted(c): return vec(c, x(c[0]) - c.this.leaf("center", "x"), y(c[0]) - c.this.leaf("center", "y"))
CNT, SRC = z3.Function("count!", I, I), z3.Function("source!", I, I)
def holds(c, i): return inside(c, poly(c.this, i), shifted(c))
def names(c):
    i = z3.FreshConst(I, "i"); h = holds(c, i)
    return [("assume: names for the number of polygons around the point among the first i, and for the k-th of them", z3.And(CNT(z3.IntVal(0)) == 0, z3.ForAll([i], z3.Implies(i >= 0, CNT(i + 1) == CNT(i) + z3.If(h, 1, 0)), patterns=[CNT(i + 1)]), z3.ForAll([i], z3.Implies(z3.And(i >= 0, h), SRC(CNT(i)) == i), patterns=[CNT(i)])))]
def qual(c, i):
    """polygon i is around the point and encloses no other polygon that is"""
    j = z3.FreshConst(I, "j"); n = npoly(c.this)
    return z3.And(0 <= i, i < n, holds(c, i), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, holds(c, j), differs(c, poly(c.this, i), poly(c.this, j))), z3.Not(encloses(c, poly(c.this, i), poly(c.this, j))))))
def some(c):
    j = z3.FreshConst(I, "j"); return z3.Exists([j], z3.And(0 <= j, j < npoly(c.this), holds(c, j)))
def irreflexive(c):
    j = z3.FreshConst(I, "j"); p = poly(c.this, j)
    return [("assume: a polygon does not differ from itself (a postcondition of Polygon::operator!=)", z3.ForAll([j], z3.Not(differs(c, p, p))))]
def inner_ens(c):
    j = z3.FreshConst(I, "j"); k = z3.FreshConst(I, "k")
    return [("an innermost polygon around the point", z3.Or(z3.Exists([j], z3.And(qual(c, j), leq(c.res, poly(c.this, j)))), z3.And(plen(c.res) == 0, z3.ForAll([k], z3.Not(qual(c, k))))))]
def inner_ind(c):
    i, k = z3.FreshConst(I, "i"), z3.FreshConst(I, "k")
    return [("prefix counts", [], i, z3.IntVal(0), npoly(c.this), z3.And(0 <= CNT(i), CNT(i) <= i)),
            ("the k-th polygon around the point", [k], i, z3.IntVal(0), npoly(c.this), z3.Implies(z3.And(0 <= k, k < CNT(i)), z3.And(0 <= SRC(k), SRC(k) < i, holds(c, SRC(k)), CNT(SRC(k)) == k))),
            ("counts grow", [k], i, k + 1, npoly(c.this), z3.Implies(z3.And(0 <= k, k < npoly(c.this), holds(c, k)), CNT(k) < CNT(i)))]
def inner_lem(c):
    k = z3.FreshConst(I, "k"); n = npoly(c.this)
    return [("every polygon around the point is counted", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, holds(c, k)), z3.And(0 <= CNT(k), CNT(k) < CNT(n), SRC(CNT(k)) == k)), patterns=[holds(c, k)]))]
def inner_cand(c, ex, L):
    """the list collected so far, whatever it is called"""
    if L.bound is None or not ex.implied(L.pre, L.bound == npoly(c.this)): return []
    out = []
    for root, path in L.M:
        v = L.pre.roots[root]
        if path != ("len",) or not isinstance(v.t, TVec) or repr(v.t.e) != "Polygon": continue
        out.append(("as many as counted", lambda cx, root=root: cx.st.roots[root].leaf("len") == CNT(cx.w)))
        def f(cx, root=root):
            k = z3.Int("kl!"); return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < CNT(cx.w)), leq(cx.st.roots[root].elem(k), poly(c.this, SRC(k)))))
        out.append(("the k-th collected polygon", f))
    return out
INNER = Contract(MC + "getInnermostPolygon", ["Vector"], pure="innermost!", requires=lambda c: names(c) + irreflexive(c) + [("assume: polygon counts fit 63 bits", npoly(c.this) < 2**62)], throws=lambda c: z3.Not(some(c)), inductions=inner_ind, lemmas=inner_lem, candidates=[inner_cand], ensures=inner_ens)
CONTRACTS = [IN, NE, HAS, INNER]
def region(c): return INNER.applied(c.ex.prog, [c[0]], c.this)
def member(c, e):
    d = c.this.field("data"); r = region(c); return z3.And(*[inside(c, r, p) for p in corner(c, d, e)])
AREA = Contract("Vector::area", ["Vector"] * 3, pure="area!"); AREA.alias = []       # half the absolute cross product: C22
def area(c, e): return AREA.applied(c.ex.prog, corner(c, c.this.field("data"), e)).z
def bary(c, e):
    """in the coordinates the drawing was made in"""
    p = corner(c, c.this.field("data"), e); o = c.this.field("center"); return vec(c, *[(f(p[0]) + f(p[1]) + f(p[2])) / 3 + f(o) for f in (x, y)])
def total(c, f): return Sum(lambda e: ite0(member(c, e), f(e)), 0, ntri(c.this.field("data")))
may = dict(throws=lambda c: z3.Not(some(c)))
req = lambda c: mesh_wf(c.this.field("data")) + INNER.requires(c)
def bary_ens(c):
    A = c.ghost(total(c, lambda e: area(c, e))); bx, by = c.ghost(x(c.res)), c.ghost(y(c.res)); o = c.this.field("center"); nz = A != 0
    p = lambda f: total(c, lambda e: (f(bary(c, e)) - f(o)) * area(c, e))
    return [("lemma: %s" % n, z3.Implies(nz, (b - f(o)) * A == p(f))) for n, b, f in (("x", bx, x), ("y", by, y))]
CONTRACTS += [AREA, Contract(MC + "computeAreaIntegral", ["Vector"], requires=req, result=lambda c: real(total(c, lambda e: area(c, e))), **may),
    Contract(MC + "computeMass", ["Vector", "double"], requires=req, result=lambda c: real(total(c, lambda e: area(c, e)) * c.this.leaf("depth") * c[1].z), **may),
    Contract(MC + "computeBarycenter", ["Vector"], requires=req, ensures=bary_ens, **may),
    Contract(MC + "computeInertiaMoment", ["Vector", "Vector", "double"], requires=req, result=lambda c: real(total(c, lambda e: area(c, e) * d2(bary(c, e), c[1])) * c.this.leaf("depth") * c[2].z), **may)]
UNITS = ["tu/gridmesh.cpp"]
REPLAY_SRC = ["geometry/vector.cpp", "geometry/circle.cpp", "geometry/segment.cpp", "geometry/polygon.cpp", "utils/utils.cpp", "current_density/mesh.cpp", "current_density/multilayer_simulation.cpp", "current_density/properties.cpp", "algebra/csr.cpp", "algebra/math.cpp", "algebra/solvers.cpp", "triangle/triangle.cpp", "triangle/util.cpp"]
