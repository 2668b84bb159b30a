"""C16: point in polygon; rigid motion of polygons."""
from poly import *
import poly
from vals import isimp
def npt(c): return plen(c.this)
def ends(c, j):
    """edge j: from the previous vertex (the last one before the first) to vertex j"""
    return pt(c.this, z3.If(j <= 0, npt(c) - 1, j - 1)), pt(c.this, j)
def cross(a, b, p): return (x(a) - x(p)) * (y(b) - y(p)) - (x(b) - x(p)) * (y(a) - y(p))
def onedge(a, b, p): return z3.And(cross(a, b, p) == 0, between(x(p), x(a), x(b)), between(y(p), y(a), y(b)))
def crosses(a, b, p):
    """the ray from p in direction +x (moved down infinitesimally) meets the edge"""
    lo = z3.And(y(a) < y(p), y(p) <= y(b)); hi = z3.And(y(b) < y(p), y(p) <= y(a)); s = (x(a) - x(p)) * (y(b) - y(a)) + (y(p) - y(a)) * (x(b) - x(a))
    return z3.Or(z3.And(lo, s > 0), z3.And(hi, s < 0))
CR = z3.Function("crossings!", I, I)
def names(c):
    i = z3.FreshConst(I, "i"); a, b = ends(c, i)
    return [("assume: the number of points fits 31 bits", npt(c) < 2**31), ("assume: name for the number of crossed edges among the first i", z3.And(CR(z3.IntVal(0)) == 0, z3.ForAll([i], z3.Implies(i >= 0, CR(i + 1) == CR(i) + z3.If(crosses(a, b, c[0]), 1, 0)), patterns=[CR(i + 1)])))]
def cand(c, ex, L):
    out = []
    if L.bound is None: return out
    for root, path in L.M:
        if path != () or L.heads[(root, path)].sort() != B: continue
        out.append(("parity of the crossings so far", lambda cx, root=root: cx.st.roots[root].z == (CR(cx.w) % 2 == 1)))
    def f(cx):
        k = z3.Int("ke!"); a, b = ends(c, k); return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cx.w), z3.Not(onedge(a, b, c[0]))))
    out.append(("not on an edge so far", f))
    return out
def anyedge(c):
    k = c.any("edge", I); a, b = ends(c, k); return z3.And(0 <= k, k < npt(c), onedge(a, b, c[0]))
def noedge(c):
    k = z3.FreshConst(I, "k"); a, b = ends(c, k); return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < npt(c)), z3.Not(onedge(a, b, c[0]))))
CONT = Contract(PO + "contains", ["Vector"], requires=names, candidates=[cand], opts={"cases": True}, ensures=lambda c: [
    ("a point on an edge or vertex is contained", z3.Implies(anyedge(c), c.res.z)),
    ("any other exactly when the ray crosses an odd number of edges", z3.Implies(noedge(c), c.res.z == (CR(npt(c)) % 2 == 1)))])
DIST = Contract("Segment::pointSegmentDistance", ["Vector"] * 3, pure="dist!"); DIST.alias = []       # the distance to the segment: C17
def close(c, i):
    n = npt(c); return z3.And(0 <= i, i < n, DIST.applied(c.ex.prog, [c[0], pt(c.this, i), pt(c.this, z3.If(i + 1 >= n, 0, i + 1))], None).z <= c[2].z)
def noneclose(c):
    i = z3.FreshConst(I, "i"); return z3.ForAll([i], z3.Not(close(c, i)))
def tol_ens(c):
    r, here = c.res.z, inside(c, c.this, c[0]); near = close(c, c.any("edge", I))
    return [("within the tolerance of an edge: contained exactly when the boundary counts", z3.Implies(near, r == c[1].z)),
            ("elsewhere: contained exactly when the exact answer says so", z3.Implies(noneclose(c), r == here))]
TOL = Contract(PO + "contains", ["Vector", "bool", "double"], ensures=tol_ens)
EQ = Contract(PO + "operator==", ["Polygon&"], ensures=lambda c: [("exactly when the numbers of points agree and corresponding points coincide", c.res.z == z3.And(npt(c) == plen(c[0]), all_pts(c, c.this, lambda k: veq2(pt(c.this, k), pt(c[0], k)))))])
def moved(c, f):
    p, q = c.this, c.new("this"); k = c.any("k", I); g = f(pt(p, k))
    return [("as many points as before", plen(q) == plen(p)), ("every point moved by the motion", z3.Implies(z3.And(0 <= k, k < plen(p)), z3.And(x(pt(q, k)) == g[0], y(pt(q, k)) == g[1]))),
            ("the polygon itself is returned", z3.And(plen(c.res) == plen(q), z3.Implies(z3.And(0 <= k, k < plen(p)), z3.And(x(pt(c.res, k)) == g[0], y(pt(c.res, k)) == g[1]))))]
def turned(c, v):
    a, o = c[0].z, c[1]; dx, dy = x(v) - x(o), y(v) - y(o); return x(o) + dx * COS(a) - dy * SIN(a), y(o) + dx * SIN(a) + dy * COS(a)
TRANS = Contract(PO + "translate", ["Vector"], modifies=("this",), ensures=lambda c: moved(c, lambda v: (x(v) + x(c[0]), y(v) + y(c[0]))))
ROT = Contract(PO + "rotate", ["double", "Vector"], modifies=("this",), ensures=lambda c: moved(c, lambda v: turned(c, v)))
CONT.use = EQ.use = False
CONTRACTS = [CONT, IN, DIST, NE, HAS, TOL, EQ, TRANS, ROT]
UNITS = ["tu/gridmesh.cpp"]
REPLAY_SRC = ["geometry/segment.cpp", "geometry/vector.cpp", "geometry/polygon.cpp", "utils/utils.cpp"]
