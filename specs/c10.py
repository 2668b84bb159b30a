"""C10: the conduction stiffness matrix."""
from meshspec import *
from contracts import Heap
from sexec import LV
from loops import okpat
from vals import isimp, TVec, fresh
class Regions:
    """a pointer into the drawing's table of region properties is the index of the entry"""
    def __init__(self, rec): self.rec = rec; self.table = None
    def address(self, ex, st, lv):
        if self.table is not None and lv.root == self.table.root and len(lv.steps) == len(self.table.steps) + 1 and all(p[0] == q[0] == "f" and p[1] == q[1] for p, q in zip(lv.steps, self.table.steps)) and lv.steps[-1][0] != "f": return Val(TPtr(lv.t), {(): lv.steps[-1][1]})
        return None
    def target(self, ex, st, v):
        if self.table is not None and isinstance(v.t.e, TRec) and v.t.e.name == self.rec: return self.table.i(v.z)
        return None
    def setup(self, c, ex, st): self.table = c.obj.f("drawing").f("region_map")
from vals import TRec, TPtr, Val
HOME = Regions("CurrentDensityProp")
def key(i, j): return i * (1 << 32) + j
DEG, TRI, ENT, ACC = z3.Function("degree!", I, I, I), z3.Function("around!", I, I, I), z3.Function("entry!", I, I, I, R), z3.Function("accumulated!", I, I, I, R)
def data(c): return c.this.field("data")
def has(d, t, v): return z3.Or(*[vert(d, t, k) == v for k in range(3)])
def attr(c, t): return z3.ToInt(sel(data(c).leaf("triangleattributelist", "#"), t))
def sigma(c, t): return sel(c.this.leaf("drawing", "region_map", "#", "sigma"), attr(c, t))
NX, PV = z3.Function("following!", I, I, I), z3.Function("preceding!", I, I, I)
def follow(c, t, v):
    """the corner after v when triangle t is listed in positive orientation, and the one before it"""
    d = data(c); q = [vert(d, t, k) for k in range(3)]; pick = lambda o: z3.If(v == q[0], q[o % 3], z3.If(v == q[1], q[(1 + o) % 3], q[(2 + o) % 3]))
    n, p = pick(1), pick(2); neg = tri2(node(c, d, v), node(c, d, n), node(c, d, p)) < 0
    return z3.If(neg, p, n), z3.If(neg, n, p)
KS = [z3.Function("stiffness%d!" % k, I, I, R) for k in range(3)]
def kvals(c, v, t):
    n, p = follow(c, t, v); return stiff(c, t, node(c, data(c), v), node(c, data(c), n), node(c, data(c), p))
def kdef(c):
    v, t = z3.FreshConst(I, "v"), z3.FreshConst(I, "t"); k = kvals(c, v, t)
    return z3.ForAll([v, t], z3.And(*[KS[i](v, t) == k[i] for i in range(3)]), patterns=[KS[i](v, t) for i in range(3)])
def stiff(c, t, p1, p2, p3):
    """area * (grad phi_1 . grad phi_k), k = 1, 2, 3, of the positively oriented triangle p1 p2 p3"""
    D = tri2(p1, p2, p3); b1, c1, b2, c2, b3, c3 = [u / D for u in (y(p2) - y(p3), x(p3) - x(p2), y(p3) - y(p1), x(p1) - x(p3), y(p1) - y(p2), x(p2) - x(p1))]
    s = sigma(c, t) * c.this.leaf("depth")
    return [D * (b * b1 + g * c1) / 2 * s for b, g in ((b1, c1), (b2, c2), (b3, c3))]
def keep(c, n, f):
    if n not in c.__dict__: c.__dict__[n] = f()
    return c.__dict__[n]
def names(c):
    d = data(c); v, t, j, b = [z3.FreshConst(I, n) for n in "vtjb"]
    h = has(d, t, v)
    out = [("assume: names for the number of triangles among the first t that contain v, and for the j-th of them", z3.And(
               z3.ForAll([v], DEG(z3.IntVal(0), v) == 0, patterns=[DEG(z3.IntVal(0), v)]), z3.ForAll([t, v], z3.Implies(t >= 0, DEG(t + 1, v) == DEG(t, v) + z3.If(h, 1, 0)), patterns=[DEG(t + 1, v)]),
               z3.ForAll([t, v], z3.Implies(z3.And(t >= 0, h), TRI(v, DEG(t, v)) == t), patterns=[DEG(t, v)]))),
           ("assume: a name for the sum of the first j of node v's contributions to entry (v, b)", z3.And(
               z3.ForAll([v, b], ACC(v, b, z3.IntVal(0)) == 0, patterns=[ACC(v, b, z3.IntVal(0))]),
               z3.ForAll([v, b, j], z3.Implies(j >= 0, ACC(v, b, j + 1) == ACC(v, b, j) + ENT(v, TRI(v, j), b)), patterns=[ACC(v, b, j + 1)]),
               z3.ForAll([v, b, t], z3.Implies(DEG(t, v) >= 0, ACC(v, b, DEG(t, v) + 1) == ACC(v, b, DEG(t, v)) + ENT(v, TRI(v, DEG(t, v)), b)), patterns=[ACC(v, b, DEG(t, v))]))),
           ("assume: a name for the sum over the first t triangles that contain a of their contributions to entry (a, b)", total(c))]
    n, p = follow(c, t, v)
    return out + [("assume: names for the corners after and before v in positive orientation", keep(c, "following", lambda: z3.ForAll([t, v], z3.Implies(has(d, t, v), z3.And(NX(t, v) == n, PV(t, v) == p)), patterns=[z3.MultiPattern(NX(t, v)), z3.MultiPattern(PV(t, v))]))),
            ("assume: a name for triangle t's contribution to entry (v, b)", z3.ForAll([v, t, b], ENT(v, t, b) == z3.If(b == v, KS[0](v, t), z3.If(b == NX(t, v), KS[1](v, t), z3.If(b == PV(t, v), KS[2](v, t), z3.RealVal(0)))), patterns=[ENT(v, t, b)])),
            ("assume: names for area * (gradient . gradient) * conductivity * depth of v with itself, the next and the previous corner", keep(c, "stiffness", lambda: kdef(c)))]
def req(c):
    d = data(c); e = z3.FreshConst(I, "e"); v = z3.FreshConst(I, "v"); at = sel(d.leaf("triangleattributelist", "#"), e); r = z3.And(0 <= e, e < ntri(d)); rm = c.this.leaf("drawing", "region_map", "len")
    return mesh_wf(d) + nondeg(c, d) + [("attribute array", d.leaf("triangleattributelist", "len") == ntri(d)),
        ("triangle attributes are region numbers of the drawing", z3.ForAll([e], z3.Implies(r, z3.And(at >= 0, at == z3.ToReal(z3.ToInt(at)), at < z3.ToReal(rm))))),
        ("a triangle has three different corners", z3.ForAll([e], z3.Implies(r, z3.Distinct(*[vert(d, e, k) for k in range(3)])))),
        ("assume: counts fit 31 bits", z3.And(rm < 2**31, npts(d) < 2**31, ntri(d) < 2**31)),
        ("every node belongs to a triangle", z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < npts(d)), DEG(ntri(d), v) > 0), patterns=[DEG(ntri(d), v)]))] + names(c)
TOT = z3.Function("total!", I, I, I, R)
def total(c):
    a, b, t = [z3.FreshConst(I, n) for n in "abt"]; h = has(data(c), t, a)
    return z3.And(z3.ForAll([a, b], TOT(a, b, z3.IntVal(0)) == 0, patterns=[TOT(a, b, z3.IntVal(0))]), z3.ForAll([a, b, t], z3.Implies(t >= 0, TOT(a, b, t + 1) == TOT(a, b, t) + z3.If(h, ENT(a, t, b), 0)), patterns=[TOT(a, b, t + 1)]))
def ind(c):
    d = data(c); v, t, j = z3.FreshConst(I, "v"), z3.FreshConst(I, "t"), z3.FreshConst(I, "j"); n = ntri(d)
    return [("degrees are counts", [v], t, z3.IntVal(0), n, z3.And(0 <= DEG(t, v), DEG(t, v) <= t)),
            ("the j-th triangle around v", [v, j], t, z3.IntVal(0), n, z3.Implies(z3.And(0 <= j, j < DEG(t, v)), z3.And(0 <= TRI(v, j), TRI(v, j) < t, has(d, TRI(v, j), v), DEG(TRI(v, j), v) == j))),
            ("summing along the list of triangles around a is summing over the triangles that contain a", [v, j], t, z3.IntVal(0), n, ACC(v, j, DEG(t, v)) == TOT(v, j, t))]
def lists(c, L):
    """vectors of vectors the loop fills: (root, what the j-th entry for node v is)"""
    for root, path in L.M:
        v = L.pre.roots[root]
        if path == ("#", "len") and isinstance(v.t, TVec) and isinstance(v.t.e, TVec): yield root, (attr if isinstance(v.t.e.e, TPtr) else None)
def around(c, ex, L):
    """the node whose list of triangles the loop runs over"""
    b = L.bound
    if L.asc and z3.is_app(b) and b.decl().kind() == z3.Z3_OP_SELECT and any(z3.eq(v.d.get(("#", "len")), b.arg(0)) for v in L.pre.roots.values() if isinstance(v.t, TVec) and ("#", "len") in v.d): return b.arg(1)
def entry(c, L, i, cx):
    for v in L.pre.roots.values():
        if isinstance(v.t, TVec) and isinstance(v.t.e, TVec) and not isinstance(v.t.e.e, TPtr) and z3.eq(v.d[("#", "len")], L.bound.arg(0)): return sel(sel(v.leaf("#", "#"), i), cx.w)
    return TRI(i, cx.w)
def cand(c, ex, L):
    d = data(c); out = []
    if L.bound is None: return out
    v, j, k = z3.Int("v!c"), z3.Int("j!c"), z3.Int("k!c")
    if ex.implied(L.pre, L.bound == ntri(d)):
        for root, f in lists(c, L):
            def ln(cx, root=root): 
                w = cx.st.roots[root]; return z3.ForAll([v], sel(w.leaf("#", "len"), v) == DEG(cx.w, v), patterns=[DEG(cx.w, v)])
            def content(cx, root=root, f=f):
                w = cx.st.roots[root]; x = sel(sel(w.leaf("#", "#"), v), j); return z3.ForAll([v, j], z3.Implies(z3.And(0 <= j, j < DEG(cx.w, v)), x == (f(c, TRI(v, j)) if f else TRI(v, j))), patterns=[x] if okpat(x, [v, j]) else [TRI(v, j)])
            out += [("one entry per triangle around the node", ln), ("the triangles around the node in order", content)]
    for root, path in L.M:
        if path == ("A", "elems", "@"):
            def vals(cx, root=root):
                q = cx.st.roots[root].leaf("A", "elems", "@"); a, b = k / 2**32, k % 2**32; n = ntri(d); done = ACC(a, b, DEG(n, a))
                if ex.implied(L.pre, L.bound == npts(d)): x = z3.If(a < cx.w, done, 0)
                else:
                    i = L.bound.arg(1) if z3.is_app(L.bound) and L.bound.decl().kind() == z3.Z3_OP_SELECT else None
                    if i is None: return None
                    x = z3.If(a < i, done, z3.If(a == i, ACC(a, b, cx.w), 0))
                return z3.ForAll([k], z3.Implies(z3.And(k >= 0, a <= b), sel(q, k) == x), patterns=[sel(q, k)] if okpat(sel(q, k), [k]) else [])
            i = around(c, ex, L)
            if i is not None:
                def here(cx, i=i):
                    t = entry(c, L, i, cx); vs = [vert(d, t, k) for k in range(3)]
                    return z3.Implies(cx.w < L.bound, z3.And(t == TRI(i, cx.w), 0 <= t, t < ntri(d), z3.Distinct(*vs), has(d, t, i), tri2(*[node(c, d, v) for v in vs]) != 0, *[z3.And(0 <= v, v < npts(d)) for v in vs]))
                out.append(("the triangle at hand contains the node", here))
            out.append(("entries so far", vals))
    return out
def steps(c, ex, L, old, new):
    d = data(c); i = around(c, ex, L); root = [r for r, p in L.M if p == ("A", "elems", "@")]
    if i is None or not root: return []
    t = entry(c, L, i, old); q, q1 = (s.st.roots[root[0]].leaf("A", "elems", "@") for s in (old, new)); k = z3.Int("k!c"); a, b = k / 2**32, k % 2**32; n, p = follow(c, t, i); K = kvals(c, i, t)
    def at(n, p, K): return z3.ForAll([k], z3.Implies(z3.And(k >= 0, a <= b), sel(q1, k) == sel(q, k) + z3.If(a == i, z3.If(b == i, K[0], z3.If(b == n, K[1], z3.If(b == p, K[2], z3.RealVal(0)))), z3.RealVal(0))), patterns=[sel(q1, k)] if okpat(sel(q1, k), [k]) else [])
    pr = [sel(sel(v.leaf("#", "#"), i), old.w) for v in L.pre.roots.values() if isinstance(v.t, TVec) and isinstance(v.t.e, TVec) and isinstance(v.t.e.e, TPtr)]
    return [("the triangle's contributions to the node's row", at(n, p, K), [(x, attr(c, t)) for x in pr]), ("instance", None, (c.following, [t, i])), ("instance", None, (c.stiffness, [i, t])),
            ("the triangle's contributions by name", at(NX(t, i), PV(t, i), [f(i, t) for f in KS]))]
def ens(c):
    d = data(c); a, b, i = [c.any(n, I) for n in "abi"]; A, B = c.res.field("A"), c.res.field("b"); n = npts(d)
    return [("as many unknowns as nodes", z3.And(A.leaf("m") == n, B.leaf("len") == n)), ("the right-hand side is zero", z3.Implies(z3.And(0 <= i, i < n), sel(B.leaf("#"), i) == 0)),
            ("entry (a, b), a <= b, is the sum over the triangles containing a of area * (gradient a . gradient b) * conductivity * depth", z3.Implies(z3.And(0 <= a, a <= b, b < n), sel(A.leaf("elems", "@"), key(a, b)) == TOT(a, b, ntri(d))))]
FEM = Contract("CurrentDensityMesh::getFemSystem", [], requires=req, setup=HOME.setup, inductions=ind, candidates=[cand], ensures=ens, opts={"casey": True, "inv_timeout": 30000, "name_next": True, "steps": steps, "noguess": lambda lf: lf[1][:1] == ("#",) and lf[1] != ("#",) or "elems" in lf[1]})
def access(c):
    """what C04 proves of an access, as far as values are concerned (absent entries are zero): none changes"""
    e = c.this.field("elems"); b = lambda n: fresh(e.d[(n,)].sort(), n)
    return {("this", "elems"): Val(e.t, {p: (x if p[0] == "@" else fresh(x.sort(), "keys")) for p, x in e.d.items()})}
AT = Contract("MatCOOSymmetric<double>::operator()", ["unsigned int", "unsigned int"], throws=lambda c: c[0].z > c[1].z, effects=access, result_ref=lambda c, obj, a: obj.f("elems").k(key(c[0].z, c[1].z))); AT.alias = []
AREA2 = None
CONTRACTS = [AT, FEM]
UNITS = ["current_density/mesh.cpp", "geometry/vector.cpp", "tu/coo.cpp"]
def SETUP(prog):
    import meshspec; meshspec.SETUP(prog); prog.ptr_homes.append(HOME)
REPLAY_SRC = ["geometry/vector.cpp", "geometry/circle.cpp", "geometry/segment.cpp", "geometry/polygon.cpp", "utils/utils.cpp", "current_density/mesh.cpp", "current_density/properties.cpp", "algebra/csr.cpp", "triangle/triangle.cpp", "triangle/util.cpp"]
