"""C21: inversion of the exterior domain, and the condition at infinity."""
from meshspec import *
from sexec import SQRT
from vals import isimp, TInt
import nle, c06
NL = c06.NL
def SETUP(prog):
    nle.SETUP(prog); prog.types.buffers = MESH_BUFFERS
    t = prog.ty(NL)
    # ghost fields: the last three nodes a condition was imposed on, and how many conditions were imposed
    for f in ("node0!", "node1!", "node2!", "count!"):
        if not any(g == f for g, _ in t.fields): t.fields.append((f, TInt(64, True)))
def gv(s, f, e): return Val(s.field(f).t, {(): e})
def dirichlet():
    """C06 with a record of the nodes"""
    k = Contract(NL + "::addDirichletBoundaryCondition", ["unsigned int", "double"], requires=c06.req, effects=c06.eff,
                 ghost_effects=lambda c: {("this", f): gv(c.this, f, e) for f, e in (("node0!", c[0].z), ("node1!", c.this.leaf("node0!")), ("node2!", c.this.leaf("node1!")), ("count!", c.this.leaf("count!") + 1))})
    k.alias = []       # proved by C06
    return k
class Fake:
    def __init__(self, s, k, v): self.this = s; self.a = [k, v]
    def __getitem__(self, i): return self.a[i]
class Z:
    def __init__(self, z): self.z = z
def applied(s, k, v):
    d = dict(s.d)
    for path, val in c06.eff(Fake(s, Z(k), Z(v))).items():
        for p, e in val.d.items(): d[tuple(path[1:]) + p] = e
    return Val(s.t, d)
def far(d, i): return sel(d.leaf("pointlist", "#", "x"), i) * sel(d.leaf("pointlist", "#", "x"), i) + sel(d.leaf("pointlist", "#", "y"), i) * sel(d.leaf("pointlist", "#", "y"), i)
def dreq(c):
    d = c.this.field("data"); s = c[0]; m = s.leaf("A", "m"); k = z3.FreshConst(I, "k"); A = s.field("A")
    return [("node array", d.leaf("pointlist", "len") == npts(d)), ("a mesh has at least one triangle", npts(d) >= 3), ("one unknown per node", z3.And(m == npts(d), s.leaf("b", "len") == m)),
            ("keys encode an upper-triangular pair", z3.ForAll([k], z3.Implies(sel(c06.dom(A), k), z3.And(0 <= k, k / 2**32 <= k % 2**32, k % 2**32 < m)), patterns=[sel(c06.dom(A), k)]))]
def dens(c):
    o, n = c[0], c.new(0); d = c.this.field("data"); p = [n.leaf("node%d!" % j) for j in range(3)]; i = c.any("i", I); q = c.any("q", I); r = c.any("r", I)
    w = applied(applied(applied(o, p[2], z3.RealVal(0)), p[1], z3.RealVal(0)), p[0], z3.RealVal(0))
    return [("exactly three conditions are imposed", n.leaf("count!") == o.leaf("count!") + 3), ("on existing nodes", z3.And(*[z3.And(0 <= x, x < npts(d)) for x in p])), ("on three different nodes", z3.Distinct(*p)),
            ("no other node is farther from the origin", z3.Implies(z3.And(0 <= i, i < npts(d), *[i != x for x in p]), z3.And(*[far(d, i) <= far(d, x) for x in p]))),
            ("right-hand side", sel(n.leaf("b", "#", "value!"), r) == sel(w.leaf("b", "#", "value!"), r)), ("matrix keys", sel(n.leaf("A", "elems", "dom"), q) == sel(w.leaf("A", "elems", "dom"), q)),
            ("matrix entries", sel(n.leaf("A", "elems", "@", "value!"), q) == sel(w.leaf("A", "elems", "@", "value!"), q)), ("order", z3.And(n.leaf("A", "m") == o.leaf("A", "m"), n.leaf("b", "len") == o.leaf("b", "len")))]
def top3(c, ex, L):
    """the three largest seen so far, whatever the variables are called"""
    d = c.this.field("data")
    sc = [(r, p) for r, p in L.M if p == () and not r.startswith("iter_n") and (r, p) != L.cleaf]
    ints = [lf for lf in sc if L.heads[lf].sort() == I]; reals = [lf for lf in sc if L.heads[lf].sort() == R]
    if len(ints) < 3 or len(ints) > 4 or len(reals) != 3: return []
    V = lambda cx, lf: cx.st.roots[lf[0]].d[lf[1]]
    out = []
    for p in ints:
        for v in reals:
            out.append(("%s is the distance of %s" % (v[0], p[0]), lambda cx, p=p, v=v: z3.Or(V(cx, v) < 0, z3.And(0 <= V(cx, p), V(cx, p) < cx.w, V(cx, v) >= 0, V(cx, v) * V(cx, v) == far(d, V(cx, p))))))
    for n in (1, 2, 3):
        for v in reals: out.append(("found after %d" % n, lambda cx, v=v, n=n: z3.Implies(cx.w >= n, V(cx, v) >= 0)))
    for a in reals:
        for b in reals:
            if a is not b: out.append(("ordered", lambda cx, a=a, b=b: V(cx, a) >= V(cx, b)))
    import itertools
    for ia, a in enumerate(ints):
        for b in ints[ia + 1:]:
            for v in reals: out.append(("different", lambda cx, a=a, b=b, v=v: z3.Or(V(cx, v) < 0, V(cx, a) != V(cx, b))))
    for P in itertools.combinations(ints, 3):
        for v in reals:
            def f(cx, P=P, v=v):
                k = z3.Int("kt!")
                return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cx.w, *[k != V(cx, p) for p in P]), z3.And(V(cx, v) >= 0, far(d, k) <= V(cx, v) * V(cx, v))))
            out.append(("all others are nearer", f))
    return out
INV = MC + "kelvinTransformCentered"
def kreq(c):
    d = c.this.field("data"); i = z3.FreshConst(I, "i"); R_ = c.this.leaf("radius")
    return [("node arrays", z3.And(d.leaf("pointlist", "len") == npts(d), d.leaf("pointmarkerlist", "len") == npts(d), npts(d) >= 0)), ("positive radius", R_ > 0), ("the disc is centred at the origin", z3.And(c.this.leaf("center", "x") == 0, c.this.leaf("center", "y") == 0)),
            ("no interior node sits exactly at the centre, which has no inverse", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < npts(d), sel(d.leaf("pointmarkerlist", "#"), i) == 0), far(d, i) != 0)))]
def kens(c):
    o, n = c.this.field("data"), c.this_new.field("data"); i = c.any("i", I); R_ = c.ghost(c.this.leaf("radius")); inr = z3.And(0 <= i, i < npts(o)); edge = sel(o.leaf("pointmarkerlist", "#"), i) != 0
    px, py = [c.ghost(sel(o.leaf("pointlist", "#", f), i)) for f in ("x", "y")]; qx, qy = [c.ghost(sel(n.leaf("pointlist", "#", f), i)) for f in ("x", "y")]
    m = px * px + py * py; s = c.ghost(SQRT(d2(node(c, o, i), c.this.field("center")))); near = s * 100 < R_
    f = z3.And(inr, z3.Not(edge)); U = ["pc", "defs", "s is the distance from the centre"]
    return [("as many nodes", n.leaf("pointlist", "len") == o.leaf("pointlist", "len")), ("boundary nodes stay", z3.Implies(z3.And(inr, edge), z3.And(qx == px, qy == py))),
            ("s is the distance from the centre", z3.Implies(f, z3.And(s >= 0, s * s == m, m > 0))),
            ("inversion", z3.Implies(z3.And(f, z3.Not(near)), z3.And(qx * m == R_ * R_ * px, qy * m == R_ * R_ * py)), U),
            ("lemma: scaled", z3.Implies(z3.And(f, near), z3.And(qx * s == 100 * R_ * px, qy * s == 100 * R_ * py)), U),
            ("lemma: radius", R_ > 0),
            ("points near the centre keep their direction", z3.Implies(z3.And(f, near), z3.And(qx * py == qy * px, qx * px + qy * py > 0)), ["lemma: scaled", "s is the distance from the centre", "lemma: radius"]),
            ("and are moved to 100 radii", z3.Implies(z3.And(f, near), qx * qx + qy * qy == 10000 * R_ * R_), ["lemma: scaled", "s is the distance from the centre"])]
DIR = Contract("MagnetostaticMesh::addDirichletInfiniteBoundaryConditions", None, requires=dreq, modifies=(0,), ensures=dens, candidates=[top3], opts={"inv_timeout": 2000})
CONTRACTS = nle.OPS + [dirichlet(), DIR, Contract(INV, [], requires=kreq, modifies=(("this", "data", "pointlist"),), ensures=kens)]
UNITS = ["tu/magmesh.cpp", "tu/magsys.cpp", "tu/gridmesh.cpp"]
REPLAY_SRC = ["magnetostatic/mesh.cpp", "current_density/mesh.cpp", "magnetostatic/properties.cpp", "algebra/non_linear.cpp", "geometry/vector.cpp", "geometry/circle.cpp", "geometry/segment.cpp", "geometry/polygon.cpp", "utils/utils.cpp", "current_density/properties.cpp", "algebra/csr.cpp", "algebra/math.cpp", "triangle/triangle.cpp", "triangle/util.cpp"]
