"""C13: a voltage source is imposed on the nearest node of its own layer."""
from meshspec import *
from vals import isimp, TInt
import c06
SYS = "System<double>"
def SETUP(prog):
    prog.types.buffers = MESH_BUFFERS
    t = prog.ty(SYS)
    # ghost fields: the node and value of the last condition imposed, and how many were imposed
    for f, ft in (("node!", TInt(64, True)), ("count!", TInt(64, True))):
        if not any(g == f for g, _ in t.fields): t.fields.append((f, ft))
def gval(s, f, e): return Val(s.field(f).t, {(): e})
def dirichlet():
    return Contract(SYS + "::addDirichletBoundaryCondition", ["unsigned int", "double"], requires=c06.req, effects=c06.eff,
                    ghost_effects=lambda c: {("this", "node!"): gval(c.this, "node!", c[0].z), ("this", "count!"): gval(c.this, "count!", c.this.leaf("count!") + 1)})
INFC = z3.Real("inf!")
class Fake:
    """the callee's view of (system, node, value)"""
    def __init__(self, s, k, v): self.this = s; self.a = [k, v]
    def __getitem__(self, i): return self.a[i]
class Z:
    def __init__(self, z): self.z = z
def applied(s, k, v):
    """s with the value v imposed on node k (C06)"""
    d = dict(s.d)
    for path, val in c06.eff(Fake(s, Z(k), Z(v))).items():
        for p, e in val.d.items(): d[tuple(path[1:]) + p] = e
    return Val(s.t, d)
def dist2(c, d, i, p): return d2(node(c, d, i), p)
def req(c, d, base, total):
    i = z3.FreshConst(I, "i"); s = c[0]; k = z3.FreshConst(I, "k"); m = s.leaf("A", "m"); A = s.field("A")
    return [("node array", z3.And(npts(d) >= 0, d.leaf("pointlist", "len") == npts(d))), ("assume: squared distances do not overflow", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < npts(d)), dist2(c, d, i, c[1]) < INFC))),
            ("one unknown per node of every layer", z3.And(m == total, s.leaf("b", "len") == m)), ("assume: node numbers fit 31 bits", total < 2**31),
            ("keys encode an upper-triangular pair", z3.ForAll([k], z3.Implies(sel(c06.dom(A), k), z3.And(0 <= k, k / 2**32 <= k % 2**32, k % 2**32 < m)), patterns=[sel(c06.dom(A), k)]))]
def ens(c, d, base):
    o, n = c[0], c.new(0); g = isimp(n.leaf("node!") - base); i = c.any("i", I); q = c.any("q", I); r = c.any("r", I); some = npts(d) > 0
    w = applied(o, n.leaf("node!"), c[2].z); one = n.leaf("count!") == o.leaf("count!") + 1
    L = lambda *p: (n.leaf(*p), w.leaf(*p), o.leaf(*p))
    pick = lambda t: z3.If(some, t[1], t[2])
    out = [("exactly one condition is imposed when the layer has a node", n.leaf("count!") == o.leaf("count!") + z3.If(some, 1, 0)),
           ("on a node of the addressed layer", z3.Implies(some, z3.And(0 <= g, g < npts(d)))),
           ("no node of the layer is nearer", z3.Implies(z3.And(some, 0 <= i, i < npts(d)), dist2(c, d, g, c[1]) <= dist2(c, d, i, c[1]))),
           ("right-hand side", z3.And(n.leaf("b", "len") == o.leaf("b", "len"), sel(n.leaf("b", "#"), r) == z3.If(some, sel(w.leaf("b", "#"), r), sel(o.leaf("b", "#"), r)))),
           ("matrix keys", sel(n.leaf("A", "elems", "dom"), q) == z3.If(some, sel(w.leaf("A", "elems", "dom"), q), sel(o.leaf("A", "elems", "dom"), q))),
           ("matrix entries", sel(n.leaf("A", "elems", "@"), q) == z3.If(some, sel(w.leaf("A", "elems", "@"), q), sel(o.leaf("A", "elems", "@"), q))),
           ("matrix size", n.leaf("A", "m") == o.leaf("A", "m"))]
    return out
def single(c): return c.this.field("mesh").field("data")
def layer(c, i): return c.this.field("meshes").elem(i)
def nl(c): return c.this.field("meshes").leaf("len")
def off(c, i): return Sum(lambda q: npts(layer(c, q).field("data")), 0, i)
def mreq(c):
    i = z3.FreshConst(I, "i"); l = c[3].z; d = layer(c, l).field("data")
    return [("existing layer", l < nl(c)), ("layer sizes", z3.ForAll([i], npts(layer(c, i).field("data")) >= 0))] + req(c, d, off(c, l), off(c, nl(c)))
def mind(c):
    i, j = z3.FreshConst(I, "i"), z3.FreshConst(I, "j")
    return [("prefix sums ascend", [i], j, i, nl(c), z3.Implies(0 <= i, off(c, i) <= off(c, j))), ("the layers' node ranges do not overlap", [i], j, i + 1, nl(c), z3.Implies(z3.And(0 <= i, i < nl(c)), off(c, i) + npts(layer(c, i).field("data")) <= off(c, j))), ("prefix sums are not negative", [], j, z3.IntVal(0), nl(c), off(c, j) >= 0)]
CONTRACTS = [dirichlet(),
    Contract("CurrentDensitySimulation::setVoltage", None, requires=lambda c: req(c, single(c), z3.IntVal(0), npts(single(c))), modifies=(0,), ensures=lambda c: ens(c, single(c), z3.IntVal(0))),
    Contract("MultiLayerCurrentDensitySimulation::setVoltage", None, requires=mreq, inductions=mind, modifies=(0,), ensures=lambda c: ens(c, layer(c, c[3].z).field("data"), off(c, c[3].z)))]
UNITS = ["tu/current.cpp", "tu/current2.cpp"]
REPLAY_SRC = ["current_density/simulation.cpp", "geometry/vector.cpp", "geometry/circle.cpp", "geometry/segment.cpp", "geometry/polygon.cpp", "utils/utils.cpp", "current_density/mesh.cpp", "current_density/multilayer_simulation.cpp", "current_density/properties.cpp", "algebra/csr.cpp", "algebra/math.cpp", "algebra/solvers.cpp", "triangle/triangle.cpp", "triangle/util.cpp"]
