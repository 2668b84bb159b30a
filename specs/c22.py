"""C22: 2-D vectors, areas, element geometry."""
from common import *
from vals import TReal, TBool, TInt
from contracts import Contract
from sexec import SQRT, SIN, COS, ATAN2
VEC = "Vector"
def real(e): return Val(TReal(), {(): e})
def boolean(e): return Val(TBool(), {(): e})
def x(v): return v.leaf("x")
def y(v): return v.leaf("y")
def vec(c, a, b): return Val(c.ex.prog.ty("Vector"), {("x",): a, ("y",): b})
def ab(e): return z3.If(e >= 0, e, -e)
def dot(a, b): return x(a) * x(b) + y(a) * y(b)
def cross(a, b): return x(a) * y(b) - y(a) * x(b)
def d2(a, b): return (x(a) - x(b)) * (x(a) - x(b)) + (y(a) - y(b)) * (y(a) - y(b))
def tri2(p, q, r): return (x(q) - x(p)) * (y(r) - y(p)) - (y(q) - y(p)) * (x(r) - x(p))
def method(name, pt, res, kind="v", req=None, ens=None, **kw):
    def mk(c):
        r = res(c)
        return vec(c, *r) if kind == "v" else real(r) if kind == "r" else boolean(r)
    return Contract(VEC + "::" + name, pt, result=mk, requires=req, ensures=ens, **kw)
P = ["Vector"]
def upd(name, pt, res, req=None, ens=None):
    """member that modifies the object and returns the new value"""
    return Contract(VEC + "::" + name, pt, requires=req, result=lambda c: vec(c, *res(c)), effects=lambda c: {"this": vec(c, *res(c))}, ensures=ens)
nz = lambda c: [("divisor is not zero", c[0].z != 0)]
T = lambda c: c.this
def rot(v, a): return (x(v) * COS(a) - y(v) * SIN(a), x(v) * SIN(a) + y(v) * COS(a))
def rotc(v, a, o):
    dx, dy = x(v) - x(o), y(v) - y(o)
    return (x(o) + dx * COS(a) - dy * SIN(a), y(o) + dx * SIN(a) + dy * COS(a))
def sq(e): return e * e
CONTRACTS = [
    Contract("Vector::Vector", ["double", "double"], effects=lambda c: {"this": vec(c, c[0].z, c[1].z)}),
    Contract("Vector::Vector", [], effects=lambda c: {"this": vec(c, z3.RealVal(0), z3.RealVal(0))}),
    method("operator+", P, lambda c: (x(T(c)) + x(c[0]), y(T(c)) + y(c[0]))),
    method("operator-", P, lambda c: (x(T(c)) - x(c[0]), y(T(c)) - y(c[0]))),
    method("operator-", [], lambda c: (-x(T(c)), -y(T(c)))),
    method("operator*", ["double"], lambda c: (x(T(c)) * c[0].z, y(T(c)) * c[0].z)),
    method("operator/", ["double"], lambda c: (x(T(c)) / c[0].z, y(T(c)) / c[0].z), req=nz),
    method("operator*", P, lambda c: dot(T(c), c[0]), "r"),
    method("operator^", P, lambda c: cross(T(c), c[0]), "r"),
    upd("operator+=", P, lambda c: (x(T(c)) + x(c[0]), y(T(c)) + y(c[0]))),
    upd("operator-=", P, lambda c: (x(T(c)) - x(c[0]), y(T(c)) - y(c[0]))),
    upd("operator*=", ["double"], lambda c: (x(T(c)) * c[0].z, y(T(c)) * c[0].z)),
    upd("operator/=", ["double"], lambda c: (x(T(c)) / c[0].z, y(T(c)) / c[0].z), req=nz),
    upd("translate", P, lambda c: (x(T(c)) + x(c[0]), y(T(c)) + y(c[0]))),
    method("operator==", P, lambda c: d2(T(c), c[0]) < EPS * EPS, "b", ens=lambda c: [("equal points compare equal", z3.Implies(z3.And(x(T(c)) == x(c[0]), y(T(c)) == y(c[0])), c.res.z))]) if False else
    Contract("Vector::operator==", P, ensures=lambda c: [("equal up to EPSILON in distance", c.res.z == (SQRT(d2(T(c), c[0])) < EPS))]),
    Contract("Vector::operator!=", P, ensures=lambda c: [("negation of equality", c.res.z == z3.Not(SQRT(d2(T(c), c[0])) < EPS))]),
    method("norm", [], lambda c: SQRT(dot(T(c), T(c))), "r", ens=lambda c: [("non-negative", c.res.z >= 0), ("squares to the dot product with itself", c.res.z * c.res.z == dot(T(c), T(c)))]),
    method("normSquared", [], lambda c: dot(T(c), T(c)), "r"),
    Contract("Vector::normalize", [], modifies=("this",), ensures=lambda c: [
        ("unit length unless zero", z3.Or(dot(c.this, c.this) == 0, dot(c.this_new, c.this_new) == 1)), ("same line", cross(c.this, c.this_new) == 0), ("same direction", dot(c.this, c.this_new) >= 0),
        ("zero stays zero", z3.Implies(dot(c.this, c.this) == 0, z3.And(x(c.this_new) == x(c.this), y(c.this_new) == y(c.this)))),
        ("returns the vector itself", z3.And(x(c.res) == x(c.this_new), y(c.res) == y(c.this_new)))]),
    method("normal", [], lambda c: (-y(T(c)), x(T(c))), ens=lambda c: [("orthogonal", dot(T(c), c.res) == 0), ("same length", dot(c.res, c.res) == dot(T(c), T(c)))]),
    method("rotate", ["double"], lambda c: rot(T(c), c[0].z), ens=lambda c: [("length preserved", dot(c.res, c.res) == dot(T(c), T(c)))]),
    method("rotate", ["double", "Vector"], lambda c: rotc(T(c), c[0].z, c[1]), ens=lambda c: [("distance to the centre preserved", d2(c.res, c[1]) == d2(T(c), c[1]))]),
    method("doubleOrientedArea", P * 3, lambda c: tri2(c[0], c[1], c[2]), "r", ens=lambda c: [("changes sign when two vertices are exchanged", z3.And(tri2(c[1], c[0], c[2]) == -c.res.z, tri2(c[0], c[2], c[1]) == -c.res.z, tri2(c[2], c[1], c[0]) == -c.res.z))]),
    method("orientedArea", P * 3, lambda c: tri2(c[0], c[1], c[2]) / 2, "r"),
    method("area", P * 3, lambda c: ab(tri2(c[0], c[1], c[2])) / 2, "r", ens=lambda c: [("non-negative", c.res.z >= 0),
        ("invariant under permutation", z3.And(*[c.res.z == ab(tri2(c[i], c[j], c[k])) / 2 for i, j, k in ((0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))]))]),
    method("distance", P * 2, lambda c: SQRT(d2(c[0], c[1])), "r", ens=lambda c: [("non-negative", c.res.z >= 0), ("squares to the squared difference", c.res.z * c.res.z == d2(c[0], c[1]))]),
    method("distanceSquared", P * 2, lambda c: d2(c[0], c[1]), "r"),
    method("lerp", P * 2 + ["double"], lambda c: ((1 - c[2].z) * x(c[0]) + c[2].z * x(c[1]), (1 - c[2].z) * y(c[0]) + c[2].z * y(c[1]))),
    method("midPoint", P * 2, lambda c: ((x(c[0]) + x(c[1])) / 2, (y(c[0]) + y(c[1])) / 2), ens=lambda c: [("equidistant", d2(c.res, c[0]) == d2(c.res, c[1]))]),
    method("orientedAngle", P * 3, lambda c: ATAN2((x(c[0]) - x(c[1])) * (y(c[2]) - y(c[1])) - (y(c[0]) - y(c[1])) * (x(c[2]) - x(c[1])), (x(c[0]) - x(c[1])) * (x(c[2]) - x(c[1])) + (y(c[0]) - y(c[1])) * (y(c[2]) - y(c[1]))), "r"),
    method("absoluteAngle", P * 3, lambda c: ab(ATAN2((x(c[0]) - x(c[1])) * (y(c[2]) - y(c[1])) - (y(c[0]) - y(c[1])) * (x(c[2]) - x(c[1])), (x(c[0]) - x(c[1])) * (x(c[2]) - x(c[1])) + (y(c[0]) - y(c[1])) * (y(c[2]) - y(c[1])))), "r"),
]
EPS = z3.Q(1, 10**9)
# ---------------------------------------------------------------- mesh elements
def vert(c, e, k): return sel(sel(c.this.leaf("trianglelist", "#", "verts", "#"), e), z3.IntVal(k))
def pt(c, i): return vec(c, sel(c.this.leaf("pointlist", "#", "x"), i), sel(c.this.leaf("pointlist", "#", "y"), i))
def elem_req(c):
    e = c[0].z; n = c.this.leaf("pointlist", "len")
    return [("element exists", e < c.this.leaf("trianglelist", "len"))] + [("vertex %d exists" % k, z3.And(0 <= vert(c, e, k), vert(c, e, k) < n)) for k in range(3)]
def vreq(c): return [("vertex %d exists" % k, c[k].z < c.this.leaf("pointlist", "len")) for k in range(3)]
def etri(c): return tri2(*[pt(c, vert(c, c[0].z, k)) for k in range(3)])
def vtri(c): return tri2(*[pt(c, c[k].z) for k in range(3)])
def perm_ens(f):
    def g(c):
        ps = f(c)
        return [("non-negative", c.res.z >= 0), ("invariant under permutation", z3.And(*[c.res.z == ab(tri2(ps[i], ps[j], ps[k])) / 2 for i, j, k in ((0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))]))]
    return g
def bary(c):
    ps = [pt(c, vert(c, c[0].z, k)) for k in range(3)]
    return vec(c, (x(ps[0]) + x(ps[1]) + x(ps[2])) / 3, (y(ps[0]) + y(ps[1]) + y(ps[2])) / 3)
U = "unsigned int"
MD = "MeshData::"
ep = lambda c: [pt(c, vert(c, c[0].z, k)) for k in range(3)]
vp = lambda c: [pt(c, c[k].z) for k in range(3)]
CONTRACTS += [
    Contract(MD + "getElemBarycenter", [U], requires=elem_req, result=bary),
    Contract(MD + "getDoubleOrientedArea", [U], requires=elem_req, result=lambda c: real(etri(c))),
    Contract(MD + "getOrientedArea", [U], requires=elem_req, result=lambda c: real(etri(c) / 2)),
    Contract(MD + "getArea", [U], requires=elem_req, result=lambda c: real(ab(etri(c)) / 2), ensures=perm_ens(ep)),
    Contract(MD + "getDoubleOrientedArea", [U] * 3, requires=vreq, result=lambda c: real(vtri(c)), ensures=lambda c: [("changes sign when two vertices are exchanged", z3.And(tri2(vp(c)[1], vp(c)[0], vp(c)[2]) == -c.res.z, tri2(vp(c)[0], vp(c)[2], vp(c)[1]) == -c.res.z))]),
    Contract(MD + "getOrientedArea", [U] * 3, requires=vreq, result=lambda c: real(vtri(c) / 2)),
    Contract(MD + "getArea", [U] * 3, requires=vreq, result=lambda c: real(ab(vtri(c)) / 2), ensures=perm_ens(vp)),
]
UNITS = ["tu/mesh.cpp"]
REPLAY_SRC = ["geometry/vector.cpp", "utils/utils.cpp"]
MESH_BUFFERS = {("MeshData", f): True for f in ("pointlist", "pointattributelist", "pointmarkerlist", "trianglelist", "triangleattributelist", "trianglearealist", "neighborlist", "segmentlist", "segmentmarkerlist", "holelist", "regionlist", "edgelist", "edgemarkerlist", "normlist")}
def SETUP(prog):
    prog.types.buffers = MESH_BUFFERS
