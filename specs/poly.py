"""polygons: membership as a symbol, and the operations defined through it"""
from geo import *
from contracts import Contract
PO = "Polygon::"
def plen(p): return p.leaf("points", "len")
def pt(p, k): return Val(p.field("points").t.e, {("x",): sel(p.leaf("points", "#", "x"), k), ("y",): sel(p.leaf("points", "#", "y"), k)})
def veq2(a, b): return SQRT(d2(a, b)) < z3.Q(1, 10**9)         # Vector::operator==
def leq(p, q): return z3.And(plen(p) == plen(q), p.leaf("points", "#", "x") == q.leaf("points", "#", "x"), p.leaf("points", "#", "y") == q.leaf("points", "#", "y"))
IN = Contract(PO + "contains", ["Vector"], pure="inside!"); IN.alias = []            # which points are inside: C16
def inside(c, p, v): return IN.applied(c.ex.prog, [v], p).z
def all_pts(c, p, f):
    k = z3.FreshConst(I, "k"); return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < plen(p)), f(k)))
NE = Contract(PO + "operator!=", ["Polygon&"], pure="differs!", ensures=lambda c: [
    ("exactly when a vertex or their number differs", c.res.z == z3.Not(z3.And(plen(c.this) == plen(c[0]), all_pts(c, c.this, lambda k: veq2(pt(c.this, k), pt(c[0], k)))))),
    ("a polygon does not differ from itself", z3.Implies(leq(c.this, c[0]), z3.Not(c.res.z)))], private=["a polygon does not differ from itself"])
HAS = Contract(PO + "contains", ["Polygon"], pure="encloses!", ensures=lambda c: [("exactly when every vertex is inside", c.res.z == all_pts(c, c[0], lambda k: inside(c, c.this, pt(c[0], k))))])
def differs(c, p, q): return NE.applied(c.ex.prog, [q], p).z
def encloses(c, p, q): return HAS.applied(c.ex.prog, [q], p).z
