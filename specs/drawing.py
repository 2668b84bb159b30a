"""the drawing: contracts shared by C18 and C19"""
from geo import *
from contracts import Contract
DR = "Drawing<CurrentDensityProp>::"
V = "std::vector<Vector>"
PI = z3.Q(3141592653589793, 10**15)
U = "unsigned int"
EPS9 = z3.Q(1, 10**9)
def elem(v, k):
    if isinstance(k, int): k = z3.IntVal(k)
    return Val(v.t.e, {p[1:]: sel(e, k) for p, e in v.d.items() if p[0] == "#"})
def vlen(v): return v.leaf("len")
def each(v, f):
    k = z3.FreshConst(I, "k"); return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < vlen(v)), f(k)))
def every(c, v, f):
    k = c.any("k", I); return z3.Implies(z3.And(0 <= k, k < vlen(v)), f(k))
def eq9(p, q): return SQRT(d2(p, q)) < EPS9
def pts(d): return d.field("points")
def segs(d): return d.field("segments")
def P(d, k): return elem(pts(d), k)
def s1(d, k): return sel(segs(d).leaf("#", "p1"), k)
def s2(d, k): return sel(segs(d).leaf("#", "p2"), k)
def wf(d): return [("segments refer to existing points", each(segs(d), lambda k: z3.And(0 <= s1(d, k), s1(d, k) < vlen(pts(d)), 0 <= s2(d, k), s2(d, k) < vlen(pts(d))))), ("assume: counts fit 32 bits", z3.And(vlen(pts(d)) < 2**32 - 2, vlen(segs(d)) < 2**32 - 1))]
def same_val(a, b): return z3.And(*[a.d[p] == b.d[p] for p in a.d]) if a.d else z3.BoolVal(True)
def prefix(a, b): return z3.And(vlen(a) <= vlen(b), each(a, lambda k: same_val(elem(a, k), elem(b, k))))
def pushed(v, e):
    """v with e appended"""
    n = vlen(v); d = {("len",): n + 1}
    for p, a in v.d.items():
        if p[0] == "#": d[p] = z3.Store(a, n, e.d[p[1:]])
    return Val(v.t, d)
# ghost field of a drawing: the pairs handed to drawSegment, in order (a specification-only history)
def trace(d): return d.field("drawn!")
def SETUP(prog):
    t = prog.ty("Drawing<CurrentDensityProp>")
    if not any(f == "drawn!" for f, _ in t.fields): t.fields.append(("drawn!", prog.ty("std::vector<Segment>")))
def segval(c, a, b): return Val(c.ex.prog.ty("Segment"), {("p1", "x"): x(a), ("p1", "y"): y(a), ("p2", "x"): x(b), ("p2", "y"): y(b)})

def wf_inv(c, ex, L):
    """segments keep referring to existing points, at every loop head"""
    def f(cx):
        v = ex.read(cx.st, c.obj); return wf(v)[0][1]
    return [("segments refer to existing points", f)]

def over(a, b, c, d): return z3.Not(z3.Or(z3.And(a < c, a < d, b < c, b < d), z3.And(c < a, c < b, d < a, d < b)))
def segx(*v): return z3.Function("segx!", *([R] * 8 + [B]))(*[e for p in v for e in (x(p), y(p))])
def segxc(): return Contract("Segment::segmentsIntersect", ["Vector"] * 4, pure="segx!")
def drawseg_ens(c):
    o, n = c.this, c.this_new; p, q = c[0], c[1]; L = vlen(segs(o)); N = vlen(pts(o)); k = c.any("k", I); f1, f2 = s1(n, vlen(segs(n)) - 1), s2(n, vlen(segs(n)) - 1)
    has = lambda v, e: z3.Not(each(pts(v), lambda j: z3.Not(eq9(P(v, j), e))))
    w = z3.FreshConst(I, "w")
    # an old point within EPSILON, or a new point exactly there
    is_ = lambda i, e: z3.Or(z3.And(0 <= i, i < N, eq9(P(o, i), e)), z3.And(N <= i, i < vlen(pts(n)), x(P(n, i)) == x(e), y(P(n, i)) == y(e)))
    ends = lambda j: z3.Or(z3.And(is_(s1(n, j), p), is_(s2(n, j), q)), z3.And(is_(s1(n, j), q), is_(s2(n, j), p)))
    A, B_ = P(n, s1(o, k)), P(n, s2(o, k)); t, u = c.any("t"), c.any("u")
    X = z3.And(0 < t, t < 1, 0 < u, u < 1, x(at(p, q, t)) == x(at(A, B_, u)), y(at(p, q, t)) == y(at(A, B_, u)))
    return wf(n)[:1] + [("points are kept", prefix(pts(o), pts(n))), ("segments are kept", prefix(segs(o), segs(n))), ("at most one segment more", vlen(segs(n)) <= L + 1),
        ("a coinciding point is reused", z3.Implies(z3.And(has(o, p), has(o, q)), vlen(pts(n)) == N)), ("at most the missing ends are added", vlen(pts(n)) == N + z3.If(has(o, p), 0, 1) + z3.If(has(o, q), 0, 1)),
        ("a new segment joins the requested ends", z3.Implies(vlen(segs(n)) == L + 1, ends(L))),
        ("otherwise an existing segment joins them", z3.Implies(vlen(segs(n)) == L, z3.Exists([w], z3.And(0 <= w, w < L, ends(w))))),
        ("lemma: a common point puts the boxes over each other", z3.Implies(X, z3.And(*[over(f(p), f(q), f(A), f(B_)) for f in (x, y)])), ["defs"]),
        ("a segment that crosses an unconnected older one is rejected", z3.Implies(z3.And(vlen(segs(n)) == L + 1, 0 <= k, k < L, *[a != b for a in (s1(o, k), s2(o, k)) for b in (f1, f2)]), z3.Implies(X, z3.Not(segx(p, q, A, B_)))), ["pc", "defs", "lemma: a common point puts the boxes over each other"]),
        ("no segment is stored twice", z3.Implies(z3.And(vlen(segs(n)) == L + 1, 0 <= k, k < L), z3.And(z3.Not(z3.And(s1(o, k) == f1, s2(o, k) == f2)), z3.Not(z3.And(s1(o, k) == f2, s2(o, k) == f1)))))]
def drawseg():
    return Contract(DR + "drawSegment", ["Vector"] * 2, modifies=(("this", "points"), ("this", "segments")), throws_if=lambda c: z3.BoolVal(True), throw_frame=False,
        requires=lambda c: wf(c.this), ensures=drawseg_ens, private=["a segment that crosses an unconnected older one is rejected"], ghost_effects=lambda c: {("this", "drawn!"): pushed(trace(c.this), segval(c, c[0], c[1]))})
