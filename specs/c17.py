"""C17: segments."""
from geo import *
from contracts import Contract
EPS = z3.Q(1, 10**100)
S = "Segment::"
def seg(s): return s.field("p1"), s.field("p2")
def clamp(w, L): return z3.If(L == 0, 0, z3.If(w / L < 0, 0, z3.If(w / L > 1, z3.RealVal(1), w / L)))
def dist_ens(get):
    def f(c):
        p, a, b = get(c); L = c.ghost(d2(a, b)); w = c.ghost((x(p) - x(a)) * (x(b) - x(a)) + (y(p) - y(a)) * (y(b) - y(a))); W = c.ghost(d2(p, a)); r = c.res.z; t = c.any(); T = c.ghost(clamp(w, L))
        return [("non-negative", r >= 0),
                ("lemma: length and projection", z3.And(L >= 0, W >= 0, z3.Implies(L == 0, w == 0)), ["defs"]),
                ("lemma: squared distance along the segment", d2(p, at(a, b, t)) == W - 2 * t * w + t * t * L, ["defs"]),
                ("distance to a point of the segment", r * r == W - 2 * T * w + T * T * L, ["pc", "defs", "lemma: length and projection"]),
                ("lemma: bound along the segment", z3.Implies(z3.And(0 <= t, t <= 1), W - 2 * T * w + T * T * L <= W - 2 * t * w + t * t * L), ["lemma: length and projection", T]),
                ("lemma: the parameter lies on the segment", z3.And(0 <= T, T <= 1), ["lemma: length and projection", T]),
                ("no point of the segment is nearer", z3.Implies(z3.And(0 <= t, t <= 1), r * r <= d2(p, at(a, b, t))), ["lemma: bound along the segment", "lemma: squared distance along the segment", "distance to a point of the segment"])]
    return f
def inbb(p, a, b): return z3.And(between(x(p), x(a), x(b)), between(y(p), y(a), y(b)))
def onseg(o, p, a, b): return z3.And(o == 0, inbb(p, a, b))
def same(a, b): return z3.And(x(a) == x(b), y(a) == y(b))
def gap(q): return z3.Or(q == 0, q > EPS, q < -EPS)
def int_req(get):
    def f(c):
        a, b, p, q = get(c)
        r = [("orientation is zero or above 1e-100", z3.And(gap(tri2(a, b, p)), gap(tri2(a, b, q)), gap(tri2(p, q, a)), gap(tri2(p, q, b))))]
        return r + [("coordinates coincide or differ by more than 1e-100", z3.And(*[gap(f(u) - f(v)) for f in (x, y) for u in (a, b) for v in (p, q)]))]
    return f
def strict(m, a, b): return z3.And(z3.Implies(a == b, m == a), z3.Implies(a < b, z3.And(a < m, m < b)), z3.Implies(b < a, z3.And(b < m, m < a)))
def int_ens(get):
    def f(c):
        a, b, p, q = get(c); r = c.res.z
        A, B_, C, D = [c.ghost(e) for e in (tri2(p, q, a), tri2(p, q, b), tri2(a, b, p), tri2(a, b, q))]
        t, u = c.any("t"), c.any("u"); mx, my = c.ghost(x(at(a, b, t))), c.ghost(y(at(a, b, t)))
        X = z3.And(0 < t, t < 1, 0 < u, u < 1, same(at(a, b, t), at(p, q, u)))
        par = lambda T, m, n: z3.And((1 - T) * m + T * n == 0)
        E = []
        E.append(("lemma: orientation differences agree", A - B_ == D - C, ["defs"]))
        E.append(("lemma: common point, first line", z3.Implies(X, (1 - t) * A + t * B_ == 0), ["defs"]))
        E.append(("lemma: common point, second line", z3.Implies(X, (1 - u) * C + u * D == 0), ["defs"]))
        n0 = [e[0] for e in E]
        E.append(("lemma: both opposite or all zero", z3.Implies(X, z3.Or(z3.And(C > 0, D < 0, A < 0, B_ > 0), z3.And(C < 0, D > 0, A > 0, B_ < 0), z3.And(C == 0, D == 0, A == 0, B_ == 0))), n0))
        E.append(("lemma: common point inside", z3.Implies(X, z3.And(mx == x(at(p, q, u)), my == y(at(p, q, u)), *[strict(*v) for v in ((mx, x(a), x(b)), (my, y(a), y(b)), (mx, x(p), x(q)), (my, y(p), y(q)))])), [mx, my]))
        pt = []
        for g, v, s, e in ((C, p, a, b), (D, q, a, b), (A, a, p, q), (B_, b, p, q)):
            k = "lemma: point on the line %d" % len(pt); pt.append(k)
            E.append((k, z3.Implies(g == 0, z3.And(z3.Implies(z3.And(x(s) == x(e), y(s) != y(e)), x(v) == x(s)), z3.Implies(z3.And(x(s) != x(e), x(v) == x(s)), y(v) == y(s)),
                                                   z3.Implies(z3.And(x(s) != x(e), between(x(v), x(s), x(e))), between(y(v), y(s), y(e))))), [g]))
        E.append(("lemma: collinear 1", z3.Implies(z3.And(C == 0, D == 0, z3.Not(same(a, b))), z3.And(A == 0, B_ == 0)), ["defs"]))
        E.append(("lemma: collinear 2", z3.Implies(z3.And(A == 0, B_ == 0, z3.Not(same(p, q))), z3.And(C == 0, D == 0)), ["defs"]))
        E.append(("lemma: a single point has no orientation", z3.And(z3.Implies(same(a, b), z3.And(C == 0, D == 0, A == B_)), z3.Implies(same(p, q), z3.And(A == 0, B_ == 0, C == D))), ["defs"]))
        opp = lambda m, n: z3.Or(z3.And(m > 0, n < 0), z3.And(m < 0, n > 0))
        E.append(("lemma: first end on the second line", z3.Implies(z3.And(opp(C, D), A == 0), z3.And(between(x(a), x(p), x(q)), between(y(a), y(p), y(q)))), ["defs"]))
        E.append(("lemma: second end on the second line", z3.Implies(z3.And(opp(C, D), B_ == 0), z3.And(between(x(b), x(p), x(q)), between(y(b), y(p), y(q)))), ["defs"]))
        allp = ["lemma: orientation differences agree", "lemma: first end on the second line", "lemma: second end on the second line"] + ["pc", "defs"] + pt + ["lemma: collinear 1", "lemma: collinear 2", "lemma: a single point has no orientation"]
        E.append(("segments that cross inside both are reported", z3.Implies(X, r), allp + ["lemma: both opposite or all zero", "lemma: common point inside"]))
        E.append(("reported segments share a point", z3.Implies(r, z3.Or(onseg(C, p, a, b), onseg(D, q, a, b), onseg(A, a, p, q), onseg(B_, b, p, q), z3.And(C > 0, D < 0, A < 0, B_ > 0), z3.And(C < 0, D > 0, A > 0, B_ < 0))), allp))
        E.append(("opposite orientations have a common point", z3.Implies(z3.And(C * D < 0, A * B_ < 0), z3.And(A != B_, C != D, (C - D) * (x(a) * (A - B_) + A * (x(b) - x(a))) == (A - B_) * (x(p) * (C - D) + C * (x(q) - x(p))),
                      (C - D) * (y(a) * (A - B_) + A * (y(b) - y(a))) == (A - B_) * (y(p) * (C - D) + C * (y(q) - y(p))))), ["defs"]))
        return E
    return f
CONTRACTS = [
    Contract(S + "Segment", ["Vector", "Vector"], ensures=lambda c: [("end points", z3.And(same(seg(c.this_new)[0], c[0]), same(seg(c.this_new)[1], c[1])))]),
    Contract(S + "length", [], result=lambda c: real(SQRT(d2(*seg(c.this))))),
    Contract(S + "pointInSegmentBB", ["Vector", "Segment"], result=lambda c: boolean(inbb(c[0], *seg(c[1])))),
    Contract(S + "pointInSegmentBB", ["Vector"] * 3, result=lambda c: boolean(inbb(c[0], c[1], c[2]))),
    Contract(S + "pointSegmentDistance", ["Vector", "Segment"], ensures=dist_ens(lambda c: (c[0],) + seg(c[1]))),
    Contract(S + "pointSegmentDistance", ["Vector"] * 3, ensures=dist_ens(lambda c: (c[0], c[1], c[2]))),
    Contract(S + "segmentsIntersect", ["Vector"] * 4, requires=int_req(lambda c: (c[0], c[1], c[2], c[3])), ensures=int_ens(lambda c: (c[0], c[1], c[2], c[3]))),
    Contract(S + "segmentsIntersect", ["Segment"] * 2, requires=int_req(lambda c: seg(c[0]) + seg(c[1])), ensures=int_ens(lambda c: seg(c[0]) + seg(c[1]))),
    Contract(S + "operator==", ["Segment&"], ensures=lambda c: [("same end points in either order, up to EPSILON", c.res.z == z3.Or(*[z3.And(SQRT(d2(seg(c.this)[0], u)) < z3.Q(1, 10**9), SQRT(d2(seg(c.this)[1], v)) < z3.Q(1, 10**9)) for u, v in (seg(c[0]), seg(c[0])[::-1])]))]),
]
UNITS = ["geometry/segment.cpp", "geometry/vector.cpp"]
REPLAY_SRC = ["geometry/segment.cpp", "geometry/vector.cpp", "utils/utils.cpp"]
