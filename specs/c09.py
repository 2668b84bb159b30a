"""C09: the SSOR preconditioner solves (D + w U^T) D^-1 (D + w U) z = w (2 - w) r."""
from common import *
from contracts import Contract
from loops import okpat
import smt
from smt import depends
AR = z3.ArraySort(I, R)
def req(c):
    A = c[0]; m = A.field("m").z; q = z3.FreshConst(I, "q"); d = A.field("diag").leaf("#")
    return wf_csr(A) + [("order at least 1", m >= 1), ("assume: the order fits 31 bits", m < 2**31), ("no zero on the diagonal", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m), sel(d, q) != 0), patterns=[sel(d, q)])),
            ("one entry of the result per row", n_of(c[1]) == m), ("one entry of the input per row", n_of(c[2]) == m)]
def pat(t, vs): return dict(patterns=[t]) if okpat(t, vs) else {}
def cand(c, ex, L):
    A, om = c[0], c[3].z; m = A.field("m").z; d = A.field("diag").leaf("#"); r = c[2].leaf("#"); root = c.argv[1].root; out = []
    p, ci, va = (A.field(f).leaf("#") for f in ("row_ptr", "col_ind", "val"))
    if (root, ("#",)) not in L.M or L.bound is None: return []
    if (root, ("#",)) in L.cf:
        if L.asc and row_loop(c, L) is None and ex.implied(L.pre, L.bound == m): c.first = L.pre.roots[root].leaf("#")
        return []
    pre = L.pre.roots[root].leaf("#"); q = z3.Int("qs!")
    def everywhere(f, only=None):
        def g(cx):
            Y = cx.st.roots[root].leaf("#")
            return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m), f(Y, cx.w)), **pat(sel(Y, q), [q]))
        return g
    if row_loop(c, L) is not None: return []
    if L.asc and ex.implied(L.pre, L.bound == m):
        rhs = lambda Y, w: om * (2 - om) * sel(r, q) - om * col_sum(A, Y, q, w)
        out.append(("rows above are solved", everywhere(lambda Y, w: z3.Implies(q < w, sel(d, q) * sel(Y, q) == rhs(Y, w)))))
        out.append(("rows from here on are reduced", everywhere(lambda Y, w: z3.Implies(q >= w, sel(Y, q) == rhs(Y, w)))))
    if not L.asc:
        c.scaled = pre
        out.append(("rows below are solved", everywhere(lambda Z, w: z3.Implies(q > w, sel(d, q) * sel(Z, q) + om * row_sum(A, Z, q) == sel(pre, q)))))
        out.append(("rows from here up are untouched", everywhere(lambda Z, w: z3.Implies(q <= w, sel(Z, q) == sel(pre, q)))))
    return out
def row_loop(c, L):
    """the row whose stored entries the loop runs over"""
    p = c[0].field("row_ptr").leaf("#"); v0 = L.v0
    return v0.arg(1) if L.asc and z3.is_app(v0) and v0.decl().kind() == z3.Z3_OP_SELECT and z3.eq(v0.arg(0), p) else None
def cut(c, ex, L, w):
    A, om = c[0], c[3].z; m = A.field("m").z; root = c.argv[1].root; leaf = (root, ("#",)); i = row_loop(c, L)
    ci, va = (A.field(f).leaf("#") for f in ("col_ind", "val"))
    if i is None or leaf not in L.cf: return []
    pre = L.pre.roots[root].leaf("#"); q = z3.Int("qs!"); v0 = L.v0
    def everywhere(f):
        return lambda Y: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m), f(Y)), **pat(sel(Y, q), [q]))
    own = sel(L.cf[leaf].tmpl, q)
    if not any(z3.is_app(t) and t.decl().name().startswith("SUM_") and depends(t, q) for t in smt.subterms([own])):
        return [(leaf, [("row i gathered", everywhere(lambda Y: sel(Y, q) == z3.If(q == i, sel(pre, q) - om * Sum(lambda j: sel(va, j) * sel(pre, sel(ci, j)), v0, w), sel(pre, q))))])]
    return [(leaf, [("row i scattered", everywhere(lambda Y: sel(Y, q) == sel(pre, q) - om * sel(pre, i) * Sum(lambda j: ite0(sel(ci, j) == q, sel(va, j)), v0, w))),
                    ("only rows below are touched", everywhere(lambda Y: z3.Implies(q <= i, sel(Y, q) == sel(pre, q))))])]
def steps(c, ex, L, old, new):
    A, om = c[0], c[3].z; m = A.field("m").z; d = A.field("diag").leaf("#"); root = c.argv[1].root; q = z3.Int("qs!")
    p, ci, va = (A.field(f).leaf("#") for f in ("row_ptr", "col_ind", "val"))
    if (root, ("#",)) not in L.M or L.bound is None or row_loop(c, L) is not None or (root, ("#",)) in L.cf: return []
    Y, N, i = old.st.roots[root].leaf("#"), new.st.roots[root].leaf("#"), old.w
    def every(f, t=None): return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m), f), **pat(sel(N, q), [q]))
    if not L.asc:
        return [("the row's own equation", sel(d, i) * sel(N, i) == sel(Y, i) - om * row_sum(A, Y, i)),
                ("the rows below keep their values", every(z3.Implies(q > i, sel(N, q) == sel(Y, q)))),
                ("the row's sum is unchanged", row_sum(A, N, i) == row_sum(A, Y, i)),
                ("the sums of rows below are unchanged", every(z3.Implies(q > i, row_sum(A, N, q) == row_sum(A, Y, q))))]
    if ex.implied(L.pre, L.bound == m):
        row = Sum(lambda j: ite0(sel(ci, j) == q, sel(va, j)), sel(p, i), sel(p, i + 1))
        return [("the row is divided by its diagonal entry", sel(d, i) * sel(N, i) == sel(Y, i)),
                ("the rows above keep their values", every(z3.Implies(q < i, sel(N, q) == sel(Y, q)))),
                ("the rows below lose the row's multiple", every(z3.Implies(q > i, sel(N, q) == sel(Y, q) - om * sel(N, i) * row))),
                ("the row stores nothing above the diagonal", every(z3.Implies(q <= i, row == 0))),
                ("the earlier rows' column sums are unchanged", every(col_sum(A, N, q, i) == col_sum(A, Y, q, i))),
                ("the solved rows' column sums are unchanged", every(z3.Implies(q <= i, col_sum(A, N, q, i + 1) == col_sum(A, Y, q, i)))),
                ("one more row in the column sums, scaled", every(om * col_sum(A, N, q, i + 1) == om * col_sum(A, Y, q, i) + om * sel(N, i) * row)),
                ("one more row in the column sums", every(col_sum(A, N, q, i + 1) == col_sum(A, N, q, i) + sel(N, i) * row))]
    return []
def post(c):
    A, om = c[0], c[3].z; m = A.field("m").z; d = A.field("diag").leaf("#"); r, z = c[2].leaf("#"), c.new(1).leaf("#")
    y = c.any("y", AR); q = c.any("q", I); k = z3.FreshConst(I, "k")
    upper = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), sel(y, k) == (sel(d, k) * sel(z, k) + om * row_sum(A, z, k)) / sel(d, k)), patterns=[sel(y, k)])
    kept = ("one entry of the result per row", n_of(c.new(1)) == m); asm = z3.And(0 <= q, q < m, upper); out = [kept]
    want = sel(d, q) * sel(y, q) + om * col_sum(A, y, q) == om * (2 - om) * sel(r, q)
    P = getattr(c, "scaled", None)
    if P is not None:       # the array between the two substitutions, D times the first one's solution
        def every(f): return z3.Implies(upper, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), f), patterns=[sel(y, k)]))
        out += [("lemma: the second pass solves for the scaled intermediate", every(sel(d, k) * sel(z, k) + om * row_sum(A, z, k) == sel(P, k))),
                ("lemma: so y is the intermediate", every(sel(d, k) * sel(y, k) == sel(P, k)))]
        h = getattr(c, "first", None)
        if h is not None:
            out += [("lemma: which the first pass computed", every(sel(y, k) == sel(h, k)), ["pc", "lemma: so y is the intermediate"]),
                    ("lemma: column sums of it", z3.Implies(asm, col_sum(A, y, q) == col_sum(A, h, q)), ["pc", "lemma: which the first pass computed"])]
    return out + [("with y = D^-1 (D + w U) z: (D + w U^T) y = w (2 - w) r", z3.Implies(asm, want), ["pc"] + [o[0] for o in out[-2:] if o[0].startswith("lemma")])]
SSOR = Contract("multSSORPreconditioner", ["MatCSRSymmetric&", V, V, "double"], requires=req, ensures=post, modifies=(1,), candidates=[cand], opts={"inv_timeout": 3000, "cut": cut, "name_next": True, "steps": steps})
CONTRACTS = [SSOR]
UNITS = ["algebra/solvers.cpp"]
REPLAY_SRC = ["algebra/solvers.cpp", "algebra/math.cpp", "algebra/csr.cpp", "geometry/vector.cpp", "utils/utils.cpp"]
