"""C08: the conjugate-gradient solvers stop early only with the true residual below the requested error."""
from common import *
from contracts import Contract
from vals import TInt, fresh_val
from smt import AND
from loops import okpat
import c01, c02, c03
M = "MatCSRSymmetric&"
AI, AR = z3.ArraySort(I, I), z3.ArraySort(I, R)
PROD = z3.Function("product!", AR, AI, AI, AR, I, AR, I, R); SQ = z3.Function("square!", R, R)
def SETUP(prog):
    t = prog.ty("MatCSRSymmetric")
    if "products!" not in [f for f, _ in t.fields]: t.fields.append(("products!", TInt(64, True)))      # specification only: matrix-vector products made with this matrix
def prod(A, x, q): return PROD(A.field("diag").leaf("#"), A.field("row_ptr").leaf("#"), A.field("col_ind").leaf("#"), A.field("val").leaf("#"), A.field("m").z, x, q)
def named(A):
    """names for entry q of A*x and for a square"""
    x, q, t = z3.FreshConst(AR, "x"), z3.FreshConst(I, "q"), z3.FreshConst(R, "t")
    return [("assume: product! names an entry of the matrix-vector product (C03)", z3.ForAll([x, q], prod(A, x, q) == ax(A, x, q), patterns=[prod(A, x, q)])), square()]
def square():
    t = z3.FreshConst(R, "t"); return ("assume: square! names the square", z3.ForAll([t], SQ(t) == t * t, patterns=[SQ(t)]))
def matrix(c):
    """the matrix of the solver under verification, or any well-formed matrix"""
    if c.ex is not None and getattr(c.ex, "A08", None) is not None: return c.ex.A08
    c.ex.A08 = fresh_val(c.ex.prog.ty("MatCSRSymmetric"), "A"); return c.ex.A08
def setA(c, ex, st): ex.A08 = c[0]
def resid(A, b, x, q): return sel(b, q) - prod(A, x, q)
# ------------------------------------------------------------------ kernels, as C01-C03 prove them, in the vocabulary of this property
def pat(t, vs): return dict(patterns=[t]) if okpat(t, vs) else {}
def rows(c, v, f):
    k = z3.FreshConst(I, "k"); t = sel(v.leaf("#"), k)
    return [("entries", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n_of(v)), t == f(k)), **pat(t, [k]))), ("length", n_of(v) == n_of(c[0]))]
def new_entries(i):
    """the vector keeps its length; what its entries are, the postconditions say"""
    return lambda c: {i: Val(c[i].t, {("len",): n_of(c[i]), ("#",): z3.FreshConst(AR, "v")})}
def combo_ens(c):
    A, v = matrix(c), c.new(0); a, x, p = c[2].z, c[1].leaf("#"), c[3].leaf("#"); q = z3.FreshConst(I, "q"); t = prod(A, v.leaf("#"), q)
    return rows(c, v, lambda k: el(c[1], k) + a * el(c[3], k)) + [("the product is linear (the lemma below)", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < A.field("m").z), t == prod(A, x, q) + a * prod(A, p, q)), **pat(t, [q])))]
COMBO = Contract("addScaled", [V, V, "double", V], requires=lambda c: same_len(0, 1, 3)(c) + [("as many entries as the matrix has rows", n_of(c[0]) == matrix(c).field("m").z)], effects=new_entries(0), ensures=combo_ens)
def linear(c):
    A = matrix(c); x, p, y = [z3.FreshConst(AR, n) for n in "xpy"]; q, k, a = z3.FreshConst(I, "q"), z3.FreshConst(I, "k"), z3.FreshConst(R, "a"); m = A.field("m").z
    comb = z3.Lambda([k], sel(x, k) + a * sel(p, k))
    return [("the product depends on the entries of the vector only", z3.ForAll([x, y, q], z3.Implies(z3.And(0 <= q, q < m, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), sel(y, k) == sel(x, k)))), ax(A, y, q) == ax(A, x, q)))),
            ("the product is linear", z3.ForAll([x, p, a, q], z3.Implies(z3.And(0 <= q, q < m), ax(A, comb, q) == ax(A, x, q) + a * ax(A, p, q))))]
LIN = Contract("addScaled", [V, V, "double", V], requires=lambda c: same_len(0, 1, 3)(c) + [("assume: " + n, f) for n, f in wf_csr(matrix(c))], effects=c01.CONTRACTS[9].effects, lemmas=linear, label="linearity")
LIN.use = False
def count(c): return {(1, "products!"): Val(TInt(64, True), {(): c[1].leaf("products!") + 1})}
MULT = Contract("mult", [V, M, V], requires=c03.req, effects=new_entries(0), ghost_effects=count, ensures=lambda c: rows(c, c.new(0), lambda k: prod(c[1], c[2].leaf("#"), k)))       # proved by C03
SQS = Contract("squareSum", [V], requires=lambda c: [square()], ensures=lambda c: [("sum of squares", c.res.z == Sum(lambda k: SQ(el(c[0], k)), 0, n_of(c[0])))])
def callee(k, f): return Contract(k.qname, k.ptypes, requires=k.requires, effects=new_entries(0), ensures=lambda c: rows(c, c.new(0), lambda k: f(c, k)))      # proved by C01
SUB = callee(c01.CONTRACTS[3], lambda c, k: el(c[1], k) - el(c[2], k)); COPY = callee(c01.CONTRACTS[8], lambda c, k: el(c[1], k)); HAD = callee(c01.CONTRACTS[1], lambda c, k: el(c[1], k) * el(c[2], k))
DOT = Contract("dot", [V, V], requires=same_len(0, 1))      # any number will do
for k in (COMBO, MULT, SUB, COPY, HAD, DOT): k.alias = []
# ------------------------------------------------------------------ the solvers
def req(c): return wf_csr(c[0]) + [("b has m entries", n_of(c[1]) == c[0].field("m").z), ("x has m entries", n_of(c[2]) == c[0].field("m").z)] + named(c[0])
def cand(c, ex, L):
    """for each vector the loop changes, whatever it is called: it holds the true residual"""
    A, b, xr = c[0], c[1], c.argv[2].root; m = A.field("m").z; out = []
    for root, path in L.M:
        if root == xr or path != ("#",) or L.pre.roots[root].d[path].sort() != AR: continue
        def inv(cx, root=root):
            r, x = cx.st.roots[root].leaf("#"), cx.st.roots[xr].leaf("#"); j = z3.Int("jr!")
            return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), sel(r, j) == resid(A, b.leaf("#"), x, j)), **pat(sel(r, j), [j]))
        out.append(("the residual is that of x", inv))
    return out
def solver(name, extra):
    def en(c):
        A, b, x = c[0], c[1], c.new(2); e = c[3 + extra].z
        s = Sum(lambda q: SQ(resid(A, b.leaf("#"), x.leaf("#"), q)), 0, A.field("m").z)
        return [("the whole iteration budget was used, or the true squared residual is below the square of the requested error", z3.Or(c.new(0).leaf("products!") >= c[0].leaf("products!") + c[4 + extra].z + 1, s < e * e)),
                ("the solution keeps its length", n_of(c.new(2)) == n_of(c[2]))]
    return Contract(name, [M, V, V] + ["double"] * extra + ["double", "unsigned int"], requires=req, ensures=en, modifies=(2, (0, "products!")), candidates=[cand], setup=setA, opts={"cases": True, "inv_timeout": 1500})
SSOR = Contract("multSSORPreconditioner", [M, V, V, "double"], requires=lambda c: wf_csr(c[0]) + [("lengths agree", z3.And(n_of(c[1]) == c[0].field("m").z, n_of(c[2]) == c[0].field("m").z))], effects=new_entries(1)); SSOR.alias = []      # C09
def chol_ens(c):
    A, r = c[0], c.res; f = lambda v, *q: v.field(q[0]).leaf(*q[1:]) if len(q) > 1 else v.field(q[0]).z
    k = z3.FreshConst(I, "k")
    same = lambda nm: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < f(A, nm, "len")), sel(f(r, nm, "#"), k) == sel(f(A, nm, "#"), k)))
    return [("the order and number of entries are kept", z3.And(f(r, "m") == f(A, "m"), f(r, "nnz") == f(A, "nnz"))), ("sizes are kept", z3.And(*[f(r, n, "len") == f(A, n, "len") for n in ("row_ptr", "col_ind", "val", "diag")])),
            ("the row offsets are kept", same("row_ptr")), ("the columns are kept", same("col_ind"))]
LOOK = Contract("BaseCSR::operator()", ["unsigned int"] * 2, requires=lambda c: wf_csr(c.this) + [("indices in range", z3.And(c[0].z < c.this.field("m").z, c[1].z < c.this.field("m").z))])      # any number will do
CHOL = Contract("incompleteCholeskyDecomposition", [M], requires=lambda c: wf_csr(c[0]), ensures=chol_ens, opts={"inv_timeout": 700})
TRI = [Contract("mult", [V, "MatCSR%sTri&" % t, V], requires=c03.req, effects=new_entries(0)) for t in ("Lower", "Upper")]
for k in TRI: k.alias = []      # any vector will do (what it is: C03)
CONTRACTS = [solver("preconditionedIncompleteCholeskyConjugateGradientSolver", 0), CHOL, LOOK] + TRI + [solver("conjugateGradientSolver", 0), solver("preconditionedJacobiConjugateGradientSolver", 0), solver("preconditionedSSORConjugateGradientSolver", 1), SSOR, MULT, COMBO, LIN, SQS, SUB, COPY, HAD, DOT]
UNITS = ["algebra/solvers.cpp", "algebra/math.cpp", "algebra/csr.cpp"]
REPLAY_SRC = ["algebra/solvers.cpp", "algebra/math.cpp", "algebra/csr.cpp", "geometry/vector.cpp", "utils/utils.cpp"]
