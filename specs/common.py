import z3
from vals import Val, sel
from smt import Sum, AND, OR, NOT
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
V = "std::vector<double>&"
def n_of(v): return v.leaf("len")
def el(v, k, *path): return sel(v.leaf("#", *path), k)
def ite0(c, x): return z3.If(c, x, z3.RealVal(0))
def forall(f, n=1, pats=None):
    ks = [z3.FreshConst(I, "u") for _ in range(n)]
    return z3.ForAll(ks, f(*ks)) if pats is None else z3.ForAll(ks, f(*ks), patterns=[z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats(*ks)])
def same_len(*ix):
    def f(c):
        n = c[ix[0]].leaf("len")
        return [("lengths agree", c[i].leaf("len") == n) for i in ix[1:]]
    return f

def wf_csr(A):
    """well-formed compressed upper-triangular matrix"""
    m = A.field("m").z; rp = A.field("row_ptr"); ci = A.field("col_ind"); va = A.field("val"); dg = A.field("diag"); nnz = A.field("nnz").z
    p = rp.leaf("#"); c = ci.leaf("#")
    return [("row_ptr has m+1 entries", n_of(rp) == m + 1), ("col_ind/val have nnz entries", z3.And(n_of(ci) == nnz, n_of(va) == nnz)), ("diag has m entries", n_of(dg) == m),
            ("row offsets start at 0", sel(p, z3.IntVal(0)) == 0), ("row offsets end at nnz", sel(p, m) == nnz),
            ("row offsets ascend", forall(lambda i, j: z3.Implies(z3.And(0 <= i, i <= j, j <= m), sel(p, i) <= sel(p, j)), 2, lambda i, j: [(sel(p, i), sel(p, j))])),
            ("columns lie strictly above the diagonal", forall(lambda i, i2, j: z3.Implies(z3.And(0 <= i, i < m, i2 == i + 1, sel(p, i) <= j, j < sel(p, i2)), z3.And(i < sel(c, j), sel(c, j) < m)), 3, lambda i, i2, j: [(sel(p, i), sel(p, i2), sel(c, j))])),
            ("every stored column lies in the matrix", forall(lambda j: z3.Implies(z3.And(0 <= j, j < nnz), z3.And(0 < sel(c, j), sel(c, j) < m)), 1, lambda j: [sel(c, j)]))]

def row_sum(A, x, q):
    """sum over the stored upper entries of row q of val*x[col]"""
    p = A.field("row_ptr").leaf("#"); c = A.field("col_ind").leaf("#"); v = A.field("val").leaf("#")
    return Sum(lambda j: sel(v, j) * sel(x, sel(c, j)), sel(p, q), sel(p, q + 1))
def col_sum(A, x, q, upto=None):
    """sum over rows i of the stored entries (i,q): val*x[i]"""
    m = A.field("m").z
    p = A.field("row_ptr").leaf("#"); c = A.field("col_ind").leaf("#"); v = A.field("val").leaf("#")
    return Sum(lambda i: Sum(lambda j: ite0(sel(c, j) == q, sel(v, j) * sel(x, i)), sel(p, i), sel(p, i + 1)), 0, m if upto is None else upto)
def ax(A, x, q, lower=True, upper=True):
    d = A.field("diag").leaf("#")
    t = sel(d, q) * sel(x, q)
    if upper: t = t + row_sum(A, x, q)
    if lower: t = t + col_sum(A, x, q)
    return t
