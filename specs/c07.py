"""C07: expression-valued entries behave like the numbers they stand for."""
from common import *
from contracts import Contract, Heap
from vals import TReal
E = "NonLinearExpression"
AR = z3.ArraySort(I, R)
def value(e, mu):
    """the number expression e stands for at permeabilities mu"""
    return e.leaf("constant") + Sum(lambda k: sel(e.leaf("terms", "#", "linear_coefficient"), k) / sel(mu, sel(e.leaf("terms", "#", "nonlinear_coefficient_element_index"), k)), 0, e.leaf("terms", "len"))
def term(t, mu): return t.leaf("linear_coefficient") / sel(mu, t.leaf("nonlinear_coefficient_element_index"))
def post(f, get=lambda c: c.this_new):
    def ens(c):
        mu = c.any("mu", AR); return [("value", value(get(c), mu) == f(c, mu))]
    return ens
own = lambda c, mu: value(c.this, mu)
num = lambda c, mu: c[0].z
trm = lambda c, mu: term(c[0], mu)
exp = lambda c, mu: value(c[0], mu)
ref = lambda c, obj, lvs: obj
small = lambda c: [("assume: fewer than 2^31 terms", z3.And(c.this.leaf("terms", "len") < 2**31, *([c[0].leaf("terms", "len") < 2**31] if len(c.old) and ("terms", "len") in c[0].d else [])))]
def op(name, ptype, f): return Contract(E + "::operator" + name, [ptype], requires=small, modifies=("this",), ensures=post(f), result_ref=ref)
D, T, X = "double&", "NonLinearTerm&", "NonLinearExpression&"
CONTRACTS = [
    op("=", D, num), op("=", X, exp),
    op("+=", D, lambda c, m: own(c, m) + num(c, m)), op("+=", T, lambda c, m: own(c, m) + trm(c, m)), op("+=", X, lambda c, m: own(c, m) + exp(c, m)),
    op("-=", D, lambda c, m: own(c, m) - num(c, m)), op("-=", T, lambda c, m: own(c, m) - trm(c, m)), op("-=", X, lambda c, m: own(c, m) - exp(c, m)),
    Contract(E + "::operator*", [D], requires=small, ensures=post(lambda c, m: own(c, m) * num(c, m), lambda c: c.res)),
    Contract(E + "::evaluate", ["std::vector<double>&"], requires=lambda c: small(c) + [("every term's element has a permeability", forall(lambda k: z3.Implies(z3.And(0 <= k, k < c.this.leaf("terms", "len")), sel(c.this.leaf("terms", "#", "nonlinear_coefficient_element_index"), k) < c[0].leaf("len"))))],
             result=lambda c: Val(TReal(), {(): value(c.this, c[0].leaf("#"))})),
]
HEAP = Heap(E, "expressions")
def SETUP(prog): prog.ptr_homes.append(HEAP)
M = "NonLinearMatCSRSymmetric"
def entry(c, ptrs, i): return c.heap.elem(sel(c.this.leaf(ptrs, "#"), i))
def mreq(c):
    i, k = z3.FreshConst(I, "i"), z3.FreshConst(I, "k"); s = c.this
    n = lambda f, s=s: s.leaf(f, "len")
    each = lambda ptrs, what: (what + " expressions refer to existing elements", z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < n(ptrs), 0 <= k, k < entry(c, ptrs, i).leaf("terms", "len")), sel(entry(c, ptrs, i).leaf("terms", "#", "nonlinear_coefficient_element_index"), k) < c[0].leaf("len"))))
    return [("diagonal lengths", z3.And(n("diag") == s.leaf("m"), n("diag_expr") == s.leaf("m"))), ("off-diagonal lengths", z3.And(n("val") == s.leaf("nnz"), n("expr") == s.leaf("nnz"))),
            each("diag_expr", "diagonal"), each("expr", "off-diagonal"), ("assume: fewer than 2^31 terms", z3.ForAll([i], c.heap.elem(i).leaf("terms", "len") < 2**31))]
def mens(c):
    i = c.any("i", I); o, s, mu = c.this, c.this_new, c[0].leaf("#")
    each = lambda vals, ptrs, n: z3.Implies(z3.And(0 <= i, i < o.leaf(n)), sel(s.leaf(vals, "#"), i) == value(entry(c, ptrs, i), mu))
    return [("diagonal values", each("diag", "diag_expr", "m")), ("off-diagonal values", each("val", "expr", "nnz")), ("lengths", z3.And(*[s.leaf(f, "len") == o.leaf(f, "len") for f in ("diag", "val")]))]
CONTRACTS.append(Contract(M + "::evaluate", ["std::vector<double>&"], setup=HEAP.setup, requires=mreq, modifies=(("this", "diag"), ("this", "val")), ensures=mens))
UNITS = ["algebra/non_linear.cpp"]
REPLAY_SRC = ["algebra/non_linear.cpp", "algebra/csr.cpp", "utils/utils.cpp"]
