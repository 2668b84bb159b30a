"""C06: Dirichlet elimination."""
from common import *
from contracts import Contract
from c04 import key, dom, vals_
import nle
from loops import okpat
SYS = "System<double>"; NL = "System<NonLinearExpression>"
def A(s): return s.field("A")
def vp(s): return ("value!",) if ("b", "#", "value!") in s.d else ()      # expression entries: the number they stand for
def pat(t): return [t] if okpat(t, []) else []
def req(c):
    s = c.this; m = s.leaf("A", "m"); i, j, k = z3.FreshConst(I, "i"), z3.FreshConst(I, "j"), z3.FreshConst(I, "k")
    return [("the condition is on a node", c[0].z < m), ("one right-hand side entry per row", s.leaf("b", "len") == m), 
            ("keys encode an upper-triangular pair", z3.ForAll([k], z3.Implies(sel(dom(A(s)), k), z3.And(0 <= k, k / 2**32 <= k % 2**32, k % 2**32 < m)), patterns=pat(sel(dom(A(s)), k))))]
def eff(c):
    s = c.this; k = c[0].z; v = c[1].z; a = A(s); q = z3.Int("q!s"); p = vp(s); b = s.leaf("b", "#", *p); vals = a.leaf("elems", "@", *p)
    i = q / 2**32; j = q % 2**32
    e = a.field("elems")
    return {("this", "A", "elems"): Val(e.t, {("dom",): z3.Lambda([q], z3.Or(q == key(k, k), sel(dom(a), q))), ("size",): e.leaf("size") + z3.If(sel(dom(a), key(k, k)), 0, 1),
                ("@",) + p: z3.Lambda([q], z3.If(q == key(k, k), z3.RealVal(1), z3.If(z3.Or(i == k, j == k), z3.RealVal(0), sel(vals, q))))}),
            ("this", "b"): Val(s.field("b").t, {("len",): s.leaf("b", "len"), ("#",) + p: z3.Lambda([q], z3.If(q == k, v,
                sel(b, q) - v * z3.If(q < k, sel(vals, key(q, k)), sel(vals, key(k, q)))))})}
def dirichlet(S): return Contract(S + "::addDirichletBoundaryCondition", ["unsigned int", "double"], requires=req, effects=eff)
def SETUP(prog): nle.SETUP(prog)
CONTRACTS = nle.OPS + [dirichlet(SYS), dirichlet(NL)]
UNITS = ["tu/coo.cpp", "tu/magsys.cpp"]
REPLAY_SRC = ["utils/utils.cpp", "algebra/non_linear.cpp", "algebra/csr.cpp"]
