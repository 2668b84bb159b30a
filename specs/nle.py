"""Expression entries seen through the number they stand for at one arbitrary permeability vector.
C07 proves these contracts of the expression operations for the concrete representation and every permeability vector;
clients never look inside (the members are private), so they are verified against the number alone."""
from common import *
from contracts import Contract
from vals import TReal, TRec
E = "NonLinearExpression"
MUF = z3.Function("mu!", I, R)
def SETUP(prog): prog.types.cache["rec", E] = TRec(E, [("value!", TReal())])
def number(v): return v.leaf("value!")
own = lambda c: number(c.this)
num = lambda c: c[0].z
trm = lambda c: c[0].leaf("linear_coefficient") / MUF(c[0].leaf("nonlinear_coefficient_element_index"))
exp = lambda c: number(c[0])
def mk(c, e): return Val(c.ex.prog.ty(E), {("value!",): e})
def abstract(name, ptypes, effects=None, result=None, ref=True):
    c = Contract(E + "::" + name, ptypes, effects=effects and (lambda c: {"this": mk(c, effects(c))}), result=result, result_ref=(lambda c, obj, lvs: obj) if ref else None)
    c.alias = []      # proved by C07
    return c
D, T, X = ["double&"], ["NonLinearTerm&"], ["NonLinearExpression&"]
OPS = [abstract("operator=", D, num), abstract("operator=", X, exp),
       abstract("operator+=", D, lambda c: own(c) + num(c)), abstract("operator+=", T, lambda c: own(c) + trm(c)), abstract("operator+=", X, lambda c: own(c) + exp(c)),
       abstract("operator-=", D, lambda c: own(c) - num(c)), abstract("operator-=", T, lambda c: own(c) - trm(c)), abstract("operator-=", X, lambda c: own(c) - exp(c)),
       abstract("operator*", D, result=lambda c: mk(c, own(c) * num(c)), ref=False)]
