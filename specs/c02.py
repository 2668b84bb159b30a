"""C02: reductions."""
from common import *
from vals import TReal, TBool
from contracts import Contract
from sexec import ISNAN, SQRT
def real(e): return Val(TReal(), {(): e})
def boolean(e): return Val(TBool(), {(): e})
def dot(a, b): return Sum(lambda k: el(a, k) * el(b, k), 0, n_of(a))
def anynan(v): 
    k = z3.FreshConst(I, "u")
    return z3.Exists([k], z3.And(0 <= k, k < n_of(v), ISNAN(el(v, k))))
def root_of(c):
    s = dot(c[0], c[0]); return [("norm is the non-negative root of the square sum", z3.And(c.res.z >= 0, c.res.z == SQRT(s)))]
def ewn(c):
    k = z3.Int("k!s")
    return Val(c.ex.prog.ty("std::vector<double>"), {("len",): n_of(c[0]), ("#",): z3.Lambda([k], SQRT(el(c[0], k, "x") * el(c[0], k, "x") + el(c[0], k, "y") * el(c[0], k, "y")))})
CONTRACTS = [
    Contract("dot", [V, V], requires=same_len(0, 1), result=lambda c: real(dot(c[0], c[1])), alias=[(0, 1)]),
    Contract("squareSum", [V], result=lambda c: real(dot(c[0], c[0]))),
    Contract("norm", [V], ensures=root_of),
    Contract("isnan", [V], result=lambda c: boolean(anynan(c[0]))),
    Contract("isnan", ["MatCSRSymmetric&"], result=lambda c: boolean(z3.Or(anynan(c[0].field("val")), anynan(c[0].field("diag"))))),
    Contract("isnan", ["double"], result=lambda c: boolean(ISNAN(c[0].z))),
    Contract("element_wise_norm", ["std::vector<Vector>&"], result=ewn),
]
UNITS = ["algebra/math.cpp"]
REPLAY_SRC = ["algebra/math.cpp", "algebra/csr.cpp", "geometry/vector.cpp", "utils/utils.cpp"]
