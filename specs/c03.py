"""C03: sparse matrix-vector products."""
from common import *
from contracts import Contract
def req(c): return wf_csr(c[1]) + [("x has m entries", n_of(c[2]) == c[1].field("m").z), ("result has m entries", n_of(c[0]) == c[1].field("m").z)]
def eff(lower, upper):
    def f(c):
        q = z3.Int("q!s")
        return {0: Val(c[0].t, {("len",): n_of(c[0]), ("#",): z3.Lambda([q], ax(c[1], c[2].leaf("#"), q, lower, upper))})}
    return f
CONTRACTS = [
    Contract("mult", [V, "MatCSRSymmetric&", V], requires=req, effects=eff(True, True)),
    Contract("mult", [V, "MatCSRLowerTri&", V], requires=req, effects=eff(True, False)),
    Contract("mult", [V, "MatCSRUpperTri&", V], requires=req, effects=eff(False, True)),
]
UNITS = ["algebra/math.cpp"]
REPLAY_SRC = ["algebra/math.cpp", "algebra/csr.cpp", "geometry/vector.cpp", "utils/utils.cpp"]
