"""C01: dense vector kernels."""
import z3
from vals import Val, sel
from contracts import Contract

V = "std::vector<double>&"
def same_len(*ix):
    def f(c):
        n = c[ix[0]].leaf("len")
        return [("lengths agree", c[i].leaf("len") == n) for i in ix[1:]]
    return f
def el(v, k): return sel(v.leaf("#"), k)
def vec_effect(fn):
    def eff(c):
        k = z3.Int("k!s")
        o = c[0]
        return {0: Val(o.t, {("len",): o.leaf("len"), ("#",): z3.Lambda([k], fn(c, k))})}
    return eff
def kernel(name, ptypes, fn, lens, alias):
    return Contract(name, ptypes, requires=same_len(*lens), effects=vec_effect(fn), alias=alias, props=("C01",))
A2 = [(0, 1)]; A3 = [(0, 1), (0, 2), (1, 2), (0, 1, 2)]
CONTRACTS = [
    kernel("mult", [V, "double", V], lambda c, k: c[1].z * el(c[2], k), (0, 2), [(0, 2)]),
    kernel("mult", [V, V, V], lambda c, k: el(c[1], k) * el(c[2], k), (0, 1, 2), A3),
    kernel("add", [V, V, V], lambda c, k: el(c[1], k) + el(c[2], k), (0, 1, 2), A3),
    kernel("sub", [V, V, V], lambda c, k: el(c[1], k) - el(c[2], k), (0, 1, 2), A3),
    kernel("div", [V, V, "double"], lambda c, k: el(c[1], k) / c[2].z, (0, 1), A2),
    kernel("div", [V, V, V], lambda c, k: el(c[1], k) / el(c[2], k), (0, 1, 2), A3),
    kernel("sub", [V, V, "double"], lambda c, k: el(c[1], k) - c[2].z, (0, 1), A2),
    kernel("add", [V, V, "double"], lambda c, k: el(c[1], k) + c[2].z, (0, 1), A2),
    kernel("copy", [V, V], lambda c, k: el(c[1], k), (0, 1), A2),
    kernel("addScaled", [V, V, "double", V], lambda c, k: el(c[1], k) + c[2].z * el(c[3], k), (0, 1, 3), [(0, 1), (0, 3), (1, 3), (0, 1, 3)]),
]
UNITS = ["algebra/math.cpp"]
REPLAY_SRC = ["algebra/math.cpp", "algebra/csr.cpp", "geometry/vector.cpp", "utils/utils.cpp"]
