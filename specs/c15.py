"""C15: permeability from the material law, and its relaxation."""
from geo import *
from contracts import Contract, Heap
from sexec import SQRT, EXP
from vals import TVec
MP = "MagnetostaticProp::"
def cv(p): return p.field("bh_curve")
def ncurve(p): return cv(p).leaf("len")
def ik(k): return z3.IntVal(k) if isinstance(k, int) else k
def Bk(p, k): return sel(p.leaf("bh_curve", "#", "B"), ik(k))
def Hk(p, k): return sel(p.leaf("bh_curve", "#", "H"), ik(k))
def sorted_(p):
    i, j = z3.FreshConst(I, "i"), z3.FreshConst(I, "j"); return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ncurve(p)), Bk(p, i) < Bk(p, j)))
def rising(p):
    i = z3.FreshConst(I, "i"); j = z3.FreshConst(I, "j"); return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ncurve(p)), Hk(p, i) != Hk(p, j)))
def getmu_req(c): return [("assume: std::set keeps its points in strictly ascending B", sorted_(c.this)), ("different points of the curve have different H", rising(c.this)), ("assume: counts fit", ncurve(c.this) < 2**62)]
def slope(p, k): return (Bk(p, k + 1) - Bk(p, k)) / (Hk(p, k + 1) - Hk(p, k))
SEG = z3.Function("segment slope!", R, B)
def segs(c):
    """a number that is in every set containing the slopes of all segments is one of these slopes"""
    k = z3.FreshConst(I, "k"); p = c.this; return [("assume: name for a set that contains the slope of every segment", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ncurve(p) - 1), SEG(slope(p, k))), patterns=[Bk(p, k)]))]
def mu_ens(c):
    p, b = c.this, c[0].z; n = ncurve(p); r = c.res.z; k = z3.FreshConst(I, "k")
    return [("no curve: the constant", z3.Implies(n == 0, r == p.leaf("mu"))),
            ("a segment of two consecutive points of its own curve", z3.Implies(n >= 2, SEG(r))),
            ("the first segment at or below the first point", z3.Implies(z3.And(n >= 2, b <= Bk(p, 0)), r == slope(p, 0))),
            ("the last segment at or beyond the last point", z3.Implies(z3.And(n >= 2, b >= Bk(p, n - 1)), r == slope(p, n - 2)))]
GETMU = Contract(MP + "getMu", ["double"], requires=lambda c: getmu_req(c) + segs(c), pure="permeability!", throws=lambda c: ncurve(c.this) == 1, ensures=mu_ens)
LIN = Contract(MP + "isLinear", [], result=lambda c: boolean(ncurve(c.this) == 0))
LESS = Contract("less<BH_Point>::operator()", ["BH_Point&", "BH_Point&"], ensures=lambda c: [("ordered by B", c.res.z == (c[0].leaf("B") < c[1].leaf("B")))])
HEAP = Heap("MagnetostaticProp", "materials")
def SETUP(prog): prog.ptr_homes.append(HEAP); prog.less_funcs = {"BH_Point": lambda a, b: a.leaf("B") < b.leaf("B")}       # what LESS proves of the real comparison
def law(c, p, b): return GETMU.applied(c.ex.prog, [real(b)], p).z
def el(v, i): return sel(v.leaf("#"), i)
def ptr(c, i): return el(c[1], i)
def prop(c, i): return c.heap.elem(ptr(c, i))
def flux(c, i): return SQRT(sel(c[0].leaf("#", "x"), i) * sel(c[0].leaf("#", "x"), i) + sel(c[0].leaf("#", "y"), i) * sel(c[0].leaf("#", "y"), i))
def upd_req(c):
    i = z3.FreshConst(I, "i"); j = z3.FreshConst(I, "j"); k = z3.FreshConst(I, "k"); n = c[0].leaf("len"); each = lambda f: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), f(prop(c, i))))
    return [("as many permeabilities and materials as elements", z3.And(c[2].leaf("len") == n, c[1].leaf("len") == n)), ("assume: element counts fit 32 bits", n < 2**32),
            ("assume: std::set keeps its points in strictly ascending B", z3.ForAll([k, i, j], z3.Implies(z3.And(0 <= i, i < j, j < ncurve(c.heap.elem(k))), Bk(c.heap.elem(k), i) < Bk(c.heap.elem(k), j)))),
            ("different points of a curve have different H", z3.ForAll([k, i, j], z3.Implies(z3.And(0 <= i, i < j, j < ncurve(c.heap.elem(k))), Hk(c.heap.elem(k), i) != Hk(c.heap.elem(k), j)))),
            ("assume: curve sizes fit", z3.ForAll([k], z3.And(0 <= ncurve(c.heap.elem(k)), ncurve(c.heap.elem(k)) < 2**62)))]
def one_point(c):
    i = z3.FreshConst(I, "i"); return z3.Exists([i], z3.And(0 <= i, i < c[0].leaf("len"), ncurve(prop(c, i)) == 1))
VACUUM = 4 * z3.Q(3141592653589793, 10**15) * z3.Q(1, 10**7)          # pi to double precision
def upd_ens(c):
    i = c.any("i", I); n = c[0].leaf("len"); mu, new = el(c[2], i), el(c.new(2), i); p = prop(c, i); w = EXP(-z3.ToReal(c[4].z) / 5); r = c[3].z; here = z3.And(0 <= i, i < n); m = law(c, p, flux(c, i))
    return [("as many as before", c.new(2).leaf("len") == c[2].leaf("len")),
            ("an element without a curve: the law's value (its constant)", z3.Implies(z3.And(here, ncurve(p) == 0), new == m)),
            ("an element with a curve: convex combination with weight exp(-iteration/5)", z3.Implies(z3.And(here, ncurve(p) != 0), new == (1 - w) * m + w * (mu + VACUUM * r * r)))]
UPD = Contract("MagnetostaticSimulation::updateMu", ["std::vector<Vector>", "std::vector<MagnetostaticProp*>&", "std::vector<double>&", "double", "unsigned int"], setup=HEAP.setup, requires=upd_req, throws=one_point, modifies=(2,), throw_frame=False, ensures=upd_ens)
CONTRACTS = [LESS, GETMU, LIN, UPD]
UNITS = ["magnetostatic/properties.cpp", "magnetostatic/simulation.cpp"]
REPLAY_SRC = ["magnetostatic/simulation.cpp", "magnetostatic/mesh.cpp", "current_density/mesh.cpp", "magnetostatic/properties.cpp", "algebra/non_linear.cpp", "geometry/vector.cpp", "geometry/circle.cpp", "geometry/segment.cpp", "geometry/polygon.cpp", "utils/utils.cpp", "current_density/properties.cpp", "algebra/csr.cpp", "algebra/math.cpp", "algebra/solvers.cpp", "triangle/triangle.cpp", "triangle/util.cpp"]
