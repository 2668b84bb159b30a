"""C04: coordinate storage."""
from common import *
from vals import TReal
from contracts import Contract
COO = "MatCOOSymmetric<double>"
def key(i, j): return i * (1 << 32) + j
def dom(A): return A.leaf("elems", "dom")
def vals_(A): return A.leaf("elems", "@")
def stored(A, k): return sel(vals_(A), k)      # absent keys hold zero (representation of maps)
def elems_with(A, k, v):
    """A.elems with the pair k bound to v"""
    e = A.field("elems"); q = z3.Int("q!k")
    return Val(e.t, {("dom",): z3.Lambda([q], z3.Or(q == k, sel(dom(A), q))), ("size",): e.leaf("size") + z3.If(sel(dom(A), k), 0, 1),
                     ("@",): z3.Lambda([q], z3.If(q == k, v, sel(vals_(A), q)))})
def real(e): return Val(TReal(), {(): e})
def others(A0, A1, i, j):
    """no entry of another index pair (p,q), p<=q, changes or appears"""
    p, q = z3.FreshConst(I, "p"), z3.FreshConst(I, "q")
    rng = z3.And(0 <= p, p <= q, q < 2**32, z3.Or(p != i, q != j))
    return [("distinct index pairs: presence unchanged", z3.ForAll([p, q], z3.Implies(rng, sel(dom(A1), key(p, q)) == sel(dom(A0), key(p, q))))),
            ("distinct index pairs: value unchanged", z3.ForAll([p, q], z3.Implies(z3.And(rng, sel(dom(A0), key(p, q))), sel(vals_(A1), key(p, q)) == sel(vals_(A0), key(p, q)))))]
k_ = lambda c, a=0: key(c[1 - a].z, c[2 - a].z)
CONTRACTS = [
    Contract(COO + "::operator()", ["unsigned int", "unsigned int"], throws=lambda c: c[0].z > c[1].z,
             effects=lambda c: {("this", "elems"): elems_with(c.this, k_(c, 1), stored(c.this, k_(c, 1)))},
             ensures=lambda c: [("the reference yields the stored value, zero if there is none", c.res.z == z3.If(sel(dom(c.this), k_(c, 1)), stored(c.this, k_(c, 1)), 0))] + others(c.this, c.this_new, c[0].z, c[1].z), use=False),
    Contract("client_coo_set", throws=lambda c: c[1].z > c[2].z, effects=lambda c: {(0, "elems"): elems_with(c[0], k_(c), c[3].z)}, ensures=lambda c: others(c[0], c.new(0), c[1].z, c[2].z)),
    Contract("client_coo_get", throws=lambda c: c[1].z > c[2].z, result=lambda c: real(stored(c[0], k_(c))), effects=lambda c: {(0, "elems"): elems_with(c[0], k_(c), stored(c[0], k_(c)))}),
    Contract("client_coo_add", throws=lambda c: c[1].z > c[2].z, effects=lambda c: {(0, "elems"): elems_with(c[0], k_(c), stored(c[0], k_(c)) + c[3].z)}, ensures=lambda c: others(c[0], c.new(0), c[1].z, c[2].z)),
    Contract("client_coo_set_get", throws=lambda c: z3.Or(c[1].z > c[2].z, c[4].z > c[5].z), modifies=(0,), throw_frame=False,
             result=lambda c: real(z3.If(z3.And(c[1].z == c[4].z, c[2].z == c[5].z), c[6].z, c[3].z))),
    Contract(COO + "::MatCOOSymmetric", ["unsigned int"], ensures=lambda c: [("order is as given", c.this_new.field("m").z == c[0].z), ("nothing stored", c.this_new.leaf("elems", "size") == 0),
             ("no entry present", forall(lambda q: z3.Not(sel(dom(c.this_new), q))))]),
]
UNITS = ["tu/coo.cpp"]
REPLAY_SRC = ["utils/utils.cpp"]
