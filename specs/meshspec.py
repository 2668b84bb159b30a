"""the triangle mesh: shared reading of MeshData"""
from geo import *
from contracts import Contract
from c22 import MESH_BUFFERS
MC = "Mesh<CurrentDensityProp>::"
def SETUP(prog): prog.types.buffers = MESH_BUFFERS
def npts(d): return d.leaf("numberofpoints")
def ntri(d): return d.leaf("numberoftriangles")
def vert(d, e, k): return sel(sel(d.leaf("trianglelist", "#", "verts", "#"), e), z3.IntVal(k))
def node(c, d, i): return vec(c, sel(d.leaf("pointlist", "#", "x"), i), sel(d.leaf("pointlist", "#", "y"), i))
def corner(c, d, e): return [node(c, d, vert(d, e, k)) for k in range(3)]
def tri_at(c, d, e): return tri2(*corner(c, d, e))
def mesh_wf(d, wrap=None):
    """the arrays Triangle hands over have the announced sizes and refer to existing nodes"""
    e = z3.FreshConst(I, "e")
    return [("node array", z3.And(npts(d) >= 0, d.leaf("pointlist", "len") == npts(d))), ("triangle array", z3.And(ntri(d) >= 0, d.leaf("trianglelist", "len") == ntri(d))),
            ("triangles refer to existing nodes", z3.ForAll([e], z3.Implies(z3.And(0 <= e, e < ntri(d)), z3.And(*[z3.And(0 <= vert(d, e, k), vert(d, e, k) < npts(d)) for k in range(3)]))))]
def nondeg(c, d):
    e = z3.FreshConst(I, "e"); return [("triangles are not degenerate", z3.ForAll([e], z3.Implies(z3.And(0 <= e, e < ntri(d)), tri_at(c, d, e) != 0)))]
