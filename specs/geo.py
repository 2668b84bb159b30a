"""shared reading of 2-D geometry"""
from common import *
from vals import TReal, TBool, TInt
from sexec import SQRT, SIN, COS, ATAN2
def real(e): return Val(TReal(), {(): e})
def boolean(e): return Val(TBool(), {(): e})
def x(v): return v.leaf("x")
def y(v): return v.leaf("y")
def vec(c, a, b): return Val(c.ex.prog.ty("Vector"), {("x",): a, ("y",): b})
def ab(e): return z3.If(e >= 0, e, -e)
def dot(a, b): return x(a) * x(b) + y(a) * y(b)
def cross(a, b): return x(a) * y(b) - y(a) * x(b)
def d2(a, b): return (x(a) - x(b)) * (x(a) - x(b)) + (y(a) - y(b)) * (y(a) - y(b))
def tri2(p, q, r): return (x(q) - x(p)) * (y(r) - y(p)) - (y(q) - y(p)) * (x(r) - x(p))
def at(p, q, t): return Val(p.t, {("x",): x(p) + t * (x(q) - x(p)), ("y",): y(p) + t * (y(q) - y(p))})
def between(v, a, b): return z3.Or(z3.And(a <= v, v <= b), z3.And(b <= v, v <= a))
def fall(n, f):
    ks = [z3.FreshConst(R, "u") for _ in range(n)]; return z3.ForAll(ks, f(*ks))
