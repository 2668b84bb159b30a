"""Obligation discharge: sums as recursively defined functions, ring normal form, SMT back ends."""
import re
import time, subprocess, os, hashlib, functools, itertools
import z3
from fractions import Fraction

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
STATS = {"queries": 0, "z3": 0, "z3-nra": 0, "cvc5": 0, "time": 0.0, "syntactic": 0}
z3.set_param("smt.random_seed", 1)

def AND(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs: return z3.BoolVal(True)
    if len(xs) == 1: return xs[0]
    return z3.And(*xs)
def OR(xs):
    xs = list(xs)
    if not xs: return z3.BoolVal(False)
    if len(xs) == 1: return xs[0]
    return z3.Or(*xs)
def NOT(x):
    if z3.is_true(x): return z3.BoolVal(False)
    if z3.is_false(x): return z3.BoolVal(True)
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)

def is_num(e): return z3.is_int_value(e) or z3.is_rational_value(e)
def numval(e):
    if z3.is_int_value(e): return Fraction(e.as_long())
    return Fraction(e.numerator_as_long(), e.denominator_as_long())
def mkreal(fr): return z3.RealVal(str(fr.numerator)) / z3.RealVal(str(fr.denominator)) if fr.denominator != 1 else z3.RealVal(str(fr.numerator))
def realnum(fr): return z3.Q(fr.numerator, fr.denominator)

def free_consts(e, acc=None, seen=None):
    """uninterpreted constants in e, in order of first occurrence"""
    out = []; seen = set()
    def go(x):
        i = x.get_id()
        if i in seen: return
        seen.add(i)
        if z3.is_quantifier(x): go(x.body()); return
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
            else:
                for k in range(x.num_args()): go(x.arg(k))
    go(e)
    return out

_depc = {}
def depends(e, c):
    """does e contain constant c"""
    key = (e.get_id(), c.get_id())
    r = _depc.get(key)
    if r is not None: return r[0]
    seen = set()
    def go(x):
        i = x.get_id()
        if i in seen: return False
        seen.add(i)
        if i == c.get_id(): return True
        if z3.is_quantifier(x): return go(x.body())
        if z3.is_app(x): return any(go(x.arg(k)) for k in range(x.num_args()))
        return False
    v = go(e)
    _depc[key] = (v, e, c)
    return v

def depends_any(e, cs):
    ids = {c.get_id() for c in cs}
    seen = set(); st = [e]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i in ids: return True
        if z3.is_quantifier(x): st.append(x.body())
        elif z3.is_app(x): st.extend(x.children())
    return False

# ---------------------------------------------------------------- sums
class SumSym:
    def __init__(self, name, body, kvar, params):
        self.name = name; self.body = body; self.kvar = kvar; self.params = params
        sorts = [p.sort() for p in params]
        rs = body.sort()
        self.S = z3.Function("SUM_" + name, I, I, *(sorts + [rs]))
        self.P = z3.Function("PRE_" + name, I, *(sorts + [rs]))
    def f(self, k, args):
        return z3.substitute(self.body, (self.kvar, k), *list(zip(self.params, args)))
SUMS = {}       # key -> SumSym
SUM_BY_DECL = {}  # decl name -> SumSym
PRE_BY_DECL = {}

def kfresh(depth=[0]):
    depth[0] += 1
    return z3.Int("kappa!%d" % depth[0])

def mul_list(fs, sort=None):
    fs = list(fs)
    if not fs: return z3.IntVal(1) if sort == I else z3.RealVal(1)
    r = fs[0]
    for x in fs[1:]: r = r * x
    return r

MAXTERMS = 400; COARSE = 40
def decompose(e):
    """e = sum of ite(And(guards), coeff * prod(factors), 0): list of (guards, coeff, factors); products of sums stay factored where multiplying out gets long"""
    r = decompose_(e)
    return r if len(r) <= COARSE else coarse(e)
def coarse(e):
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_ADD: return [t for c in e.children() for t in coarse(c)]
    if k == z3.Z3_OP_SUB: return coarse(e.arg(0)) + [(g, -q, f) for c in e.children()[1:] for g, q, f in coarse(c)]
    if k == z3.Z3_OP_UMINUS: return [(g, -q, f) for g, q, f in coarse(e.arg(0))]
    if k == z3.Z3_OP_ITE and e.sort() in (R, I):
        c, a, b = e.children()
        return [([c] + g, q, f) for g, q, f in coarse(a)] + [([NOT(c)] + g, q, f) for g, q, f in coarse(b)]
    if k == z3.Z3_OP_MUL:
        q = Fraction(1); fs = []
        for c in e.children():
            d = coarse(c)
            if len(d) == 1 and not d[0][0]: q *= d[0][1]; fs += d[0][2]
            else: fs.append(c)
        return [([], q, fs)]
    if k == z3.Z3_OP_DIV and is_num(e.arg(1)) and numval(e.arg(1)) != 0: return [(g, q / numval(e.arg(1)), f) for g, q, f in coarse(e.arg(0))]
    return decompose_(e) if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV) else [([], Fraction(1), [e])]
def decompose_(e):
    if is_num(e):
        v = numval(e)
        return [([], v, [])] if v != 0 else []
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_ADD:
        r = []
        for c in e.children(): r += decompose_(c)
        return r
    if k == z3.Z3_OP_SUB:
        cs = e.children(); r = decompose_(cs[0])
        for c in cs[1:]: r += [(g, -q, f) for g, q, f in decompose_(c)]
        return r
    if k == z3.Z3_OP_UMINUS:
        return [(g, -q, f) for g, q, f in decompose_(e.arg(0))]
    if k == z3.Z3_OP_MUL:
        acc = [([], Fraction(1), [])]
        for c in e.children():
            d = decompose_(c)
            acc = [(g1 + g2, q1 * q2, f1 + f2) for (g1, q1, f1) in acc for (g2, q2, f2) in d]
            if len(acc) > MAXTERMS: return [([], Fraction(1), [e])]
        return acc
    if k == z3.Z3_OP_DIV:
        a, b = e.children()
        if is_num(b) and numval(b) != 0:
            return [(g, q / numval(b), f) for g, q, f in decompose_(a)]
        inv = z3.RealVal(1) / b
        if is_num(a) and numval(a) == 1: return [([], Fraction(1), [e])]
        return [(g, q, f + [inv]) for g, q, f in decompose_(a)]
    if k == z3.Z3_OP_ITE and e.sort() in (R, I):
        c, a, b = e.children()
        r = [([c] + g, q, f) for g, q, f in decompose_(a)] + [([NOT(c)] + g, q, f) for g, q, f in decompose_(b)]
        return r
    return [([], Fraction(1), [e])]

def sexpr(e): return e.sexpr()

def flat_guards(gs):
    out = []
    for g in gs:
        if z3.is_and(g): out += flat_guards(g.children())
        elif z3.is_true(g): pass
        else: out.append(g)
    # dedupe
    seen = set(); r = []
    for g in out:
        g2 = canon_eq(g)
        if g2.get_id() not in seen: seen.add(g2.get_id()); r.append(g2)
    return r

def canon_eq(g):
    if z3.is_eq(g):
        a, b = g.children()
        if sexpr(a) > sexpr(b): return b == a
    if z3.is_not(g) and z3.is_eq(g.arg(0)):
        a, b = g.arg(0).children()
        if sexpr(a) > sexpr(b): return z3.Not(b == a)
    return g

def divmod_merge(gs, fs):
    """x div c == a, x mod c == b  ->  x == a*c + b, 0 <= b < c"""
    def part(g):
        if not z3.is_eq(g): return None
        for u, v in (g.children(), reversed(g.children())):
            if z3.is_app(u) and u.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(u.arg(1)) and not (z3.is_app(v) and v.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD)): return u.decl().kind(), u.arg(0), u.arg(1), v
        return None
    ps = [(g, part(g)) for g in gs]
    for g, p in ps:
        if p is None or p[0] != z3.Z3_OP_IDIV: continue
        for h, r in ps:
            if r is None or r[0] != z3.Z3_OP_MOD or not z3.eq(p[1], r[1]) or not z3.eq(p[2], r[2]): continue
            x, c, a, b = p[1], p[2], p[3], r[3]
            if z3.is_app(x) and x.num_args() == 0: continue
            key = z3.simplify(a * c + b)
            rest = [q for q in gs if q is not g and q is not h]
            sb = lambda e: z3.substitute(e, (x, key))
            return flat_guards([x == key, 0 <= b, b < c] + [sb(q) for q in rest]), [SUBST[0](sb(f), {}) for f in fs]
    return gs, fs

def solve_eq_for(g, k):
    """guard 'k == e' with e independent of k -> e"""
    if not z3.is_eq(g): return None
    a, b = g.children()
    if a.sort() != I: return None
    if z3.eq(a, k) and not depends(b, k): return b
    if z3.eq(b, k) and not depends(a, k): return a
    # k + c == e
    for x, y in ((a, b), (b, a)):
        if depends(y, k) or not depends(x, k): continue
        if z3.is_add(x):
            rest = [c for c in x.children() if not z3.eq(c, k)]
            if len(rest) == len(x.children()) - 1 and not any(depends(c, k) for c in rest):
                return z3.simplify(y - sum(rest[1:], rest[0]))
    return None

def guarded(gs, t):
    if not gs: return t
    return z3.If(AND(gs), t, z3.RealVal(0) if t.sort() == R else z3.IntVal(0))

SOLVE = [lambda g, k: ((solve_eq_for(g, k), []) if solve_eq_for(g, k) is not None else None)]
SUBST = [lambda e, m: e]
def le_(a, b): return z3.simplify(a <= b)
def lt_(a, b): return z3.simplify(a < b)
def Sum(f, lo, hi, k=None):
    """term for sum_{k=lo}^{hi-1} f(k) (lo<=hi); f: callable or (body,k)"""
    lo = z3.IntVal(lo) if isinstance(lo, int) else lo
    hi = z3.IntVal(hi) if isinstance(hi, int) else hi
    if callable(f):
        k = kfresh(); body = f(k)
        if not isinstance(body, z3.ExprRef): body = z3.RealVal(body)
    else:
        body = f
    srt = body.sort()
    num = (lambda q: realnum(q)) if srt == R else (lambda q: z3.IntVal(int(q)))
    scale = lambda q, t: t if q == 1 else num(q) * t
    terms = []
    for g, q, fs in decompose(body):
        if q == 0: continue
        gs = flat_guards(g)
        if any(z3.is_false(x) for x in gs): continue
        gs, fs = divmod_merge(gs, fs)
        eqv = None; side = []; used = None
        for x in gs:
            r = SOLVE[0](x, k)
            if r is not None: eqv, side = r; used = x; break
        if eqv is not None:
            sb = SUBST[0]
            gs2 = [sb(x, {k.get_id(): eqv}) for x in gs if x is not used]
            gs2 = [x for x in gs2 if not z3.is_true(x)]
            if any(z3.is_false(x) for x in gs2): continue
            fs2 = [sb(x, {k.get_id(): eqv}) for x in fs]
            terms.append(guarded([x for x in (le_(lo, eqv), lt_(eqv, hi)) if not z3.is_true(x)] + side + gs2, scale(q, mul_list(fs2, srt))))
            continue
        gi = [x for x in gs if not depends(x, k)]; gd = [x for x in gs if depends(x, k)]
        fi = [x for x in fs if not depends(x, k)]; fd = [x for x in fs if depends(x, k)]
        if not gd and not fd:
            core = vals_isimp(hi - lo)
            if srt == R: core = z3.ToReal(core) if not z3.is_int_value(core) else z3.RealVal(core.as_long())
        else:
            fd.sort(key=sexpr); gd.sort(key=sexpr)
            core = sum_app(guarded(gd, mul_list(fd, srt)), k, lo, hi)
        t = core
        if fi: t = mul_list(sorted(fi, key=sexpr), srt) * t
        terms.append(guarded(gi, scale(q, t)))
    if not terms: return num(0)
    r = terms[0]
    for t in terms[1:]: r = r + t
    return r
def vals_isimp(e): return z3.simplify(e)

# ---------------------------------------------------------------- folds: general left recursion over an iteration index
class FoldSym:
    def __init__(self, name, T, a, k, params):
        self.name, self.T, self.a, self.k, self.params = name, T, a, k, params
        self.F = z3.Function("FOLD_" + name, I, I, a.sort(), *([p.sort() for p in params] + [a.sort()]))
    def step(self, acc, k, args):
        return z3.substitute(self.T, (self.a, acc), (self.k, k), *list(zip(self.params, args)))
FOLDS = {}; FOLD_BY_DECL = {}
def Fold(T, a, k, init, lo, hi):
    """F(lo,lo,init)=init ; F(lo,n+1,init)=T[a:=F(lo,n,init), k:=n]"""
    params = [c for c in free_consts(T) if not z3.eq(c, k) and not z3.eq(c, a)]
    ph = [z3.Const("p!%d" % i, c.sort()) for i, c in enumerate(params)]
    kk = z3.Int("k!fold"); aa = z3.Const("a!fold", a.sort())
    nb = z3.substitute(T, (k, kk), (a, aa), *list(zip(params, ph)))
    key = sexpr(nb) + "|" + ",".join(str(c.sort()) for c in params)
    s = FOLDS.get(key)
    if s is None:
        s = FoldSym(hashlib.sha1(key.encode()).hexdigest()[:10], nb, aa, kk, ph)
        FOLDS[key] = s; FOLD_BY_DECL[s.F.name()] = s
    return s.F(lo, hi, init, *params)
def fold_facts(es):
    out = []; apps = {}
    for t in subterms(es):
        if z3.is_app(t) and t.num_args() >= 3 and t.decl().name() in FOLD_BY_DECL: apps[t.get_id()] = t
    ts = list(apps.values())
    for t in ts:
        s = FOLD_BY_DECL[t.decl().name()]; a = t.children()
        out.append(z3.Implies(a[0] == a[1], t == a[2]))
        for u in ts:
            if u is t or not u.decl().eq(t.decl()): continue
            b = u.children()
            if not all(z3.eq(x, y) for x, y in zip(a[2:], b[2:])) or not z3.eq(a[0], b[0]): continue
            d = z3.simplify(b[1] - a[1])
            if z3.is_int_value(d) and d.as_long() == 1:
                out.append(z3.Implies(a[0] <= a[1], u == s.step(t, a[1], a[3:])))
    return out

def sum_app(body, k, lo, hi):
    params = [c for c in free_consts(body) if not z3.eq(c, k)]
    ph = [z3.Const("p!%d" % i, c.sort()) for i, c in enumerate(params)]
    kk = z3.Int("k!sum")
    nb = z3.substitute(body, (k, kk), *list(zip(params, ph)))
    key = sexpr(nb) + "|" + ",".join(str(c.sort()) for c in params)
    s = SUMS.get(key)
    if s is None:
        name = hashlib.sha1(key.encode()).hexdigest()[:10]
        s = SumSym(name, nb, kk, ph)
        SUMS[key] = s
        SUM_BY_DECL[s.S.name()] = s; PRE_BY_DECL[s.P.name()] = s
    return s.S(lo, hi, *params)

# ---------------------------------------------------------------- term utilities
def subterms(es):
    seen = {}; st = list(es)
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen[i] = x
        if z3.is_quantifier(x): continue     # ground terms only
        if z3.is_app(x): st.extend(x.children())
    return seen.values()

# ---------------------------------------------------------------- ring normal form / abstraction
MULF = z3.Function("mul!", R, R, R)
INVF = z3.Function("inv!", R, R)
IMULF = z3.Function("imul!", I, I, I)

class Abstractor:
    """Rewrites nonlinear real arithmetic into uninterpreted products of a canonical polynomial form.
    Sound: every model of the original formula extends to the abstraction (mul!, inv! read as * and 1/x)."""
    def __init__(self, maxterms=3000):
        self.cache = {}; self.keep = []; self.polyc = {}; self.max = maxterms
        self.invs = {}
    def run(self, e):
        c = self.cache.get(e.get_id())
        if c is not None: return c[1]
        r = self._run(e)
        self.cache[e.get_id()] = (e, r)
        return r
    def _run(self, e):
        if z3.is_quantifier(e):
            # abstract below the binder with fresh constants
            n = e.num_vars()
            vs = [z3.Const("qv!%d!%s" % (i, e.var_sort(i)), e.var_sort(i)) for i in range(n)]
            body = z3.substitute_vars(e.body(), *reversed(vs))
            nb = self.run(body)
            pats = []
            for p in range(e.num_patterns()):
                pt = e.pattern(p)
                ts = [self.run(z3.substitute_vars(pt.arg(q), *reversed(vs))) for q in range(pt.num_args())]
                pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
            if e.is_lambda(): return e
            return (z3.ForAll if e.is_forall() else z3.Exists)(vs, nb, patterns=pats)
        if not z3.is_app(e) or e.num_args() == 0: return e
        k = e.decl().kind()
        if e.sort() == R and k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_POWER):
            return self.back(self.poly(e))
        if e.sort() == I and k == z3.Z3_OP_MUL:
            nums = [c for c in e.children() if is_num(c)]; oth = [self.run(c) for c in e.children() if not is_num(c)]
            if len(oth) > 1:
                oth.sort(key=sexpr); r = oth[0]
                for x in oth[1:]: r = IMULF(r, x)
            else: r = oth[0] if oth else z3.IntVal(1)
            q = functools.reduce(lambda a, b: a * b, [int(numval(c)) for c in nums], 1)
            return r * q if q != 1 else r
        ch = [self.run(c) for c in e.children()]
        if all(z3.eq(a, b) for a, b in zip(ch, e.children())): return e
        return rebuild(e, ch)
    def poly(self, e):
        """dict: tuple of atom sexprs (sorted) -> (coef, atoms)"""
        c = self.polyc.get(e.get_id())
        if c is not None: return c[1]
        r = self._poly(e)
        self.polyc[e.get_id()] = (e, r)
        return r
    def _poly(self, e):
        if is_num(e):
            v = numval(e); return {(): (v, ())} if v else {}
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_ADD: return padd([self.poly(c) for c in e.children()])
        if k == z3.Z3_OP_SUB:
            cs = [self.poly(c) for c in e.children()]
            return padd([cs[0]] + [pscale(c, -1) for c in cs[1:]])
        if k == z3.Z3_OP_UMINUS: return pscale(self.poly(e.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            r = {(): (Fraction(1), ())}
            for c in e.children():
                pc = self.poly(c)
                if len(r) * len(pc) > self.max: raise OverflowError
                r = pmul(r, pc)
            return r
        if k == z3.Z3_OP_DIV:
            a, b = e.children()
            if is_num(b) and numval(b) != 0: return pscale(self.poly(a), 1 / numval(b))
            return pmul(self.poly(a), self.inv(b))
        if k == z3.Z3_OP_POWER:
            b, x = e.children()
            if is_num(x) and numval(x).denominator == 1 and 0 <= numval(x) <= 6:
                r = {(): (Fraction(1), ())}
                for _ in range(int(numval(x))): r = pmul(r, self.poly(b))
                return r
        if k == z3.Z3_OP_TO_REAL:
            a = e.arg(0); ak = a.decl().kind() if z3.is_app(a) else None
            if is_num(a): return self.poly(z3.RealVal(str(numval(a))))
            if ak == z3.Z3_OP_ADD: return padd([self.poly(z3.ToReal(c)) for c in a.children()])
            if ak == z3.Z3_OP_SUB: return padd([self.poly(z3.ToReal(a.arg(0)))] + [pscale(self.poly(z3.ToReal(c)), -1) for c in a.children()[1:]])
            if ak == z3.Z3_OP_UMINUS: return pscale(self.poly(z3.ToReal(a.arg(0))), -1)
            if ak == z3.Z3_OP_MUL and a.num_args() == 2 and is_num(a.arg(0)): return pscale(self.poly(z3.ToReal(a.arg(1))), numval(a.arg(0)))
        at = self.run(e) if not (z3.is_app(e) and e.num_args() == 0) else e
        # run() on a non-arith app only rewrites arguments
        return {(sexpr(at),): (Fraction(1), (at,))}
    def inv(self, b):
        pb = self.poly(b)
        if len(pb) == 1:
            (key, (q, ats)), = pb.items()
            r = {(): (1 / q, ())}
            for a in ats: r = pmul(r, self._inv1(a))
            return r
        # make monic on the smallest key for canonicity
        k0 = sorted(pb)[0]; q0 = pb[k0][0]
        at = self.back(pscale(pb, 1 / q0))
        r = self._inv1(at, pscale(pb, 1 / q0))
        return pscale(r, 1 / q0)
    def _inv1(self, at, pb=None):
        t = INVF(at)
        self.invs[t.get_id()] = (t, at, pb)
        return {(sexpr(t),): (Fraction(1), (t,))}
    def back(self, p):
        if not p: return z3.RealVal(0)
        ts = []
        for key in sorted(p):
            q, ats = p[key]
            if not ats: ts.append(realnum(q)); continue
            m = ats[0]
            for a in ats[1:]: m = MULF(m, a)
            ts.append(m if q == 1 else realnum(q) * m)
        if len(ts) == 1: return ts[0]
        return z3.Sum(ts) if False else functools.reduce(lambda a, b: a + b, ts)
    def inv_facts(self):
        out = []
        done = set()
        while True:
            todo = [v for k, v in self.invs.items() if k not in done]
            if not todo: break
            for t, at, pb in todo:
                done.add(t.get_id())
                if pb is None: pb = self.poly(at) if not (z3.is_app(at) and at.num_args() == 0) else {(sexpr(at),): (Fraction(1), (at,))}
                one = self.back(pmul(pb, {(sexpr(t),): (Fraction(1), (t,))}))
                out.append(z3.Implies(at != 0, one == 1))
        return out

def padd(ps):
    r = {}
    for p in ps:
        for k, (q, a) in p.items():
            if k in r:
                s = r[k][0] + q
                if s == 0: del r[k]
                else: r[k] = (s, a)
            else: r[k] = (q, a)
    return r
def pscale(p, c): 
    c = Fraction(c)
    return {k: (q * c, a) for k, (q, a) in p.items()} if c else {}
def pmul(p, q):
    r = {}
    for k1, (c1, a1) in p.items():
        for k2, (c2, a2) in q.items():
            at = sorted(zip(k1 + k2, a1 + a2), key=lambda x: x[0])
            # cancel x * inv(x)?  not sound at x = 0: left to inv_facts
            key = tuple(x[0] for x in at); v = c1 * c2
            if key in r:
                s = r[key][0] + v
                if s == 0: del r[key]
                else: r[key] = (s, r[key][1])
            else: r[key] = (v, tuple(x[1] for x in at))
    return r

def rebuild(e, ch):
    d = e.decl(); k = d.kind()
    if k == z3.Z3_OP_ADD: return functools.reduce(lambda a, b: a + b, ch)
    if k == z3.Z3_OP_MUL: return functools.reduce(lambda a, b: a * b, ch)
    if k == z3.Z3_OP_AND: return z3.And(*ch)
    if k == z3.Z3_OP_OR: return z3.Or(*ch)
    if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*ch)
    return d(*ch)

# ---------------------------------------------------------------- sum instantiation
def sum_facts(es, rounds=3):
    """definitions SUM(lo,hi)=PRE(hi)-PRE(lo) and unfoldings of PRE at neighbouring ground indices"""
    facts = []; seen = set(); pool = list(es)
    pres = {}      # (decl, params ids) -> {simplified index sexpr: index}
    for rnd in range(rounds):
        new = []
        for t in subterms(pool):
            if not z3.is_app(t) or t.num_args() == 0: continue
            nm = t.decl().name()
            if nm in SUM_BY_DECL and t.get_id() not in seen:
                seen.add(t.get_id())
                s = SUM_BY_DECL[nm]; a = t.children()
                new.append(t == s.P(a[1], *a[2:]) - s.P(a[0], *a[2:]))
        pool2 = new
        for t in subterms(list(pool2) + (list(es) if rnd == 0 else [])):
            if not z3.is_app(t) or t.num_args() == 0: continue
            nm = t.decl().name()
            if nm in PRE_BY_DECL:
                s = PRE_BY_DECL[nm]; a = t.children()
                key = (nm, tuple(x.get_id() for x in a[1:]))
                pres.setdefault(key, (s, a[1:], {}))[2].setdefault(a[0].get_id(), a[0])
        facts += new
        unf = []
        for key, (s, par, idx) in pres.items():
            ids = list(idx.values())
            for x in ids:
                for y in ids:
                    if x is y: continue
                    d = z3.simplify(x - y)
                    if z3.is_int_value(d) and 1 <= d.as_long() <= 3:
                        for q in range(d.as_long()):
                            u = z3.simplify(y + q) if q else y
                            v = x if q == d.as_long() - 1 else z3.simplify(y + q + 1)
                            f = s.P(v, *par) == s.P(u, *par) + s.f(u, par)
                            if f.get_id() not in seen:
                                seen.add(f.get_id()); unf.append(f)
        facts += unf
        if not new and not unf: break
        pool = unf
    return facts

# ---------------------------------------------------------------- skolemisation and instantiation
def skolemize_goal(goal, hyps):
    """negated-goal style: strip outer foralls / implications of the goal"""
    extra = []
    g = goal
    while True:
        if z3.is_quantifier(g) and g.is_forall():
            n = g.num_vars()
            vs = [z3.FreshConst(g.var_sort(i), "sk") for i in range(n)]
            g = z3.substitute_vars(g.body(), *reversed(vs)); continue
        if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_IMPLIES:
            extra.append(g.arg(0)); g = g.arg(1); continue
        break
    return extra, g

def has_quant(e):
    seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        if z3.is_app(x): st.extend(x.children())
    return False

class Result:
    def __init__(self, ok, how="", model=None, reason="", t=0.0):
        self.ok = ok; self.how = how; self.model = model; self.reason = reason; self.time = t
    def __bool__(self): return self.ok

def mkconj(hyps):
    out = []
    for h in hyps:
        if z3.is_and(h): out += mkconj(h.children())
        elif z3.is_true(h): pass
        else: out.append(h)
    return out

_qf_cache = {}
MS = 2500       # solver resource units per nominal millisecond: limits are counted, not timed, so that runs repeat exactly
def limit(s, ms):
    s.set("rlimit", int(ms) * MS); s.set("timeout", int(ms) * 4)

def quick_unsat(facts, timeout=200):
    """cheap infeasibility test (quantifier-free, nonlinear terms abstracted)"""
    qf = [f for f in facts if not has_quant_c(f)]
    s = z3.SimpleSolver()
    limit(s, timeout)
    ab = Abstractor()
    try:
        for f in qf: s.add(ab.run(f))
    except OverflowError:
        return False
    STATS["queries"] += 1
    return s.check() == z3.unsat

_hq = {}
def has_quant_c(e):
    r = _hq.get(e.get_id())
    if r is None:
        r = (has_quant(e), e); _hq[e.get_id()] = r
    return r[0]

def relevant(hyps, goal):
    return hyps

CASES = [False]       # the two costlier case splits, asked for by a contract (opts cases)
AXIOMS = []      # global axioms (sqrt etc.) as functions term-list -> facts
def ground_axioms(es):
    out = []
    for ax in AXIOMS: out += ax(es)
    return out

def instantiate(hyps, es, limit=24):
    """ground instances of one-variable universal real facts at the loop counters"""
    cs = {}
    for e in es:
        if has_quant_c(e): continue
        for c in free_consts(e):
            if c.sort() == I and re.match(r"(kap|sk!|h\d+!)", c.decl().name()): cs[c.decl().name()] = c
    out = []
    if not cs or len(cs) > 4: return out
    for h in hyps:
        if not (z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1 and h.var_sort(0) == I) or has_quant(h.body()): continue
        if not any(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and t.sort() == R and sum(not is_num(x) for x in t.children()) > 1 for t in subterms([h.body()])): continue
        for n in sorted(cs):
            out.append(z3.simplify(z3.substitute_vars(h.body(), cs[n])))
            if len(out) >= limit: return out
    return out

def prove(hyps, goal, timeout=10000, lemmas=True, depth=0, native=True, want_model=False):
    t0 = time.time()
    STATS["queries"] += 1
    g0 = z3.simplify(goal) if not has_quant_c(goal) else goal
    if z3.is_true(g0):
        STATS["syntactic"] += 1
        return Result(True, "simplifier", t=time.time() - t0)
    hyps = mkconj(hyps)
    # split conjunctive goals
    if z3.is_and(goal):
        r = None
        for c in goal.children():
            r = prove(hyps, c, timeout, lemmas, depth, native, want_model)
            if not r: return r
        return r
    extra, g = skolemize_goal(goal, hyps)
    if depth == 0: g = index_simp(g)
    if z3.is_and(g):
        r = None
        for c in g.children():
            r = prove(hyps + extra, c, timeout, lemmas, depth, native, want_model)
            if not r: return r
        return r
    H = hyps + mkconj(extra)
    if depth == 0 and extra:        # antecedents of earlier lemmas met literally
        imp = [h for h in H if z3.is_implies(h)]
        if imp:
            keep = [z3.simplify(h) for h in mkconj(extra)]; ids = {h.get_id() for h in keep}
            imp = [(h, mkconj([z3.simplify(h.arg(0))])) for h in imp]
            H = H + [b for h, a in imp if all(x.get_id() in ids for x in a) for b in mkconj([h.arg(1)])]
    ng = NOT(g)
    reason = ""; model = None
    # --- A: products abstracted
    if has_sum(g):
        g = collapse_sums(g); ng = NOT(g)
    r, s, _ = attempt_abs(H, ng, min(timeout, 1000 if lemmas and depth < 3 and has_sum(g) else 4000))
    if r == z3.unsat:
        STATS["z3"] += 1
        return Result(True, "z3(EUF+LIA/LRA, products uninterpreted)", t=time.time() - t0)
    # --- real equality: eliminate defined terms (x*D == E with D != 0), then a polynomial identity
    if depth == 0 and z3.is_eq(g) and g.arg(0).sort() == R and not has_quant_c(g) and field_identity(H, g):
        STATS["field"] = STATS.get("field", 0) + 1
        return Result(True, "z3(elimination, polynomial identity)", t=time.time() - t0)
    if CASEY[0] and depth == 0 and not has_quant_c(g) and not has_sum(g) and any(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE for t in subterms([g])):
        if Casey(timeout).go(H, [h for h in H if not has_quant_c(h)], g):
            STATS["z3"] += 1
            return Result(True, "z3(case analysis; EUF+LIA/LRA, products uninterpreted)", t=time.time() - t0)
    # --- index equalities: split and substitute
    if depth == 0 and not has_quant_c(g) and find_int_eq(g) is not None and eq_split(H, g, 0):
        STATS["z3"] += 1
        return Result(True, "z3(index split; EUF+LIA/LRA, products uninterpreted)", t=time.time() - t0)
    # --- case splits, cancellation, sum lemmas
    if lemmas and depth < 3 and (has_sum(g)):
        key = (g.get_id(), tuple(sorted(set(h.get_id() for h in H))), native)
        if key in _split_memo: ok = _split_memo[key][0]
        else:
            sp = Splitter(timeout, depth)
            ok = sp.go(H, g, 0)
            _split_memo[key] = (ok, g, H)
        if ok:
            STATS["z3"] += 1
            return Result(True, "z3 + case split / sum lemmas", t=time.time() - t0)
    if not native: return Result(False, reason="abstract: %s" % r, t=time.time() - t0)
    # --- one-variable universal facts at the counters of the goal
    if CASES[0] and depth == 0 and not has_quant_c(g) and not has_sum(g) and lemmas:
        ins = instantiate(H, H + [g])
        if ins and Leafer(H + ins, timeout).go(H + ins, g, 0):
            STATS["z3-nra"] += 1
            return Result(True, "z3(instances, case split, nlsat)", t=time.time() - t0)
    # --- the newest element of a range apart from the older ones
    if CASES[0] and depth == 0 and not has_quant_c(g) and not has_sum(g):
        nw = newest(mkconj(extra))
        if nw is not None:
            sk, X, rest = nw
            if attempt_abs(hyps + rest + [sk < X], ng, 4000)[0] == z3.unsat:
                sb = lambda e: z3.simplify(z3.substitute(e, (sk, X)))
                r = prove(hyps + [sb(e) for e in rest], sb(g), timeout, lemmas, 0, native)
                if r: return r
    # --- B0: quantifier-free real goals: case split on conditionals, every leaf by nlsat with function terms named
    if not has_quant_c(g) and not has_sum(g) and depth == 0:
        if split_folded(H, g) or Leafer(H, timeout).go(H, g, 0):
            STATS["z3-nra"] += 1
            return Result(True, "z3(case split, nlsat)", t=time.time() - t0)
    # --- B: native arithmetic
    facts = sum_facts(H + [ng]); facts += fold_facts(H + [ng] + facts); facts += ground_axioms(H + [ng] + facts)
    s = z3.Solver(); limit(s, timeout)
    for f in H + facts: s.add(f)
    s.add(ng)
    r = s.check()
    if r == z3.unsat:
        STATS["z3-nra"] += 1
        return Result(True, "z3(NRA)", t=time.time() - t0)
    if r == z3.sat:
        try: model = s.model()
        except Exception: model = None
        return Result(False, "z3", model=model, reason="sat", t=time.time() - t0)
    reason = "unknown(%s)" % s.reason_unknown()
    # --- B2: quantifier-free nlsat
    qf = [f for f in H + facts if not has_quant_c(f)]
    r2 = nlsat(qf, ng, timeout)
    if r2 == z3.unsat:
        STATS["z3-nra"] += 1
        return Result(True, "z3(nlsat)", t=time.time() - t0)
    # --- C: cvc5
    if depth == 0:
        ok = cvc5_unsat(H + facts + [ng], min(timeout, 10000))
        if ok:
            STATS["cvc5"] += 1
            return Result(True, "cvc5", t=time.time() - t0)
    return Result(False, reason=reason, model=None, t=time.time() - t0)

def newest(extra):
    """(k, X, rest) when the goal's variable k is bounded by k < X + 1"""
    for e in extra:
        if not (z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_NOT)): continue
        for k in free_consts(e):
            if k.sort() != I or not k.decl().name().startswith("sk!"): continue
            neg = z3.is_not(e); h = e.arg(0) if neg else e
            if h.num_args() != 2 or h.arg(0).sort() != I: continue
            op = h.decl().kind(); a, b = h.children()
            if neg: op = {z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_GT: z3.Z3_OP_LE, z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_LT: z3.Z3_OP_GE}.get(op)
            if op in (z3.Z3_OP_GT, z3.Z3_OP_GE): a, b = b, a; op = z3.Z3_OP_LT if op == z3.Z3_OP_GT else z3.Z3_OP_LE
            if op not in (z3.Z3_OP_LT, z3.Z3_OP_LE) or not z3.eq(a, k) or depends(b, k): continue
            X = z3.simplify(b - 1) if op == z3.Z3_OP_LT else b
            if is_num(X): continue
            return k, X, [x for x in extra if not z3.eq(x, e)]
    return None
def field_identity(H, g):
    """l == r by eliminating terms that the hypotheses define; every step is an equivalence because the multipliers are nonzero"""
    known = {}; eqs = []
    def add(f):
        if z3.is_and(f):
            for c in f.children(): add(c)
            return
        known[f.get_id()] = f
    for f in H: add(f)
    for _ in range(3):
        n0 = len(known)
        for f in list(known.values()):
            if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES:
                a = f.arg(0)
                if all(c.get_id() in known for c in (a.children() if z3.is_and(a) else [a])) or a.get_id() in known: add(f.arg(1))
        if len(known) == n0: break
    nz = set()
    for f in known.values():
        q = None
        if z3.is_not(f) and z3.is_eq(f.arg(0)): q = f.arg(0)
        elif z3.is_distinct(f): q = f
        if q is not None and q.num_args() == 2:
            if is_num(q.arg(1)) and numval(q.arg(1)) == 0: nz.add(q.arg(0).get_id())
            if is_num(q.arg(0)) and numval(q.arg(0)) == 0: nz.add(q.arg(1).get_id())
    var = lambda t: z3.is_app(t) and t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == R
    divs = []; defs = []
    for f in known.values():
        if not z3.is_eq(f) or f.arg(0).sort() != R: continue
        for l, r in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
            if var(l): defs.append((l, r))
            if z3.is_mul(l) and l.num_args() == 2:
                for x, d in ((l.arg(0), l.arg(1)), (l.arg(1), l.arg(0))):
                    if var(x) and d.get_id() in nz: divs.append((x, d, r))
    if not divs: return False
    P = g.arg(0) - g.arg(1); used = set()
    for x, d, r in divs:
        if x.get_id() in used or not depends(P, x) or depends(d, x) or depends(r, x): continue
        P = homog(P, x, r, d)
        if P is None: return False
        used.add(x.get_id())
    if not used: return False
    for _ in range(8):
        P = z3.simplify(P, som=True)
        if is_num(P): return numval(P) == 0
        todo = [(l, r) for l, r in defs if depends(P, l) and not depends(r, l) and l.get_id() not in used]
        if not todo: return False
        l, r = todo[0]; used.add(l.get_id()); P = z3.substitute(P, (l, r))
    return False
def homog(P, x, E, D):
    """P with x replaced by E/D, times the power of D that clears the denominator"""
    P = z3.simplify(P, som=True); ms = []
    for m in (P.children() if z3.is_add(P) else [P]):
        deg = 0; rest = []
        for q in (m.children() if z3.is_mul(m) else [m]):
            if z3.eq(q, x): deg += 1
            elif z3.is_app_of(q, z3.Z3_OP_POWER) and z3.eq(q.arg(0), x) and is_num(q.arg(1)): deg += int(numval(q.arg(1)))
            elif depends(q, x): return None
            else: rest.append(q)
        ms.append((deg, rest))
    n = max(d for d, _ in ms); out = []
    for d, rest in ms:
        t = z3.RealVal(1)
        for q in rest + [E] * d + [D] * (n - d): t = t * q
        out.append(t)
    return z3.Sum(out) if len(out) > 1 else out[0]
def index_simp(e):
    """array indices in normal form (k + s - s is k)"""
    cache = {}
    def go(x):
        if x.get_id() in cache: return cache[x.get_id()][0]
        y = x
        if z3.is_app(x) and x.num_args():
            ch = [go(q) for q in x.children()]
            if z3.is_select(x) and ch[1].sort() == z3.IntSort() and z3.is_app(ch[1]) and ch[1].num_args() and not has_quant_c(ch[1]):
                i = isimp_(ch[1])
                if z3.is_int_value(i) or i.num_args() < ch[1].num_args(): ch[1] = i
            if any(not z3.eq(p, q) for p, q in zip(ch, x.children())): y = x.decl()(*ch) if not z3.is_select(x) else z3.Select(*ch)
        cache[x.get_id()] = (y, x)
        return y
    return go(e)
def isimp_(e):
    import vals
    return vals.isimp(e)
def find_int_eq(g):
    """an index comparison i == t that decides a conditional of the goal, with the index it can be solved for"""
    for t in subterms([g]):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            for c in subterms([t.arg(0)]):
                if z3.is_eq(c) and c.arg(0).sort() == I:
                    for v in free_consts(c):
                        if v.sort() != I: continue
                        e = solve_eq_for(c, v)
                        if e is not None: return c, v, e
    return None
def eq_split(H, g, lvl):
    r = find_int_eq(g) if lvl < 5 else None
    if r is None: return attempt_abs(H, NOT(g), 1500)[0] == z3.unsat
    c, v, e = r
    H1 = [z3.substitute(h, (v, e)) for h in H if not has_quant_c(h) or not depends(h, v)] + [h for h in H if has_quant_c(h) and depends(h, v)]
    g1 = z3.simplify(z3.substitute(z3.substitute(g, (c, z3.BoolVal(True))), (v, e)))
    if not (z3.is_true(g1) or quick_unsat(H1 + [c], 100) or eq_split(H1 + [c], g1, lvl + 1)): return False
    H2 = H + [NOT(c)]; g2 = z3.simplify(z3.substitute(g, (c, z3.BoolVal(False))))
    return z3.is_true(g2) or quick_unsat(H2, 100) or eq_split(H2, g2, lvl + 1)
class Namer:
    """names for function applications, array reads and the like, so that nlsat sees plain polynomials"""
    def __init__(self, other=False): self.m = {}; self.c = {}; self.other = other
    def run(self, e):
        i = e.get_id()
        if i in self.m: return self.m[i][0]
        if not z3.is_app(e) or e.num_args() == 0: r = e
        else:
            k = e.decl().kind()
            if self.other and e.sort() == B and any(x.sort() not in (R, B) for x in e.children()):       # an atom about something else
                r = z3.FreshConst(B, "nb"); self.m[i] = (r, e)
                return r
            if e.sort() in (R, I, B) and (k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) or k == z3.Z3_OP_TO_REAL and not is_num(e)):
                r = self.c.get(i)
                if r is None: r = z3.FreshConst(R if e.sort() == I else e.sort(), "nm"); self.c[i] = r
            elif e.sort() == B and any(isinstance(x.sort(), z3.ArraySortRef) for x in e.children()): r = z3.FreshConst(B, "nb")
            else:
                ch = [self.run(x) for x in e.children()]
                r = rebuild(e, ch)
        self.m[i] = (r, e)
        return r

CASEY = [False]      # ground case analysis over every conditional of the goal, asked for by a contract (opts casey)
def reads(g):
    """reads of written arrays as conditionals"""
    memo = {}
    def run(e):
        i = e.get_id()
        if i in memo: return memo[i]
        if not z3.is_app(e) or e.num_args() == 0: r = e
        else:
            ch = [run(c) for c in e.children()]
            if z3.is_select(e) and len(ch) == 2 and z3.is_store(ch[0]):
                a, k = ch; r = None; st = []
                while z3.is_store(a): st.append((a.arg(1), a.arg(2))); a = a.arg(0)
                r = z3.Select(a, k)
                for p, v in reversed(st): r = z3.If(k == p, run(v), r)
            else: r = e if all(z3.eq(x, y) for x, y in zip(ch, e.children())) else rebuild(e, ch)
        memo[i] = r
        return r
    return run(g)
class Casey:
    """case analysis on the conditions of a quantifier-free goal's conditionals, innermost first; pruned with the ground hypotheses"""
    def __init__(self, timeout): self.end = time.time() + 3 * timeout / 1000; self.n = 0
    def find(self, g):
        memo = {}
        def ites(e):
            i = e.get_id()
            if i not in memo: memo[i] = not z3.is_quantifier(e) and (e.decl().kind() == z3.Z3_OP_ITE or any(ites(c) for c in e.children()))
            return memo[i]
        seen = set(); st = [g]; late = None
        while st:
            x = st.pop(0)
            if x.get_id() in seen or not z3.is_app(x): continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_ITE:
                todo = [x.arg(0)]
                while todo:
                    c = todo.pop(0)
                    if z3.is_not(c) or z3.is_and(c) or z3.is_or(c): todo = c.children() + todo; continue
                    if z3.is_true(c) or z3.is_false(c) or has_quant_c(c): continue
                    if not ites(c): return c
            st.extend(x.children())
        return late
    def go(self, H, G, g, lvl=0):
        if time.time() > self.end: return False
        if z3.is_true(g): return True
        if z3.is_and(g): return all(self.go(H, G, c, lvl) for c in g.children())
        c = self.find(g) if lvl < 24 else None
        if c is None and lvl < 24:
            g2 = reads(g)
            if not z3.eq(g2, g): return self.go(H, G, z3.simplify(g2), lvl + 1)
        if c is None:
            self.n += 1
            if z3.is_false(g): return quick_unsat(H, 500)
            return attempt_abs(G, NOT(g), 1000)[0] == z3.unsat or attempt_abs(H, NOT(g), 3000)[0] == z3.unsat
        for v in (True, False):
            a = c if v else NOT(c)
            if quick_unsat(G + [a], 150): continue
            g2 = z3.simplify(z3.substitute(g, (c, z3.BoolVal(v))))
            if not self.go(H + [a], G + [a], g2, lvl + 1): return False
        return True
class Leafer:
    def __init__(self, H, timeout): self.H, self.timeout = H, timeout; self.n = 0; self.end = time.time() + min(40, timeout / 250)
    def find(self, g):
        seen = set(); st = [g]; best = None
        while st:
            x = st.pop(0)
            if x.get_id() in seen or not z3.is_app(x): continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_ITE and x.sort() in (R, I):
                c = x.arg(0)
                while z3.is_not(c) or z3.is_and(c) or z3.is_or(c): c = c.arg(0)
                if best is None or True:
                    if not any(z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE and y.sort() in (R, I) for y in subterms([c])): return c
            st.extend(x.children())
        return None
    def go(self, H, g, lvl):
        if time.time() > self.end: return False
        if z3.is_true(g): return True
        if z3.is_and(g): return all(self.go(H, c, lvl) for c in g.children())
        if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_IMPLIES: return self.go(H + [g.arg(0)], g.arg(1), lvl)
        c = self.find(z3.And(g, *[h for h in H if not has_quant_c(h)])) if lvl < 14 else None
        if c is not None:
            for v in (True, False):
                a = c if v else NOT(c); bv = z3.BoolVal(v)
                H2 = [z3.simplify(z3.substitute(h, (c, bv))) if not has_quant_c(h) else h for h in H] + [a]
                if any(z3.is_false(h) for h in H2): continue
                if quick_unsat(H2, 100): continue
                if not self.go(H2, z3.simplify(z3.substitute(g, (c, bv))), lvl + 1): return False
            return True
        return self.leaf(H, g)
    def leaf(self, H, g):
        self.n += 1
        qf = [h for h in H if not has_quant_c(h) and not has_sum(h)]
        ng = NOT(g)
        qf = qf + ground_axioms(qf + [ng])
        nm = Namer()
        nb = Namer(True); nb.c = nm.c; gs = []
        for f in qf + [ng]:
            try: h = nm.run(f)
            except z3.Z3Exception:
                if not CASES[0]: return False
                h = None
            gs.append(h if h is not None and arith_only(h) else nb.run(f) if CASES[0] else f)
        fs = [f for f in gs if arith_only(f)]
        if not fs: return False
        s = z3.SimpleSolver(); limit(s, 400)
        for f in fs: s.add(f)
        if s.check() == z3.unsat: return True
        # polynomials rewritten in terms of the names the specification gives them
        try: fd = Folder(fs[:-1])
        except OverflowError: fd = None
        if fd is not None and fd.defs:
            ff = []
            try:
                for f in fs[:-1]:
                    h = fd.run(f)
                    if not z3.is_true(h): ff.append(h)
                last = fd.run(fs[-1]); ff += fd.extra; ff.append(last)
                if z3.is_false(z3.simplify(ff[-1])): return True
                for sub in (near_facts(ff), ff):
                    s = z3.SimpleSolver(); limit(s, 400)
                    for f in sub: s.add(f)
                    if s.check() == z3.unsat: return True
                    if nlsat(sub, z3.BoolVal(True), 1500) == z3.unsat: return True
            except OverflowError: pass
        if nlsat(fs, z3.BoolVal(True), 1500) == z3.unsat: return True
        near = near_facts(fs)
        return len(near) < len(fs) and nlsat(near, z3.BoolVal(True), 1500) == z3.unsat
class IteNamer:
    """real-valued conditionals become names with two guarded definitions"""
    def __init__(self): self.m = {}; self.defs = []
    def run(self, e):
        i = e.get_id()
        if i in self.m: return self.m[i][0]
        if not z3.is_app(e) or e.num_args() == 0: r = e
        else:
            ch = [self.run(c) for c in e.children()]
            if e.decl().kind() == z3.Z3_OP_ITE and e.sort() == R:
                r = z3.FreshConst(R, "cond"); self.defs += [z3.Implies(ch[0], r == ch[1]), z3.Implies(NOT(ch[0]), r == ch[2])]
            elif all(a.eq(b) for a, b in zip(ch, e.children())): r = e
            else: r = rebuild(e, ch)
        self.m[i] = (r, e)
        return r
_mi = {}
def mul_ite_cond(es):
    """condition of a conditional that stands under a product"""
    for t in subterms(es):
        if z3.is_app(t) and t.sort() == R and t.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and sum(not is_num(c) for c in t.children()) > 1:
            i = t.get_id()
            if i not in _mi:
                r = None
                for u in subterms([t]):
                    if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE and u.sort() == R:
                        c = u.arg(0)
                        if not any(z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE and y.sort() == R for y in subterms([c])): r = c; break
                _mi[i] = (r, t)
            if _mi[i][0] is not None: return _mi[i][0]
    return None
def split_folded(H, g, lvl=0):
    H = [h for h in H if not has_quant_c(h)]
    c = mul_ite_cond(H + [g]) if lvl < 6 else None
    if c is None: return folded(H, g)
    for v in (True, False):
        bv = z3.BoolVal(v)
        H2 = [z3.simplify(z3.substitute(h, (c, bv))) for h in H] + [c if v else NOT(c)]
        if any(z3.is_false(h) for h in H2) or quick_unsat(H2, 100): continue
        if not split_folded(H2, z3.simplify(z3.substitute(g, (c, bv))), lvl + 1): return False
    return True
def folded(H, g):
    """the whole goal at once: conditionals named, polynomials rewritten through the specification's names"""
    qf = [h for h in H if not has_quant_c(h) and not has_sum(h)]
    ng = NOT(g); it = IteNamer(); nm = Namer()
    try:
        qf = [it.run(h) for h in qf] + it.defs
        it.defs = []; ng = it.run(ng); qf += it.defs
        qf += ground_axioms(qf + [ng])
        fs = [nm.run(f) for f in qf + [ng]]
    except z3.Z3Exception: return False
    fs = [z3.simplify(f) for f in fs if arith_only(f)]
    if not fs: return False
    try:
        fd = Folder(fs[:-1]); ff = [fd.run(f) for f in fs[:-1]]; last = fd.run(fs[-1])
        ff = [f for f in ff + fd.extra if not z3.is_true(f)] + [last]
    except OverflowError: return False
    if z3.is_false(z3.simplify(last)): return True
    # linear first: monomials as atoms
    ab = Abstractor(); s = z3.SimpleSolver(); limit(s, 3000)
    try:
        for f in ff: s.add(ab.run(f))
        if s.check() == z3.unsat: return True
    except OverflowError: pass
    s = z3.SimpleSolver(); limit(s, 1000)
    for f in ff: s.add(f)
    if s.check() == z3.unsat: return True
    return nlsat(ff, z3.BoolVal(True), 2000) == z3.unsat
def near_facts(fs):
    """the facts connected to the last one through variables, definitions of polynomials left out"""
    gv = vars_of(fs[-1]); out = []; rest = list(fs[:-1])
    for _ in range(2):
        for f in list(rest):
            v = vars_of(f)
            if v and (v <= gv or len(v - gv) <= 1 and v & gv): out.append(f); rest.remove(f)
        for f in out: gv = gv | vars_of(f)
    return out + fs[-1:]
class Folder:
    """rewrites polynomials through the definitions `name == polynomial` whenever that makes them shorter"""
    def __init__(self, facts):
        self.ab = Abstractor(); self.defs = []; self.own = set(); self.memo = {}; self.quot = {}; self.extra = []
        for f in facts:
            if z3.is_eq(f) and f.arg(0).sort() == R:
                for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                    if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_app(b) and b.num_args() and not has_ite(b):
                        p = self.ab.poly(b)
                        if len(p) > 1 and (sexpr(a),) not in p and not any("inv!" in k for ks in p for k in ks):
                            self.defs.append((a, p)); self.own.add(f.get_id()); break
        self.defs.sort(key=lambda d: -len(d[1]))
    def shorten(self, p):
        again = True
        while again:
            again = False
            for a, d in self.defs:
                if len(d) > 2 * len(p): continue
                dk = sorted(d)[-1]
                for key in sorted(p):
                    rest = list(key)
                    if any(rest.count(k) < dk.count(k) for k in dk): continue
                    for k in dk: rest.remove(k)
                    m = {tuple(sorted(rest)): (p[key][0] / d[dk][0], tuple(x for _, x in sorted(zip(rest, [dict(zip(key, p[key][1]))[r] for r in rest]))) if rest else ())}
                    q = padd([p, pscale(pmul(m, d), -1), pmul(m, {(sexpr(a),): (Fraction(1), (a,))})])
                    if len(q) < len(p): p = q; again = True; break
        return p
    def term(self, p):
        r = z3.RealVal(0)
        for key in sorted(p):
            q, ats = p[key]; m = realnum(q)
            for a in ats: m = m * a
            r = r + m
        return z3.simplify(r)
    def arith(self, e):
        return self.term(self.shorten(self.ab.poly(e)))
    def run(self, f):
        i = f.get_id()
        if i in self.own: return z3.BoolVal(True)
        if i in self.memo: return self.memo[i][0]
        if z3.is_app(f) and f.num_args() and f.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and f.arg(0).sort() == R and not has_ite(f):
            a, b = self.divs(f.arg(0)), self.divs(f.arg(1))
            d = self.arith(a - b); z = z3.RealVal(0); k = f.decl().kind()
            r = z3.simplify(d <= z if k == z3.Z3_OP_LE else d >= z if k == z3.Z3_OP_GE else d < z if k == z3.Z3_OP_LT else d > z if k == z3.Z3_OP_GT else d == z)
        elif z3.is_app(f) and f.num_args() and f.sort() == B: r = rebuild(f, [self.run(c) if c.sort() == B else c for c in f.children()])
        else: r = f
        self.memo[i] = (r, f)
        return r
    def divs(self, e):
        """quotients become named constants, their operands shortened; the name keeps its meaning through the added definition"""
        if not z3.is_app(e) or e.num_args() == 0: return e
        k = e.decl().kind()
        if k == z3.Z3_OP_DIV and not is_num(e.arg(1)):
            a, b = self.arith(self.divs(e.arg(0))), self.arith(self.divs(e.arg(1)))
            key = (sexpr(a), sexpr(b))
            if key not in self.quot:
                q = z3.FreshConst(R, "quot"); self.quot[key] = q
                self.extra.append(z3.Implies(b != 0, q * b == a))
            return self.quot[key]
        return rebuild(e, [self.divs(c) for c in e.children()])
def has_ite(e): return any(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE for t in subterms([e]))
def vars_of(e): return {t.get_id() for t in subterms([e]) if z3.is_app(t) and t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED}
def arith_only(f):
    for t in subterms([f]):
        if z3.is_quantifier(t): return False
        if z3.is_app(t):
            if t.sort() not in (R, B): return False
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: return False
    return True

def attempt_abs(H, ng, timeout):
    ab = Abstractor()
    try:
        base = H + [ng]
        facts = sum_facts(base)
        facts += fold_facts(base + facts)
        facts += ground_axioms(base + facts)
        s = z3.SimpleSolver()
        limit(s, timeout)
        s.set("smt.mbqi", False)
        for f in base + facts: s.add(ab.run(f))
        for f in ab.inv_facts(): s.add(f)
        r = s.check()
        return r, s, facts
    except OverflowError:
        return z3.unknown, None, []

def nlsat(facts, ng, timeout):
    try:
        t = z3.Then("simplify", "purify-arith", "solve-eqs", "elim-term-ite", "qfnra-nlsat") if False else z3.Tactic("qfnra-nlsat")
        g = [f for f in facts if pure_arith(f)]
        if not pure_arith(ng): return z3.unknown
        s = z3.Then("simplify", "purify-arith", "elim-term-ite", "solve-eqs", "tseitin-cnf", "qfnra-nlsat").solver(); limit(s, timeout)
        for f in g: s.add(f)
        s.add(ng)
        return s.check()
    except z3.Z3Exception:
        return z3.unknown

def pure_arith(f):
    for t in subterms([f]):
        if z3.is_quantifier(t): return False
        if z3.is_app(t):
            if isinstance(t.sort(), z3.ArraySortRef): return False
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0: return False
            if t.sort() == I and not is_num(t): return False
    return True

def cvc5_unsat(facts, timeout):
    s = z3.Solver()
    for f in facts: s.add(f)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        import tempfile
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt); fn = f.name
        r = subprocess.run(["cvc5", "--tlimit=%d" % (3 * timeout), "--rlimit=%d" % (100 * timeout), "--nl-cov", fn], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=3 * timeout / 1000 + 5)
        os.unlink(fn)
        return r.stdout.decode().strip().startswith("unsat")
    except Exception:
        return False

_split_memo = {}
def sum_apps(e):
    return [t for t in subterms([e]) if z3.is_app(t) and t.num_args() and t.decl().name() in SUM_BY_DECL]
_hs = {}
def has_sum(e):
    r = _hs.get(e.get_id())
    if r is None: r = (bool(sum_apps(e)), e); _hs[e.get_id()] = r
    return r[0]

def collapse_sums(e):
    """empty sums are 0"""
    rep = []
    for t in sum_apps(e):
        d = z3.simplify(t.arg(1) - t.arg(0))
        if z3.is_int_value(d) and d.as_long() == 0: rep.append((t, z3.RealVal(0) if t.sort() == R else z3.IntVal(0)))
    return z3.substitute(e, *rep) if rep else e

def find_cond(g):
    """condition of an outermost conditional of g (not below a sum or quantifier)"""
    seen = set(); st = [g]
    best = None
    while st:
        x = st.pop(0)
        if x.get_id() in seen or z3.is_quantifier(x) or not z3.is_app(x): continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE:
            c = x.arg(0)
            while True:
                if z3.is_not(c): c = c.arg(0); continue
                if z3.is_and(c) or z3.is_or(c):
                    c = c.arg(0); continue
                break
            if not has_quant_c(c): return c
        st.extend(x.children())
    return None

class Splitter:
    """goal-directed proof of a quantifier-free goal with sums: case split on conditionals, substitute equalities, cancel, and
    only then look for sum lemmas (vanishing sums, gaps between ranges, pointwise equal summands), each proved before use"""
    def __init__(self, timeout, depth, budget=60):
        self.timeout, self.depth = timeout, depth; self.end = time.time() + 3 * min(budget, 4 + timeout / 250); self.leafs = 0
    def unsat(self, H, quick=False):
        if quick_unsat(H, 150): return True
        if quick: return False
        ab = Abstractor()
        s = z3.SimpleSolver(); limit(s, 400); s.set("smt.mbqi", False)
        try:
            for f in H: s.add(ab.run(f))
        except OverflowError: return False
        return s.check() == z3.unsat
    def replace(self, g, c, val):
        g2 = z3.substitute(g, (c, z3.BoolVal(val)))
        if val and z3.is_eq(c):
            a, b = c.children()
            for x, y in ((a, b), (b, a)):
                if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not depends(y, x):
                    g2 = z3.substitute(g2, (x, y)); break
        return z3.simplify(g2)
    def go(self, H, g, lvl):
        if time.time() > self.end: return False
        if z3.is_true(g): return True
        if z3.is_and(g): return all(self.go(H, c, lvl) for c in g.children())
        c = find_cond(g) if lvl < 10 else None
        if c is None: return self.leaf(H, g)
        for val in (True, False):
            a = c if val else NOT(c)
            H2 = H + [a]
            if self.unsat(H2): continue
            if not self.go(H2, self.replace(g, c, val), lvl + 1): return False
        return True
    def leaf(self, H, g):
        self.leafs += 1
        if z3.is_false(g): return self.unsat(H)
        to = min(self.timeout, 1500)
        r, _, _ = attempt_abs(H, NOT(g), to)
        if r == z3.unsat: return True
        if not (z3.is_eq(g) and g.arg(0).sort() in (R, I)) or not sum_apps(g): return CASES[0] and bool(sum_apps(g)) and self.transfer(H, g)
        d = g.arg(0) - g.arg(1)
        for rnd in range(8):
            if time.time() > self.end: return False
            d = self.norm(collapse_sums(d))
            if d is None: return False
            if is_num(d): return numval(d) == 0
            nd = self.step(H, d)
            if nd is None: nd = self.together(H, d)
            if nd is None: break
            d = nd
            r, _, _ = attempt_abs(H, NOT(d == (z3.RealVal(0) if d.sort() == R else z3.IntVal(0))), to)
            if r == z3.unsat: return True
        return False
    def transfer(self, H, g):
        """a comparison of a sum, from a hypothesis that defines a name as a sum: the two sums cancel"""
        true = set()
        def conj(f):
            if z3.is_and(f): return [x for c in f.children() for x in conj(c)]
            return [f]
        fs = [x for h in H for x in conj(h)]
        done = set(); more = True
        while more:
            more = False
            for f in fs: true.add(f.get_id())
            for f in list(fs):
                if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES and f.get_id() not in done and all(c.get_id() in true for c in conj(f.arg(0))): done.add(f.get_id()); fs += conj(f.arg(1)); more = True
        H = [f for f in fs if not (z3.is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES and (z3.simplify(z3.Not(f.arg(0))).get_id() in true or NOT(f.arg(0)).get_id() in true))]
        defs = [f for f in fs if z3.is_app(f) and z3.is_eq(f) and f.arg(0).sort() == R and not has_quant_c(f) and sum_apps(f)]
        S = sum_apps(g); S = [t for t in S if not any(u is not t and depends_t(u, t) for u in S)]
        new = []
        atoms = [a for a in (g.children() if z3.is_or(g) else [g])]
        for at in atoms:
            if z3.is_not(at): at = at.arg(0)
            if not (z3.is_app(at) and at.num_args() == 2 and at.arg(0).sort() == R and sum_apps(at)): continue
            for f in defs:
                if time.time() > self.end: return False
                for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                    if not sum_apps(b) or sum_apps(a): continue
                    for side in at.children():
                        if sum_apps(side) and self.leaf(H, side == b): new.append(side == a)
        return bool(new) and attempt_abs(H + new, NOT(g), 1500)[0] == z3.unsat
    def norm(self, d):
        if d.sort() == I: return z3.simplify(d, som=True)
        ab = Abstractor()
        try: p = ab.poly(d)
        except OverflowError: return None
        # rebuild with real products (atoms rewritten below functions are kept: args are canonical)
        t = None
        for key in sorted(p):
            q, ats = p[key]
            m = mul_list([unabs(x, ab) for x in ats]) if ats else z3.RealVal(1)
            if q != 1: m = realnum(q) * m
            t = m if t is None else t + m
        return t if t is not None else z3.RealVal(0)
    def ptw(self, H, s1, a1, s2, a2, lo, hi):
        k = z3.FreshConst(I, "lk")
        zero = z3.RealVal(0) if s1.body.sort() == R else z3.IntVal(0)
        f1 = s1.f(k, a1); f2 = s2.f(k, a2) if s2 is not None else zero
        key = (tuple(sorted(set(h.get_id() for h in H))), s1.S.name(), tuple(x.get_id() for x in a1), s2.S.name() if s2 else None, tuple(x.get_id() for x in a2) if s2 else None, lo.get_id(), hi.get_id())
        r = _ptw_memo.get(key)
        if r is None:
            H2 = H + [lo <= k, k < hi]
            if self.unsat(H2): ok = True
            else:
                g = uncommon(f1, f2)
                ok = (g is not None and attempt_abs(H2, NOT(g), 400)[0] == z3.unsat) or bool(prove(H2, f1 == f2, timeout=700, depth=self.depth + 1, native=False))
            r = _ptw_memo[key] = (ok, H, a1, a2, lo, hi)
        return r[0]
    def le(self, H, a, b):
        c = z3.simplify(a <= b)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.unsat(H + [NOT(c)])
    def step(self, H, d):
        """one rewriting of d by a proved lemma"""
        apps = sum_apps(d)
        apps = [t for t in apps if not any(u is not t and depends_t(u, t) for u in apps)] or apps
        apps.sort(key=sexpr)
        items = [(SUM_BY_DECL[t.decl().name()], t.children(), t) for t in apps]
        zero = lambda t: z3.RealVal(0) if t.sort() == R else z3.IntVal(0)
        # equal modulo hypotheses
        for i, (s1, a1, t1) in enumerate(items):
            for s2, a2, t2 in items[i + 1:]:
                if s1 is s2 and self.unsat(H + [z3.Or(*[x != y for x, y in zip(a1, a2) if not z3.eq(x, y)])] if any(not z3.eq(x, y) for x, y in zip(a1, a2)) and not any(isinstance(x.sort(), z3.ArraySortRef) and not z3.eq(x, y) for x, y in zip(a1, a2)) else H):
                    return z3.substitute(d, (t1, t2))
        for i, (s1, a1, t1) in enumerate(items):
            for s2, a2, t2 in items[i + 1:]:
                same = s1 is s2 and all(z3.eq(x, y) for x, y in zip(a1[2:], a2[2:]))
                lo_eq, hi_eq = z3.eq(a1[0], a2[0]), z3.eq(a1[1], a2[1])
                if same:
                    # S(a,b) = S(c,d) + S(a,c) - S(b,d)
                    nw = t2
                    if not lo_eq: nw = nw + s1.S(a1[0], a2[0], *a1[2:])
                    if not hi_eq: nw = nw - s1.S(a1[1], a2[1], *a1[2:])
                    fixed = []
                    okk = True
                    for x, y in ((a1[0], a2[0]),) * (not lo_eq) + ((a1[1], a2[1]),) * (not hi_eq):
                        dd = z3.simplify(y - x)
                        if z3.is_int_value(dd) and abs(dd.as_long()) <= 3: continue
                        if self.le(H, x, y) and self.ptw(H, s1, a1[2:], None, None, x, y): fixed.append((s1.S(x, y, *a1[2:]), zero(t1)))
                        elif self.le(H, y, x) and self.ptw(H, s1, a1[2:], None, None, y, x): fixed.append((s1.S(x, y, *a1[2:]), zero(t1)))
                        else: okk = False
                    if okk:
                        # constant gaps are unfolded
                        for x, y in ((a1[0], a2[0]),) * (not lo_eq) + ((a1[1], a2[1]),) * (not hi_eq):
                            dd = z3.simplify(y - x)
                            if z3.is_int_value(dd) and abs(dd.as_long()) <= 3:
                                n = dd.as_long(); v = zero(t1)
                                for q in range(abs(n)): v = v + s1.f(z3.simplify((x if n > 0 else y) + q), a1[2:])
                                fixed.append((s1.S(x, y, *a1[2:]), v if n > 0 else -v))
                        return z3.substitute(d, (t1, z3.substitute(nw, *fixed)))
                elif lo_eq and hi_eq:
                    if self.ptw(H, s1, a1[2:], s2, a2[2:], a1[0], a1[1]) and self.le(H, a1[0], a1[1]): return z3.substitute(d, (t1, t2))
        for s1, a1, t1 in items:
            if self.le(H, a1[0], a1[1]) and self.ptw(H, s1, a1[2:], None, None, a1[0], a1[1]): return z3.substitute(d, (t1, zero(t1)))
        # congruent up to vanishing or constant-length ends
        for i, (s1, a1, t1) in enumerate(items):
            for s2, a2, t2 in items[i + 1:]:
                if s1 is s2 and all(z3.eq(x, y) for x, y in zip(a1[2:], a2[2:])): continue
                lo_eq, hi_eq = z3.eq(a1[0], a2[0]), z3.eq(a1[1], a2[1])
                if lo_eq == hi_eq: continue
                for (sa, aa, ta, sb, ab_, tb) in ((s1, a1, t1, s2, a2, t2), (s2, a2, t2, s1, a1, t1)):
                    # aa's range inside ab_'s range: tb = ta + rest
                    if lo_eq:
                        if self.le(H, aa[0], aa[1]) and self.le(H, aa[1], ab_[1]) and self.ptw(H, sa, aa[2:], sb, ab_[2:], aa[0], aa[1]):
                            return z3.substitute(d, (tb, ta + sb.S(aa[1], ab_[1], *ab_[2:])))
                    else:
                        if self.le(H, aa[0], aa[1]) and self.le(H, ab_[0], aa[0]) and self.ptw(H, sa, aa[2:], sb, ab_[2:], aa[0], aa[1]):
                            return z3.substitute(d, (tb, ta + sb.S(ab_[0], aa[0], *ab_[2:])))
        # a guard that cuts the range: sum over the part where it holds
        for s1, a1, t1 in items:
            r = self.cut(H, s1, a1)
            if r is not None: return z3.substitute(d, (t1, r))
        # the same summands at shifted positions
        for i, (s1, a1, t1) in enumerate(items):
            for s2, a2, t2 in items[i + 1:]:
                if (z3.eq(a1[0], a2[0]) and z3.eq(a1[1], a2[1])) or t1.sort() != t2.sort(): continue
                dd = z3.simplify((a1[1] - a1[0]) - (a2[1] - a2[0]))
                if not (z3.is_int_value(dd) and dd.as_long() == 0): continue
                k = z3.FreshConst(I, "lk"); H2 = H + [a1[0] <= k, k < a1[1]]
                if self.unsat(H2) or prove(H2, s1.f(k, a1[2:]) == s2.f(z3.simplify(k - a1[0] + a2[0]), a2[2:]), timeout=700, depth=self.depth + 1, native=False): return z3.substitute(d, (t1, t2))
        return None
    def together(self, H, d):
        """sums over one range whose summands, weighted as they occur, cancel pointwise"""
        if d.sort() != R: return None
        apps = sum_apps(d)
        if any(u is not t and depends_t(u, t) for t in apps for u in apps): return None
        groups = {}
        for t in apps: groups.setdefault((t.arg(0).get_id(), t.arg(1).get_id()), []).append(t)
        for ts in groups.values():
            if len(ts) < 2: continue
            lo, hi = ts[0].arg(0), ts[0].arg(1)
            zero = [(t, z3.RealVal(0)) for t in ts]; d0 = z3.substitute(d, *zero)
            lin = d if d.decl().kind() == z3.Z3_OP_ADD else None
            mons = lin.children() if lin is not None else [d]
            if any(sum(1 for t in ts if depends_t(m, t)) > 1 for m in mons): continue
            if any(depends_t(m, t) and not (m.eq(t) or (m.decl().kind() == z3.Z3_OP_MUL and sum(1 for c in m.children() if c.eq(t)) == 1 and not any(depends_t(c, t) and not c.eq(t) for c in m.children()))) for m in mons for t in ts): continue
            k = z3.FreshConst(I, "lk")
            d1 = z3.substitute(d, *[(t, SUM_BY_DECL[t.decl().name()].f(k, t.children()[2:])) for t in ts])
            if self.le(H, lo, hi) and prove(H + [lo <= k, k < hi], d1 == d0, timeout=1500, depth=self.depth + 1, native=False): return d0
        return None
    def cut(self, H, s1, a1):
        b = s1.body
        if not (z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE) or not is_num(b.arg(2)) or numval(b.arg(2)) != 0: return None
        gs = flat_guards([b.arg(0)]); k = s1.kvar; ps = list(zip(s1.params, a1[2:]))
        for g in gs:
            neg = z3.is_not(g); h = g.arg(0) if neg else g
            op = h.decl().kind() if z3.is_app(h) and h.num_args() == 2 else None
            if op not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or h.arg(0).sort() != I: continue
            z = z3.simplify(h.arg(0) - h.arg(1), som=True); sg = z3.simplify(z3.substitute(z, (k, k + 1)) - z, som=True)
            if not z3.is_int_value(sg) or abs(sg.as_long()) != 1: continue
            r = z3.simplify(z3.substitute(z, (k, z3.IntVal(0)))); up = sg.as_long() == 1      # h.arg(0)-h.arg(1) == +-k + r
            if depends(r, k): continue
            strict = op in (z3.Z3_OP_LT, z3.Z3_OP_GT); less = op in (z3.Z3_OP_LE, z3.Z3_OP_LT)
            # k + r < 0 , k + r <= 0 , k + r > 0 ...   with up;  -k + r < 0  ==  k > r otherwise
            c = isimp_(-r) if up else r; below = less == up
            # the guard says  k (<|<=) c  when below, k (>|>=) c otherwise; negated for Not
            if neg: below = not below; strict = not strict
            c = z3.substitute(c, *ps) if ps else c
            end = z3.simplify(c if strict == below else c + 1)       # below: k < end; otherwise k >= end
            rest = [x for x in gs if x is not g]
            nb = guarded(rest, b.arg(1))
            lo, hi = a1[0], a1[1]
            if not self.le(H, lo, hi): return None
            mk = lambda x, y: Sum((z3.substitute(nb, *ps) if ps else nb), x, y, k)
            if self.le(H, lo, end) and self.le(H, end, hi): return mk(lo, end) if below else mk(end, hi)
        return None
_ptw_memo = {}
def uncommon(a, b):
    """a stronger equation than a == b: without the factors every monomial of the difference has"""
    if a.sort() != R: return None
    ab = Abstractor()
    try: p = ab.poly(a - b)
    except OverflowError: return None
    if not p: return None
    common = None
    for key, (q, ats) in p.items():
        common = list(key) if common is None else [x for x in common if x in key]
    if not common: return None
    common = list(dict.fromkeys(common)); ts = []
    for key, (q, ats) in p.items():
        rest = list(ats); ks = list(key)
        for x in common: i = ks.index(x); del ks[i]; del rest[i]
        m = realnum(q)
        for x in rest: m = m * unabs(x, ab)
        ts.append(m)
    return functools.reduce(lambda x, y: x + y, ts) == 0
def depends_t(u, t):
    """t occurs strictly inside u"""
    if z3.eq(u, t): return False
    return any(z3.eq(x, t) for x in subterms([u]))
_unabs_memo = {}
def unabs(e, ab):
    """undo mul!/inv! abstraction in an atom"""
    if not z3.is_app(e) or e.num_args() == 0: return e
    hit = _unabs_memo.get(e.get_id())
    if hit is not None: return hit[1]
    ch = [unabs(c, ab) for c in e.children()]
    n = e.decl().name()
    if n in ("mul!", "imul!"): r = ch[0] * ch[1]
    elif n == "inv!": r = z3.RealVal(1) / ch[0]
    elif all(z3.eq(a, b) for a, b in zip(ch, e.children())): r = e
    else: r = rebuild(e, ch)
    _unabs_memo[e.get_id()] = (e, r)
    return r
