"""Verification-condition generator: forward symbolic execution of the clang AST, one function at a time.

Calls go to the callee's contract where one is registered, otherwise the callee's own (extracted) body
is inlined.  Loops are cut by invariants: inferred closed forms and templates plus contract-supplied
candidates, every one of them proved by induction (initiation + consecution) before it is used.
"""
import re, time
from fractions import Fraction
import z3
from cppast import ExtractError, norm_type, Func, loc_line
import vals
from vals import (TInt, TReal, TBool, TVoid, TRec, TVec, TArr, TMap, TPtr, TOpaque, Val, sel, mk_ite, mk_ieq, isimp,
                  fresh, fresh_val, default_val, range_facts, leaves, INT_W)
import smt
from smt import AND, OR, NOT, Sum

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
INF = z3.Real("inf!")
DBL_MAX = z3.Real("dblmax!")
NANV = z3.Real("nan!")
SQRT = z3.Function("sqrt!", R, R)
SIN = z3.Function("sin!", R, R)
COS = z3.Function("cos!", R, R)
EXP = z3.Function("exp!", R, R)
ATAN2 = z3.Function("atan2!", R, R, R)
POWF = z3.Function("pow!", R, R, R)
ISNAN = z3.Function("isnan!", R, B)

def sumsq(x):
    if z3.is_add(x): return all(sumsq(q) for q in x.children())
    return z3.is_mul(x) and x.num_args() == 2 and z3.eq(x.arg(0), x.arg(1))
def _math_axioms(es):
    out = []
    for t in smt.subterms(es):
        if not z3.is_app(t) or t.num_args() == 0: continue
        d = t.decl()
        if d.eq(SQRT):
            x = t.arg(0)
            out.append(t >= 0); out.append(t * t == x if sumsq(x) else z3.Implies(x >= 0, t * t == x)); out.append((t == 0) == (x <= 0) if False else z3.Implies(x > 0, t > 0))
        elif d.eq(EXP): out.append(t > 0)
        elif d.eq(SIN): out.append(t * t + COS(t.arg(0)) * COS(t.arg(0)) == 1)
        elif d.eq(COS): out.append(t * t + SIN(t.arg(0)) * SIN(t.arg(0)) == 1)
    return out
smt.AXIOMS.append(_math_axioms)

def has_toint(e):
    todo = [e]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_TO_INT): return True
        todo += x.children()
    return False
class Dead(Exception): pass          # the current path ended by an exception

class LV:
    __slots__ = ("root", "steps", "t")
    def __init__(self, root, steps, t): self.root, self.steps, self.t = root, steps, t
    def f(self, name): return LV(self.root, self.steps + (("f", name),), self.t.ftype(name))
    def i(self, ix): return LV(self.root, self.steps + (("i", ix),), self.t.e)
    def k(self, key): return LV(self.root, self.steps + (("k", key),), self.t.v)
    def path(self): return tuple(s[1] if s[0] == "f" else "#" if s[0] == "i" else "@" for s in self.steps)
    def idx(self): return [s[1] for s in self.steps if s[0] != "f"]
    def same(self, o):
        return (isinstance(o, LV) and self.root == o.root and len(self.steps) == len(o.steps) and
                all(a[0] == b[0] and (a[1] == b[1] if a[0] == "f" else z3.eq(a[1], b[1])) for a, b in zip(self.steps, o.steps)))
    def __repr__(self): return "LV(%s%s)" % (self.root, "".join("." + str(s[1]) if s[0] == "f" else "[%s]" % s[1] for s in self.steps))

class It:            # iterator: position pos in container cont (LV); maps are walked through an enumeration
    def __init__(self, cont, pos, kind, en=None): self.cont, self.pos, self.kind, self.en = cont, pos, kind, en
class Lam:
    def __init__(self, node, env, this, tu): self.node, self.env, self.this, self.tu = node, env, this, tu
class FnRef:
    def __init__(self, decl): self.decl = decl
class PtrLV:         # pointer to an lvalue (never stored in memory)
    def __init__(self, lv): self.lv = lv
class Opaque:
    def __init__(self, why=""): self.why = why
class MapElem:       # pair view of one map entry: first = key, second = LV
    def __init__(self, key, lv): self.key, self.lv = key, lv

class State:
    __slots__ = ("roots", "env", "this", "tu", "pc", "fn")
    def __init__(self): self.roots = {}; self.env = {}; self.this = None; self.tu = None; self.pc = []; self.fn = None
    def clone(self):
        s = State(); s.roots = dict(self.roots); s.env = dict(self.env); s.this = self.this; s.tu = self.tu; s.pc = list(self.pc); s.fn = self.fn
        return s
    def fact(self, f):
        if not z3.is_true(f): self.pc.append(("f", f))
    def branch(self, c):
        if not z3.is_true(c): self.pc.append(("b", c))
    def facts(self): return [x for _, x in self.pc]

class Obl:
    def __init__(self, name, hyps, goal, line=None, kind="assert"):
        self.name, self.hyps, self.goal, self.line, self.kind = name, hyps, goal, line, kind

class MapEnum:
    """enumeration of the keys of one map value: ord : [0,n) -> keys, pos its inverse"""
    cnt = [0]
    def __init__(self, dom, size):
        MapEnum.cnt[0] += 1
        n = MapEnum.cnt[0]
        self.ord = z3.Function("ord!%d" % n, I, I); self.pos = z3.Function("pos!%d" % n, I, I)
        self.dom, self.size = dom, size
    def facts(self):
        t = z3.Int("t!e"); k = z3.Int("k!e")
        return [z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < self.size), z3.And(sel(self.dom, self.ord(t)), self.pos(self.ord(t)) == t)), patterns=[self.ord(t)]),
                z3.ForAll([k], z3.Implies(sel(self.dom, k), z3.And(0 <= self.pos(k), self.pos(k) < self.size, self.ord(self.pos(k)) == k)), patterns=[self.pos(k)]),
                z3.ForAll([t], z3.And(self.ord(t) >= 0, self.ord(t) < (1 << 64)), patterns=[self.ord(t)])]
INVERSE = {}      # function name -> inverse function (injective on the relevant range)

def ty_of(node):
    t = node.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType") or "void"

class Exec:
    def __init__(self, prog, opts=None):
        self.prog = prog               # program.Program: functions of all translation units, types, contracts
        self.obls = []
        self.anyfacts = []
        self.exits = []                # ('thr', state, message)
        self.mute = 0
        self.depth = 0
        self.nroot = 0
        self.opts = opts or {}
        self.candidates = []           # contract-supplied loop-invariant candidates: f(ctx) -> [(name, formula)]
        self.cut = self.steps = None
        self.loopinfo = []
        self.assumptions = set()
        self.inlined = set(); self.called_contracts = set()
        self.icache = {}
        self.funcname = "?"
        self.enums = {}
        self.deadline = None
        self.ghost = {}
        self.loopcount = 0
        self.usedinv = []
        self.thrlog = []
    # ------------------------------------------------------------ basics
    def newroot(self, hint="t"):
        self.nroot += 1
        return "%s#%d" % (hint, self.nroot)
    def alloc(self, st, v, hint="t"):
        r = self.newroot(hint); st.roots[r] = v
        return LV(r, (), v.t)
    def obl(self, st, name, goal, node=None, kind="safety"):
        if z3.is_true(goal): return
        if not self.mute: self.obls.append(Obl(self.funcname + "::" + name, st.facts(), goal, loc_line(node) if node else None, kind))
        st.fact(goal)
    def implied(self, st, c, timeout=150):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        fs = st.facts()
        key = (tuple(f.get_id() for f in fs), c.get_id())
        r = self.icache.get(key)
        if r is None:
            r = (smt.quick_unsat(fs + [NOT(c)], timeout), fs, c)
            self.icache[key] = r
        return r[0]
    def implied_full(self, st, c, timeout=1500):
        """implied, with the quantified facts"""
        if self.implied(st, c): return True
        fs = st.facts()
        key = (tuple(f.get_id() for f in fs), c.get_id(), "full")
        r = self.icache.get(key)
        if r is None:
            r = (bool(smt.prove(fs, c, timeout=timeout, lemmas=False, native=False)), fs, c); self.icache[key] = r
        return r[0]
    def infeasible(self, st): return self.implied(st, z3.BoolVal(False)) if False else self._infeas(st)
    def _infeas(self, st):
        fs = st.facts()
        if any(z3.is_false(f) for f in fs): return True
        key = (tuple(f.get_id() for f in fs), -1)
        r = self.icache.get(key)
        if r is None:
            r = (smt.quick_unsat(fs, 150), fs); self.icache[key] = r
        return r[0]
    def throw(self, st, msg="exception"):
        if not self.mute: self.exits.append(("thr", st.clone(), msg))
        self.thrlog.append(st.clone())
        raise Dead()
    # ------------------------------------------------------------ memory
    def read(self, st, lv):
        if lv.root not in st.roots: raise ExtractError("read of unknown object %r" % lv)
        base = st.roots[lv.root]; pre = lv.path(); ix = lv.idx(); n = len(pre)
        d = {}
        for p, e in base.d.items():
            if p[:n] == pre:
                for i in ix: e = sel(e, i)
                d[p[n:]] = e
        if isinstance(lv.t, (TInt, TReal)) and ix: d[()] = self.undecide(st, d[()])
        v = Val(lv.t, d)
        self.typing(st, v)
        return v
    def undecide(self, st, e):
        """a conditional value whose case the path decides"""
        for _ in range(8):
            if not (z3.is_app_of(e, z3.Z3_OP_ITE) and smt.has_sum(e) and not smt.has_quant_c(e.arg(0))): break
            if self.implied(st, e.arg(0)): e = e.arg(1)
            elif self.implied(st, NOT(e.arg(0))): e = e.arg(2)
            else: break
        return e
    def typing(self, st, v):
        t = v.t
        if isinstance(t, TInt):
            e = v.d[()]
            if z3.is_int_value(e): return
            lo = -(1 << (t.w - 1)) if t.s else 0; hi = (1 << (t.w - 1)) if t.s else (1 << t.w)
            self.addrange(st, e, lo, hi)
        elif isinstance(t, TVec):
            e = v.d[("len",)]
            if not z3.is_int_value(e): self.addrange(st, e, 0, vals.LENMAX)
        elif isinstance(t, TMap):
            e = v.d[("size",)]
            if not z3.is_int_value(e): self.addrange(st, e, 0, 1 << 32)
            self.maprep(st, v)
        elif isinstance(t, TRec):
            for n_, ft in t.fields:
                if isinstance(ft, TMap): self.maprep(st, v.field(n_))
                if isinstance(ft, (TInt, TVec)): self.typing(st, v.field(n_))
    def maprep(self, st, v):
        """representation of a map: absent keys hold the value-initialised object"""
        dom = v.d[("dom",)]
        if not (z3.is_app(dom) and dom.num_args() == 0): return
        for p, e in v.d.items():
            if p[0] != "@" or not (z3.is_app(e) and e.num_args() == 0): continue
            k = z3.Const("k!rep", I)
            f = z3.ForAll([k], z3.Or(sel(dom, k), sel(e, k) == vals.default_leaf(e.sort().range())), patterns=[sel(e, k)])
            if not any(z3.eq(x, f) for _, x in st.pc): st.fact(f)
    def addrange(self, st, e, lo, hi):
        # bound variables of spec formulas never reach here: only program reads
        f1 = e >= lo; f2 = e < hi
        ids = None
        for tag, x in reversed(st.pc[-60:]):
            if z3.eq(x, f1): return
        st.fact(f1); st.fact(f2)
    def write(self, st, lv, v):
        base = st.roots[lv.root]; pre = lv.path(); ix = lv.idx(); n = len(pre)
        d = dict(base.d)
        for p, e in v.d.items():
            q = pre + p
            if q not in d: raise ExtractError("write: no leaf %r in %r" % (q, base.t))
            def st_(a, k):
                if k == len(ix): return e
                return z3.Store(a, ix[k], st_(sel(a, ix[k]) if k + 1 <= len(ix) - 1 else sel(a, ix[k]), k + 1)) if k < len(ix) else e
            def stn(a, k):
                if k == len(ix): return e
                return z3.Store(a, ix[k], stn(sel(a, ix[k]), k + 1))
            x = stn(d[q], 0)
            if x.sort() != d[q].sort():
                raise ExtractError("sort mismatch writing %r: %s vs %s" % (lv, x.sort(), d[q].sort()))
            d[q] = x
        st.roots[lv.root] = Val(base.t, d)
    def rv(self, st, x):
        """rvalue"""
        if isinstance(x, LV): return self.read(st, x)
        return x
    def conv(self, st, v, t):
        """convert a scalar value to type t"""
        if not isinstance(v, Val): return v
        if repr(v.t) == repr(t): return v
        if isinstance(t, TReal):
            if isinstance(v.t, TReal): return Val(t, v.d)
            if isinstance(v.t, TInt): return Val(t, {(): toreal(v.z)})
            if isinstance(v.t, TBool): return Val(t, {(): mk_ite(v.z, z3.RealVal(1), z3.RealVal(0))})
        if isinstance(t, TInt):
            if isinstance(v.t, TInt): return Val(t, {(): self.wrap(st, v.z, t)})
            if isinstance(v.t, TBool): return Val(t, {(): mk_ite(v.z, z3.IntVal(1), z3.IntVal(0))})
            if isinstance(v.t, TReal):
                x = v.z
                if z3.is_to_real(x): e = x.arg(0)
                else:
                    e = z3.ToInt(x) if self.implied(st, x >= 0) else z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
                    if z3.is_rational_value(x): e = z3.simplify(e)
                return Val(t, {(): self.wrap(st, e, t)})
            if isinstance(v.t, TPtr): return Val(t, v.d)
        if isinstance(t, TBool):
            if isinstance(v.t, TInt): return Val(t, {(): z3.simplify(v.z != 0)})
            if isinstance(v.t, TReal): return Val(t, {(): v.z != 0})
            if isinstance(v.t, TPtr): return Val(t, {(): v.z != 0})
        if isinstance(t, TRec) and isinstance(v.t, TRec):
            return coerce_rec(v, t)
        if isinstance(t, (TVec,)) and isinstance(v.t, TVec): return Val(t, v.d)
        if isinstance(t, TPtr): return Val(t, v.d)
        if isinstance(t, (TOpaque, TVoid)): return v
        return v
    def wrap(self, st, e, t):
        e = isimp(e)
        lo = -(1 << (t.w - 1)) if t.s else 0; hi = (1 << (t.w - 1)) if t.s else (1 << t.w)
        if z3.is_int_value(e):
            x = e.as_long()
            if lo <= x < hi: return e
            m = x % (1 << t.w)
            if t.s and m >= hi: m -= 1 << t.w
            return z3.IntVal(m)
        # x % 2^w with a smaller modulus is already in range
        if z3.is_mod(e) and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() <= hi: return e
        if self.implied(st, z3.And(e >= lo, e < hi)): return e
        if (smt.has_sum(e) or has_toint(e)) and self.implied_full(st, z3.And(e >= lo, e < hi), 800): return e
        if t.s:
            # signed: value-preserving conversions are implementation defined beyond the range; keep modular meaning
            m = e % (1 << t.w)
            return z3.If(m >= hi, m - (1 << t.w), m)
        return e % (1 << t.w)
    # ------------------------------------------------------------ merging
    def merge(self, states, base):
        """states: list of State sharing pc[:base]; returns one state"""
        states = [s for s in states if s is not None]
        if not states: return None
        if len(states) == 1: return states[0]
        conds = [AND([x for tag, x in s.pc[base:] if tag == "b"]) for s in states]
        m = states[-1].clone(); m.pc = list(states[0].pc[:base])
        allc = z3.simplify(OR(conds))
        if not z3.is_true(allc) and not smt.quick_unsat([NOT(allc)], 100): m.branch(OR(conds))
        for c, s in zip(conds, states):
            for tag, x in s.pc[base:]:
                if tag == "f":
                    m.fact(x if z3.is_true(c) else z3.Implies(c, x))
        rr = {}
        for s in states:
            for r in s.roots: rr.setdefault(r, None)
        for r in rr:
            vs = [(c, s.roots[r]) for c, s in zip(conds, states) if r in s.roots]
            v = vs[-1][1]
            for c, w in reversed(vs[:-1]):
                if w is v: continue
                v = merge_val(c, w, v)
            m.roots[r] = v
        # environments
        for k in list(m.env):
            bs = [(c, s.env.get(k)) for c, s in zip(conds, states)]
            v = bs[-1][1]
            for c, w in reversed(bs[:-1]):
                if w is v or w is None or v is None: continue
                v = self.merge_special(c, w, v)
            m.env[k] = v
        return m
    def merge_special(self, c, a, b):
        if a is b: return a
        if isinstance(a, LV) and isinstance(b, LV):
            if a.same(b): return a
            # same shape, different indices
            if a.root == b.root and len(a.steps) == len(b.steps) and all(x[0] == y[0] and (x[0] != "f" or x[1] == y[1]) for x, y in zip(a.steps, b.steps)):
                return LV(a.root, tuple(x if x[0] == "f" else (x[0], mk_ite(c, x[1], y[1])) for x, y in zip(a.steps, b.steps)), a.t)
            raise ExtractError("cannot merge references %r / %r" % (a, b))
        if isinstance(a, It) and isinstance(b, It) and a.cont.same(b.cont) and a.kind == b.kind:
            if a.en is not None and b.en is not None and a.en is not b.en: raise ExtractError("iterators of different enumerations")
            return It(a.cont, mk_ite(c, a.pos, b.pos), a.kind, a.en or b.en)
        if isinstance(a, Val) and isinstance(b, Val): return merge_val(c, a, b)
        if isinstance(a, PtrLV) and isinstance(b, PtrLV): return PtrLV(self.merge_special(c, a.lv, b.lv))
        if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque("merge")
        if type(a) is type(b) and isinstance(a, (Lam, FnRef)): return a
        raise ExtractError("cannot merge %r / %r" % (a, b))
    def cond_exec(self, st, c, f, g):
        """evaluate f in the branch c, g in the branch not c; merge state into st, return merged value"""
        c = z3.simplify(c) if not smt.has_quant_c(c) else c
        if z3.is_true(c): return f(st)
        if z3.is_false(c): return g(st)
        base = len(st.pc); out = []
        for cc, h in ((c, f), (NOT(c), g)):
            s = st.clone(); s.branch(cc)
            if self._infeas(s): continue
            try: v = h(s); out.append((s, v))
            except Dead: pass
        if not out: raise Dead()
        if len(out) == 1: self.assign_state(st, out[0][0]); return out[0][1]
        (s1, v1), (s2, v2) = out
        m = self.merge([s1, s2], base)
        self.assign_state(st, m)
        if v1 is None or v2 is None: return None
        if isinstance(v1, LV) and isinstance(v2, LV):
            try: return self.merge_special(c, v1, v2)
            except ExtractError: pass
        if isinstance(v1, LV): v1 = self.read(s1, v1)
        if isinstance(v2, LV): v2 = self.read(s2, v2)
        return self.merge_special(c, v1, v2)
    def assign_state(self, st, o):
        st.roots, st.env, st.this, st.tu, st.pc, st.fn = o.roots, o.env, o.this, o.tu, o.pc, o.fn
    def merge_returns(self, outs, base):
        """outs: [(state, value)]; pairwise exclusive branch conditions"""
        if len(outs) == 1: return outs[0]
        conds = [AND([x for tag, x in s.pc[base:] if tag == "b"]) for s, _ in outs]
        m = self.merge([s for s, _ in outs], base)
        v = outs[-1][1]
        for c, (s, w) in reversed(list(zip(conds, outs))[:-1]):
            if w is None and v is None: continue
            if isinstance(w, LV) and isinstance(v, LV):
                try: v = self.merge_special(c, w, v); continue
                except ExtractError: pass
            if isinstance(v, LV): v = self.read(m, v)
            if isinstance(w, LV): w = self.read(s, w)
            v = self.merge_special(c, w, v)
        return m, v

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        """returns (normal state or None, outs) ; outs = [(kind, state, value)]"""
        outs = []
        cur = st
        for s in stmts:
            if cur is None: break
            cur, o = self.stmt(s, cur)
            outs += o
        return cur, outs

    def stmt(self, n, st):
        if not n or "kind" not in n: return st, []
        k = n["kind"]
        if self.deadline and time.time() > self.deadline: raise ExtractError("time budget exhausted in " + self.funcname)
        try:
            m = getattr(self, "s_" + k, None)
            if m is not None: return m(n, st)
            if k.endswith("Stmt") and k not in ("ExprStmt",):
                raise ExtractError("statement %s (line %s)" % (k, loc_line(n)))
            self.ev(n, st)
            return st, []
        except Dead:
            return None, []
    def s_CompoundStmt(self, n, st):
        return self.block(n.get("inner", []) or [], st)
    def s_NullStmt(self, n, st): return st, []
    def s_DeclStmt(self, n, st):
        for d in n.get("inner", []) or []: self.decl(d, st)
        return st, []
    def s_BreakStmt(self, n, st): return None, [("brk", st, None)]
    def s_ContinueStmt(self, n, st): return None, [("cont", st, None)]
    def s_ReturnStmt(self, n, st):
        inner = [x for x in n.get("inner", []) or [] if x]
        v = None
        if inner:
            v = self.ev(inner[0], st)
            fn = st.fn
            if fn is not None and not fn["ref"]:
                if isinstance(v, LV): v = self.read(st, v)
                if fn["ret"] is not None and isinstance(v, Val): v = self.conv(st, v, fn["ret"])
        return None, [("ret", st, v)]
    def s_CXXThrowExpr(self, n, st):
        self.throw(st, "throw")
    def s_IfStmt(self, n, st):
        inner = n.get("inner", []) or []
        i = 0
        if n.get("hasInit"):
            st, o = self.stmt(inner[i], st); i += 1
        if n.get("hasVar"):
            st, o = self.stmt(inner[i], st); i += 1
        c = self.truth(inner[i], st); i += 1
        then = inner[i]; els = inner[i + 1] if n.get("hasElse") else None
        c = z3.simplify(c) if not smt.has_quant_c(c) else c
        if z3.is_true(c): return self.stmt(then, st)
        if z3.is_false(c): return self.stmt(els, st) if els else (st, [])
        base = len(st.pc); outs = []; norm = []
        a = st.clone(); a.branch(c); self.resimp(a, st)
        if not self._infeas(a):
            s, o = self.stmt(then, a); outs += o; norm.append(s)
        b = st.clone(); b.branch(NOT(c)); self.resimp(b, st)
        if not self._infeas(b):
            if els: s, o = self.stmt(els, b); outs += o; norm.append(s)
            else: norm.append(b)
        norm = [s for s in norm if s is not None]
        return self.merge(norm, base), outs
    def resimp(self, s, before):
        """drop modular wrap of scalars that the branch condition rules out"""
        for r, v in s.roots.items():
            if () in v.d and isinstance(v.t, TInt):
                e = v.d[()]
                if z3.is_mod(e) and z3.is_int_value(e.arg(1)):
                    x = e.arg(0)
                    if self.implied(s, z3.And(x >= 0, x < e.arg(1))): s.roots[r] = Val(v.t, {(): x})
    def s_ForStmt(self, n, st):
        inner = n.get("inner", []) or []
        init, condvar, cond, inc, body = (inner + [None] * 5)[:5]
        if init and init.get("kind"): st, _ = self.stmt(init, st)
        if st is None: return None, []
        cf = (lambda s: self.truth(cond, s)) if cond and cond.get("kind") else (lambda s: z3.BoolVal(True))
        bf = lambda s: self.stmt(body, s)
        nf = (lambda s: self.ev(inc, s)) if inc and inc.get("kind") else (lambda s: None)
        return self.run_loop(st, cf, bf, nf, loc_line(n))
    def s_WhileStmt(self, n, st):
        inner = [x for x in n.get("inner", []) or [] if x]
        cond, body = inner[-2], inner[-1]
        return self.run_loop(st, lambda s: self.truth(cond, s), lambda s: self.stmt(body, s), lambda s: None, loc_line(n))
    def s_DoStmt(self, n, st):
        inner = [x for x in n.get("inner", []) or [] if x]
        body, cond = inner[0], inner[1]
        first = self.alloc(st, Val(TBool(), {(): z3.BoolVal(True)}), "do")
        def cf(s):
            f = self.read(s, first).z
            if z3.is_true(f): r = z3.BoolVal(True)
            else: r = self.cond_exec(s, f, lambda q: Val(TBool(), {(): z3.BoolVal(True)}), lambda q: Val(TBool(), {(): self.truth(cond, q)})).z
            self.write(s, first, Val(TBool(), {(): z3.BoolVal(False)}))
            return r
        # do { B } while (c)  ==  B; while (c) B   (no break/continue duplication problem: body run once, then loop)
        base = len(st.pc)
        s, outs = self.stmt(body, st)
        conts = [o[1] for o in outs if o[0] == "cont"]; brks = [o for o in outs if o[0] == "brk"]
        outs = [o for o in outs if o[0] == "ret"]
        s = self.merge([x for x in [s] + conts if x is not None], base)
        norm = [b[1] for b in brks]
        if s is not None:
            s, o = self.run_loop(s, lambda q: self.truth(cond, q), lambda q: self.stmt(body, q), lambda q: None, loc_line(n))
            outs += o
            if s is not None: norm.append(s)
        return self.merge(norm, base), outs
    def s_CXXForRangeStmt(self, n, st):
        inner = n.get("inner", []) or []
        rng, beg, end, cond, inc, lv, body = inner[-7:]
        # range expression
        rdecl = rng["inner"][0]
        cont = self.ev(rdecl["inner"][0], st)
        if isinstance(cont, Val): cont = self.alloc(st, cont, "range")
        if not isinstance(cont, LV): raise ExtractError("range-for over %r" % cont)
        var = lv["inner"][0]
        return self.range_loop(st, cont, lambda s, el: self.bind_loopvar(var, s, el), lambda s: self.stmt(body, s), loc_line(n))
    def bind_loopvar(self, var, s, el):
        """bind the loop variable declaration to the element"""
        if var["kind"] == "DecompositionDecl":
            self.bind_decomposition(var, s, el); return
        ts = ty_of(var)
        if ts.rstrip().endswith("&"):
            s.env[var["id"]] = el if not isinstance(el, Val) else self.alloc(s, el, var.get("name", "v"))
        else:
            t = self.prog.ty(ts)
            if isinstance(el, MapElem):
                s.env[var["id"]] = MapElem(el.key, self.alloc(s, self.read(s, el.lv), var.get("name", "v")))
            else:
                v = self.rv(s, el)
                s.env[var["id"]] = self.alloc(s, self.conv(s, v, t) if isinstance(v, Val) else v, var.get("name", "v"))
    def bind_decomposition(self, var, s, el):
        binds = [b for b in var["inner"] if b.get("kind") == "BindingDecl"]
        isref = ty_of(var).rstrip().endswith("&")
        if isinstance(el, MapElem):
            key = Val(TInt(64, False), {(): el.key})
            comps = [self.alloc(s, key, "key"), el.lv if isref else self.alloc(s, self.read(s, el.lv), "val")]
        else:
            if isinstance(el, Val): el = self.alloc(s, el, "dec")
            elif not isref: el = self.alloc(s, self.read(s, el), "dec")
            if isinstance(el.t, TRec): comps = [el.f(f) for f, _ in el.t.fields]
            elif isinstance(el.t, TArr): comps = [el.i(z3.IntVal(i)) for i in range(el.t.n)]
            else: raise ExtractError("structured binding of %r" % el.t)
        for b, c in zip(binds, comps):
            s.env[b["id"]] = c
            for x in b.get("inner", []) or []:
                if x and x.get("kind") == "VarDecl": s.env[x["id"]] = c
                if x and x.get("kind") == "DeclRefExpr" and x.get("referencedDecl", {}).get("kind") == "VarDecl": s.env[x["referencedDecl"]["id"]] = c
    def range_loop(self, st, cont, bind, bodyf, line):
        it = self.alloc(st, Val(TInt(64, True), {(): z3.IntVal(0)}), "it")
        t = cont.t
        if isinstance(t, TArr):
            ln = lambda s: z3.IntVal(t.n); elem = lambda s, i: cont.i(i)
        elif isinstance(t, TVec):
            ln = lambda s: self.read(s, cont).d[("len",)]; elem = lambda s, i: cont.i(i)
        elif isinstance(t, TMap):
            en = self.enum_of(st, cont)
            ln = lambda s: en.size; elem = lambda s, i: MapElem(en.ord(i), cont.k(en.ord(i)))
        else: raise ExtractError("range-for over %r" % t)
        n0 = ln(st)
        cf = lambda s: z3.simplify(self.read(s, it).z < n0)
        def bf(s):
            i = self.read(s, it).z
            el = elem(s, i)
            if isinstance(el, MapElem): s.fact(sel(en.dom, el.key)); s.fact(en.pos(el.key) == i); s.fact(z3.And(el.key >= 0, el.key < (1 << 64)))
            bind(s, el)
            return bodyf(s)
        def nf(s): self.write(s, it, Val(TInt(64, True), {(): isimp(self.read(s, it).z + 1)}))
        return self.run_loop(st, cf, bf, nf, line, counter=it)
    def enum_of(self, st, cont):
        v = self.read(st, cont)
        dom = v.d[("dom",)]; key = dom.get_id()
        if key in self.enums: en = self.enums[key][0]
        else:
            en = MapEnum(dom, v.d[("size",)]); self.enums[key] = (en, dom)
            INVERSE[en.ord.name()] = en.pos
        for f in en.facts():
            if not any(z3.eq(f, x) for _, x in st.pc): st.fact(f)
        return en
    # ------------------------------------------------------------ declarations
    def decl(self, d, st):
        k = d.get("kind")
        if k in ("CXXRecordDecl", "TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl", "EmptyDecl", "UsingDirectiveDecl", "FunctionDecl"): return
        if k == "DecompositionDecl":
            init = [x for x in d["inner"] if x and x.get("kind") != "BindingDecl"]
            el = self.ev(init[0], st)
            self.bind_decomposition(d, st, el); return
        if k != "VarDecl": raise ExtractError("declaration " + str(k))
        ts = ty_of(d); name = d.get("name", "v")
        init = [x for x in d.get("inner", []) or [] if x and not x.get("kind", "").endswith("Attr")]
        if d.get("storageClass") == "static" and not d.get("constexpr"):
            raise ExtractError("static local " + name)
        if ts.rstrip().endswith("&"):
            v = self.ev(init[0], st)
            if isinstance(v, Val): v = self.alloc(st, v, name)
            st.env[d["id"]] = v; return
        if "(lambda" in ts or "lambda at" in ts:
            st.env[d["id"]] = self.ev(init[0], st); return
        if init:
            v = self.ev(init[0], st)
            if isinstance(v, LV): v = self.read(st, v)
            if isinstance(v, Val):
                t = self.prog.ty(ts)
                if isinstance(t, TOpaque) and not isinstance(v.t, TOpaque): t = v.t
                v = self.conv(st, v, t)
                st.env[d["id"]] = self.alloc(st, v, name)
            elif isinstance(v, It):
                st.env[d["id"]] = self.alloc_it(st, v)
            else: st.env[d["id"]] = v
            return
        t = self.prog.ty(ts)
        if isinstance(t, TOpaque): st.env[d["id"]] = Opaque(ts); return
        v = fresh_val(t, "uninit_" + name)
        st.env[d["id"]] = self.alloc(st, v, name)
    def alloc_it(self, st, it):
        """iterator variables: position in a scalar root so that loops can see it change"""
        lv = self.alloc(st, Val(TInt(64, True), {(): it.pos}), "iter")
        return ItVar(lv, it.cont, it.kind, it.en)
    def truth(self, n, st):
        v = self.rv(st, self.ev(n, st))
        if isinstance(v, Val): return self.conv(st, v, TBool()).z
        if isinstance(v, PtrLV): return z3.BoolVal(True)
        raise ExtractError("condition %r" % v)

class ItVar:
    def __init__(self, lv, cont, kind, en): self.lv, self.cont, self.kind, self.en = lv, cont, kind, en

def toreal(e):
    if z3.is_int_value(e): return z3.RealVal(e.as_long())
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE: return mk_ite(e.arg(0), toreal(e.arg(1)), toreal(e.arg(2)))
    return z3.ToReal(e)

def merge_val(c, a, b):
    if set(a.d) != set(b.d): raise ExtractError("merge of values of different shape %r %r" % (a.t, b.t))
    return Val(a.t, {p: mk_ite(c, a.d[p], b.d[p]) for p in a.d})

def coerce_rec(v, t):
    """derived <-> base: same leaves, restricted to the target's fields"""
    if t.name == v.t.name: return v
    names = {n for n, _ in t.fields}
    have = {n for n, _ in v.t.fields}
    if names <= have: return Val(t, {p: e for p, e in v.d.items() if p[0] in names})
    if t.name.startswith("std::pair") or v.t.name.startswith("std::pair"):
        return Val(t, v.d)
    raise ExtractError("record conversion %r -> %r" % (v.t, t))
