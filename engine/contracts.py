"""Contracts: pre/postconditions, frame and exception conditions of functions of /repo; call-site use and verification."""
import time, itertools, re
import z3
from cppast import ExtractError, norm_type, loc_line
import vals, smt
from vals import (Val, TInt, TReal, TBool, TVoid, TRec, TVec, TArr, TMap, TPtr, TOpaque, sel, mk_ite, isimp, fresh, fresh_val, leaves, default_val)
from smt import AND, OR, NOT, Sum, depends
from sexec import Exec, State, LV, Obl, Dead, It, ItVar, ty_of, I, R, B, PtrLV, MapElem
from sexpr import ExprMixin
from loops import LoopMixin

class Engine(LoopMixin, ExprMixin, Exec):
    pass

class Heap:
    """objects reached through stored pointers: a pointer value is the object's number in one ghost sequence"""
    def __init__(self, ename, root): self.ename, self.root = ename, root
    def address(self, ex, st, lv): return None
    def lv(self, st): return LV(self.root, (), st.roots[self.root].t)
    def target(self, ex, st, v):
        if self.root in st.roots and isinstance(v.t.e, TRec) and v.t.e.name == self.ename: return self.lv(st).i(v.z)
        return None
    def setup(self, c, ex, st):
        lv = ex.alloc(st, fresh_val(TVec(ex.prog.ty(self.ename)), self.root), self.root); st.roots[self.root] = st.roots.pop(lv.root) if lv.root != self.root else st.roots[self.root]
        ex.typing(st, st.roots[self.root]); c.heap = st.roots[self.root]

class Ctx:
    """argument and result values seen by a specification; old values unless .new is asked for"""
    def __init__(self):
        self.ghosts = []; self.anys = []; self.old = []; self.newv = []; self.this = None; self.this_new = None; self.res = None; self.ex = None; self.st = None
    def __getitem__(self, i): return self.old[i]
    def ghost(self, e, hint="g"):
        """a name for a term; its definition is a hypothesis of every postcondition"""
        k = fresh(e.sort(), hint); self.ghosts.append(k == e); return k
    def any(self, hint="t", sort=None):
        """an arbitrary value: postconditions that mention it hold for every value"""
        k = fresh(sort if sort is not None else z3.RealSort(), hint + str(len(self.anys))); self.anys.append(k); return k
    def new(self, i): return self.newv[i] if i != "this" else self.this_new

def veq(a, b, name=""):
    """observable equality of two values of one type"""
    out = []
    def go(t, da, db, nm):
        if isinstance(t, (TInt, TReal, TBool, TPtr)):
            if not z3.eq(da[()], db[()]): out.append((nm, da[()] == db[()]))
        elif isinstance(t, TRec):
            for f, ft in t.fields:
                go(ft, {p[1:]: e for p, e in da.items() if p and p[0] == f}, {p[1:]: e for p, e in db.items() if p and p[0] == f}, nm + "." + f)
        elif isinstance(t, (TVec, TArr)):
            ln = da[("len",)] if isinstance(t, TVec) else z3.IntVal(t.n)
            if isinstance(t, TVec) and not z3.eq(da[("len",)], db[("len",)]): out.append((nm + ".size", da[("len",)] == db[("len",)]))
            ea = {p[1:]: e for p, e in da.items() if p[0] == "#"}; eb = {p[1:]: e for p, e in db.items() if p[0] == "#"}
            if all(z3.eq(ea[p], eb[p]) for p in ea): return
            k = fresh(I, "i")
            sub = []
            nonlocal_out = out[:]
            del out[:]
            go(t.e, {p: sel(e, k) for p, e in ea.items()}, {p: sel(e, k) for p, e in eb.items()}, nm + "[i]")
            sub = out[:]; out[:] = nonlocal_out
            for n_, f in sub: out.append((n_, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln), f))))
        elif isinstance(t, TMap):
            k = fresh(I, "key")
            if not z3.eq(da[("size",)], db[("size",)]): out.append((nm + ".size", da[("size",)] == db[("size",)]))
            if not z3.eq(da[("dom",)], db[("dom",)]): out.append((nm + ".keys", z3.ForAll([k], sel(da[("dom",)], k) == sel(db[("dom",)], k))))
            ea = {p[1:]: e for p, e in da.items() if p[0] == "@"}; eb = {p[1:]: e for p, e in db.items() if p[0] == "@"}
            if all(z3.eq(ea[p], eb[p]) for p in ea): return
            keep = out[:]; del out[:]
            go(t.v, {p: sel(e, k) for p, e in ea.items()}, {p: sel(e, k) for p, e in eb.items()}, nm + "[key]")
            sub = out[:]; out[:] = keep
            for n_, f in sub: out.append((n_, z3.ForAll([k], z3.Implies(z3.And(sel(db[("dom",)], k)), f))))
    go(a.t, a.d, b.d, name)
    return out

class Contract:
    """
    qname, ptypes        : function of /repo
    requires(c)          : [(name, formula)]
    throws(c)            : formula: the call raises exactly in these states (None: never)
    effects(c)           : {index or 'this' or (index, field..): Val} new values, functional
    modifies             : indices (or 'this', or (i, field)) that may change without a functional description
    result(c)            : Val
    ensures(c)           : [(name, formula)]
    alias                : groups of parameter indices to verify as one object, besides all distinct
    """
    def __init__(self, qname, ptypes=None, requires=None, throws=None, effects=None, modifies=(), result=None, ensures=None,
                 alias=(), candidates=(), inline_only=False, lemma=None, setup=None, props=(), use=True, timeout=10000, throw_frame=True, opts=None, select=None, label=None,
                 throws_if=None, ghost_effects=None, pure=None, result_ref=None, private=(), inductions=None, lemmas=None):
        self.qname, self.ptypes = qname, ptypes
        self.requires = requires or (lambda c: []); self.throws = throws; self.effects = effects; self.modifies = tuple(modifies)
        self.result = result; self.ensures = ensures or (lambda c: []); self.alias = [()] + [tuple(a) for a in alias]
        self.candidates = list(candidates); self.setup = setup; self.props = props; self.use = use; self.timeout = timeout
        self.throw_frame = throw_frame; self.opts = opts or {}; self.fn = None; self.select = select; self.label = label or qname
        self.ghost_effects = ghost_effects      # on specification-only fields, at call sites (the bodies never mention them)
        self.result_ref = result_ref    # the place a returned pointer or reference denotes
        self.inductions = inductions    # [(name, parameters, k, lo, hi, formula)]: for all parameters, every k in lo..hi
        self.lemmas = lemmas            # [(name, formula)]: consequences of the requires, proved in order and then available
        self.private = tuple(private)   # names of postconditions callers are not told (sound: they know less)
        self.pure = pure                # name of a function symbol that stands for the scalar result
        self.throws_if = throws_if      # necessary condition only (exceptions allowed, not required)
    def resolve(self, prog):
        r = prog.find(self.qname, self.ptypes)
        if self.select: r = [f for f in r if self.select(f)]
        if len(r) != 1: raise ExtractError("%d definitions of %s(%s) in the current tree" % (len(r), self.qname, ", ".join(self.ptypes) if self.ptypes is not None else "..."))
        self.fn = r[0]
        return self.fn
    # ---------------------------------------------------------------- call site
    def apply(self, ex, st, fn, argv, obj, n):
        lvs = []
        for p, a in zip(fn.params, argv):
            ts = ty_of(p)
            if ts.rstrip().endswith("&"):
                if isinstance(a, Val): a = ex.alloc(st, ex.conv(st, a, ex.prog.ty(ts)), p.get("name", "p"))
                if not isinstance(a, LV): raise ExtractError("argument %r of %s" % (a, fn.qname))
                lvs.append(a)
            else:
                v = ex.rv(st, a)
                if not isinstance(v, Val): raise ExtractError("argument %r of %s" % (v, fn.qname))
                lvs.append(ex.alloc(st, ex.conv(st, v, ex.prog.ty(ts)), p.get("name", "p")))
        if len(argv) < len(fn.params): raise ExtractError("default arguments of contracted " + fn.qname)
        def val(lv, s, t): 
            v = ex.read(s, lv)
            if isinstance(t, TRec) and isinstance(v.t, TRec) and v.t.name != t.name:
                from sexec import coerce_rec
                v = coerce_rec(v, t)
            return v
        c = Ctx(); c.ex = ex; c.st = st
        pts = [ex.prog.ty(ty_of(p)) for p in fn.params]
        c.old = [val(l, st, t) for l, t in zip(lvs, pts)]
        if obj is not None: c.this = ex.read(st, obj)
        for nm, f in [q for q in self.requires(c) if not q[0].startswith('assume')]: ex.obl(st, "precondition of %s: %s" % (fn.qname, nm), f, n, "requires")
        if self.throws is not None:
            t = self.throws(c)
            t = z3.simplify(t) if not smt.has_quant_c(t) else t
            if not z3.is_false(t):
                s = st.clone(); s.branch(t)
                if not ex._infeas(s):
                    try: ex.throw(s, fn.qname)
                    except Dead: pass
                st.branch(NOT(t))
                if ex._infeas(st): raise Dead()
        elif self.throws_if is not None:
            s = st.clone(); t = fresh(B, "thr"); s.branch(t); s.fact(self.throws_if(c))
            try: ex.throw(s, fn.qname)
            except Dead: pass
            st.branch(NOT(t))
        for eff in (self.effects, self.ghost_effects):
            if eff is None: continue
            eff = eff(c)
            for k, v in eff.items():
                lv = self.target(k, lvs, obj)
                tgt = ex.read(st, lv)
                if tgt.t != v.t:
                    v = Val(tgt.t, v.d)
                ex.write(st, lv, v)
        for k in self.modifies:
            lv = self.target(k, lvs, obj)
            ex.write(st, lv, fresh_val(lv.t, "m"))
        c.newv = [val(l, st, t) for l, t in zip(lvs, pts)]
        if obj is not None: c.this_new = ex.read(st, obj)
        ref = None
        if self.result_ref is not None:
            ref = self.result_ref(c, obj, lvs); c.res = ex.read(st, ref)
        elif self.result is not None: c.res = self.result(c)
        elif fn.rettype.strip() not in ("void",) and fn.kind != "CXXConstructorDecl":
            rt = ex.prog.ty(norm_type(fn.rettype))
            if self.pure:
                args = [e for v in c.old + ([c.this] if obj is not None else []) for _, e in sorted(v.d.items())]
                c.res = self.symbol(rt, args)
            else: c.res = fresh_val(rt, "r")
            ex.typing(st, c.res)
        ens = self.ensures(c)
        gdef = []
        for g in c.ghosts: gdef.append((g.arg(0), z3.substitute(g.arg(1), *gdef) if gdef else g.arg(1)))
        bad = [k for k, e in gdef if any(depends(e, a) for a in c.anys)]       # names of terms about arbitrary values: written out
        for k, e in gdef:
            if not any(z3.eq(k, b) for b in bad): st.fact(k == e)
        bad = [(k, e) for k, e in gdef if any(z3.eq(k, b) for b in bad)]
        for it in ens:
            if it[0].startswith("lemma") or it[0] in self.private: continue
            if bad: it = (it[0], z3.substitute(it[1], *bad))
            vs = [k for k in c.anys if depends(it[1], k)]
            st.fact(z3.ForAll(vs, it[1]) if vs else it[1])
            if vs: ex.anyfacts.append(([q for k2, q in st.pc if k2 == 'b'], c.anys, it[1]))
        from sexpr import VOID
        if ref is not None: return PtrLV(ref) if fn.rettype.strip().endswith("*") else ref
        return c.res if c.res is not None else VOID
    def symbol(self, rt, args):
        """the result as a function of everything the call reads"""
        sh = fresh_val(rt, "shape")
        return Val(rt, {p: z3.Function(self.pure + "".join("." + q for q in p), *([a.sort() for a in args] + [e.sort()]))(*args) for p, e in sh.d.items()})
    def applied(self, prog, args, this=None):
        """that symbol, for specifications"""
        if not self.fn: self.resolve(prog)
        return self.symbol(prog.ty(norm_type(self.fn.rettype)), [e for v in list(args) + ([this] if this is not None else []) for _, e in sorted(v.d.items())])
    def target(self, k, lvs, obj):
        if isinstance(k, tuple):
            lv = obj if k[0] == "this" else lvs[k[0]]
            for f in k[1:]: lv = lv.f(f)
            return lv
        return obj if k == "this" else lvs[k]
    # ---------------------------------------------------------------- verification
    def verify(self, prog, config=()):
        fn = self.fn
        ex = Engine(prog, dict(self.opts, self_contract=self)); smt.CASES[0] = bool(self.opts.get("cases")); smt.CASEY[0] = bool(self.opts.get("casey"))
        ex.funcname = fn.qname + ("(" + ",".join(fn.ptypes) + ")" if True else "") + ("[aliased %s]" % (config,) if config else "")
        ex.deadline = time.time() + self.opts.get("budget", 400)
        st = State(); st.tu = fn.tu
        t0 = time.time()
        argv = []; pts = []
        first = {}
        for i, p in enumerate(fn.params):
            t = prog.ty(ty_of(p)); pts.append(t)
            grp = config if i in config else None
            if grp and grp in first:
                argv.append(first[grp]); continue
            lv = ex.alloc(st, fresh_val(t, p.get("name") or "p%d" % i), p.get("name") or "p%d" % i)
            ex.typing(st, ex.read(st, lv))
            if grp: first[grp] = lv
            argv.append(lv)
        obj = None
        if fn.cls and not fn.is_static:
            t = prog.ty(fn.cls)
            if fn.kind == "CXXConstructorDecl":
                obj = ex.alloc(st, ex.fieldinit(st, t) if False else fresh_val(t, "raw"), "this")
                s0 = ex.fieldinit(st, t)
                st.roots[obj.root] = s0
            else:
                obj = ex.alloc(st, fresh_val(t, "this"), "this"); ex.typing(st, ex.read(st, obj))
        c = Ctx(); c.ex = ex; c.st = st
        c.old = [ex.read(st, a) for a in argv]
        c.argv = argv; c.obj = obj
        if obj is not None: c.this = ex.read(st, obj)
        if self.setup: self.setup(c, ex, st)
        for nm, f in self.requires(c): st.fact(f)
        for nm, ps, k, lo, hi, f in (self.inductions(c) if self.inductions else []):      # a lemma about the requires, by induction
            hy = st.facts()
            ex.obls.append(Obl(ex.funcname + "::lemma %s: base" % nm, hy + [lo <= hi], z3.substitute(f, (k, lo)), None, "lemma"))
            ex.obls.append(Obl(ex.funcname + "::lemma %s: step" % nm, hy + [lo <= k, k < hi, f], z3.substitute(f, (k, isimp(k + 1))), None, "lemma"))
            st.fact(z3.ForAll(ps + [k], z3.Implies(z3.And(lo <= k, k <= hi), f)))
        for nm, f in (self.lemmas(c) if self.lemmas else []):
            ex.obls.append(Obl(ex.funcname + "::lemma %s" % nm, st.facts(), f, None, "lemma")); st.fact(f)
        pre = st.clone()
        ex.candidates = [(lambda e, L, g=g: g(c, e, L)) for g in self.candidates]
        ex.cut = (lambda e, L, w: self.opts["cut"](c, e, L, w)) if self.opts.get("cut") else None
        ex.steps = (lambda e, L, a, b: self.opts["steps"](c, e, L, a, b)) if self.opts.get("steps") else None
        results = []
        vac = not smt.prove(pre.facts(), z3.BoolVal(False), timeout=1500, lemmas=False, native=False)
        dead = False
        callargs = [a if ty_of(p).rstrip().endswith("&") else ex.read(st, a) for a, p in zip(argv, fn.params)]
        try:
            res = ex.inline(st, fn, callargs, obj, None)
        except Dead: dead = True
        obls = ex.obls
        def add(s, name, goal, kind):
            obls.append(Obl(ex.funcname + "::" + name, s.facts(), goal, None, kind))
        thr = self.throws(c) if self.throws is not None else (None if self.throws_if is not None else z3.BoolVal(False))
        if not dead:
            c.newv = [ex.read(st, a) for a in argv]
            if obj is not None: c.this_new = ex.read(st, obj)
            from sexec import LV as _LV
            if isinstance(res, PtrLV): res = res.lv
            if isinstance(res, _LV): c.res_lv = res; res = ex.read(st, res)
            if self.result_ref is not None:
                ref = self.result_ref(c, obj, argv); lv = getattr(c, "res_lv", None)
                if lv is None or lv.root != ref.root or len(lv.steps) != len(ref.steps) or any(p[0] != q[0] or (p[0] == "f" and p[1] != q[1]) for p, q in zip(lv.steps, ref.steps)):
                    raise ExtractError("returned place of " + fn.qname)
                add(st, "denotes the specified place", AND([p[1] == q[1] for p, q in zip(lv.steps, ref.steps) if p[0] != "f"]), "ensures")
            c.res = res
            if self.pure and isinstance(res, Val): c.res = ex.conv(st, res, prog.ty(norm_type(fn.rettype)))
            if thr is not None: add(st, "no exception is missed", NOT(thr), "throws")
            if self.result is not None:
                want = self.result(c)
                eqs = veq(want, ex.conv(st, res, want.t))
                for nm, f in eqs: add(st, "result" + nm, f, "ensures")
                if not eqs: add(st, "result", z3.BoolVal(True), "ensures")
            changed = {}
            if self.effects is not None:
                for k, v in self.effects(c).items(): changed[k] = v
            roots = {}
            for i, a in enumerate(argv): roots.setdefault(a.root, []).append(i)
            if obj is not None: roots.setdefault(obj.root, []).append("this")
            for root, ids in roots.items():
                byval = [i for i in ids if i != "this" and not ty_of(fn.params[i]).rstrip().endswith("&")]
                if byval: continue
                exp = pre.roots[root]
                if any(k in self.modifies for k in ids): continue
                mods = [k for k in self.modifies if isinstance(k, tuple) and k[0] in ids]
                for k, v in changed.items():
                    if k in ids: exp = Val(exp.t, v.d)
                    elif isinstance(k, tuple) and k[0] in ids:
                        x = Val(exp.t, dict(exp.d))
                        for p, e in v.d.items(): x.d[tuple(k[1:]) + p] = e
                        exp = x
                got = st.roots[root]
                nm0 = "this" if "this" in ids else fn.params[ids[0]].get("name", "p")
                ctor = fn.kind == "CXXConstructorDecl"
                eqs = veq(exp, got, nm0)
                if not eqs and any(k in changed or any(isinstance(q, tuple) and q[0] == k for q in changed) for k in ids): add(st, "effect on " + nm0, z3.BoolVal(True), "ensures")
                for nm, f in eqs:
                    if any(nm.startswith(nm0 + "." + ".".join(m[1:])) for m in mods): continue
                    is_eff = any(k in changed or any(isinstance(q, tuple) and q[0] == k for q in changed) for k in ids)
                    if ctor and not is_eff: continue
                    add(st, ("effect on " if is_eff else "frame: unchanged ") + nm, f, "ensures" if is_eff else "frame")
            ens = self.ensures(c); named = {}
            pcf = st.facts()
            for s0, ks, f in ex.anyfacts:       # the callee's guarantee at the values this contract speaks about
                for k1 in c.anys:
                    for k in ks:
                        if str(k).split("!")[0] == str(k1).split("!")[0]: f = z3.substitute(f, (k, k1))
                if not any(depends(f, k) for k in ks): pcf = pcf + [z3.Implies(AND(s0), f)]
            for it in ens:
                nm, f = it[0], it[1]
                uses = it[2] if len(it) > 2 else ["pc", "defs"]
                hyps = []
                for u in uses:
                    if isinstance(u, z3.ExprRef): hyps += [g for g in c.ghosts if g.arg(0).eq(u)]     # definition of one name
                    elif u == "pc": hyps += pcf
                    elif u == "defs": hyps += c.ghosts
                    else: hyps.append(named[u])
                obls.append(Obl(ex.funcname + "::" + nm, hyps, f, None, "ensures"))
                named[nm] = f
        elif thr is None or z3.is_false(thr):
            raise ExtractError("no normal return of " + fn.qname)
        for kd, s, msg in ex.exits:
            cond = thr if thr is not None else self.throws_if(c)
            add(s, "exception (%s) only when specified" % msg, cond, "throws")
            if self.throw_frame:
                for root in set([a.root for a, p in zip(argv, fn.params) if ty_of(p).rstrip().endswith("&")] + ([obj.root] if obj is not None and fn.kind != "CXXConstructorDecl" else [])):
                    for nm, f in veq(pre.roots[root], s.roots[root], re.sub(r"#\d+$", "", root)): add(s, "state unchanged on exception: " + nm, f, "frame")
        gen = time.time() - t0
        seen = {}
        for o in obls:
            key = (o.name, o.goal.get_id(), tuple(sorted(set(h.get_id() for h in o.hyps))))
            if key in seen: continue
            seen[key] = o
            r = smt.prove(o.hyps, o.goal, timeout=self.timeout)
            results.append({"name": o.name, "line": o.line, "kind": o.kind, "ok": bool(r), "how": r.how if r else "", "reason": r.reason, "time": round(r.time, 4),
                            "obl": o if not r else None, "model": str(r.model)[:4000] if r.model is not None else None})
        out = {"function": fn.qname + "(" + ", ".join(fn.ptypes) + ")", "config": config, "file": fn.tu.path, "line": fn.line, "obligations": results,
               "inlined": sorted(ex.inlined - {fn.qname}), "callee_contracts": sorted(ex.called_contracts), "assumptions": sorted(ex.assumptions),
               "loops": ex.loopinfo, "invariants": ex.usedinv, "satisfiable_precondition": vac, "gen_time": round(gen, 3)}
        return out
