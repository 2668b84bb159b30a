"""Loop cutting.  A loop becomes: an inductive description of its head state (closed forms in the iteration
counter, relational candidates), checked by initiation and consecution, plus the exit states it implies.

Guessing (dry runs, recurrence solving) is untrusted; every invariant used after the loop has been proved on
the re-executed body (closed forms: value at the next head; relational candidates: likewise)."""
import re, time
import z3
from cppast import ExtractError
import vals, smt
from vals import Val, TInt, TBool, sel, mk_ite, mk_ieq, isimp, fresh, leaves
from smt import AND, OR, NOT, Sum, canon_eq, depends, depends_any, decompose, flat_guards, solve_eq_for
from sexec import Dead, State, I, R, B

UNROLL = 64
class Abort(Exception): pass
class Reguess(Exception): pass

def unwrap(e):
    """the term with machine-word wrap-arounds taken out (a guess)"""
    cache = {}
    def go(x):
        if x.get_id() in cache: return cache[x.get_id()][0]
        y = x
        if z3.is_app(x) and x.num_args():
            ch = [go(q) for q in x.children()]
            if z3.is_mod(x) and z3.is_int_value(ch[1]) and ch[1].as_long() in (1 << 32, 1 << 64, 1 << 16, 1 << 8):
                y = z3.simplify(ch[0]); m = ch[1].as_long()
                if z3.is_add(y):
                    k = next((q.as_long() for q in y.children() if z3.is_int_value(q)), 0)
                    if m // 2 <= k < m: y = z3.simplify(y - m)
            elif z3.is_app_of(x, z3.Z3_OP_ITE) and x.sort() == I:
                d = z3.simplify(ch[1] - ch[2])
                y = ch[2] if z3.is_int_value(d) and abs(d.as_long()) in (1 << 32, 1 << 64, 1 << 16, 1 << 8) else x.decl()(*ch)
            elif any(not z3.eq(p, q) for p, q in zip(ch, x.children())): y = x.decl()(*ch)
        cache[x.get_id()] = (y, x)
        return y
    return z3.simplify(go(e)) if not smt.has_quant_c(e) else e
def subst(e, m, cache=None):
    """replace constants (id -> term) and re-normalise array reads"""
    if not m: return e
    if cache is None: cache = {}
    def go(x):
        k = x.get_id()
        r = cache.get(k)
        if r is not None: return r[1]
        r = go1(x)
        cache[k] = (x, r)
        return r
    def go1(x):
        if z3.is_quantifier(x):
            n = x.num_vars()
            vs = [fresh(x.var_sort(i), "b") for i in range(n)]
            body = z3.substitute_vars(x.body(), *reversed(vs))
            nb = subst(body, m)
            if z3.eq(nb, body): return x
            if x.is_lambda(): return z3.Lambda(vs, nb)
            pats = []
            for p in range(x.num_patterns()):
                ts = [subst(z3.substitute_vars(t, *reversed(vs)), m) for t in x.pattern(p).children()]
                if all(okpat(t, vs) for t in ts): pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
            return (z3.ForAll if x.is_forall() else z3.Exists)(vs, nb, patterns=pats)
        if not z3.is_app(x): return x
        if x.num_args() == 0:
            r = m.get(x.get_id())
            return r if r is not None else x
        ch = [go(c) for c in x.children()]
        if all(z3.eq(a, b) for a, b in zip(ch, x.children())): return x
        k = x.decl().kind()
        if k == z3.Z3_OP_SELECT: return sel(ch[0], ch[1])
        if k == z3.Z3_OP_ITE: return mk_ite(ch[0], ch[1], ch[2])
        if k == z3.Z3_OP_EQ and ch[0].sort() == I: return mk_ieq(ch[0], ch[1])
        if k == z3.Z3_OP_NOT: return NOT(ch[0])
        r = smt.rebuild(x, ch)
        if x.sort() == I and k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS): return isimp(r)
        return r
    return go(e)

def okpat(t, vs):
    if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0: return False
    for s in smt.subterms([t]):
        if z3.is_app(s) and s.num_args() and s.decl().kind() not in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL): return False
    return True

class Rng:
    """processed iterations: kappa in [lo, hi)"""
    def __init__(self, asc, lo, hi): self.asc, self.lo, self.hi = asc, lo, hi

def dims(s):
    n = 0
    while isinstance(s, z3.ArraySortRef): n += 1; s = s.range()
    return n, s

def seln(a, qs):
    for q in qs: a = sel(a, q)
    return a

class EqCtx:
    """equality closure of the conditions on the path to a subterm"""
    def __init__(self, pairs=(), known=None): self.pairs = list(pairs); self.known = known or {}
    def decide(self, c):
        """truth value of a condition whose atoms are decided on this path, else None"""
        if z3.is_not(c):
            r = self.decide(c.arg(0)); return None if r is None else not r
        if z3.is_and(c):
            rs = [self.decide(x) for x in c.children()]
            return False if False in rs else (None if None in rs else True)
        if z3.is_or(c):
            rs = [self.decide(x) for x in c.children()]
            return True if True in rs else (None if None in rs else False)
        if z3.is_eq(c) and c.arg(0).sort() == I and self.equal(c.arg(0), c.arg(1)): return True
        r = self.known.get(canon_eq(c).get_id())
        return None if r is None else r[0]
    def add(self, c, pos=True):
        new = []; known = dict(self.known)
        def reg(c, pos):
            if z3.is_not(c): return reg(c.arg(0), not pos)
            if pos and z3.is_and(c) or not pos and z3.is_or(c):
                for x in c.children(): reg(x, pos)
                return
            a = canon_eq(c)
            known[a.get_id()] = (pos, a)
        reg(c, pos)
        def go(c, pos):
            if z3.is_not(c): return go(c.arg(0), not pos)
            if pos and z3.is_and(c):
                for x in c.children(): go(x, True)
                return
            if not pos and z3.is_or(c):
                for x in c.children(): go(x, False)
                return
            if pos and z3.is_eq(c) and c.arg(0).sort() == I: new.append((isimp(c.arg(0)), isimp(c.arg(1))))
        go(c, pos)
        return EqCtx(self.pairs + new, known)
    def equal(self, a, b):
        a, b = isimp(a), isimp(b)
        if z3.eq(a, b): return True
        if not self.pairs: return False
        seen = {a.get_id()}; st = [a]
        while st:
            x = st.pop()
            for p, q in self.pairs:
                for u, v in ((p, q), (q, p)):
                    # u + c == x  ->  v + c
                    d = z3.simplify(x - u)
                    if z3.is_int_value(d):
                        y = isimp(v + d) if d.as_long() else v
                        if z3.eq(y, b): return True
                        if y.get_id() not in seen and len(seen) < 30: seen.add(y.get_id()); st.append(y)
        return False

def own_reads(T, hA, qs, a, frozen=None):
    """rewrite reads of the array's own previous value at the index qs to the scalar a (and reads elsewhere, if asked, to its value at entry: a guess)"""
    written = [y.arg(1 - k) for y in smt.subterms([T]) if z3.is_eq(y) for k in (0, 1) if z3.eq(y.arg(k), qs[0])] if frozen is not None else []
    memo = {}
    def go(x, cx):
        key = (x.get_id(), id(cx))
        if key in memo: return memo[key][1]
        r = go1(x, cx)
        memo[key] = (cx, r, x)
        return r
    def go1(x, cx):
        if z3.eq(x, hA): raise Abort("array read as a whole")
        if z3.is_quantifier(x):
            if depends(x, hA): raise Abort("array under binder")
            return x
        if not z3.is_app(x) or x.num_args() == 0: return x
        if x.decl().kind() == z3.Z3_OP_SELECT:
            chain = []; y = x
            while z3.is_app(y) and y.decl().kind() == z3.Z3_OP_SELECT: chain.append(y.arg(1)); y = y.arg(0)
            if z3.eq(y, hA) and len(chain) == len(qs):
                chain.reverse()
                if all(cx.equal(c, q) for c, q in zip(chain, qs)): return a
                if frozen is not None and not any(z3.eq(chain[0], w) for w in written): return seln(frozen, chain)
                raise Abort("reads another element")
        if x.decl().kind() == z3.Z3_OP_ITE:
            dv = cx.decide(x.arg(0))
            if dv is not None: return go(x.arg(1) if dv else x.arg(2), cx)
            c = go(x.arg(0), cx)
            return mk_ite(c, go(x.arg(1), cx.add(c, True)), go(x.arg(2), cx.add(c, False)))
        if not depends(x, hA): return x
        ch = [go(c, cx) for c in x.children()]
        k = x.decl().kind()
        if k == z3.Z3_OP_SELECT: return sel(ch[0], ch[1])
        return smt.rebuild(x, ch)
    return go(T, EqCtx())

def whole_use(T, hA):
    """the array is used other than by reading one element of it outside a binder"""
    for t in smt.subterms([T]):
        if z3.is_quantifier(t):
            if depends(t, hA): return True
        elif z3.is_app(t) and any(z3.eq(c, hA) for c in t.children()) and t.decl().kind() != z3.Z3_OP_SELECT: return True
    return False

class Closed:
    """closed form of one leaf: value at head w"""
    def __init__(self, leaf, tmpl, w0, ghosts=(), how=""): self.leaf, self.tmpl, self.w0, self.ghosts, self.how = leaf, tmpl, w0, list(ghosts), how
    def at(self, w, gm=None):
        m = {self.w0.get_id(): w}
        if gm: m.update(gm)
        return subst(self.tmpl, m)

class Ghost:
    """index of the last iteration that performed a conditional assignment"""
    def __init__(self, sym, cond, sentinel): self.sym, self.cond, self.sentinel = sym, cond, sentinel

class LoopCtx:
    pass

class LoopMixin:
    def run_loop(self, st, condf, bodyf, incf, line, counter=None):
        r = self.try_unroll(st, condf, bodyf, incf)
        if r is not None: return r
        return self.sym_loop(st, condf, bodyf, incf, line, counter)

    # ------------------------------------------------------------ concrete unrolling
    def try_unroll(self, st, condf, bodyf, incf):
        mo, me = len(self.obls), len(self.exits)
        self.mute += 1
        try:
            try: c = condf(st.clone())
            except Dead: return None
        finally: self.mute -= 1
        c = z3.simplify(c) if not smt.has_quant_c(c) else c
        if not (z3.is_true(c) or z3.is_false(c)): return None
        base = len(st.pc); cur = st.clone(); outs = []; brks = []
        for it in range(UNROLL + 1):
            try: c = condf(cur)
            except Dead: cur = None; break
            c = z3.simplify(c) if not smt.has_quant_c(c) else c
            if z3.is_false(c): break
            if not z3.is_true(c) or it == UNROLL:
                del self.obls[mo:]; del self.exits[me:]
                return None
            b1 = len(cur.pc)
            n, o = bodyf(cur)
            outs += [x for x in o if x[0] == "ret"]; brks += [x[1] for x in o if x[0] == "brk"]
            nxt = [x for x in [n] + [x[1] for x in o if x[0] == "cont"] if x is not None]
            cur = self.merge(nxt, b1)
            if cur is None: break
            try: incf(cur)
            except Dead: cur = None; break
        norm = brks + ([cur] if cur is not None else [])
        for s in norm: s.env = dict(st.env) if s is not cur else s.env
        m = self.merge(norm, base)
        return m, outs

    # ------------------------------------------------------------ symbolic loops
    def one_iter(self, h, condf, bodyf, incf):
        """execute one iteration from head state h; returns a record"""
        r = LoopCtx()
        s = h.clone(); base = len(s.pc)
        tm = len(self.thrlog)
        r.exits = []; r.next = None; r.cond = None; r.exit = None
        try: c = condf(s)
        except Dead:
            r.thr = self.thrlog[tm:]; return r
        r.cond = c; r.aftercond = s.clone()
        e = s.clone(); e.branch(NOT(c)); r.exit = None if z3.is_true(z3.simplify(c) if not smt.has_quant_c(c) else c) else e
        s.branch(c); self.resimp(s, h)
        r.base = base
        if self._infeas(s):
            r.thr = self.thrlog[tm:]; return r
        b1 = len(s.pc)
        n, outs = bodyf(s)
        nxt = [x for x in [n] + [o[1] for o in outs if o[0] == "cont"] if x is not None]
        r.exits = [o for o in outs if o[0] in ("brk", "ret")]
        m = self.merge(nxt, b1)
        if m is not None:
            m.env = dict(h.env)
            try: incf(m)
            except Dead: m = None
        r.next = m
        r.thr = self.thrlog[tm:]
        return r

    def modified(self, h, s, roots):
        out = []
        for root in roots:
            a, b = h.roots[root], s.roots.get(root)
            if b is None or b is a: continue
            for p in a.d:
                if p not in b.d: raise ExtractError("object changed shape in loop")
                x, y = a.d[p], b.d[p]
                if not z3.eq(x, y):
                    if x.sort() != y.sort(): raise ExtractError("leaf changed sort in loop")
                    out.append((root, p))
        return out

    def sym_loop(self, st, condf, bodyf, incf, line, counter):
        self.loopcount += 1
        lid = self.loopcount
        mark = vals._cnt[0]
        syn = self.alloc(st, Val(TInt(64, True), {(): z3.IntVal(0)}), "iter_n")
        inc0 = incf
        def incf(s):
            inc0(s)
            v = self.read(s, syn).z
            self.write(s, syn, Val(TInt(64, True), {(): isimp(v + 1)}))
        roots = list(st.roots); envkeys = dict(st.env)
        M = []; heads = {}
        def head(extra=None):
            h = st.clone()
            per = {}
            for root, p in M: per.setdefault(root, {})[p] = extra[(root, p)] if extra and (root, p) in extra else heads[(root, p)]
            for root, ps in per.items():
                d = dict(h.roots[root].d); d.update(ps); h.roots[root] = Val(h.roots[root].t, d)
            return h
        # ---- phase 1: modified leaves
        mo, me = len(self.obls), len(self.exits)
        self.mute += 1
        try:
            for it in range(40):
                h = head()
                r = self.one_iter(h, condf, bodyf, incf)
                if r.next is None: new = []
                else:
                    for k, v in envkeys.items():
                        pass
                    new = [x for x in self.modified(h, r.next, roots) if x not in heads]
                if not new: break
                for x in new:
                    M.append(x)
                    heads[x] = z3.Const("h%d!%s%s" % (lid, re.sub(r"#\d+$", "", x[0]), "".join("." + q for q in x[1])), st.roots[x[0]].d[x[1]].sort())
            else: raise ExtractError("loop does not stabilise")
        finally: self.mute -= 1
        del self.obls[mo:]; del self.exits[me:]
        if r.next is None:
            # at most one iteration
            if r.cond is None: raise Dead()
            return self.single_iteration(st, condf, bodyf, incf)
        # ---- phase 2: counter
        L = LoopCtx(); L.st = st; L.M = M; L.heads = heads; L.line = line; L.pre = st; L.id = lid
        self.find_counter(L, r, counter, syn)
        for root, p in M:       # initial values without their machine-word conversions, where these provably change nothing
            v = st.roots[root].d[p]
            if v.sort() == I and not z3.is_int_value(v):
                u = unwrap(v)
                if not z3.eq(u, v) and self.implied(st, u == v): st.roots[root] = Val(st.roots[root].t, dict(st.roots[root].d) | {p: u})
        # ---- phase 3: closed forms
        L.nonowrap = set(); M0 = list(M)
        while True:
            self.guess(L, r, mark)
            # ---- phase 4: checked re-execution
            try: return self.finish(L, head, condf, bodyf, incf, roots, envkeys)
            except Reguess:
                if M != M0: raise ExtractError("loop invariants do not stabilise")

    def single_iteration(self, st, condf, bodyf, incf):
        base = len(st.pc)
        r = self.one_iter(st, condf, bodyf, incf)
        outs = [o for o in r.exits if o[0] == "ret"]
        norm = [o[1] for o in r.exits if o[0] == "brk"]
        if r.exit is not None and not self._infeas(r.exit): norm.append(r.exit)
        if r.next is not None: raise ExtractError("loop body continues unexpectedly")
        for s in norm: s.env = dict(st.env)
        return self.merge(norm, base), outs

    def find_counter(self, L, r, counter, syn):
        cands = []
        for root, p in L.M:
            hs = L.heads[(root, p)]
            if hs.sort() != I: continue
            nx = r.next.roots[root].d[p]
            d = z3.simplify(nx - hs)
            if not z3.is_int_value(d):
                for s_ in (1, -1):
                    if z3.is_app(nx) and nx.num_args() and self.implied(r.next, nx == hs + s_): d = z3.IntVal(s_); break
            if z3.is_int_value(d) and d.as_long() in (1, -1):
                score = 0
                if counter is not None and root == counter.root: score = 3
                elif r.cond is not None and depends(r.cond, hs): score = 2
                elif root == syn.root: score = 1
                cands.append((score, d.as_long(), root, p))
        cands.sort(key=lambda x: -x[0])
        score, step, root, p = cands[0]
        L.step = step; L.cleaf = (root, p); L.w = L.heads[(root, p)]
        L.v0 = L.pre.roots[root].d[p]
        ac = r.aftercond.roots[root].d[p]
        d = z3.simplify(ac - L.w)
        if not z3.is_int_value(d):
            d = z3.IntVal(0)
            s = r.aftercond.clone(); s.branch(r.cond)
            for q in (-1, 1):
                if self.implied(s, ac == L.w + q): d = z3.IntVal(q)
        L.d = d.as_long()
        L.asc = step == 1
        L.kap = z3.Int("kap%d" % L.id)
        # exact exit value from the guard
        L.bound = None; L.single = False
        if r.cond is not None:
            c = z3.simplify(r.cond) if not smt.has_quant_c(r.cond) else r.cond
            conj = list(c.children()) if z3.is_and(c) else [c]
            hs = list(L.heads.values())
            for a in conj:
                E = self.exit_value(a, L.w, L.asc)
                if E is None and not z3.eq(unwrap(a), a): E = self.exit_value(unwrap(a), L.w, L.asc)       # a guess: the bound is proved before use
                if E is not None and not depends_any(E, hs): L.bound = E; L.single = len(conj) == 1; break

    def exit_value(self, a, w, asc):
        """first value of the counter at which the atom fails"""
        neg = False
        if z3.is_not(a): neg = True; a = a.arg(0)
        if not z3.is_app(a) or a.num_args() != 2: return None
        k = a.decl().kind()
        x, y = a.children()
        if x.sort() != I: return None
        # linear in w: x - y = s*w + rest
        diff = z3.simplify(x - y)
        s = None
        for q in (1, -1):
            rest = z3.simplify(diff - q * w)
            if not depends(rest, w): s = q; break
        if s is None: return None
        # s*w + rest REL 0
        if k == z3.Z3_OP_EQ:
            if not neg: return None
            return isimp(-rest if s == 1 else rest)
        rel = {z3.Z3_OP_LT: "<", z3.Z3_OP_LE: "<=", z3.Z3_OP_GT: ">", z3.Z3_OP_GE: ">="}.get(k)
        if rel is None: return None
        if neg: rel = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[rel]
        if s == -1: rel = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[rel]; rest = z3.simplify(-rest)
        B_ = z3.simplify(-rest)     # w rel B_
        if rel == "<": return B_ if asc else None
        if rel == "<=": return isimp(B_ + 1) if asc else None
        if rel == ">": return B_ if not asc else None
        if rel == ">=": return isimp(B_ - 1) if not asc else None

    # ------------------------------------------------------------ recurrence solving
    def rng(self, L, w):
        if L.asc: return Rng(True, isimp(L.v0 + L.d), isimp(w + L.d))
        return Rng(False, isimp(w + 1 + L.d), isimp(L.v0 + 1 + L.d))

    def local_consts(self, L, mark):
        hid = {h.get_id() for h in L.heads.values()}
        def isloc(c):
            if c.get_id() in hid: return False
            m = re.search(r"!(\d+)$", c.decl().name())
            return bool(m) and int(m.group(1)) > mark
        return isloc

    def guess(self, L, r, mark):
        w = L.w; kap = L.kap
        isloc = self.local_consts(L, mark)
        N = {}
        for leaf in L.M:
            if leaf == L.cleaf: continue
            N[leaf] = r.next.roots[leaf[0]].d[leaf[1]]
        L.cf = {}; L.ghosts = []
        headsub = lambda extra=None: None
        def at_kappa(e):
            """value in iteration kappa: head counter is kappa - d, solved leaves by their closed forms"""
            wk = isimp(kap - L.d)
            m = {w.get_id(): wk}
            for lf, c in L.cf.items(): m[L.heads[lf].get_id()] = c.at(wk)
            return undo_inverse(subst(e, m))
        self._loc = isloc
        unsolved = [x for x in L.M if x != L.cleaf]
        bad = set()
        for lf in unsolved:
            if any(isloc(c) for c in smt.free_consts(N[lf])) or (self.opts.get("noguess") and self.opts["noguess"](lf)): bad.add(lf)
        L.bad = bad
        # dependencies on bad leaves make a leaf unsolvable
        progress = True
        todo = [x for x in unsolved if x not in bad]
        while progress:
            progress = False
            for lf in list(todo):
                others = [L.heads[x] for x in unsolved if x != lf and x not in L.cf]
                if depends_any(N[lf], others): continue
                try: c = self.solve_leaf(L, lf, at_kappa(N[lf]))
                except Abort: c = None
                if c is not None:
                    L.cf[lf] = c; todo.remove(lf); progress = True
            if not progress:
                progress = self.ghost_group(L, N, todo, unsolved, at_kappa) or self.own_group(L, N, todo, unsolved, at_kappa)
            if not progress:        # reads of positions no iteration writes
                for lf in list(todo):
                    if not dims(L.heads[lf].sort())[0]: continue
                    others = [L.heads[x] for x in unsolved if x != lf and x not in L.cf]
                    if depends_any(N[lf], others): continue
                    try: c = self.solve_leaf(L, lf, at_kappa(N[lf]), frozen=True)
                    except Abort: c = None
                    if c is not None:
                        c.how = "frozen reads"; L.cf[lf] = c; todo.remove(lf); progress = True; break
            if not progress:        # sums that never wrap (checked like every other candidate; given up if not inductive)
                for lf in list(todo):
                    hd = L.heads[lf]
                    if lf in L.nonowrap or hd.sort() != I: continue
                    others = [L.heads[x] for x in unsolved if x != lf and x not in L.cf]
                    if depends_any(N[lf], others): continue
                    T0 = at_kappa(N[lf]); T = unwrap(T0)
                    if z3.eq(T, T0): continue
                    try: c = self.solve_leaf(L, lf, T)
                    except Abort: c = None
                    if c is not None:
                        c.how = "nowrap"; L.cf[lf] = c; todo.remove(lf); progress = True; break
        L.N = N; L.at_kappa = at_kappa
        # last resort: scalar folds
        for lf in list(todo):
            others = [L.heads[x] for x in unsolved if x != lf and x not in L.cf]
            if depends_any(N[lf], others): continue
            c = self.solve_fold(L, lf, at_kappa(N[lf]))
            if c is not None: L.cf[lf] = c; todo.remove(lf)
        L.havoc = [x for x in L.M if x != L.cleaf and x not in L.cf]

    def solve_leaf(self, L, lf, T, frozen=False):
        init = L.pre.roots[lf[0]].d[lf[1]]
        hd = L.heads[lf]
        nd, es = dims(hd.sort())
        rg = self.rng(L, L.w)
        if nd == 0:
            e = self.solve_scalar(T, hd, L.kap, rg, init)
            return Closed(lf, e, L.w) if e is not None else None
        # whole-array last value
        if not depends(T, hd) and not depends(T, L.kap) and False: pass
        qs = [fresh(I, "q") for _ in range(nd)]
        a = fresh(es, "a")
        Tq = own_reads(seln(T, qs), hd, qs, a, init if frozen else None)
        e = self.solve_scalar(Tq, a, L.kap, rg, seln(init, qs))
        if e is None: return None
        t = e
        for q in reversed(qs): t = z3.Lambda([q], t)
        return Closed(lf, t, L.w)

    def solve_scalar(self, T, a, kap, rg, init):
        if z3.eq(T, a): return init
        sk = lambda e, v: subst(e, {kap.get_id(): v})
        last = isimp(rg.hi - 1) if rg.asc else rg.lo
        if not depends(T, a):
            return mk_ite(z3.simplify(rg.lo < rg.hi), sk(T, last), init)
        # touched by one iteration only
        for kr, side in eq_candidates(T, kap):
            if smt.quick_unsat([T != a, OR([kap != kr] + [NOT(x) for x in side])] + inverse_facts(T, kap), 300):
                v = subst(T, {kap.get_id(): kr, a.get_id(): init})
                return mk_ite(AND([z3.simplify(rg.lo <= kr), z3.simplify(kr < rg.hi)] + side), v, init)
        if a.sort() == B: return self.solve_bool(T, a, kap, rg, init)
        ds = decompose(T)
        if len(ds) > 120: return None
        aterms = []; F = []
        for g, q, fs in ds:
            na = [x for x in fs if z3.eq(x, a)]
            if any(depends(x, a) for x in fs if not z3.eq(x, a)) or any(depends(x, a) for x in g): return None
            if na:
                if len(na) != 1 or len(fs) != 1 or q != 1: return None
                aterms.append(flat_guards(g))
            else: F.append((g, q, fs))
        f = sum_of(F, a.sort())
        if any(not g for g in aterms):
            if len(aterms) != 1: return None
            return addx(init, Sum(f, rg.lo, rg.hi, k=kap))
        G = OR([AND(g) for g in aterms])
        Rst = NOT(G)
        if smt.quick_unsat([Rst], 200): return addx(init, Sum(f, rg.lo, rg.hi, k=kap))
        # reset at a solvable iteration
        cand = []
        for g in aterms:
            for x in g:
                y = x.arg(0) if z3.is_not(x) else x
                e = solve_for(y, kap)
                if e is not None and not any(z3.eq(e[0], c[0]) for c in cand): cand.append(e)
        for kr, side in cand:
            if smt.quick_unsat([Rst, kap != kr], 300):
                c = sk(Rst, kr)
                c = z3.simplify(c) if not smt.has_quant_c(c) else c
                fr = sk(f, kr)
                fr = simp_under(fr, c)
                after = Sum(f, isimp(kr + 1), rg.hi, k=kap) if rg.asc else Sum(f, rg.lo, kr, k=kap)
                inr = AND([rg.lo <= kr, kr < rg.hi] + ([c] if not z3.is_true(c) else []) + side)
                return mk_ite(inr, addx(fr, after), addx(init, Sum(f, rg.lo, rg.hi, k=kap)))
        return None

    def solve_bool(self, T, a, kap, rg, init):
        T1 = z3.simplify(z3.substitute(T, (a, z3.BoolVal(True)))) ; T0 = z3.simplify(z3.substitute(T, (a, z3.BoolVal(False))))
        x = fresh(I, "x")
        sk = lambda e, v: subst(e, {kap.get_id(): v})
        if z3.is_true(T1):
            e = solve_for(T0, kap)
            if e is not None: return z3.Or(init, AND([rg.lo <= e[0], e[0] < rg.hi] + e[1]))
            if z3.is_and(T0):
                for c in T0.children():
                    e = solve_for(c, kap)
                    if e is not None:
                        return z3.Or(init, AND([rg.lo <= e[0], e[0] < rg.hi] + e[1] + [sk(T0, e[0])]))
            return z3.Or(init, z3.Exists([x], z3.And(rg.lo <= x, x < rg.hi, sk(T0, x))))
        if z3.is_false(T0):
            return z3.And(init, z3.ForAll([x], z3.Implies(z3.And(rg.lo <= x, x < rg.hi), sk(T1, x))))
        return None

    def solve_fold(self, L, lf, T):
        hd = L.heads[lf]
        if dims(hd.sort())[0] or not depends(T, hd) or not L.asc: return None
        init = L.pre.roots[lf[0]].d[lf[1]]
        rg = self.rng(L, L.w)
        return Closed(lf, smt.Fold(T, hd, L.kap, init, rg.lo, rg.hi), L.w, how="fold")

    def own_group(self, L, N, todo, unsolved, at_kappa):
        """arrays updated together, each iteration reading and writing only its own position (checked like every other candidate)"""
        groups = {}
        for lf in todo:
            nd = dims(L.heads[lf].sort())[0]
            if nd: groups.setdefault(nd, []).append(lf)
        for nd, G in groups.items():
            while True:
                rest = [L.heads[x] for x in unsolved if x not in L.cf and x not in G]
                keep = [x for x in G if not depends_any(N[x], rest)]
                if keep == G: break
                G = keep
            if len(G) < 1: continue
            rg = self.rng(L, L.w); got = {}
            for lf in G:
                qs = [fresh(I, "q") for _ in range(nd)]
                T = seln(at_kappa(N[lf]), qs); init = L.pre.roots[lf[0]].d[lf[1]]
                if any(whole_use(T, L.heads[x]) for x in G): break
                for kr, side in eq_candidates(T, L.kap):
                    if any(depends(kr, L.heads[x]) for x in G) or any(depends(x, L.heads[y]) for x in side for y in G): continue
                    m = {L.kap.get_id(): kr}
                    for x in G: m[L.heads[x].get_id()] = L.pre.roots[x[0]].d[x[1]]
                    v = subst(T, m)
                    t = mk_ite(AND([z3.simplify(rg.lo <= kr), z3.simplify(kr < rg.hi)] + side), v, seln(init, qs))
                    for q in reversed(qs): t = z3.Lambda([q], t)
                    got[lf] = Closed(lf, t, L.w, how="own position"); break
            if len(got) == len(G):
                for lf, c in got.items(): L.cf[lf] = c; todo.remove(lf)
                return True
        return False

    def ghost_group(self, L, N, todo, unsolved, at_kappa):
        """conditionally assigned scalars: value = value computed by the last assigning iteration"""
        groups = {}
        for lf in todo:
            hd = L.heads[lf]
            if dims(hd.sort())[0]: continue
            T = at_kappa(N[lf])
            cv = cond_assign(T, hd)
            if cv is None: continue
            C, v = cv
            groups.setdefault(C.get_id(), []).append((lf, C, v))
        for gid, items in groups.items():
            C = items[0][1]
            G = [x[0] for x in items]
            ghd = [L.heads[x] for x in G]
            others = [L.heads[x] for x in unsolved if x not in L.cf and x not in G]
            if depends_any(C, others) or any(depends_any(v, others + ghd) for _, _, v in items): continue
            rg = self.rng(L, L.w)
            g = Ghost(fresh(I, "L"), None, isimp(L.v0 + L.d - 1) if L.asc else isimp(L.v0 + 1 + L.d))
            asg = (g.sym >= isimp(L.v0 + L.d)) if L.asc else (g.sym < isimp(L.v0 + 1 + L.d))
            m = {}
            for lf, _, v in items:
                init = L.pre.roots[lf[0]].d[lf[1]]
                e = mk_ite(asg, subst(v, {L.kap.get_id(): g.sym}), init)
                L.cf[lf] = Closed(lf, e, L.w, ghosts=[g], how="last assignment")
                m[L.heads[lf].get_id()] = e
                todo.remove(lf)
            g.cond = subst(C, m)           # over kappa and g.sym
            g.asg = asg
            L.ghosts.append(g)
            return True
        return False

    # ------------------------------------------------------------ checked execution
    def finish(self, L, head, condf, bodyf, incf, roots, envkeys):
        st = L.st; w = L.w
        proving = not self.mute
        rel = self.relational(L)
        supplied = []
        if not self.mute or self.opts.get("cand_in_dry"):
            for f in self.candidates: supplied += list(f(self, L) or [])
        rel = rel + [(n, f, True) for n, f in supplied]
        mo, me, mt = len(self.obls), len(self.exits), len(self.thrlog)
        bnd = self.bound_inv(L)
        rounds = 0
        while True:
            rounds += 1
            if rounds > 30: raise ExtractError("loop invariants do not stabilise")
            del self.obls[mo:]; del self.exits[me:]; del self.thrlog[mt:]
            def build(wt, gm=None):
                ex = {L.cleaf: wt}
                for lf, c in L.cf.items(): ex[lf] = c.at(wt)
                h = head(ex)
                return h
            h = build(w)
            h.fact(w >= L.v0 if L.asc else w <= L.v0)
            if bnd is not None: h.fact(bnd(w))
            cx = self.icx(L, h, w, {})
            for n, f, _ in rel:
                x = f(cx)
                if x is not None: h.fact(x)
            h_facts = len(h.pc)
            r = self.one_iter(h, condf, bodyf, incf)
            # exit conditions of one iteration
            self.exit_formula(L, r)
            if L.noexit is not None:
                hq = L.noexit(w)
                h.fact(hq)
                # re-run with the fact that no earlier iteration left the loop
                del self.obls[mo:]; del self.exits[me:]; del self.thrlog[mt:]
                r = self.one_iter(h, condf, bodyf, incf)
            if r.next is None:
                break
            for k, v in envkeys.items(): pass
            newM = [x for x in self.modified(h, r.next, roots) if x not in L.heads]
            if newM:
                for x in newM:
                    L.M.append(x); L.heads[x] = z3.Const("h%d!%s%s" % (L.id, x[0], "".join("." + q for q in x[1])), st.roots[x[0]].d[x[1]].sort())
                    L.havoc.append(x)
                continue
            if not proving: break
            bad = self.check_step(L, r, rel, bnd, h)
            if not bad: break
            kinds = [b for b in bad]
            for b in kinds:
                if b[0] == "cf" and b[1] in L.cf and L.cf[b[1]].how == "nowrap":
                    L.nonowrap.add(b[1]); del self.obls[mo:]; del self.exits[me:]; del self.thrlog[mt:]
                    raise Reguess()
                if b[0] == "cf": self.drop_cf(L, b[1])
                elif b[0] == "rel": rel = [x for x in rel if x[1] is not b[1]]
                elif b[0] == "bound": bnd = None; L.bound = None
        if proving:
            for n, f, user in rel: self.usedinv.append((L.line, n))
            for lf, c in L.cf.items(): self.usedinv.append((L.line, "closed form of %s%s" % (re.sub(r"#\d+$", "", lf[0]), "".join("." + q for q in lf[1]))))
        return self.exit_states(L, h, r, build, bnd, rel, condf)

    def drop_cf(self, L, lf):
        gone = [lf]
        c = L.cf.pop(lf); L.havoc.append(lf)
        # everything expressed through it
        todo = True
        # closed forms were derived using earlier ones; re-derive conservatively: drop all that were solved later
        order = list(L.M)
        for x in list(L.cf):
            if depends(L.cf[x].tmpl, L.heads[lf]): L.havoc.append(x); del L.cf[x]

    def icx(self, L, s, w, ghosts):
        cx = LoopCtx(); cx.st = s; cx.w = w; cx.gh = ghosts; cx.L = L; cx.ex = self; cx.pre = L.pre; cx.goal = False
        return cx

    def bound_inv(self, L):
        if L.bound is None: return None
        E = L.bound; v0 = L.v0
        st = L.pre
        c = v0 <= E if L.asc else v0 >= E
        L.within = self.implied_full(st, c)
        if L.within: return (lambda w: w <= E) if L.asc else (lambda w: w >= E)
        if L.asc: return lambda w: z3.Or(w <= E, w == v0)
        return lambda w: z3.Or(w >= E, w == v0)

    def relational(self, L):
        out = []
        for g in L.ghosts:
            kap = L.kap; k = z3.Int("k!r")
            C = lambda kk, ll, g=g: subst(g.cond, {kap.get_id(): kk, g.sym.get_id(): ll})
            dep = depends(g.cond, g.sym)
            def cur(cx, g=g): return cx.gh.get(g.sym.get_id(), g.sym)
            def rng(cx): return self.rng(L, cx.w)
            def isasg(cx, l): return l >= isimp(L.v0 + L.d) if L.asc else l < isimp(L.v0 + 1 + L.d)
            def r0(cx, g=g, cur=cur):
                l = cur(cx); rg = rng(cx)
                return z3.And(l >= rg.lo - 1, l < rg.hi) if L.asc else z3.And(l >= rg.lo, l <= rg.hi)
            out.append(("last assignment index in range", r0, False))
            if dep:
                def r1(cx, g=g, cur=cur, C=C):
                    l = cur(cx); rg = rng(cx)
                    return z3.ForAll([k], z3.Implies(z3.And(rg.lo <= k, k < rg.hi), NOT(C(k, l))))
                def r2(cx, g=g, cur=cur, C=C):
                    l = cur(cx); return z3.Implies(isasg(cx, l), C(l, g.sentinel))
                def r3(cx, g=g, cur=cur, C=C):
                    l = cur(cx); rg = rng(cx)
                    b = z3.And(rg.lo <= k, k < l) if L.asc else z3.And(l < k, k < rg.hi)
                    return z3.Implies(isasg(cx, l), z3.ForAll([k], z3.Implies(b, C(l, k))))
                out += [("no processed element beats the current one", r1, False), ("current beats the initial value", r2, False), ("current beats all earlier ones", r3, False)]
            else:
                def r1(cx, g=g, cur=cur, C=C):
                    l = cur(cx); return z3.Implies(isasg(cx, l), C(l, l))
                def r2(cx, g=g, cur=cur, C=C):
                    l = cur(cx); rg = rng(cx)
                    b = z3.And(rg.lo <= k, l < k, k < rg.hi) if L.asc else z3.And(rg.lo <= k, k < l)
                    return z3.ForAll([k], z3.Implies(b, NOT(C(k, l))))
                out += [("last assignment satisfied its condition", r1, False), ("no assignment since the last one", r2, False)]
        return out

    def exit_formula(self, L, r):
        """noexit(w): no iteration before head w left the loop; None when not expressible"""
        L.exitc = None; L.noexit = None
        conds = []
        for o in r.exits: conds.append((o[0], o[1]))
        for s in r.thr: conds.append(("thr", s))
        L.nexits = len(conds)
        if not conds: return
        isloc = self._loc_now(L)
        fs = []
        for kd, s in conds:
            c = AND([x for tag, x in s.pc[r.base:] if tag == "b"])
            fs.append(c)
        f = OR(fs)
        m = {L.w.get_id(): isimp(L.kap - L.d)}
        hv = [L.heads[x] for x in L.havoc] + [g.sym for g in L.ghosts]
        if depends_any(f, hv): return
        if any(isloc(c) for c in smt.free_consts(f)): return
        fk = subst(f, m)
        L.exitc = fk
        kap = L.kap
        def noexit(w):
            k = fresh(I, "ke"); rg = self.rng(L, w)
            return z3.ForAll([k], z3.Implies(z3.And(rg.lo <= k, k < rg.hi), NOT(subst(fk, {kap.get_id(): k}))))
        L.noexit = noexit
    def _loc_now(self, L):
        known = set(x.get_id() for x in L.heads.values())
        pre = set()
        for v in L.pre.roots.values():
            for e in v.d.values():
                for c in smt.free_consts(e): pre.add(c.get_id())
        for x in L.pre.facts():
            for c in smt.free_consts(x): pre.add(c.get_id())
        for c in L.cf.values():
            for x in smt.free_consts(c.tmpl): pre.add(x.get_id())
        from sexec import INF, DBL_MAX, NANV
        for c in (INF, DBL_MAX, NANV): pre.add(c.get_id())
        def isloc(c): return c.get_id() not in known and c.get_id() not in pre and "!" in c.decl().name()
        return isloc

    def check_step(self, L, r, rel, bnd, h):
        s = r.next; bad = []
        fs = s.facts()
        wn = isimp(L.w + L.step)
        to = self.opts.get("inv_timeout", 6000)
        def prv(goal, what):
            t = smt.prove(fs, goal, timeout=to)
            self.loopinfo.append((L.line, what, bool(t), t.how or t.reason, t.time))
            return bool(t)
        cn = s.roots[L.cleaf[0]].d[L.cleaf[1]]
        if not z3.eq(isimp(cn), wn) and not prv(cn == wn, "counter step"):
            raise ExtractError("loop counter is not unit-step (line %s)" % L.line)
        if bnd is not None and not (prv(bnd(wn), "counter bound step")): bad.append(("bound",))
        # ghosts at the next head
        gm = {}
        kv = isimp(L.w + L.d)
        for g in L.ghosts:
            gm[g.sym.get_id()] = mk_ite(subst(g.cond, {L.kap.get_id(): kv}), kv, g.sym)
        for lf, c in L.cf.items():
            val = s.roots[lf[0]].d[lf[1]]
            exp = c.at(wn, gm)
            nm = "closed form of %s%s: consecution" % (re.sub(r"#\d+$", "", lf[0]), "".join("." + q for q in lf[1]))
            ini = c.at(L.v0, {g.sym.get_id(): g.sentinel for g in L.ghosts})
            nd, es = dims(val.sort())
            qs = [fresh(I, "qs") for _ in range(nd)]
            pre = L.pre.roots[lf[0]].d[lf[1]]
            t = smt.prove(L.pre.facts(), seln(ini, qs) == seln(pre, qs), timeout=to)
            self.loopinfo.append((L.line, nm.replace("consecution", "initiation"), bool(t), t.how or t.reason, t.time))
            if not t: bad.append(("cf", lf)); continue
            if z3.eq(val, exp): continue
            if not prv(seln(val, qs) == seln(exp, qs), nm): bad.append(("cf", lf))
        if bad: return bad
        cx1 = self.icx(L, s, wn, gm)
        cx0 = self.icx(L, L.pre, L.v0, {g.sym.get_id(): g.sentinel for g in L.ghosts})
        named = []
        if self.opts.get("name_next"):      # arrays at the next head under a name of their own, known pointwise
            s1 = s.clone(); cx1.st = s1
            for lf in L.M:
                val = s.roots[lf[0]].d[lf[1]]
                if lf in L.cf or dims(val.sort())[0] != 1: continue
                new = fresh(val.sort(), "h#next"); q = z3.Int("qn!")
                named.append((new, val)); s1.roots[lf[0]] = Val(s1.roots[lf[0]].t, dict(s1.roots[lf[0]].d)); s1.roots[lf[0]].d[lf[1]] = new
                fs = fs + [z3.ForAll([q], sel(new, q) == sel(val, q), patterns=[sel(new, q)])]
        if self.steps:      # assertions at the end of the body, proved in order
            for it in self.steps(self, L, self.icx(L, h, L.w, {}), cx1):
                n, g = it[0], it[1]; how = it[2] if len(it) > 2 else None
                rw = []
                if isinstance(how, list):       # ground equations, each proved and then applied to the goal
                    for a, b in how:
                        t = smt.prove(fs, a == b, timeout=to); self.loopinfo.append((L.line, "step: " + n + ": equation", bool(t), t.how or t.reason, t.time))
                        if t: rw.append((a, b))
                    how = "raw"
                if isinstance(how, tuple):      # ground instances of a hypothesis: (quantified formula, terms)
                    if any(z3.eq(x, how[0]) for x in smt.mkconj(fs)): fs = fs + smt.mkconj([z3.substitute_vars(how[0].body(), *reversed(how[1]))])
                    continue
                t = smt.prove(fs, z3.substitute(z3.substitute(g, *named) if named else g, *rw) if how == "raw" and (named or rw) else g, timeout=to)
                self.loopinfo.append((L.line, "step: " + n, bool(t), t.how or t.reason, t.time))
                if t: fs = fs + [g]
        for n, f, user in rel:
            cx0.goal = cx1.goal = True
            g0 = f(cx0)
            if g0 is None: continue
            t = smt.prove(L.pre.facts(), g0, timeout=to)
            self.loopinfo.append((L.line, n + ": initiation", bool(t), t.how or t.reason, t.time))
            if not t: bad.append(("rel", f)); continue
            t = smt.prove(fs, f(cx1), timeout=to)
            self.loopinfo.append((L.line, n + ": consecution", bool(t), t.how or t.reason, t.time))
            if not t: bad.append(("rel", f))
        return bad

    def cut_exit(self, L, s, w):
        """assert; forget; assume: a closed form reached at the loop's end is replaced by a fresh value with the contract's facts, each proved of the closed form"""
        for leaf, fs in (self.cut(self, L, w) if self.cut else []):
            if leaf not in L.cf: continue
            val = s.roots[leaf[0]].d[leaf[1]]; ok = True
            if not self.mute:
                for n, f in fs:
                    t = smt.prove(s.facts(), f(val), timeout=self.opts.get("inv_timeout", 6000))
                    self.loopinfo.append((L.line, "at the end: " + n, bool(t), t.how or t.reason, t.time))
                    if not t: ok = False; break
            if not ok: continue
            new = fresh(val.sort(), "h#cut")
            s.roots[leaf[0]] = Val(s.roots[leaf[0]].t, dict(s.roots[leaf[0]].d, **{})) ; s.roots[leaf[0]].d[leaf[1]] = new
            for n, f in fs: s.fact(f(new))

    def exit_states(self, L, h, r, build, bnd, rel, condf):
        st = L.st; base = len(st.pc)
        outs = []; norm = []
        def freeze(s):
            s.pc = s.pc[:base] + [("f", x) for _, x in s.pc[base:]]
            return s
        ex = []
        for kd, s, v in r.exits:
            ex.append((kd, freeze(s), v))
        # normal exit
        ne = None
        if r.exit is not None and not self._infeas(r.exit):
            exact = None
            if L.bound is not None and L.single and bnd is not None:
                E = L.bound
                tgt = E if L.within else (mk_ite(z3.simplify(L.v0 <= E), E, L.v0) if L.asc else mk_ite(z3.simplify(L.v0 >= E), E, L.v0))
                if self.mute or self.implied(r.exit, L.w == tgt, 2000): exact = tgt
            if exact is not None:
                s = build(exact)
                cx = self.icx(L, s, exact, {})
                for n, f, _ in rel:
                    x = f(cx)
                    if x is not None: s.fact(x)
                if L.noexit is not None: s.fact(L.noexit(exact))
                self.mute += 1
                try: c = condf(s)
                except Dead: c = None
                finally: self.mute -= 1
                if c is not None:
                    c = z3.simplify(NOT(c)) if not smt.has_quant_c(c) else NOT(c)
                    s.fact(c)
                self.cut_exit(L, s, exact)
                ne = freeze(s)
            else: ne = freeze(r.exit)
        if not ex:
            if ne is not None: ne.env = dict(st.env)
            return ne, []
        # selectors
        sels = []
        if L.exitc is not None and L.bound is not None and L.single and ne is not None and len(ex) + len(r.thr) == 1 and len(ex) == 1:
            k = fresh(I, "kx"); rg = self.rng(L, L.bound if L.within else (mk_ite(L.v0 <= L.bound, L.bound, L.v0) if L.asc else mk_ite(L.v0 >= L.bound, L.bound, L.v0)))
            sels = [z3.Exists([k], z3.And(rg.lo <= k, k < rg.hi, subst(L.exitc, {L.kap.get_id(): k})))]
        else: sels = [fresh(B, "leave") for _ in ex]
        # iteration-local names of the leaving iteration become names of this exit
        for i, (kd, s, v) in enumerate(ex):
            c = AND([NOT(x) for x in sels[:i]] + [sels[i]])
            s.pc = s.pc[:base] + [("b", c)] + s.pc[base:]
            if kd == "brk": s.env = dict(st.env); norm.append(s)
            else: outs.append((kd, s, v))
        if ne is not None:
            ne.pc = ne.pc[:base] + [("b", AND([NOT(x) for x in sels]))] + ne.pc[base:]
            ne.env = dict(st.env); norm.append(ne)
        return self.merge(norm, base), outs

def eq_candidates(T, kap):
    out = []
    for t in smt.subterms([T]):
        if z3.is_app(t) and z3.is_eq(t) and t.arg(0).sort() == I and depends(t, kap):
            e = solve_for(t, kap)
            if e is not None and not any(z3.eq(e[0], x[0]) for x in out): out.append(e)
    return out

def inverse_facts(T, kap):
    """enumeration functions undone by their inverses at this iteration (guessing only)"""
    from sexec import INVERSE
    return [INVERSE[t.decl().name()](t) == t.arg(0) for t in smt.subterms([T]) if z3.is_app(t) and t.num_args() == 1 and t.decl().name() in INVERSE]
def undo_inverse(e):
    """inv(f(x)) -> x (guessing only)"""
    from sexec import INVERSE
    invs = {INVERSE[k].name(): k for k in INVERSE}
    while True:
        rep = [(t, t.arg(0).arg(0)) for t in smt.subterms([e]) if z3.is_app(t) and t.num_args() == 1 and t.decl().name() in invs and z3.is_app(t.arg(0)) and t.arg(0).num_args() == 1 and t.arg(0).decl().name() == invs[t.decl().name()]]
        if not rep: return e
        e = subst(z3.substitute(e, *rep), {z3.Int("none!").get_id(): z3.Int("none!")})

def cond_assign(T, hd):
    """T = ite(C, v, hd) -> (C, v) ; T may be a nest of conditionals"""
    if not depends(T, hd): return None
    if z3.is_app(T) and T.decl().kind() == z3.Z3_OP_ITE and T.sort() != B:
        c, x, y = T.children()
        xs = z3.eq(x, hd); ys = z3.eq(y, hd)
        if ys and not depends(x, hd): return z3.simplify(c) if not smt.has_quant_c(c) else c, x
        if xs and not depends(y, hd): return (z3.simplify(NOT(c)) if not smt.has_quant_c(c) else NOT(c)), y
        if ys:
            r = cond_assign(x, hd)
            if r: return AND([c, r[0]]), r[1]
        if xs:
            r = cond_assign(y, hd)
            if r: return AND([NOT(c), r[0]]), r[1]
        return None
    if T.sort() == B:
        T1 = z3.substitute(T, (hd, z3.BoolVal(True))); T0 = z3.substitute(T, (hd, z3.BoolVal(False)))
        T1 = z3.simplify(T1); T0 = z3.simplify(T0)
        if z3.is_true(T1): return T0, z3.BoolVal(True)
        if z3.is_false(T0): return z3.simplify(NOT(T1)), z3.BoolVal(False)
    return None

def sum_of(F, sort):
    zero = z3.RealVal(0) if sort == R else z3.IntVal(0)
    t = None
    for g, q, fs in F:
        if sort == R:
            x = smt.mul_list(fs) if fs else z3.RealVal(1)
            if q != 1: x = smt.realnum(q) * x
        else:
            x = None
            for y in fs: x = y if x is None else x * y
            x = z3.IntVal(int(q)) if x is None else (x if q == 1 else z3.IntVal(int(q)) * x)
        x = mk_ite(AND(flat_guards(g)), x, zero) if g else x
        t = x if t is None else t + x
    return zero if t is None else t

def addx(a, b):
    def z(x): return (z3.is_rational_value(x) or z3.is_int_value(x)) and smt.numval(x) == 0
    if z(a): return b
    if z(b): return a
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE and z3.is_app(b) is None: return a
    return a + b if a.sort() == R else isimp(a + b)

def simp_under(e, c):
    return e

def solve_for(g, k):
    """equation g determines k: (solution, side conditions)"""
    if not z3.is_eq(g): return None
    a, b = g.children()
    if a.sort() != I: return None
    e = solve_eq_for(g, k)
    if e is not None: return isimp(e), []
    d = z3.simplify(a - b)
    for q in (1, -1):
        rest = z3.simplify(d - q * k)
        if not depends(rest, k): return isimp(-rest if q == 1 else rest), []
    # injective enumeration: f(k + c) == e  with an inverse function
    from sexec import INVERSE
    for x, y in ((a, b), (b, a)):
        if depends(y, k): continue
        if z3.is_app(x) and x.num_args() == 1 and x.decl().name() in INVERSE and depends(x.arg(0), k):
            inv = INVERSE[x.decl().name()]
            r = solve_for(x.arg(0) == inv(y), k)
            if r is not None:
                f = x.decl()
                return r[0], r[1] + [f(inv(y)) == y]
    return None

smt.SOLVE[0] = solve_for
smt.SUBST[0] = subst
