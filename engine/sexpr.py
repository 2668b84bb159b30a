"""Expressions, calls and library models."""
import re, math
from fractions import Fraction
import z3
from cppast import ExtractError, norm_type, loc_line
import vals, smt
from vals import (TInt, TReal, TBool, TVoid, TRec, TVec, TArr, TMap, TPtr, TOpaque, Val, sel, mk_ite, mk_ieq, isimp,
                  fresh, fresh_val, default_val, range_facts, leaves)
from smt import AND, OR, NOT, Sum
from sexec import *
import sexec

U64, I64, U32, I32 = TInt(64, False), TInt(64, True), TInt(32, False), TInt(32, True)
def vint(e, t=None): return Val(t or U64, {(): e if isinstance(e, z3.ExprRef) else z3.IntVal(e)})
def vreal(e): return Val(TReal(), {(): e})
def vbool(e): return Val(TBool(), {(): e if isinstance(e, z3.ExprRef) else z3.BoolVal(e)})
VOID = Val(TVoid(), {})
LOGGERS = {"nloginfo", "nlogwarn", "nlogerror", "printf", "fprintf", "fflush", "puts", "sprintf", "perror", "putchar"}

def mul_real(a, b):
    for x, y in ((a, b), (b, a)):
        if z3.is_rational_value(x):
            if x.numerator_as_long() == 0: return z3.RealVal(0)
            if x.numerator_as_long() == x.denominator_as_long(): return y
    return a * b

class ExprMixin:
    def ev(self, n, st):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None: raise ExtractError("expression %s (line %s)" % (k, loc_line(n)))
        return m(n, st)
    def _pass(self, n, st):
        return self.ev([x for x in n["inner"] if x][-1], st)
    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = \
        e_SubstNonTypeTemplateParmExpr = e_CXXDefaultInitExpr = _pass
    def e_CXXStdInitializerListExpr(self, n, st): return self._pass(n, st)
    # ---- literals
    def e_IntegerLiteral(self, n, st):
        t = self.prog.ty(ty_of(n)); return Val(t, {(): z3.IntVal(int(n["value"]))})
    def e_CharacterLiteral(self, n, st): return Val(TInt(8, True), {(): z3.IntVal(int(n["value"]))})
    def e_FloatingLiteral(self, n, st):
        f = Fraction(repr(float(n["value"]))); return vreal(z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator))
    def e_CXXBoolLiteralExpr(self, n, st): return vbool(z3.BoolVal(bool(n["value"])))
    def e_StringLiteral(self, n, st): return Opaque("string")
    def e_CXXNullPtrLiteralExpr(self, n, st): return Val(TPtr(TVoid()), {(): z3.IntVal(0)})
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr
    def e_ImplicitValueInitExpr(self, n, st): return default_val(self.prog.ty(ty_of(n)))
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr
    def e_UnaryExprOrTypeTraitExpr(self, n, st): return vint(fresh(I, "sizeof"), U64)
    def e_CXXThrowExpr(self, n, st): self.throw(st, "throw")
    def e_CXXDefaultArgExpr(self, n, st):
        inner = [x for x in n.get("inner", []) or [] if x]
        if inner: return self.ev(inner[0], st)
        raise ExtractError("default argument without expression")
    # ---- references
    def e_CXXThisExpr(self, n, st): return PtrLV(st.this)
    def e_DeclRefExpr(self, n, st):
        d = n.get("referencedDecl", {})
        i = d.get("id")
        if i in st.env:
            return st.env[i]
        k = d.get("kind")
        if k in ("FunctionDecl", "CXXMethodDecl"): return FnRef(d)
        if k == "VarDecl" or k == "EnumConstantDecl":
            full = st.tu.by_id.get(i, d)
            init = [x for x in full.get("inner", []) or [] if x and x.get("kind", "").endswith("Expr") or x.get("kind", "").endswith("Literal") or x.get("kind", "").endswith("Operator")]
            if k == "EnumConstantDecl":
                return vint(self.prog.enum_value(st.tu, i, d), I32)
            if init and "const" in ty_of(full).split("*")[0]:
                key = ("global", i)
                v = self.ev(init[0], st)
                v = self.rv(st, v)
                if isinstance(v, Val): return self.conv(st, v, self.prog.ty(ty_of(full)))
                return v
            nm = d.get("name")
            if nm in ("cout", "cerr", "endl", "stdout", "stderr"): return Opaque(nm)
            g = self.prog.global_value(nm)
            if g is not None: return g
        raise ExtractError("reference to %s %s" % (k, d.get("name")))
    def lv_of(self, v, st):
        if isinstance(v, PtrLV): return v.lv
        if isinstance(v, (LV, MapElem)): return v
        if isinstance(v, (It, ItVar)): return self.deref(st, v, None)
        if isinstance(v, Val) and isinstance(v.t, TPtr): return self.deref(st, v, None)
        if isinstance(v, Val): return self.alloc(st, v, "tmp")
        return v
    def e_MemberExpr(self, n, st):
        base = self.ev(n["inner"][0], st)
        d = n.get("referencedMemberDecl")
        name = n.get("name", "")
        full = st.tu.by_id.get(d, {})
        if full.get("kind") in ("CXXMethodDecl", "CXXConversionDecl", "CXXDestructorDecl"):
            return ("method", self.lv_of(base, st) if not isinstance(base, (It, ItVar)) or n.get("isArrow") else base, name, d)
        b = self.lv_of(base, st) if (n.get("isArrow") or not isinstance(base, (It, ItVar))) else base
        if isinstance(b, MapElem):
            if name == "first": return self.alloc(st, vint(b.key), "key")
            if name == "second": return b.lv
        if isinstance(b, LV) and isinstance(b.t, TRec) and any(f == name for f, _ in b.t.fields): return b.f(name)
        # library member function (declaration outside the filtered namespace)
        return ("method", b, name, d)
    def e_CXXDependentScopeMemberExpr(self, n, st): raise ExtractError("template-dependent member")
    def boundcheck(self, st, i, ln, node, what):
        self.obl(st, "bounds[%s]" % what, z3.And(i >= 0, i < ln), node, "bounds")
    def e_ArraySubscriptExpr(self, n, st):
        b = self.ev(n["inner"][0], st); i = self.rv(st, self.ev(n["inner"][1], st)).z
        return self.index(st, b, i, n)
    def index(self, st, b, i, n):
        i = isimp(i)
        if isinstance(b, Val) and isinstance(b.t, TPtr): b = self.deref(st, b, n); 
        if isinstance(b, PtrLV): b = b.lv
        if isinstance(b, Val) and isinstance(b.t, (TVec, TArr)): b = self.alloc(st, b, "tmp")
        if isinstance(b, ItVar): b = It(b.cont, self.read(st, b.lv).z, b.kind, b.en)
        if isinstance(b, It): return self.index(st, b.cont, isimp(b.pos + i), n)
        if isinstance(b, LV):
            if isinstance(b.t, TVec):
                self.boundcheck(st, i, self.read(st, b).d[("len",)], n, desc(b)); return b.i(i)
            if isinstance(b.t, TArr):
                self.boundcheck(st, i, z3.IntVal(b.t.n), n, desc(b)); return b.i(i)
        raise ExtractError("subscript of %r" % (b,))
    # ---- casts
    def e_ImplicitCastExpr(self, n, st): return self.cast(n, st)
    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_BuiltinBitCastExpr = e_ImplicitCastExpr
    def cast(self, n, st):
        ck = n.get("castKind", "NoOp"); x = n["inner"][-1]
        v = self.ev(x, st)
        if ck == "LValueToRValue":
            if isinstance(v, LV) and isinstance(v.t, TVec) and v.t.kind == "buffer": return v   # a raw buffer decays to the storage itself, never to a copy
            if isinstance(v, LV): return self.read(st, v)
            return v
        if ck in ("NoOp", "FunctionToPointerDecay", "ArrayToPointerDecay", "ConstructorConversion", "UserDefinedConversion",
                  "BuiltinFnToFnPtr", "LValueBitCast", "BitCast", "UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "NullToPointer"):
            if ck in ("UncheckedDerivedToBase", "DerivedToBase"):
                t = None
                try: t = self.prog.ty(ty_of(n).rstrip("*& "))
                except ExtractError: pass
                if isinstance(v, Val) and isinstance(v.t, TRec) and isinstance(t, TRec): return coerce_rec(v, t)
            if ck == "NoOp" and isinstance(v, LV) and isinstance(v.t, TRec) and n["kind"] == "CXXFunctionalCastExpr": pass
            return v
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "IntegralToBoolean", "FloatingToBoolean", "FloatingCast", "PointerToBoolean", "PointerToIntegral", "IntegralToPointer", "BooleanToSignedIntegral"):
            v = self.rv(st, v)
            if isinstance(v, PtrLV) and ck == "PointerToBoolean": return vbool(True)
            return self.conv(st, v, self.prog.ty(ty_of(n)))
        if ck == "ToVoid": return VOID
        raise ExtractError("cast " + ck)
    # ---- operators
    def e_UnaryOperator(self, n, st):
        op = n["opcode"]; x = n["inner"][0]
        if op in ("++", "--"):
            lv = self.ev(x, st)
            return self.incdec(st, lv, op, n.get("isPostfix", False), n)
        v = self.ev(x, st)
        if op == "&":
            if isinstance(v, (LV,)): return self.address(st, v)
            if isinstance(v, MapElem): return PtrLV(v)
            raise ExtractError("address of %r" % (v,))
        if op == "*":
            if isinstance(v, PtrLV): return v.lv
            return self.deref(st, v, n)
        v = self.rv(st, v)
        if op == "-":
            if isinstance(v.t, TReal): return vreal(-v.z if not z3.is_rational_value(v.z) else z3.simplify(-v.z))
            return Val(v.t, {(): self.wrap(st, -v.z, v.t)})
        if op == "+": return v
        if op == "!": return vbool(z3.simplify(NOT(self.conv(st, v, TBool()).z)) if not smt.has_quant_c(v.z) else NOT(self.conv(st, v, TBool()).z))
        if op == "~": return Val(v.t, {(): self.wrap(st, -v.z - 1, v.t)})
        raise ExtractError("unary " + op)
    def address(self, st, lv):
        h = self.prog.ptr_home(self, st, lv)
        if h is not None: return h
        return PtrLV(lv)
    def deref(self, st, v, n):
        if isinstance(v, PtrLV): return v.lv
        if isinstance(v, ItVar): v = It(v.cont, self.read(st, v.lv).z, v.kind, v.en)
        if isinstance(v, It):
            if v.kind == "map":
                return MapElem(v.en.ord(v.pos) if v.en is not None else v.pos, v.cont.k(v.en.ord(v.pos) if v.en is not None else v.pos))
            if v.kind == "key": return MapElem(v.pos, v.cont.k(v.pos))
            ln = self.read(st, v.cont).d[("len",)] if isinstance(v.cont.t, TVec) else z3.IntVal(v.cont.t.n)
            self.boundcheck(st, v.pos, ln, n, desc(v.cont)); return v.cont.i(isimp(v.pos))
        if isinstance(v, Val) and isinstance(v.t, TPtr):
            lv = self.prog.ptr_target(self, st, v)
            if lv is not None: return lv
        if isinstance(v, LV):
            if isinstance(v.t, (TVec, TArr)): return self.index(st, v, z3.IntVal(0), n)
            if isinstance(v.t, TPtr): return self.deref(st, self.read(st, v), n)
        raise ExtractError("dereference of %r" % (v,))
    def incdec(self, st, lv, op, post, n):
        if isinstance(lv, ItVar):
            old = self.read(st, lv.lv).z
            new = isimp(old + 1 if op == "++" else old - 1)
            self.itrange(st, lv, new, n)
            self.write(st, lv.lv, Val(TInt(64, True), {(): new}))
            return It(lv.cont, old if post else new, lv.kind, lv.en)
        if not isinstance(lv, LV): raise ExtractError("++ on %r" % (lv,))
        old = self.read(st, lv)
        d = 1 if op == "++" else -1
        if isinstance(lv.t, TReal): nv = vreal(old.z + d)
        else: nv = Val(lv.t, {(): self.wrap(st, old.z + d, lv.t)})
        self.write(st, lv, nv)
        return old if post else lv
    def itrange(self, st, it, new, n):
        if it.kind in ("vec", "set"):
            ln = self.read(st, it.cont).d[("len",)] if isinstance(it.cont.t, TVec) else z3.IntVal(it.cont.t.n)
            self.obl(st, "iterator[%s] stays in range" % desc(it.cont), z3.And(new >= 0, new <= ln), n, "bounds")
    def arith(self, st, op, a, b, t, n):
        """a, b Val already converted to the operation type"""
        if isinstance(a.t, TReal) or isinstance(b.t, TReal):
            a = self.conv(st, a, TReal()); b = self.conv(st, b, TReal())
            x, y = a.z, b.z
            if op == "+": return vreal(y if is_zero(x) else x if is_zero(y) else fold(x + y, x, y))
            if op == "-": return vreal(x if is_zero(y) else fold(x - y, x, y))
            if op == "*": return vreal(fold(mul_real(x, y), x, y))
            if op == "/": return vreal(fold(x / y, x, y))
            raise ExtractError("real " + op)
        w = t if isinstance(t, TInt) else a.t
        x, y = a.z, b.z
        if op in ("+", "-", "*"):
            e = x + y if op == "+" else x - y if op == "-" else x * y
            e = isimp(e)
            if isinstance(w, TInt) and w.s and not z3.is_int_value(e):
                # signed overflow is undefined: value kept mathematical, listed as an assumption
                self.assumptions.add("signed integer arithmetic does not overflow")
                return Val(w, {(): e})
            return Val(w, {(): self.wrap(st, e, w)})
        if op in ("/", "%"):
            self.obl(st, "division by zero", y != 0, n, "safety")
            if z3.is_int_value(y) and y.as_long() > 0 and (not w.s or self.implied(st, x >= 0)):
                return Val(w, {(): z3.simplify(x / y if op == "/" else x % y)})
            if self.implied(st, z3.And(x >= 0, y > 0)):
                # i % n with i <= n, frequent in ring walks: keep it linear
                if op == "%":
                    if self.implied(st, z3.And(x >= 0, x < y)): return Val(w, {(): x})
                    if self.implied(st, z3.And(x <= y)): return Val(w, {(): mk_ite(mk_ieq(x, y), z3.IntVal(0), x)})
                return Val(w, {(): x / y if op == "/" else x % y})
            raise ExtractError("integer %s with possibly negative operands" % op)
        if op == "<<":
            if not z3.is_int_value(y): raise ExtractError("shift by variable")
            return Val(w, {(): self.wrap(st, x * (1 << y.as_long()), w)})
        if op == ">>":
            if not z3.is_int_value(y): raise ExtractError("shift by variable")
            return Val(w, {(): z3.simplify(x / (1 << y.as_long()))})
        if op == "&":
            for p, q in ((x, y), (y, x)):
                if z3.is_int_value(q) and ((q.as_long() + 1) & q.as_long()) == 0 and q.as_long() >= 0:
                    m = q.as_long() + 1
                    if self.implied(st, z3.And(p >= 0, p < m)): return Val(w, {(): p})
                    return Val(w, {(): z3.simplify(p % m)})
            raise ExtractError("bitwise and")
        if op == "|":
            for p, q in ((x, y), (y, x)):
                m = mult_of_pow2(p)
                if m and self.implied(st, z3.And(q >= 0, q < m)): return Val(w, {(): isimp(p + q)})
            raise ExtractError("bitwise or")
        if op == "^" and z3.eq(x, y): return Val(w, {(): z3.IntVal(0)})
        raise ExtractError("integer " + op)
    def compare(self, st, op, a, b):
        if isinstance(a, ItVar): a = It(a.cont, self.read(st, a.lv).z, a.kind, a.en)
        if isinstance(b, ItVar): b = It(b.cont, self.read(st, b.lv).z, b.kind, b.en)
        if isinstance(a, It) and isinstance(b, It):
            x, y = a.pos, b.pos
            ka, kb = isinstance(a, KeyIt), isinstance(b, KeyIt)
            if ka or kb:
                if ka and kb: e = z3.And(a.ind == b.ind, z3.Implies(a.ind, a.key == b.key))
                elif (b if ka else a).kind == "mapend": e = NOT((a if ka else b).ind)
                else: raise ExtractError("comparison of map iterators")
                return vbool(e if op == "==" else NOT(e))
            if "mapend" in (a.kind, b.kind) and a.en is None and b.en is None: raise ExtractError("map iterator")
            return vbool(cmpop(op, x, y))
        if isinstance(a, PtrLV) or isinstance(b, PtrLV):
            if isinstance(a, PtrLV) and isinstance(b, PtrLV) and a.lv.same(b.lv): return vbool(op == "==")
            other = b if isinstance(a, PtrLV) else a
            if isinstance(other, Val) and z3.is_int_value(other.z) and other.z.as_long() == 0: return vbool(op == "!=")
            raise ExtractError("pointer comparison")
        a = self.rv(st, a); b = self.rv(st, b)
        if isinstance(a, LV) or isinstance(b, LV) or not isinstance(a, Val) or not isinstance(b, Val): raise ExtractError("comparison of %r and %r" % (a, b))
        if isinstance(a.t, TVec) or isinstance(b.t, TVec):   # buffer against nullptr
            return vbool(op == "!=")
        if isinstance(a.t, TReal) or isinstance(b.t, TReal): a = self.conv(st, a, TReal()); b = self.conv(st, b, TReal())
        x, y = a.z, b.z
        if x.sort() != y.sort():
            if x.sort() == B: x = self.conv(st, a, I32).z
            if y.sort() == B: y = self.conv(st, b, I32).z
        r = cmpop(op, x, y)
        return vbool(z3.simplify(r) if not smt.has_quant_c(r) and x.sort() == I else r)
    def e_BinaryOperator(self, n, st):
        op = n["opcode"]; l, r = n["inner"][0], n["inner"][1]
        if op == "=":
            lv = self.ev(l, st); v = self.rv(st, self.ev(r, st))
            return self.assign(st, lv, v, n)
        if op == ",":
            self.ev(l, st); return self.ev(r, st)
        if op in ("&&", "||"):
            a = self.truth(l, st)
            if op == "&&": v = self.cond_exec(st, a, lambda s: vbool(self.truth(r, s)), lambda s: vbool(False))
            else: v = self.cond_exec(st, a, lambda s: vbool(True), lambda s: vbool(self.truth(r, s)))
            return v
        a = self.ev(l, st)
        if isinstance(a, LV) and not isinstance(a.t, (TVec, TArr)): a = self.read(st, a)
        b = self.ev(r, st)
        if isinstance(b, LV) and not isinstance(b.t, (TVec, TArr)): b = self.read(st, b)
        if op in ("<", ">", "<=", ">=", "==", "!="): return self.compare(st, op, a, b)
        if isinstance(a, (LV, It, ItVar)) or isinstance(b, (LV, It, ItVar)): return self.ptr_arith(st, op, a, b, n)
        return self.arith(st, op, a, b, self.prog.ty(ty_of(n)), n)
    def ptr_arith(self, st, op, a, b, n):
        if isinstance(a, LV): a = It(a, z3.IntVal(0), "vec")
        if isinstance(b, LV): b = It(b, z3.IntVal(0), "vec")
        if isinstance(a, ItVar): a = It(a.cont, self.read(st, a.lv).z, a.kind, a.en)
        if isinstance(b, ItVar): b = It(b.cont, self.read(st, b.lv).z, b.kind, b.en)
        if isinstance(a, It) and isinstance(b, Val): return It(a.cont, isimp(a.pos + b.z if op == "+" else a.pos - b.z), a.kind, a.en)
        if isinstance(b, It) and isinstance(a, Val) and op == "+": return It(b.cont, isimp(b.pos + a.z), b.kind, b.en)
        if isinstance(a, It) and isinstance(b, It) and op == "-": return vint(isimp(a.pos - b.pos), I64)
        raise ExtractError("pointer arithmetic on %r %s %r" % (a, op, b))
    def assign(self, st, lv, v, n=None):
        if isinstance(lv, ItVar):
            if isinstance(v, ItVar): v = It(v.cont, self.read(st, v.lv).z, v.kind, v.en)
            if not isinstance(v, It) or not v.cont.same(lv.cont): raise ExtractError("iterator re-targeted")
            self.write(st, lv.lv, Val(TInt(64, True), {(): v.pos})); return lv
        if not isinstance(lv, LV): raise ExtractError("assignment to %r" % (lv,))
        if isinstance(v, It) and isinstance(lv.t, TVec) and lv.t.kind == "buffer": raise ExtractError("buffer pointer assignment")
        if isinstance(v, PtrLV): raise ExtractError("pointer stored in memory")
        if not isinstance(v, Val): raise ExtractError("assignment of %r" % (v,))
        self.write(st, lv, self.conv(st, v, lv.t)); return lv
    def e_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]
        lv = self.ev(n["inner"][0], st); b = self.rv(st, self.ev(n["inner"][1], st))
        if isinstance(lv, ItVar):
            old = self.read(st, lv.lv).z
            new = isimp(old + b.z if op == "+" else old - b.z)
            self.itrange(st, lv, new, n); self.write(st, lv.lv, Val(TInt(64, True), {(): new})); return lv
        a = self.read(st, lv)
        ct = self.prog.ty(n.get("computeResultType", {}).get("desugaredQualType") or n.get("computeResultType", {}).get("qualType") or ty_of(n))
        a2 = self.conv(st, a, ct) if isinstance(ct, (TInt, TReal)) else a
        v = self.arith(st, op, a2, self.conv(st, b, ct) if not (op in ("<<", ">>")) and isinstance(ct, (TInt, TReal)) else b, ct, n)
        self.write(st, lv, self.conv(st, v, lv.t)); return lv
    def e_ConditionalOperator(self, n, st):
        c, a, b = n["inner"]
        cc = self.truth(c, st)
        return self.cond_exec(st, cc, lambda s: self.ev(a, s), lambda s: self.ev(b, s))
    # ---- construction
    def e_InitListExpr(self, n, st):
        t = self.prog.ty(ty_of(n))
        xs = [x for x in n.get("inner", []) or [] if x]
        if n.get("array_filler") is not None and not xs: xs = [x for x in n["array_filler"] if x and x.get("kind") != "ImplicitValueInitExpr"]
        if isinstance(t, TRec):
            v = default_val(t)
            rec = self.prog.record(t.name)
            if rec is not None and rec.bases and xs and len(xs) != len(t.fields): raise ExtractError("aggregate with bases")
            for (f, ft), x in zip(t.fields, xs):
                y = self.rv(st, self.ev(x, st))
                if not isinstance(y, Val): raise ExtractError("aggregate member %r" % (y,))
                v = v.with_field(f, self.conv(st, y, ft))
            return v
        if isinstance(t, (TArr, TVec)):
            v = default_val(t)
            if isinstance(t, TArr) and len(xs) == 1 and xs[0].get("kind") == "InitListExpr" and isinstance(self.prog.ty(ty_of(xs[0])), TArr) and not isinstance(t.e, TArr):
                return self.ev(xs[0], st)
            for i, x in enumerate(xs):
                y = self.rv(st, self.ev(x, st))
                v = v.with_elem(z3.IntVal(i), self.conv(st, y, t.e))
            if isinstance(t, TVec): v.d[("len",)] = z3.IntVal(len(xs))
            return v
        if len(xs) == 1: return self.ev(xs[0], st)
        if not xs: return default_val(t)
        raise ExtractError("initializer list of %r" % t)
    def e_CXXConstructExpr(self, n, st):
        ts = ty_of(n); t = self.prog.ty(ts)
        args = [x for x in n.get("inner", []) or [] if x and not x.get("kind", "").startswith("CXXDefaultArg")]
        ctor_sig = n.get("ctorType", {}).get("qualType", "")
        return self.construct(st, t, args, ctor_sig, n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def e_CXXInheritedCtorInitExpr(self, n, st): raise ExtractError("inherited constructor")
    def construct(self, st, t, args, ctor_sig, n):
        if isinstance(t, TOpaque) and len(args) == 1 and "iterator" in t.name.lower():      # copy of an iterator
            v = self.ev(args[0], st)
            if isinstance(v, ItVar): return It(v.cont, self.read(st, v.lv).z, v.kind, v.en)
            return v if isinstance(v, It) else Opaque(t.name)
        if isinstance(t, TOpaque): return Opaque(t.name)
        if isinstance(t, (TInt, TReal, TBool, TPtr)):
            return self.conv(st, self.rv(st, self.ev(args[0], st)), t) if args else default_val(t)
        if isinstance(t, TRec) and not t.name.startswith("std::pair"):
            f = self.prog.find_ctor(t.name, ctor_sig)
            if f is not None:
                obj = self.alloc(st, self.fieldinit(st, t), "new_" + re.sub(r"\W", "", t.name))
                self.call(st, f, args, obj, n)
                v = self.read(st, obj)
                return v
            # implicit constructors
            if not args: return self.fieldinit(st, t)
            if len(args) == 1:
                v = self.rv(st, self.ev(args[0], st))
                if isinstance(v, Val) and isinstance(v.t, TRec): return self.conv(st, v, t)
            raise ExtractError("constructor of %s %s" % (t.name, ctor_sig))
        if isinstance(t, TRec):   # pair
            if not args: return default_val(t)
            vs = [self.rv(st, self.ev(a, st)) for a in args]
            if len(vs) == 1 and isinstance(vs[0], Val) and isinstance(vs[0].t, TRec): return self.conv(st, vs[0], t)
            v = default_val(t)
            for (f, ft), x in zip(t.fields, vs): v = v.with_field(f, self.conv(st, x, ft))
            return v
        if isinstance(t, TMap):
            if not args: return default_val(t)
            v = self.rv(st, self.ev(args[0], st))
            if isinstance(v, Val) and isinstance(v.t, TMap): return v
            raise ExtractError("map constructor")
        if isinstance(t, TVec):
            if not args: return default_val(t)
            vs = [self.ev(a, st) for a in args]
            a0 = vs[0]
            if len(vs) == 1:
                v = self.rv(st, a0)
                if isinstance(v, Val) and isinstance(v.t, TVec): return Val(t, v.d)
            if isinstance(a0, (It, ItVar)) and len(vs) >= 2: return self.range_vec(st, t, a0, vs[1], n)
            if isinstance(a0, LV) and isinstance(a0.t, TVec) and len(vs) == 2 and isinstance(vs[1], It): return self.range_vec(st, t, It(a0, z3.IntVal(0), "vec"), vs[1], n)
            v0 = self.rv(st, a0)
            if isinstance(v0, Val) and isinstance(v0.t, TInt):
                ln = v0.z
                fill = default_val(t.e)
                if len(vs) >= 2:
                    w = self.rv(st, vs[1])
                    if isinstance(w, Val): fill = self.conv(st, w, t.e)
                elif isinstance(t.e, TRec):
                    f = self.prog.find_ctor(t.e.name, "void ()") or self.prog.find_ctor(t.e.name, "void () noexcept")
                    fill = self.fieldinit(st, t.e)
                    if f is not None:
                        obj = self.alloc(st, fill, "elt"); self.call(st, f, [], obj, n); fill = self.read(st, obj)
                st.fact(z3.And(ln >= 0, ln < vals.LENMAX))
                self.assumptions.add("containers hold fewer than 2^31 elements and allocation succeeds")
                d = {("len",): ln}
                for p, s in leaves(t.e): d[("#",) + p] = z3.K(I, fill.d[p])
                return Val(t, d)
            if isinstance(v0, Val) and isinstance(v0.t, TArr) and repr(v0.t.e) == repr(t.e):        # initializer list
                d = dict(v0.d); d[("len",)] = z3.IntVal(v0.t.n); return Val(t, d)
            raise ExtractError("vector constructor from %r" % (v0,))
        if isinstance(t, TArr):
            if not args: return default_val(t)
            v = self.rv(st, self.ev(args[0], st))
            if isinstance(v, Val): return v
        raise ExtractError("constructor of %r" % t)
    def range_vec(self, st, t, a, b, n):
        if isinstance(a, ItVar): a = It(a.cont, self.read(st, a.lv).z, a.kind, a.en)
        if isinstance(b, ItVar): b = It(b.cont, self.read(st, b.lv).z, b.kind, b.en)
        if a.kind == "map":
            en = a.en or self.enum_of(st, a.cont)
            src = self.read(st, a.cont)
            d = {("len",): isimp(b.pos - a.pos)}
            q = z3.Int("q!l")
            et = t.e
            if isinstance(et, TRec):
                kf, vf = et.fields[0][0], et.fields[1][0]
                d[("#", kf)] = z3.Lambda([q], en.ord(isimp(q + a.pos)))
                for p, s in leaves(et.fields[1][1]):
                    d[("#", vf) + p] = z3.Lambda([q], sel(src.d[("@",) + p], en.ord(isimp(q + a.pos))))
                return Val(t, d)
            raise ExtractError("vector from map range")
        src = self.read(st, a.cont)
        ln = src.d.get(("len",), z3.IntVal(a.cont.t.n) if isinstance(a.cont.t, TArr) else None)
        self.obl(st, "range[%s]" % desc(a.cont), z3.And(0 <= a.pos, a.pos <= b.pos, b.pos <= ln), n, "bounds")
        d = {("len",): isimp(b.pos - a.pos)}
        q = z3.Int("q!l")
        for p, s in leaves(t.e):
            base = src.d[("#",) + p]
            if z3.is_int_value(a.pos) and a.pos.as_long() == 0: d[("#",) + p] = base
            else: d[("#",) + p] = z3.Lambda([q], sel(base, isimp(q + a.pos)))
        return Val(t, d)
    def fieldinit(self, st, t):
        """default member initialisers; members without one hold an arbitrary value (scalars) or are empty (containers)"""
        rec = self.prog.record(t.name)
        v = default_val(t)
        for f, ft in t.fields:
            if isinstance(ft, (TInt, TReal, TBool, TPtr)): v = v.with_field(f, fresh_val(ft, "raw_" + f))
            elif isinstance(ft, TVec) and ft.kind == "buffer": v = v.with_field(f, default_val(ft))
            elif isinstance(ft, TRec):
                v = v.with_field(f, self.fieldinit(st, ft))
            elif isinstance(ft, TArr): v = v.with_field(f, fresh_val(ft, "raw_" + f))
        recs = self.prog.record_chain(t.name)
        for r in recs:
            for fd in r.fields:
                if not fd.get("hasInClassInitializer"): continue
                init = [x for x in fd.get("inner", []) or [] if x and not x.get("kind", "").endswith("Attr")]
                nm = fd.get("name")
                if nm not in [f for f, _ in t.fields]: continue
                ft = t.ftype(nm)
                if isinstance(ft, TOpaque) or (isinstance(ft, TVec) and ft.kind == "buffer"): continue
                if init:
                    s2 = st
                    save_this, save_tu = st.this, st.tu
                    st.tu = self.prog.tu_of_record(r.key)
                    try: x = self.rv(st, self.ev(init[0], st))
                    finally: st.this, st.tu = save_this, save_tu
                    if isinstance(x, Val): v = v.with_field(nm, self.conv(st, x, ft))
        return v
    # ---- lambdas
    def e_LambdaExpr(self, n, st):
        return Lam(n, dict(st.env), st.this, st.tu)
    # ---- calls
    def e_CallExpr(self, n, st):
        callee = n["inner"][0]; args = n["inner"][1:]
        f = self.ev(callee, st)
        if isinstance(f, FnRef):
            fn = self.prog.definition(st.tu, f.decl.get("id"))
            name = f.decl.get("name")
            if fn is None: fn = self.prog.find_decl(st.tu, f.decl)
            c = self.lib_call(st, name, args, n, fn)
            if c is not NotImplemented: return c
            if fn is None: raise ExtractError("call of %s without a body" % name)
            return self.call(st, fn, args, None, n)
        if isinstance(f, Lam): return self.call_lambda(st, f, [self.ev(a, st) for a in args], n)
        raise ExtractError("call of %r" % (f,))
    def e_CXXMemberCallExpr(self, n, st):
        m = self.ev(n["inner"][0], st)
        if not (isinstance(m, tuple) and m[0] == "method"): raise ExtractError("member call %r" % (m,))
        return self.method(st, m[1], m[2], m[3], n["inner"][1:], n)
    def method(self, st, obj, name, decl, args, n):
        fn = self.prog.definition(st.tu, decl) if decl else None
        if fn is None and decl and isinstance(obj, LV) and isinstance(obj.t, TRec):
            fn = self.prog.find_method_decl(st.tu, decl, obj.t.name)
        if fn is not None: return self.call(st, fn, args, obj if not fn.is_static else None, n)
        return self.lib_method(st, obj, name, args, n)
    def e_CXXOperatorCallExpr(self, n, st):
        callee = n["inner"][0]
        while callee["kind"] != "DeclRefExpr": callee = callee["inner"][0]
        d = callee["referencedDecl"]; name = d["name"]; args = n["inner"][1:]
        fn = self.prog.definition(st.tu, d["id"])
        if fn is None: fn = self.prog.find_decl(st.tu, d)
        if fn is not None and fn.kind == "CXXMethodDecl" and not fn.is_static:
            obj = self.ev(args[0], st)
            if isinstance(obj, (Val, It, ItVar, PtrLV)): obj = self.lv_of(obj, st)
            return self.call(st, fn, args[1:], obj, n)
        if fn is not None: return self.call(st, fn, args, None, n)
        op = name[len("operator"):]
        if op == "()":
            f = self.ev(args[0], st)
            if isinstance(f, Lam): return self.call_lambda(st, f, [self.ev(a, st) for a in args[1:]], n)
        a = self.ev(args[0], st)
        if op == "=":
            if isinstance(a, LV):
                b = self.rv(st, self.ev(args[1], st))
                return self.assign(st, a, b, n)
            return self.assign(st, a, self.ev(args[1], st), n)
        if op == "[]":
            if isinstance(a, Val): a = self.alloc(st, a, "tmp")
            if isinstance(a, LV) and isinstance(a.t, TMap): return self.map_index(st, a, self.keyof(st, self.rv(st, self.ev(args[1], st))), n)
            i = self.rv(st, self.ev(args[1], st)).z
            return self.index(st, a, i, n)
        if op in ("*", "->") and len(args) == 1: 
            lv = self.deref(st, a, n)
            return PtrLV(lv) if op == "->" else lv
        if op in ("++", "--"): return self.incdec(st, a, op, len(args) == 2, n)
        if op == "<<": 
            for x in args[1:]: self.ev(x, st)
            return Opaque("stream")
        b = self.ev(args[1], st)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            av, bv = a, b
            if isinstance(av, LV) and isinstance(av.t, (TVec, TRec, TMap)): return self.container_eq(st, op, av, bv, n)
            return self.compare(st, op, a, b)
        if op in ("+", "-", "+=", "-="):
            if op in ("+=", "-="):
                if isinstance(a, ItVar):
                    r = self.ptr_arith(st, op[0], a, self.rv(st, b), n); self.itrange(st, a, r.pos, n); return self.assign(st, a, r, n)
            else:
                if isinstance(b, LV): b = self.read(st, b)
                if isinstance(a, LV): a = self.read(st, a)
                return self.ptr_arith(st, op, a, b, n)
        raise ExtractError("operator%s on %r" % (op, a))
    def container_eq(self, st, op, a, b, n):
        if isinstance(b, Val): b = self.alloc(st, b, "tmp")
        if not isinstance(b, LV): raise ExtractError("container comparison")
        if isinstance(a.t, TVec) and isinstance(b.t, TVec) and op in ("==", "!="):
            # equal lengths and equal elements (element operator==)
            va, vb = self.read(st, a), self.read(st, b)
            k = fresh(I, "eqk")
            eqf = self.prog.find_method(a.t.e.name, "operator==") if isinstance(a.t.e, TRec) else None
            s2 = st.clone()
            if eqf is not None:
                self.mute += 1
                try: r = self.rv(s2, self.call(s2, eqf, None, a.i(k), n, argvals=[b.i(k)]))
                finally: self.mute -= 1
                body = r.z
            else:
                body = AND([sel(va.d[("#",) + p], k) == sel(vb.d[("#",) + p], k) for p, _ in leaves(a.t.e)])
            e = z3.And(va.d[("len",)] == vb.d[("len",)], z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < va.d[("len",)]), body)))
            return vbool(e if op == "==" else NOT(e))
        raise ExtractError("comparison of %r" % a.t)
    # ---- user functions
    def call(self, st, fn, args, obj, n, argvals=None):
        """args: AST nodes (evaluated here) or argvals: values"""
        vals_ = argvals if argvals is not None else [self.ev(a, st) for a in args]
        if isinstance(obj, PtrLV): obj = obj.lv
        c = self.prog.contract(fn)
        if c is not None and not (c is self.opts.get("self_contract") and not self.opts.get("recursive_ok")):
            self.called_contracts.add(fn.qname)
            return c.apply(self, st, fn, vals_, obj, n)
        return self.inline(st, fn, vals_, obj, n)
    def inline(self, st, fn, argv, obj, n):
        if self.depth > 24: raise ExtractError("inlining depth exceeded at " + fn.qname)
        stack = self.opts.setdefault("stack", [])
        if stack.count(fn.id) >= 3: raise ExtractError("recursion in " + fn.qname)
        self.inlined.add(fn.qname)
        caller_env, caller_this, caller_tu, caller_fn = st.env, st.this, st.tu, st.fn
        rt = fn.rettype.strip()
        isref = rt.endswith("&")
        ret_t = None
        if not isref and fn.kind not in ("CXXConstructorDecl", "CXXDestructorDecl"):
            try: ret_t = self.prog.ty(norm_type(rt)) if rt not in ("void", "auto") else None
            except ExtractError: ret_t = None
            if isinstance(ret_t, (TOpaque, TPtr)): ret_t = None
        env = {}
        st2 = st
        st2.env = env; st2.this = obj; st2.tu = fn.tu; st2.fn = {"ref": isref, "ret": ret_t, "func": fn}
        self.bind_params(st2, fn, argv)
        if fn.kind == "CXXConstructorDecl": self.ctor_inits(st2, fn, obj)
        base = len(st2.pc)
        self.depth += 1; stack.append(fn.id)
        try:
            norm, outs = self.block([fn.body], st2)
        finally:
            self.depth -= 1; stack.pop()
        rets = [(s, v) for kd, s, v in outs if kd == "ret"]
        if norm is not None: rets.append((norm, None))
        if not rets: raise Dead()
        for s, _ in rets: s.env = {}          # locals are gone
        s, v = self.merge_returns(rets, base)
        s.env, s.this, s.tu, s.fn = caller_env, caller_this, caller_tu, caller_fn
        self.assign_state(st, s)
        if isref: return v
        if isinstance(v, LV): v = self.read(st, v)
        return v if v is not None else VOID
    def bind_params(self, st, fn, argv):
        for p, a in zip(fn.params, argv):
            ts = ty_of(p)
            if ts.rstrip().endswith("&"):
                if isinstance(a, Val): a = self.alloc(st, self.conv(st, a, self.prog.ty(ts)), p.get("name", "p"))
                st.env[p["id"]] = a
            elif isinstance(a, LV) and isinstance(a.t, (TVec, TArr)) and ts.rstrip().endswith("*"):
                st.env[p["id"]] = It(a, z3.IntVal(0), "vec")
            else:
                if isinstance(a, LV): a = self.read(st, a)
                if isinstance(a, Val):
                    t = self.prog.ty(ts)
                    a = self.conv(st, a, t) if not isinstance(t, TOpaque) else a
                    st.env[p["id"]] = self.alloc(st, a, p.get("name", "p"))
                elif isinstance(a, It) and not ts.rstrip().endswith("*"): st.env[p["id"]] = self.alloc_it(st, a)
                else: st.env[p["id"]] = a
        if len(argv) < len(fn.params):
            for p in fn.params[len(argv):]:
                init = [x for x in p.get("inner", []) or [] if x]
                if not init:
                    prm = self.prog.default_arg(fn, fn.params.index(p))
                    if prm is None: raise ExtractError("missing argument for " + fn.qname)
                    init = [prm]
                v = self.rv(st, self.ev(init[0], st))
                st.env[p["id"]] = self.alloc(st, self.conv(st, v, self.prog.ty(ty_of(p))), p.get("name", "p")) if isinstance(v, Val) else v
    def ctor_inits(self, st, fn, obj):
        for ci in fn.inits:
            inner = [x for x in ci.get("inner", []) or [] if x]
            if not inner: continue
            x = inner[0]
            if ci.get("anyInit"):
                nm = ci["anyInit"].get("name")
                if x.get("kind") == "CXXDefaultInitExpr": continue
                ft = obj.t.ftype(nm)
                if isinstance(ft, TOpaque): continue
                v = self.rv(st, self.ev(x, st))
                if isinstance(v, Val): self.write(st, obj.f(nm), self.conv(st, v, ft))
                else: raise ExtractError("member initialiser %r" % (v,))
            elif ci.get("baseInit") or x.get("kind") in ("CXXConstructExpr",):
                bt = self.prog.ty(ty_of(x))
                if not isinstance(bt, TRec): continue
                cf = self.prog.find_ctor(bt.name, x.get("ctorType", {}).get("qualType", ""))
                args = [y for y in x.get("inner", []) or [] if y]
                if cf is not None:
                    self.call(st, cf, args, LVBase(obj, bt), ci)
                elif args:
                    v = self.rv(st, self.ev(args[0], st))
                    for f, ft in bt.fields: self.write(st, obj.f(f), v.field(f))
    def call_lambda(self, st, lam, argv, n):
        rec = [x for x in lam.node["inner"] if x and x.get("kind") == "CXXRecordDecl"][0]
        ops = []
        for x in rec.get("inner", []) or []:
            if not x: continue
            if x.get("kind") == "CXXMethodDecl" and x.get("name") == "operator()": ops.append(x)
            if x.get("kind") == "FunctionTemplateDecl" and x.get("name") == "operator()":
                ops += [y for y in x.get("inner", []) or [] if y and y.get("kind") == "CXXMethodDecl" and any(z and z.get("kind") == "TemplateArgument" for z in y.get("inner", []) or [])]
        ops = [o for o in ops if any(z and z.get("kind") == "CompoundStmt" for z in o.get("inner", []) or [])]
        if not ops: raise ExtractError("lambda without instantiated body")
        from cppast import Func
        f = Func(ops[0], None, lam.tu)
        save = (st.env, st.this, st.tu, st.fn)
        rt = f.rettype.strip(); isref = rt.endswith("&")
        env = dict(lam.env)
        # captures by value see the variable at creation; by reference share it: both resolve to the same binding here
        caps = [x for x in rec.get("inner", []) or [] if x and x.get("kind") == "FieldDecl"]
        st.env = env; st.this = lam.this; st.tu = lam.tu; st.fn = {"ref": isref, "ret": None, "func": f}
        argv2 = []
        for p, a in zip(f.params, argv): argv2.append(a)
        self.bind_lambda_params(st, f, argv2)
        base = len(st.pc)
        norm, outs = self.block([f.body], st)
        rets = [(s, v) for kd, s, v in outs if kd == "ret"]
        if norm is not None: rets.append((norm, None))
        if not rets: raise Dead()
        for s, _ in rets: s.env = {}
        s, v = self.merge_returns(rets, base)
        s.env, s.this, s.tu, s.fn = save
        self.assign_state(st, s)
        if isinstance(v, LV) and not isref: v = self.read(st, v)
        return v if v is not None else VOID
    def bind_lambda_params(self, st, f, argv):
        for p, a in zip(f.params, argv):
            ts = ty_of(p)
            if ts.rstrip().endswith("&"):
                if isinstance(a, Val): a = self.alloc(st, a, p.get("name", "p"))
                st.env[p["id"]] = a
            elif isinstance(a, MapElem): st.env[p["id"]] = a
            else:
                v = self.rv(st, a)
                st.env[p["id"]] = self.alloc(st, self.conv(st, v, self.prog.ty(ts)), p.get("name", "p"))
    # ---- library: methods
    def keyof(self, st, v): return isimp(v.z)
    def map_index(self, st, m, key, n):
        v = self.read(st, m)
        dom = v.d[("dom",)]
        d = dict(v.d)
        d[("dom",)] = z3.Store(dom, key, z3.BoolVal(True))
        d[("size",)] = mk_ite(sel(dom, key), v.d[("size",)], v.d[("size",)] + 1)
        # representation: entries of absent keys are kept value-initialised, so creating one changes no leaf
        if self.implied(st, sel(dom, key)): pass
        else: self.write(st, m, Val(v.t, d))
        return m.k(key)
    def set_vec(self, st, lv, d): self.write(st, lv, Val(lv.t, d))
    def lib_method(self, st, o, name, args, n):
        if isinstance(o, PtrLV): o = o.lv
        if isinstance(o, Opaque):
            for a in args:
                try: self.ev(a, st)
                except ExtractError: pass
            return Opaque(name)
        if isinstance(o, Val): o = self.alloc(st, o, "tmp")
        if not isinstance(o, LV): raise ExtractError("method %s on %r" % (name, o))
        t = o.t
        if isinstance(t, TOpaque): return Opaque(name)
        if isinstance(t, (TVec, TArr)):
            v = self.read(st, o)
            ln = v.d.get(("len",), z3.IntVal(t.n) if isinstance(t, TArr) else None)
            if name == "size": return vint(ln, U64)
            if name == "empty": return vbool(z3.simplify(ln == 0))
            if name == "at": 
                i = self.rv(st, self.ev(args[0], st)).z
                return self.index(st, o, i, n)
            if name == "data": return It(o, z3.IntVal(0), "vec")
            if name in ("begin", "cbegin"): return It(o, z3.IntVal(0), "set" if getattr(t, "kind", "") == "set" else "vec")
            if name in ("end", "cend"): return It(o, ln, "set" if getattr(t, "kind", "") == "set" else "vec")
            if name == "front": self.boundcheck(st, z3.IntVal(0), ln, n, desc(o)); return o.i(z3.IntVal(0))
            if name == "back": self.boundcheck(st, isimp(ln - 1), ln, n, desc(o)); return o.i(isimp(ln - 1))
            if name == "reserve" or name == "shrink_to_fit":
                for a in args: self.ev(a, st)
                return VOID
            if name == "fill":
                x = self.conv(st, self.rv(st, self.ev(args[0], st)), t.e)
                d = {k: e for k, e in v.d.items()}
                for p, s in leaves(t.e): d[("#",) + p] = z3.K(I, x.d[p])
                self.set_vec(st, o, d); return VOID
            if isinstance(t, TVec) and t.kind == "vector":
                if name in ("push_back", "emplace_back"):
                    if name == "emplace_back" and isinstance(t.e, TRec) and not (len(args) == 1 and self.is_rec_expr(args[0], t.e)):
                        raise ExtractError("emplace_back with constructor arguments")
                    x = self.rv(st, self.ev(args[0], st))
                    if isinstance(x, PtrLV): raise ExtractError("vector of local pointers")
                    x = self.conv(st, x, t.e)
                    v = self.read(st, o)
                    d = dict(v.d); ln = v.d[("len",)]
                    for p, e in x.d.items(): d[("#",) + p] = z3.Store(d[("#",) + p], ln, e)
                    d[("len",)] = isimp(ln + 1)
                    st.fact(ln + 1 < vals.LENMAX); self.assumptions.add("containers hold fewer than 2^31 elements and allocation succeeds")
                    self.set_vec(st, o, d)
                    return o.i(ln) if name == "emplace_back" else VOID
                if name == "pop_back":
                    self.obl(st, "pop_back on non-empty", ln > 0, n, "bounds")
                    d = dict(v.d); d[("len",)] = isimp(ln - 1); self.set_vec(st, o, d); return VOID
                if name == "clear":
                    d = dict(default_val(t).d); self.set_vec(st, o, d); return VOID
                if name in ("resize", "assign"):
                    k = self.rv(st, self.ev(args[0], st)).z
                    x = default_val(t.e)
                    if len(args) > 1 and args[1].get("kind") != "CXXDefaultArgExpr": x = self.conv(st, self.rv(st, self.ev(args[1], st)), t.e)
                    q = z3.Int("q!l"); d = dict(v.d)
                    for p, s in leaves(t.e):
                        d[("#",) + p] = z3.K(I, x.d[p]) if name == "assign" else z3.Lambda([q], mk_ite(q < ln, sel(v.d[("#",) + p], q), x.d[p]))
                    d[("len",)] = k; self.set_vec(st, o, d); return VOID
            if isinstance(t, TVec) and t.kind == "set":
                if name in ("lower_bound", "upper_bound"): return self.set_bound(st, o, self.rv(st, self.ev(args[0], st)), name, n)
        if isinstance(t, TMap):
            v = self.read(st, o)
            if name == "size": return vint(v.d[("size",)], U64)
            if name == "empty": return vbool(v.d[("size",)] == 0)
            if name in ("reserve", "rehash"):
                for a in args: self.ev(a, st)
                return VOID
            if name in ("end", "cend"): return It(o, v.d[("size",)], "mapend")
            if name in ("begin", "cbegin"): return It(o, z3.IntVal(0), "map", self.enum_of(st, o))
            if name in ("find", "count", "contains", "at"):
                key = self.keyof(st, self.rv(st, self.ev(args[0], st)))
                ind = sel(v.d[("dom",)], key)
                if name == "contains": return vbool(ind)
                if name == "count": return vint(mk_ite(ind, z3.IntVal(1), z3.IntVal(0)), U64)
                if name == "at":
                    self.obl(st, "map.at key present", ind, n); return o.k(key)
                return KeyIt(o, key, ind)
            if name in ("insert", "emplace", "try_emplace"):
                if name == "insert":
                    x = self.rv(st, self.ev(args[0], st))
                    if not (isinstance(x, Val) and isinstance(x.t, TRec) and len(x.t.fields) == 2): raise ExtractError("map insert")
                    key = self.keyof(st, x.field(x.t.fields[0][0])); w = x.field(x.t.fields[1][0])
                else:
                    key = self.keyof(st, self.rv(st, self.ev(args[0], st)))
                    w = self.rv(st, self.ev(args[1], st)) if len(args) > 1 else default_val(t.v)
                w = self.conv(st, w, t.v)
                dom = v.d[("dom",)]; ind = sel(dom, key)
                d = dict(v.d)
                d[("dom",)] = z3.Store(dom, key, z3.BoolVal(True))
                d[("size",)] = mk_ite(ind, v.d[("size",)], v.d[("size",)] + 1)
                for p, e in w.d.items():
                    a = d[("@",) + p]
                    if not z3.eq(e, vals.default_leaf(e.sort())): d[("@",) + p] = z3.Store(a, key, mk_ite(ind, sel(a, key), e))
                self.write(st, o, Val(v.t, d))
                return Opaque("insert result")
            if name == "clear": self.write(st, o, default_val(t)); return VOID
            if name == "erase":
                x = self.ev(args[0], st)
                if isinstance(x, KeyIt): key = x.key
                else: key = self.keyof(st, self.rv(st, x))
                d = dict(v.d); ind = sel(v.d[("dom",)], key)
                d[("dom",)] = z3.Store(v.d[("dom",)], key, z3.BoolVal(False))
                d[("size",)] = mk_ite(ind, v.d[("size",)] - 1, v.d[("size",)])
                for p, s in leaves(t.v): d[("@",) + p] = z3.Store(d[("@",) + p], key, vals.default_leaf(d[("@",) + p].sort().range()))
                self.write(st, o, Val(v.t, d)); return VOID
        raise ExtractError("library method %s on %r" % (name, t))
    def is_rec_expr(self, a, t):
        try: return repr(self.prog.ty(ty_of(a))) == repr(t)
        except ExtractError: return False
    def set_bound(self, st, o, key, name, n):
        """sorted sequence: position of the first element not less than key (std::less of the element type)"""
        f = self.prog.less_of(o.t.e)
        v = self.read(st, o); ln = v.d[("len",)]
        p = fresh(I, "lb"); k = z3.Int("k!lb")
        def less(a, b): return f(a, b)
        ek = v.elem(k)
        st.fact(z3.And(0 <= p, p <= ln))
        if name == "lower_bound":
            st.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < p), less(ek, key))))
            st.fact(z3.Implies(p < ln, NOT(less(v.elem(p), key))))
            st.fact(z3.Implies(p > 0, less(v.elem(isimp(p - 1)), key)))
        else:
            st.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < p), NOT(less(key, ek)))))
            st.fact(z3.Implies(p < ln, less(key, v.elem(p))))
            st.fact(z3.Implies(p > 0, NOT(less(key, v.elem(isimp(p - 1))))))
        return It(o, p, "set")
    # ---- library: free functions
    def lib_call(self, st, name, args, n, fn):
        if fn is not None and fn.cls is None and name in ("nexit",): self.throw(st, "nexit")
        if name in ("nexit", "exit", "abort", "__assert_fail", "terminate", "__throw_out_of_range"): self.throw(st, name)
        if name == "nassert":
            c = self.truth(args[0], st)
            base = len(st.pc)
            s = st.clone(); s.branch(NOT(c))
            if not self._infeas(s):
                try: self.throw(s, "nassert")
                except Dead: pass
            st.branch(c)
            if self._infeas(st): raise Dead()
            return VOID
        if name in LOGGERS: return VOID
        if fn is not None: return NotImplemented
        R1 = lambda i: self.conv(st, self.rv(st, self.ev(args[i], st)), TReal()).z
        if name in ("sqrt", "sqrtf"): return vreal(self.sqrt(R1(0)))
        if name in ("fabs", "abs", "fabsf", "labs"):
            v = self.rv(st, self.ev(args[0], st))
            if isinstance(v.t, TReal): return vreal(z3.If(v.z >= 0, v.z, -v.z))
            if fn is None and name == "abs" and isinstance(v.t, TInt): return Val(v.t, {(): z3.If(v.z >= 0, v.z, -v.z)})
        if name == "pow":
            x = R1(0); y = R1(1)
            if z3.is_rational_value(y) and y.denominator_as_long() == 1 and 0 <= y.numerator_as_long() <= 4:
                k = y.numerator_as_long(); r = z3.RealVal(1)
                for _ in range(k): r = mul_real(r, x)
                return vreal(r)
            if z3.is_rational_value(y) and y.numerator_as_long() == 1 and y.denominator_as_long() == 2: return vreal(self.sqrt(x))
            return vreal(POWF(x, y))
        if name == "hypot": 
            x, y = R1(0), R1(1); return vreal(self.sqrt(x * x + y * y))
        if name == "sin": return vreal(SIN(R1(0)))
        if name == "cos": return vreal(COS(R1(0)))
        if name == "exp": return vreal(EXP(R1(0)))
        if name == "atan2": return vreal(ATAN2(R1(0), R1(1)))
        if name == "isnan": return vbool(ISNAN(R1(0)))
        if name == "isinf" : return vbool(z3.Or(R1(0) == INF, R1(0) == -INF))
        if name in ("floor", "ceil", "round", "trunc"):
            x = R1(0)
            if name == "floor": return vreal(z3.ToReal(z3.ToInt(x)))
            if name == "ceil": return vreal(-z3.ToReal(z3.ToInt(-x)))
        if name in ("min", "max", "fmin", "fmax") and len(args) == 2:
            a = self.rv(st, self.ev(args[0], st)); b = self.rv(st, self.ev(args[1], st))
            if name[0] == "f": a = self.conv(st, a, TReal()); b = self.conv(st, b, TReal())
            c = b.z < a.z if name.endswith("min") else a.z < b.z
            return Val(a.t, {(): mk_ite(c, b.z, a.z)})
        if name == "swap":
            a = self.ev(args[0], st); b = self.ev(args[1], st)
            va, vb = self.read(st, a), self.read(st, b)
            self.write(st, a, vb); self.write(st, b, va); return VOID
        if name in ("move", "forward", "as_const", "addressof") and len(args) == 1:
            v = self.ev(args[0], st); return v if name != "addressof" else self.address(st, v)
        if name == "get" and len(args) == 1:
            return self.std_get(st, n, args)
        if name == "make_pair":
            t = self.prog.ty(ty_of(n)); v = default_val(t)
            for (f, ft), a in zip(t.fields, args): v = v.with_field(f, self.conv(st, self.rv(st, self.ev(a, st)), ft))
            return v
        if name in ("infinity",): return vreal(INF)
        if name == "__builtin_inf" or name == "__builtin_inff" or name == "__builtin_huge_val" : return vreal(INF)
        if name in ("__builtin_nan", "__builtin_nanf", "quiet_NaN"): return vreal(NANV)
        if name == "epsilon": return vreal(z3.Q(1, 1 << 52))
        if name in ("max", "lowest", "min") and not args:
            t = self.prog.ty(ty_of(n))
            if isinstance(t, TReal): return vreal({"max": DBL_MAX, "lowest": -DBL_MAX, "min": z3.Real("dblmin!")}[name])
            if isinstance(t, TInt): return vint(((1 << (t.w - (1 if t.s else 0))) - 1) if name == "max" else (-(1 << (t.w - 1)) if t.s else 0), t)
        if name in ("begin", "end", "size", "empty", "data") and len(args) == 1:
            v = self.ev(args[0], st)
            return self.lib_method(st, v, name, [], n)
        if name == "distance":
            a = self.ev(args[0], st); b = self.ev(args[1], st); return self.ptr_arith(st, "-", b, a, n)
        if name in ("next", "prev"):
            a = self.ev(args[0], st); k = self.rv(st, self.ev(args[1], st)).z if len(args) > 1 and args[1].get("kind") != "CXXDefaultArgExpr" else z3.IntVal(1)
            r = self.ptr_arith(st, "+" if name == "next" else "-", a, vint(k, I64), n); self.itrange(st, r, r.pos, n); return r
        if name in ("free",): 
            for a in args: self.ev(a, st)
            return VOID
        if name == "srand" or name == "rand": return vint(fresh(I, "rand"), I32)
        if name == "now": return Opaque("clock")
        if name == "duration_cast": return Opaque("clock")
        if name in ("operator-", "operator<<", "operator+"): return Opaque(name)
        if name == "strlen": return vint(fresh(I, "strlen"), U64)
        alg = getattr(self, "alg_" + name, None)
        if alg is not None: return alg(st, args, n)
        return NotImplemented
    def sqrt(self, x):
        x = z3.simplify(x) if z3.is_rational_value(x) else x
        if z3.is_rational_value(x):
            p, q = x.numerator_as_long(), x.denominator_as_long()
            if p >= 0 and math.isqrt(p) ** 2 == p and math.isqrt(q) ** 2 == q: return z3.Q(math.isqrt(p), math.isqrt(q))
        return SQRT(x)
    def std_get(self, st, n, args):
        v = self.ev(args[0], st)
        raise ExtractError("std::get")
    # ---- algorithms: python-driven loops through the same invariant machinery
    def itrng(self, st, a, b):
        if isinstance(a, ItVar): a = It(a.cont, self.read(st, a.lv).z, a.kind, a.en)
        if isinstance(b, ItVar): b = It(b.cont, self.read(st, b.lv).z, b.kind, b.en)
        if isinstance(a, LV): a = It(a, z3.IntVal(0), "vec")
        return a, b
    def elem_at(self, st, it, off, n):
        if it.kind == "map":
            e = MapElem(it.en.ord(isimp(it.pos + off)), it.cont.k(it.en.ord(isimp(it.pos + off))))
            st.fact(sel(it.en.dom, e.key)); st.fact(it.en.pos(e.key) == isimp(it.pos + off))
            return e
        return self.index(st, it.cont, isimp(it.pos + off), n)
    def counted(self, st, cnt, bodyf, n):
        """for (i = 0; i < cnt; i++) bodyf(state, i)"""
        it = self.alloc(st, Val(I64, {(): z3.IntVal(0)}), "algi")
        cf = lambda s: z3.simplify(self.read(s, it).z < cnt)
        def bf(s):
            try: bodyf(s, self.read(s, it).z)
            except Dead: return None, []
            return s, []
        nf = lambda s: self.write(s, it, Val(I64, {(): isimp(self.read(s, it).z + 1)}))
        s, outs = self.run_loop(st, cf, bf, nf, loc_line(n), counter=it)
        if s is None: raise Dead()
        self.assign_state(st, s)
    def functor(self, st, a):
        f = self.ev(a, st)
        if isinstance(f, (Lam, FnRef)): return f
        return f
    def invoke(self, st, f, argv, n):
        if isinstance(f, Lam): return self.call_lambda(st, f, argv, n)
        if isinstance(f, FnRef):
            fn = self.prog.definition(st.tu, f.decl.get("id"))
            if fn is not None: return self.call(st, fn, None, None, n, argvals=argv)
        if isinstance(f, Opaque):
            m = re.match(r"(?:std::)?(plus|minus|multiplies|divides|less|greater|equal_to)<", f.why)
            if m:
                a = self.rv(st, argv[0]); b = self.rv(st, argv[1])
                op = {"plus": "+", "minus": "-", "multiplies": "*", "divides": "/", "less": "<", "greater": ">", "equal_to": "=="}[m.group(1)]
                if op in "+-*/": return self.arith(st, op, a, b, a.t, n)
                return self.compare(st, op, a, b)
        raise ExtractError("callable %r" % (f,))
    def alg_copy(self, st, args, n):
        a, b = self.itrng(st, self.ev(args[0], st), self.ev(args[1], st)); d, _ = self.itrng(st, self.ev(args[2], st), None)
        if not isinstance(d, It): raise ExtractError("copy destination")
        def body(s, i):
            v = self.rv(s, self.elem_at(s, a, i, n)); dst = self.elem_at(s, d, i, n)
            self.write(s, dst, self.conv(s, v, dst.t))
        cnt = isimp(b.pos - a.pos)
        self.counted(st, cnt, body, n)
        return It(d.cont, isimp(d.pos + cnt), d.kind)
    def alg_fill(self, st, args, n):
        a, b = self.itrng(st, self.ev(args[0], st), self.ev(args[1], st)); x = self.rv(st, self.ev(args[2], st))
        def body(s, i):
            dst = self.elem_at(s, a, i, n); self.write(s, dst, self.conv(s, x, dst.t))
        self.counted(st, isimp(b.pos - a.pos), body, n)
        return VOID
    def alg_inner_product(self, st, args, n):
        a, b = self.itrng(st, self.ev(args[0], st), self.ev(args[1], st)); c, _ = self.itrng(st, self.ev(args[2], st), None)
        init = self.rv(st, self.ev(args[3], st)); acc = self.alloc(st, init, "acc")
        ops = [self.functor(st, x) for x in args[4:]]
        def body(s, i):
            x = self.rv(s, self.elem_at(s, a, i, n)); y = self.rv(s, self.elem_at(s, c, i, n))
            p = self.rv(s, self.invoke(s, ops[1], [x, y], n)) if len(ops) == 2 else self.arith(s, "*", x, y, x.t, n)
            o = self.read(s, acc)
            r = self.rv(s, self.invoke(s, ops[0], [o, p], n)) if ops else self.arith(s, "+", o, self.conv(s, p, o.t), o.t, n)
            self.write(s, acc, self.conv(s, r, acc.t))
        self.counted(st, isimp(b.pos - a.pos), body, n)
        return self.read(st, acc)
    def alg_accumulate(self, st, args, n):
        a, b = self.itrng(st, self.ev(args[0], st), self.ev(args[1], st))
        init = self.rv(st, self.ev(args[2], st)); acc = self.alloc(st, init, "acc")
        ops = [self.functor(st, x) for x in args[3:]]
        def body(s, i):
            x = self.elem_at(s, a, i, n); o = self.read(s, acc)
            r = self.rv(s, self.invoke(s, ops[0], [o, x], n)) if ops else self.arith(s, "+", o, self.conv(s, self.rv(s, x), o.t), o.t, n)
            self.write(s, acc, self.conv(s, r, acc.t))
        self.counted(st, isimp(b.pos - a.pos), body, n)
        return self.read(st, acc)
    def alg_transform(self, st, args, n):
        a, b = self.itrng(st, self.ev(args[0], st), self.ev(args[1], st))
        if len(args) == 4: srcs = [a]; d, _ = self.itrng(st, self.ev(args[2], st), None); f = self.functor(st, args[3])
        else:
            c, _ = self.itrng(st, self.ev(args[2], st), None); srcs = [a, c]; d, _ = self.itrng(st, self.ev(args[3], st), None); f = self.functor(st, args[4])
        def body(s, i):
            argv = [self.elem_at(s, x, i, n) for x in srcs]
            argv = [x if isinstance(x, (MapElem, LV)) else x for x in argv]
            r = self.rv(s, self.invoke(s, f, argv, n)); dst = self.elem_at(s, d, i, n)
            self.write(s, dst, self.conv(s, r, dst.t))
        cnt = isimp(b.pos - a.pos)
        self.counted(st, cnt, body, n)
        return It(d.cont, isimp(d.pos + cnt), d.kind)
    def alg_for_each(self, st, args, n):
        a, b = self.itrng(st, self.ev(args[0], st), self.ev(args[1], st)); f = self.functor(st, args[2])
        self.counted(st, isimp(b.pos - a.pos), lambda s, i: self.invoke(s, f, [self.elem_at(s, a, i, n)], n), n)
        return f
    def alg_any_of(self, st, args, n, neg=False, all_=False):
        a, b = self.itrng(st, self.ev(args[0], st), self.ev(args[1], st)); f = self.functor(st, args[2])
        res = self.alloc(st, vbool(all_), "anyof")
        it = self.alloc(st, Val(I64, {(): z3.IntVal(0)}), "algi")
        cnt = isimp(b.pos - a.pos)
        cf = lambda s: z3.simplify(self.read(s, it).z < cnt)
        def bf(s):
            c = self.conv(s, self.rv(s, self.invoke(s, f, [self.elem_at(s, a, self.read(s, it).z, n)], n)), TBool()).z
            if all_: c = NOT(c)
            base = len(s.pc)
            x = s.clone(); x.branch(c); self.write(x, res, vbool(not all_))
            y = s.clone(); y.branch(NOT(c))
            return (None if self._infeas(y) else y), ([] if self._infeas(x) else [("brk", x, None)])
        nf = lambda s: self.write(s, it, Val(I64, {(): isimp(self.read(s, it).z + 1)}))
        s, outs = self.run_loop(st, cf, bf, nf, loc_line(n), counter=it)
        if s is None: raise Dead()
        self.assign_state(st, s)
        r = self.read(st, res).z
        return vbool(NOT(r) if neg else r)
    def alg_all_of(self, st, args, n): return self.alg_any_of(st, args, n, all_=True)
    def alg_none_of(self, st, args, n): return self.alg_any_of(st, args, n, neg=True)
    def alg_sort(self, st, args, n):
        a, b = self.itrng(st, self.ev(args[0], st), self.ev(args[1], st))
        v = self.read(st, a.cont); ln = v.d[("len",)]
        if not (z3.is_int_value(a.pos) and a.pos.as_long() == 0 and self.implied(st, b.pos == ln)): raise ExtractError("sort of a sub-range")
        cmp_ = self.functor(st, args[2]) if len(args) > 2 else None
        MapEnum.cnt[0] += 1; k = MapEnum.cnt[0]
        perm = z3.Function("perm!%d" % k, I, I); inv = z3.Function("invp!%d" % k, I, I)
        q = z3.Int("q!l"); t = z3.Int("t!e")
        INVERSE[perm.name()] = inv
        d = dict(v.d)
        for p, s in leaves(a.cont.t.e): d[("#",) + p] = z3.Lambda([q], mk_ite(z3.And(0 <= q, q < ln), sel(v.d[("#",) + p], perm(q)), sel(v.d[("#",) + p], q)))
        st.fact(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < ln), z3.And(0 <= perm(t), perm(t) < ln, inv(perm(t)) == t)), patterns=[perm(t)]))
        st.fact(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < ln), z3.And(0 <= inv(t), inv(t) < ln, perm(inv(t)) == t)), patterns=[inv(t)]))
        self.write(st, a.cont, Val(v.t, d))
        # order: no later element compares less than an earlier one
        i, j = fresh(I, "so"), fresh(I, "so")
        s2 = st.clone(); s2.fact(z3.And(0 <= i, i < j, j < ln))
        self.mute += 1
        try:
            x, y = a.cont.i(j), a.cont.i(i)
            if cmp_ is not None: r = self.rv(s2, self.invoke(s2, cmp_, [x, y], n)).z
            elif isinstance(a.cont.t.e, TRec): r = self.prog.less_of(a.cont.t.e)(self.read(s2, x), self.read(s2, y))
            else: r = self.read(s2, x).z < self.read(s2, y).z
        finally: self.mute -= 1
        st.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ln), NOT(r)), patterns=[z3.MultiPattern(perm(i), perm(j))]))
        self.assumptions.add("std::sort permutes its range into comparator order")
        self.ghost.setdefault("sorts", []).append((perm, inv, ln))
        return VOID

class KeyIt(It):
    """result of map.find(key)"""
    def __init__(self, cont, key, ind): self.cont, self.key, self.ind, self.kind, self.en, self.pos = cont, key, ind, "key", None, key

def LVBase(obj, bt):
    return LV(obj.root, obj.steps, bt)

def is_zero(x): return z3.is_rational_value(x) and x.numerator_as_long() == 0
def fold(e, x, y):
    return z3.simplify(e) if z3.is_rational_value(x) and z3.is_rational_value(y) and not (e.decl().kind() == z3.Z3_OP_DIV and is_zero(y)) else e
def cmpop(op, x, y):
    if op == "==": return mk_ieq(x, y) if x.sort() == I else (z3.BoolVal(True) if z3.eq(x, y) else x == y)
    if op == "!=": return NOT(cmpop("==", x, y))
    if op == "<": return x < y
    if op == ">": return x > y
    if op == "<=": return x <= y
    if op == ">=": return x >= y
def mult_of_pow2(p):
    if z3.is_int_value(p):
        v = p.as_long(); return (v & -v) if v > 0 else 1 << 64
    if z3.is_mul(p):
        for c in p.children():
            if z3.is_int_value(c):
                v = c.as_long(); return v & -v
    if z3.is_add(p):
        return min(mult_of_pow2(c) or 1 for c in p.children())
    return 1
def desc(b):
    if isinstance(b, LV): return re.sub(r"#\d+$", "", b.root) + "".join("." + str(s[1]) if s[0] == "f" else "[]" for s in b.steps)
    return "?"
