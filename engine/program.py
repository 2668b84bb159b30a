"""All translation units of one check: functions, records, types and the contracts registered for functions."""
import os, re, hashlib
from concurrent.futures import ThreadPoolExecutor
import z3
import cppast, vals
from cppast import TU, ExtractError, norm_type, FUNC_KINDS, REPO
from vals import TypeTable, TRec, TVec, TPtr, TInt, Val, sel

SRC = REPO + "/lib/nikfemm/src/"
HERE = os.path.dirname(os.path.abspath(__file__))

class Program:
    def __init__(self, paths):
        self.paths = [p if p.startswith("/") else (os.path.join(HERE, "tu", p[3:]) if p.startswith("tu/") else SRC + p) for p in paths]
        with ThreadPoolExecutor(8) as ex: self.tus = list(ex.map(TU, self.paths))
        self.records = {}; self.rec_tu = {}
        for tu in self.tus:
            for k, r in tu.records.items():
                if k not in self.records or (not self.records[k].node.get("completeDefinition") and r.node.get("completeDefinition")):
                    self.records[k] = r; self.rec_tu[k] = tu
        self.types = TypeTable(self.records)
        self.defs = {}
        for tu in self.tus:
            for f in tu.funcs:
                if f.body is not None: self.defs.setdefault((f.cls, f.name, norm_type(f.sig)), f)
        self.contracts = {}       # id of Func -> Contract
        self.ptr_homes = []
        self.globals = {}
    def ty(self, s): return self.types.parse(s)
    def record(self, name): return self.records.get(name)
    def record_chain(self, name):
        r = self.records.get(name)
        if r is None: return []
        out = []
        for b in r.bases: out += self.record_chain(b)
        return out + [r]
    def tu_of_record(self, key): return self.rec_tu[key]
    def definition(self, tu, did):
        if not did: return None
        f = tu.definition(did)
        if f is not None: return self.canon(f)
        n = tu.byid_func.get(did)
        if n is not None: return self.defs.get((n.cls, n.name, norm_type(n.sig)))
        return None
    def canon(self, f):
        return self.defs.get((f.cls, f.name, norm_type(f.sig)), f)
    def find_decl(self, tu, d):
        """a reference whose declaration lies outside this unit's filtered dump"""
        name = d.get("name"); sig = norm_type(d.get("type", {}).get("qualType", ""))
        c = [f for (cls, n, s), f in self.defs.items() if n == name and s == sig and cls is None] if d.get("kind") == "FunctionDecl" else []
        return c[0] if len(c) == 1 else None
    def find_method_decl(self, tu, did, cls):
        n = tu.by_id.get(did)
        if n is None: return None
        name = n.get("name"); sig = norm_type(n.get("type", {}).get("qualType", ""))
        for r in reversed(self.record_chain(cls)):
            f = self.defs.get((r.key, name, sig))
            if f is not None: return f
        return None
    def find_method(self, cls, name):
        for r in reversed(self.record_chain(cls)):
            for (c, n, s), f in self.defs.items():
                if c == r.key and n == name: return f
        return None
    def find_ctor(self, recname, sig):
        s = norm_type(sig); short = re.sub(r"<.*", "", recname)
        cands = [f for (c, n, sg), f in self.defs.items() if c == recname and f.kind == "CXXConstructorDecl" and not f.node.get("isImplicit")]
        for f in cands:
            if norm_type(f.sig) == s: return f
        strip = lambda x: re.sub(r"\bnoexcept\b", "", x).replace("&&", "&").replace(" ", "")
        for f in cands:
            if strip(norm_type(f.sig)) == strip(s): return f
        return None
    def default_arg(self, fn, i):
        for tu in self.tus:
            for f in tu.funcs:
                if f.name == fn.name and f.cls == fn.cls and norm_type(f.sig) == norm_type(fn.sig) and i < len(f.params):
                    init = [x for x in f.params[i].get("inner", []) or [] if x]
                    if init: return init[0]
        return None
    def enum_value(self, tu, did, d):
        for n in tu.by_id.values():
            if n.get("kind") == "EnumDecl":
                v = -1
                for c in n.get("inner", []) or []:
                    if not c or c.get("kind") != "EnumConstantDecl": continue
                    lit = [x for x in c.get("inner", []) or [] if x]
                    if lit:
                        y = lit[0]
                        while y.get("value") is None and y.get("inner"): y = y["inner"][0]
                        v = int(y["value"])
                    else: v += 1
                    if c["id"] == did: return v
        raise ExtractError("enum constant %s" % d.get("name"))
    def global_value(self, name): return self.globals.get(name)
    def ptr_home(self, ex, st, lv):
        for h in self.ptr_homes:
            r = h.address(ex, st, lv)
            if r is not None: return r
        return None
    def ptr_target(self, ex, st, v):
        for h in self.ptr_homes:
            r = h.target(ex, st, v)
            if r is not None: return r
        return None
    def less_of(self, t):
        """operator< of a set's element type"""
        if isinstance(t, TInt) or not isinstance(t, TRec): return lambda a, b: a.z < b.z
        lf = getattr(self, "less_funcs", {}).get(t.name)
        if lf is not None: return lf
        raise ExtractError("ordering of %r" % t)
    def contract(self, fn): return self.contracts.get(fn.id)
    def find(self, qname, ptypes=None):
        out = []
        for (c, n, s), f in self.defs.items():
            if f.qname == qname and (ptypes is None or f.ptypes == ptypes): out.append(f)
        return out
    def one(self, qname, ptypes=None):
        r = self.find(qname, ptypes)
        if len(r) != 1: raise ExtractError("%d definitions of %s %s" % (len(r), qname, ptypes or ""))
        return r[0]
