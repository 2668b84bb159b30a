"""Mechanical extraction of C++ functions from /repo by clang's AST dump (JSON).

Nothing is rewritten by hand: every function body the verifier sees is the AST clang
builds from the file in /repo's working tree at the moment the check runs.
"""
import json, os, subprocess, re, hashlib, sys
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/bin/clang++-18"
INC = ["-I%s/lib/nikfemm/src" % REPO, "-I%s/lib/nikfemm/include" % REPO]
FLAGS = ["-std=c++20", "-mavx", "-fno-color-diagnostics"]

class ExtractError(Exception):
    """The function could not be brought into the verifier (construct outside the subset,
    function missing, AST not produced). Never a violation."""

def dump(path, filt="nikfemm", extra=()):
    cmd = [CLANG] + FLAGS + INC + list(extra) + ["-fsyntax-only", "-Xclang", "-ast-dump=json",
           "-Xclang", "-ast-dump-filter=" + filt, path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if r.returncode != 0:
        raise ExtractError("clang failed on %s: %s" % (path, r.stderr.decode(errors="replace")[:2000]))
    s = r.stdout.decode("utf-8", "replace")
    d = json.JSONDecoder(); i = 0; out = []; n = len(s)
    while True:
        while i < n and s[i] in " \n\r\t": i += 1
        if i >= n: break
        o, i = d.raw_decode(s, i); out.append(o)
    return out

FUNC_KINDS = {"FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"}
REC_KINDS = {"CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"}

def norm_type(t):
    t = t.replace("nikfemm::", "")
    t = re.sub(r"\b(const|volatile|struct|class|enum|typename|inline)\b", " ", t)
    t = re.sub(r"\s+", " ", t).strip()
    t = re.sub(r"\s*([<>,&*])\s*", r"\1", t)
    return t

class Record:
    def __init__(self, key, node):
        self.key = key; self.node = node; self.fields = []; self.bases = []; self.methods = []
    def __repr__(self): return "Record(%s)" % self.key

class Func:
    def __init__(self, node, cls, tu):
        self.node = node; self.cls = cls; self.tu = tu
        self.name = node.get("name", ""); self.kind = node["kind"]; self.id = node["id"]
        self.params = [c for c in node.get("inner", []) if c and c.get("kind") == "ParmVarDecl"]
        self.body = None; self.inits = []
        for c in node.get("inner", []) or []:
            if not c: continue
            if c.get("kind") == "CompoundStmt": self.body = c
            if c.get("kind") == "CXXCtorInitializer": self.inits.append(c)
        self.sig = node.get("type", {}).get("qualType", "")
        self.is_static = node.get("storageClass") == "static"
        self.line = (node.get("loc", {}) or {}).get("line") or (node.get("loc", {}).get("expansionLoc", {}) or {}).get("line")
        self.captures = None
    @property
    def qname(self): return (self.cls + "::" if self.cls else "") + self.name
    @property
    def ptypes(self):
        return [norm_type(p["type"].get("desugaredQualType") or p["type"]["qualType"]) for p in self.params]
    @property
    def rettype(self):
        return ret_of_sig(self.sig)
    def __repr__(self): return "Func(%s %s)" % (self.qname, self.sig)

def ret_of_sig(sig):
    # return type text before the parameter list (outermost)
    depth = 0
    for i, ch in enumerate(sig):
        if ch == "<": depth += 1
        elif ch == ">": depth -= 1
        elif ch == "(" and depth == 0:
            return sig[:i].strip()
    return sig

class TU:
    def __init__(self, path, filt="nikfemm", extra=()):
        self.path = path
        self.roots = dump(path, filt, extra)
        self.by_id = {}
        self.records = {}
        self.funcs = []
        self.def_of = {}
        self.parent_cls = {}
        self._typedefs = {}
        for r in self.roots: self._ids(r)
        self._seen = set()
        for r in self.roots: self._walk(r, None, False)
        self._link()

    def _ids(self, n):
        st = [n]
        while st:
            x = st.pop()
            if not isinstance(x, dict): continue
            i = x.get("id")
            k = x.get("kind", "")
            if i and k.endswith("Decl"):
                old = self.by_id.get(i)
                if old is None or len(x.get("inner", []) or []) > len(old.get("inner", []) or []):
                    self.by_id[i] = x
            for c in x.get("inner", []) or []:
                if c: st.append(c)

    def _walk(self, n, cls, dep):
        if not isinstance(n, dict): return
        k = n.get("kind")
        if k == "ClassTemplateDecl":
            for c in n.get("inner", []) or []:
                if not c: continue
                if c.get("kind") == "ClassTemplateSpecializationDecl": self._walk(c, cls, False)
                elif c.get("kind") == "CXXRecordDecl": pass
            return
        if k == "FunctionTemplateDecl":
            for c in (n.get("inner", []) or [])[0:]:
                if c and c.get("kind") in FUNC_KINDS:
                    has_ta = any(x and x.get("kind") == "TemplateArgument" for x in c.get("inner", []) or [])
                    if has_ta: self._walk(c, cls, False)
            return
        if k in REC_KINDS:
            name = n.get("name")
            if not name: return
            key = name
            if k == "ClassTemplateSpecializationDecl":
                args = []
                for c in n.get("inner", []) or []:
                    if c and c.get("kind") == "TemplateArgument":
                        args.append(norm_type(c.get("type", {}).get("qualType", str(c.get("value", "?")))))
                key = name + "<" + ",".join(args) + ">"
            if not n.get("completeDefinition") : 
                pass
            rec = self.records.get(key)
            if n.get("completeDefinition") or rec is None:
                if rec is None or not rec.node.get("completeDefinition"):
                    rec = Record(key, n); self.records[key] = rec
                    for b in n.get("bases", []) or []:
                        rec.bases.append(norm_type(b["type"].get("desugaredQualType") or b["type"]["qualType"]))
                    for c in n.get("inner", []) or []:
                        if c and c.get("kind") == "FieldDecl": rec.fields.append(c)
            for c in n.get("inner", []) or []:
                if not c: continue
                if c.get("kind") in FUNC_KINDS or c.get("kind") in ("ClassTemplateDecl", "FunctionTemplateDecl") or c.get("kind") in REC_KINDS:
                    self._walk(c, key, False)
            return
        if k in FUNC_KINDS:
            if n["id"] in self._seen: return
            self._seen.add(n["id"])
            self.funcs.append(Func(n, cls, self))
            # local records inside bodies
            self._local_records(n)
            return
        if k in ("NamespaceDecl", "LinkageSpecDecl", "ExportDecl"):
            for c in n.get("inner", []) or []: self._walk(c, cls, dep)

    def _local_records(self, n):
        st = [n]
        while st:
            x = st.pop()
            if not isinstance(x, dict): continue
            if x.get("kind") == "CXXRecordDecl" and x is not n and x.get("name"):
                key = x["name"]
                if key not in self.records and x.get("completeDefinition"):
                    rec = Record(key, x); self.records[key] = rec
                    for c in x.get("inner", []) or []:
                        if c and c.get("kind") == "FieldDecl": rec.fields.append(c)
                        if c and c.get("kind") in FUNC_KINDS and c["id"] not in self._seen:
                            self._seen.add(c["id"]); self.funcs.append(Func(c, key, self))
            for c in x.get("inner", []) or []:
                if c: st.append(c)

    def _link(self):
        # redeclaration chains; out-of-class definitions get their class from the previous declaration
        byid = {f.id: f for f in self.funcs}
        for f in self.funcs:
            par = f.node.get("parentDeclContextId")
            prev = f.node.get("previousDecl")
            if f.cls is None and prev and prev in byid: f.cls = byid[prev].cls
            if f.cls is None and prev and prev not in byid:
                # walk by id map
                p = self.by_id.get(prev)
                if p is not None and p.get("id") in byid: f.cls = byid[p["id"]].cls
        # members of specialisations of standard templates (dumped without their class): class from the linkage name
        lost = [f for f in self.funcs if f.cls is None and f.name == "operator()" and f.node.get("mangledName")]
        if lost:
            import subprocess
            out = subprocess.run(["c++filt"], input="\n".join(f.node["mangledName"] for f in lost), stdout=subprocess.PIPE, text=True).stdout.split("\n")
            for f, d in zip(lost, out):
                if "::operator()(" in d: f.cls = norm_type(d[:d.index("::operator()(")].removeprefix("std::"))
        for f in self.funcs:
            if f.body is not None:
                self.def_of[f.id] = f
                p = f.node.get("previousDecl"); g = 0
                while p and g < 10:
                    self.def_of.setdefault(p, f)
                    q = self.by_id.get(p); p = q.get("previousDecl") if q else None; g += 1
            else:
                self.def_of.setdefault(f.id, None)
        # declarations that share class+name+signature with a definition
        defs = {}
        for f in self.funcs:
            if f.body is not None: defs.setdefault((f.cls, f.name, norm_type(f.sig)), f)
        for f in self.funcs:
            if self.def_of.get(f.id) is None:
                d = defs.get((f.cls, f.name, norm_type(f.sig)))
                if d is not None: self.def_of[f.id] = d
        self.byid_func = byid

    def definition(self, decl_id):
        return self.def_of.get(decl_id)

    def find(self, qname, ptypes=None, pred=None):
        """Definitions with this (class-qualified) name; ptypes: list of normalised parameter types or None."""
        out = []
        for f in self.funcs:
            if f.body is None or f.qname != qname: continue
            if ptypes is not None and f.ptypes != ptypes: continue
            if pred and not pred(f): continue
            out.append(f)
        return out

    def has_def_refs(self): return self.def_of

def loc_line(n):
    r = n.get("range", {}).get("begin", {})
    return r.get("line") or r.get("expansionLoc", {}).get("line") or r.get("spellingLoc", {}).get("line")

if __name__ == "__main__":
    t = TU(sys.argv[1])
    for k, r in t.records.items(): print(k, r.bases, [(f.get("name"), norm_type(f["type"].get("desugaredQualType") or f["type"]["qualType"])) for f in r.fields])
    for f in t.funcs:
        if f.body is not None: print(f.qname, f.ptypes, f.rettype)
