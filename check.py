#!/opt/veriftools/pyvenv/bin/python3
"""check.py <PROPERTY> [--tier quick|thorough]

Decides one property: every contract of specs/<property>.py is verified against the source text of /repo as it is now
(clang AST -> verification conditions -> SMT), and the same contracts are evaluated on the compiled code by
replay/<property>.cpp (failing-input search, and a guard on the soundness of the translation)."""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)
import gc; gc.disable()      # solver terms are numbered in allocation order: collections at varying moments would make runs differ
import time, json, subprocess, tempfile, shutil, importlib, signal, multiprocessing as mp, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "specs")]
sys.setrecursionlimit(20000)
REPO = "/repo"; SRC = REPO + "/lib/nikfemm/src"

def load_known(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                d = dict(p.split("=", 1) for p in l.split(" | ")[0][len("finding: "):].split())
                d["text"] = l.split(" | ", 1)[1] if " | " in l else ""
                out.append(d)
    except FileNotFoundError: pass
    return out

# ------------------------------------------------------------------ deductive part
def worker(conn, spec, prog, ci, cfg, budget, attempt=0):
    try:
        import contracts
        if attempt:      # another order of search: a proof found in any attempt is a proof
            import z3; z3.set_param("smt.random_seed", attempt + 1); gc.enable(); gc.set_threshold(200 * attempt + 233)
        c = spec.CONTRACTS[ci]
        sys.setrecursionlimit(20000)
        r = c.verify(prog, cfg)
        for o in r["obligations"]:
            if o["obl"] is not None:
                o["goal"] = str(o["obl"].goal)[:3000]
            del o["obl"]
        import smt
        r["stats"] = dict(smt.STATS)
        conn.send(("ok", r))
    except BaseException as e:
        conn.send(("err", type(e).__name__ + ": " + str(e)[:500], traceback.format_exc()[-3000:]))
    finally:
        conn.close()

def prove_all(spec, prog, tasks, budget, jobs=8, attempt=0):
    """run each (contract, aliasing configuration) in a process of its own"""
    ctx = mp.get_context("fork")
    pending = list(tasks); running = []; done = {}
    t_end = time.time() + budget
    while pending or running:
        while pending and len(running) < jobs:
            t = pending.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=worker, args=(b, spec, prog, t[0], t[1], budget, attempt)); p.start(); b.close()
            running.append((t, p, a, time.time()))
        keep = []
        for t, p, a, t0 in running:
            if a.poll(0):
                try: done[t] = a.recv()
                except EOFError: done[t] = ("err", "worker ended without a result", "")
                p.join(); continue
            if not p.is_alive():
                done[t] = a.recv() if a.poll(0) else ("err", "worker ended without a result (exit code %s)" % p.exitcode, ""); p.join(); continue
            if time.time() > t_end:
                p.kill(); p.join(); done[t] = ("time", "time limit", ""); continue
            keep.append((t, p, a, t0))
        running = keep
        if time.time() > t_end:
            for t in pending: done[t] = ("time", "time limit", "")
            pending = []
        time.sleep(0.02)
    return done

# ------------------------------------------------------------------ replay part
class Replay:
    def __init__(self, spec, pid, tier, seed):
        self.spec, self.pid, self.tier, self.seed = spec, pid, tier, seed
        self.dir = tempfile.mkdtemp(prefix="nikver_%s_" % pid)
        self.err = None; self.out = ""
    def build(self):
        """start the compilation of driver and sources (one object per process)"""
        drv = os.path.join(HERE, "replay", self.pid.lower() + ".cpp")
        if not os.path.exists(drv): self.procs = None; return
        srcs = list(getattr(self.spec, "REPLAY_SRC", getattr(self.spec, "UNITS", [])))
        flags = ["-std=c++20", "-mavx", "-O1", "-g", "-fno-omit-frame-pointer", "-w", "-I" + SRC, "-I" + REPO + "/lib/nikfemm/include", "-I" + os.path.join(HERE, "replay")]
        san = ["-fsanitize=address,undefined", "-fno-sanitize=float-divide-by-zero", "-fno-sanitize-recover=all"]
        self.procs = []; self.objs = []
        for s in [drv] + [os.path.join(SRC, s) for s in srcs if not s.startswith("tu/")]:
            o = os.path.join(self.dir, os.path.relpath(s, "/").replace("/", "_") + ".o"); self.objs.append(o)
            fl = flags + ([] if "triangle.cpp" in s else san) + list(getattr(self.spec, "REPLAY_FLAGS", []))
            if "triangle.cpp" in s: fl = [f for f in fl if f != "-O1"] + ["-O0"]
            self.procs.append((s, subprocess.Popen(["g++"] + fl + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        self.san = san
    def finish(self, budget):
        """-> (status, text): clean / fail / unavailable"""
        if self.procs is None: return "none", "no replay driver"
        t_end = time.time() + budget
        log = ""
        ok = True
        for s, p in self.procs:
            try: o, _ = p.communicate(timeout=max(5, t_end - time.time()))
            except subprocess.TimeoutExpired: p.kill(); return "unavailable", "compilation timed out"
            if p.returncode: ok = False; log += o.decode(errors="replace")[-3000:]
        if not ok: return "unavailable", "replay driver does not build against the current tree:\n" + log
        exe = os.path.join(self.dir, "replay")
        r = subprocess.run(["g++"] + self.san + self.objs + ["-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: return "unavailable", "link: " + r.stdout.decode(errors="replace")[-3000:]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="print_stacktrace=1:exitcode=98")
        scale = "1" if self.tier == "quick" else "20"
        skip = [k["id"] for k in load_known(self.pid) if "id" in k]
        outf = os.path.join(self.dir, "out")
        t0 = time.time()
        with open(outf, "wb") as f:
            p = subprocess.Popen([exe, str(self.seed), scale, ",".join(skip)], stdout=f, stderr=subprocess.STDOUT, cwd=self.dir, env=env)
            try: rc = p.wait(timeout=max(20, min(t_end - time.time(), 120 if self.tier == "quick" else 500)))
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc = "timeout"
        self.run_s = time.time() - t0
        text = open(outf, "rb").read().decode(errors="replace")
        if rc == 0: return "clean", text
        if rc == "timeout":
            # a driver that hangs inside one case hangs because the code does; every case is small
            return "hang", text[-4000:]
        return "fail", text[-6000:]
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    spec = importlib.import_module(pid.lower())
    known = load_known(pid)
    rp = Replay(spec, pid, tier, seed)
    problems = []      # undischarged obligations
    broken = []        # functions the extractor or prover gave no answer on
    done = {}; prog = None
    try:
        rp.build()
        import program
        from cppast import ExtractError
        try:
            prog = program.Program(spec.UNITS)
            if hasattr(spec, "SETUP"): spec.SETUP(prog)
        except Exception as e:
            broken.append(("all", "extraction: %s" % str(e)[:1500]))
            prog = None
        tasks = []
        if prog is not None:
            for i, c in enumerate(spec.CONTRACTS):
                try:
                    c.resolve(prog)
                    if c.use: prog.contracts[c.fn.id] = c
                    tasks += [(i, cfg) for cfg in c.alias]
                except ExtractError as e: broken.append((c.label, str(e)))
                except Exception as e: broken.append((c.label, "%s: %s" % (type(e).__name__, e)))
            order = sorted(tasks, key=lambda t: -getattr(spec.CONTRACTS[t[0]], "weight", 1))
            done = prove_all(spec, prog, order, 420 if tier == "quick" else 700)
        rstat, rtext = rp.finish(200 if tier == "quick" else 600)
        for attempt in (1, 2, 3):
            again = [t for t in tasks if done.get(t, ("err",))[0] == "time" or (done.get(t, ("err",))[0] == "ok" and not all(o["ok"] for o in done[t][1]["obligations"]))] if prog is not None else []
            left = (620 if tier == "quick" else 840) - (time.time() - t0)
            if rstat in ("fail", "hang") or not again or left < 30: break
            for t, r in prove_all(spec, prog, again, left, attempt=attempt).items():
                if r[0] == "ok" and (done[t][0] != "ok" or sum(not o["ok"] for o in r[1]["obligations"]) < sum(not o["ok"] for o in done[t][1]["obligations"])): done[t] = r
    finally:
        rp.close()
    obl = []; funcs = []; assumptions = set(); stats = {}; inlined = set(); callee = set(); loops = []; slow = []
    for t in tasks if prog is not None else []:
        r = done.get(t, ("err", "not run", ""))
        c = spec.CONTRACTS[t[0]]
        if r[0] != "ok":
            broken.append(("%s%s" % (c.label, " aliasing %s" % (t[1],) if t[1] else ""), r[1] + ("\n" + r[2] if len(r) > 2 else ""))); continue
        r = r[1]
        if not r["satisfiable_precondition"]: broken.append((c.label, "precondition not shown satisfiable"))
        funcs.append({"function": r["function"], "aliasing": list(t[1]), "file": os.path.relpath(r["file"], REPO) if r["file"].startswith(REPO) else r["file"], "line": r["line"], "obligations": len(r["obligations"]),
                      "discharged": sum(o["ok"] for o in r["obligations"]), "seconds": round(r["gen_time"] + sum(o["time"] for o in r["obligations"]), 2),
                      "loop_invariants": sorted(set("line %s: %s" % (a, b) for a, b in r["invariants"])), "inlined": r["inlined"], "calls_by_contract": r["callee_contracts"]})
        inlined |= set(r["inlined"]); callee |= set(r["callee_contracts"]); assumptions |= set(r["assumptions"])
        for k, v in r["stats"].items(): stats[k] = stats.get(k, 0) + v
        loops += r["loops"]
        for o in r["obligations"]:
            obl.append(o)
            if not o["ok"]: problems.append((r["function"], t[1], o))
    n_inv = len(loops)
    nob = len(obl); ndis = sum(o["ok"] for o in obl)
    back = {}
    for o in obl:
        if o["ok"]: back[o["how"]] = back.get(o["how"], 0) + 1
    if prog is not None and nob == 0 and not broken: broken.append(("all", "no obligation was generated"))
    # ---------------- verdict
    vio = []
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    rpath = os.path.join(HERE, "evidence", "replay", "%s.txt" % pid)
    body = []
    if problems:
        body.append("Undischarged obligations of property %s:" % pid)
        for f, cfg, o in problems:
            body.append("  function %s%s\n    obligation: %s (line %s, kind %s)\n    solver: %s\n    goal: %s\n    model: %s" % (f, " aliasing %s" % (cfg,) if cfg else "", o["name"], o["line"], o["kind"], o["reason"], o.get("goal"), o["model"]))
    if broken:
        body.append("No verifier answer (bounded stand-in used instead):"); body += ["  %s: %s" % b for b in broken]
    if rstat in ("fail", "hang"):
        body.append("Failing input found by evaluating the contracts on the compiled code (seed %d):\n%s" % (seed, rtext))
    else: body.append("Evaluation on the compiled code: %s\n%s" % (rstat, rtext[-1500:]))
    code = 0
    if rstat in ("fail", "hang"):
        code = 1; line = "VIOLATION property=%s replay=%s" % (pid, rpath)
    elif problems:
        code = 1; line = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rpath)
    with open(rpath, "w") as f: f.write("\n".join(body) + "\n")
    for k in known: print("KNOWN-FINDING: property=%s %s" % (pid, k.get("text", "")))
    nrep = 0; rsum = {}
    for l in rtext.splitlines():
        if l.startswith("TOTAL "):
            try: nrep = int(l.split()[1])
            except ValueError: pass
        if l.startswith("COUNT "):
            p = l[6:].rsplit(' ', 1); rsum[p[0]] = int(p[1])
    proved = ndis == nob and nob > 0 and not broken
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof" if nob else "other",
          "coverage": {"obligations": nob, "discharged": ndis, "checker_cmd": "python3-vt check.py %s (clang++-18 AST -> VC generator -> z3 %s / cvc5)" % (pid, __import__("z3").get_version_string()),
                       "trusted_base": ["clang 18 front end (AST and types)", "engine/: the VC generator and its models of std::vector, std::map, std::set, std::string, libm, AVX intrinsics", "z3, cvc5", "contracts in specs/%s.py as a reading of the property text" % pid.lower()],
                       "functions_under_contract": funcs, "loop_invariant_checks": n_inv, "loop_invariant_checks_proved": sum(1 for l in loops if l[2]),
                       "back_ends": back, "queries": stats.get("queries", 0), "solver_seconds": round(sum(o["time"] for o in obl) + sum(l[4] for l in loops), 2),
                       "inlined_functions": sorted(inlined), "assumed_callee_contracts": sorted(callee),
                       "unreached": [{"function": b[0], "reason": b[1][:800]} for b in broken],
                       "bounded_stand_in": bool(broken), "evaluations": nrep, "evaluated_contracts": rsum, "replay": rstat,
                       "explanation": getattr(spec, "EXPLANATION", ""), "rule": "replay cases: small random and boundary instances of each contract's arguments (seed %d), contract evaluated in C++ on the compiled /repo sources under ASan/UBSan" % seed,
                       "samples": [o["name"] for o in obl[:6]]},
          "assumptions": sorted(assumptions) + list(getattr(spec, "ASSUMPTIONS", [])) + ["machine floating point is treated as real arithmetic (exact)", "machine integers are mathematical; signed overflow of loop counters is not modelled" ],
          "wall_s": round(time.time() - t0, 2), "violations": code}
    if not nob: ev["coverage"]["explanation"] = ev["coverage"]["explanation"] or "no obligation could be generated: bounded evaluation only"
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged (%d functions/configurations, %d invariant checks), replay %s (%d cases), %.1f s" % (pid, ndis, nob, len(funcs), n_inv, rstat, nrep, time.time() - t0))
    for f, cfg, o in problems[:20]: print("  undischarged: %s :: %s [%s]" % (f, o["name"], o["reason"]))
    for b in broken[:20]: print("  bounded stand-in (no verifier answer): %s: %s" % (b[0], b[1].splitlines()[0][:300]))
    if code: print(line)
    return code

if __name__ == "__main__":
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    os._exit(rc)
