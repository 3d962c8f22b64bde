#!/usr/bin/env python3
"""Decide one property by symbolic execution of huira's current source (see DESIGN.md).

usage: check.py PROPERTY [quick|thorough]
Harness files: harness/<PROPERTY>*.cpp.  Directives in a harness file:
  //! entry: NAME [key=value ...]   keys: mode=real|fp time=SEC thorough=SEC opts=--a,--b tier=thorough asan=1 bound="..."
  //! skip: PATTERN                 functions replaced by no-ops (logging)
  //! noskip: PATTERN               a default of the above not wanted
  //! cxx: FLAGS                    extra compile flags (both builds)
  //! libs: FLAGS                   extra link flags (native replay)
  //! assume: TEXT                  assumption / stub recorded in the evidence
  //! bound: TEXT                   bound recorded in the evidence
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shlex, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("HUIRA_REPO", "/repo"); B = os.path.join(V, "build")
H = os.path.join(V, "harness")
INC = ["-I" + H, "-I" + os.path.join(H, "stubs"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "apps"), "-I" + os.path.join(REPO, "third_party/tclap")]
STD = ["-std=c++20", "-DHUIRA_VERIF=1"]
def own_functions(rs):   # those of the code under test, with template arguments shortened (the evidence has a size limit)
    fs = {f for r in rs for f in r["functions"] if "huira" in f and not re.match(r"^[^(]*\b(std|__gnu_cxx)::", f.split("huira")[0])}
    return sorted({f if len(f) <= 240 else f[:240] + "..." for f in fs})[:2000]

def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace")
def engine():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out = sh(["make", "-s", "-j8", "-C", os.path.join(V, "engine"), "B=" + B])
        if rc: print(out); return False
        rt, src = os.path.join(B, "rt.bc"), os.path.join(V, "engine", "rt.cpp")
        if not os.path.exists(rt) or os.path.getmtime(rt) < max(os.path.getmtime(src), os.path.getmtime(src[:-4] + "_stream.cpp")):
            rc, out = sh([os.path.join(V, "engine", "rt.sh"), B])
            if rc: print(out); return False
    return True
class Entry: pass
def parse(f):
    d = {"file": f, "entries": [], "skip": ["huira::Logger::"], "cxx": [], "libs": [], "assume": [], "bound": []}
    for line in open(f):
        m = re.match(r"//!\s*(\w+):\s*(.*?)\s*$", line)
        if not m: continue
        k, v = m.groups()
        if k == "entry":
            t = shlex.split(v); e = Entry(); e.name = t[0]; e.kv = dict(x.split("=", 1) if "=" in x else (x, "1") for x in t[1:]); e.unit = d; d["entries"].append(e)
        elif k in ("skip", "assume", "bound"): d[k].append(v)
        elif k == "noskip": d["skip"].remove(v)
        elif k in ("cxx", "libs"): d[k] += shlex.split(v)
    return d
def compile_bc(u, w):
    n = os.path.splitext(os.path.basename(u["file"]))[0]; o = os.path.join(w, n)
    opt = "sroa,simplifycfg,early-cse,instsimplify"
    rc, out = sh(["clang++-18", *STD, "-O0", "-Xclang", "-disable-O0-optnone", "-g1", "-ffp-contract=off", "-fno-builtin-printf", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-DVP_SYMBOLIC=1", "-w", *INC, *u["cxx"], "-c", "-emit-llvm", "-o", o + ".0.bc", u["file"]], 600)
    if rc: return out
    rc, out2 = sh(["opt-18", "-passes=" + opt, "-o", o + ".bc", o + ".0.bc"], 300)
    if rc: return out2
    u["bc"] = o + ".bc"; return None
def compile_native(u, w, san):
    n = os.path.splitext(os.path.basename(u["file"]))[0]; o = os.path.join(w, n + (".san" if san else ".nat"))
    fl = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=undefined,float-cast-overflow", "-fno-sanitize=vptr"] if san else []
    fl = fl + ["-D_GLIBCXX_ASSERTIONS"]
    cc = "clang++-18" if san else "g++"
    rc, out = sh([cc, *STD, "-O1", "-g1", "-ffp-contract=off", "-w", *fl, *INC, *u["cxx"], "-rdynamic", "-o", o, u["file"], os.path.join(H, "vp_native.cpp"), *u["libs"], "-ldl", "-lpthread"], 600)
    if rc: return out
    u["san" if san else "nat"] = o; return None
def run_entry(e, w, tier, seed, deadline, slc=0):
    u = e.unit; kv = e.kv
    t = int(kv.get("thorough", int(kv.get("time", 40)) * 8)) if tier == "thorough" else int(kv.get("time", 40))
    t = max(5, min(t, int(deadline - time.time())))
    if slc: t = min(t, 10)
    out = os.path.join(w, "out." + e.name + (".s%d" % slc if slc else "")); os.makedirs(out, exist_ok=True)
    cmd = [os.path.join(B, "vpse"), u["bc"], os.path.join(B, "rt.bc"), "--entry", e.name, "--mode", kv.get("mode", "real"), "--out", out, "--time=%d" % t, "--seed=%d" % seed]
    for s in u["skip"]: cmd += ["--skip", s]
    opts = [x for x in kv.get("opts", "").split(",") if x]
    if tier == "thorough": opts += [x for x in kv.get("topts", "").split(",") if x]; 
    if tier == "thorough" and not any(o.startswith("--ts=") for o in opts): cmd.append("--ts=60000")
    cmd += opts
    if slc: cmd = [c for c in cmd if not c.startswith(("--ts=", "--tq="))] + ["--slice=%d" % slc, "--ts=3000", "--tq=600", "--maxcex=2", "--pintries=0"]
    env = dict(os.environ, TMPDIR=out)
    rc, log = sh(cmd, t + 40, env)
    f = os.path.join(out, e.name + ".json")
    if os.path.exists(f):
        try: r = json.load(open(f)); r["log"] = log[-2000:]; return r
        except Exception as x: return {"error": "bad json %s" % x, "log": log[-2000:]}
    return {"error": "engine exit %d" % rc, "log": log[-2000:]}
MEM = ("memory", "undefined", "overflow", "conversion", "cast")
def replay(u, entry, inp, san):
    exe = u.get("san") if san and u.get("san") else u.get("nat")
    if not exe: return None, "no native build"
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096", UBSAN_OPTIONS="print_stacktrace=0")
    d = tempfile.mkdtemp(prefix="vp_replay_"); rc, out = sh([exe, entry, inp], 60, env, d); shutil.rmtree(d, ignore_errors=True)
    if rc == 42: return True, out[-600:]
    if rc == 124: return True, "HANG: no termination within 60 s"
    if rc not in (0, 77, 2): return True, ("CRASH rc=%d " % rc) + out[-1500:]
    return False, out[-600:]
def known():
    r = []
    try:
        for l in open(os.path.join(V, "known-findings.txt")):
            m = re.match(r"finding:\s+property=(\S+)\s+entry=(\S+)\s+label=\"([^\"]*)\"\s*(.*)", l)
            if m: r.append(m.groups())
    except OSError: pass
    return r
def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"); only = sys.argv[3:] 
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    deadline = t0 + (800 if tier == "quick" else 3500)
    if not engine(): print("cannot build the engine"); sys.exit(2)
    w = tempfile.mkdtemp(prefix="vp_%s_" % prop, dir="/tmp")
    try: rc = go(prop, tier, seed, t0, deadline, w, only)
    finally:
        if not os.environ.get("VP_KEEP"): shutil.rmtree(w, ignore_errors=True)
        else: print("kept", w)
    sys.exit(rc)
def go(prop, tier, seed, t0, deadline, w, only):
    units = [parse(f) for f in sorted(glob.glob(os.path.join(H, prop + ".cpp")) + glob.glob(os.path.join(H, prop + "_*.cpp")))]
    notes = []; results = {}; slices = {}; viol = []; unconf = []; traces = 0; samples = []; tv_fail = []
    with cf.ThreadPoolExecutor(8) as ex, cf.ThreadPoolExecutor(4) as nx:
        bcs = {}; nats = {}
        for u in units:
            u["run"] = [e for e in u["entries"] if (tier == "thorough" or e.kv.get("tier") != "thorough") and (not only or e.name in only)]
            if not u["run"]: continue
            bcs[ex.submit(compile_bc, u, w)] = u
            nats[nx.submit(compile_native, u, w, False)] = u
            if any(e.kv.get("asan") for e in u["run"]): nats[nx.submit(compile_native, u, w, True)] = u
        runs = {}
        for f in cf.as_completed(bcs):
            u = bcs[f]; err = f.result()
            if err: notes.append("harness %s does not compile against this tree: %s" % (os.path.basename(u["file"]), err[-600:])); continue
            for e in u["run"]: runs[ex.submit(run_entry, e, w, tier, seed, deadline)] = e
        for f in cf.as_completed(runs): results[runs[f].name] = (runs[f], f.result())
        for f in cf.as_completed(nats):
            err = f.result()
            if err: notes.append("native build of %s failed: %s" % (os.path.basename(nats[f]["file"]), err[-600:]))
    rdir = os.path.join(os.environ.get("VP_EVID", os.path.join(V, "evidence")), "replay"); 
    def tryviol(name, e, vs):
        san = bool(e.kv.get("asan"))
        for v in vs:
            memlike = san or any(m in v["label"] for m in MEM)
            ok, out = replay(e.unit, name, v["file"], san)
            if ok and not san and not memlike and "CHECKFAIL" not in out and "UNCAUGHT" not in out and not out.startswith(("CRASH", "HANG")): ok = False
            rec = {"entry": name, "label": v["label"], "what": v["what"], "where": v["where"], "native": out}
            if ok:
                os.makedirs(rdir, exist_ok=True); dst = os.path.join(rdir, "%s.%s" % (prop, os.path.basename(v["file"]))); shutil.copy(v["file"], dst); rec["replay"] = dst; viol.append(rec)
            else: unconf.append(rec)
    for name, (e, r) in sorted(results.items()):
        if "error" in r: notes.append("%s: %s %s" % (name, r["error"], r.get("log", "")[-300:])); continue
        san = bool(e.kv.get("asan"))
        for wit in sorted(glob.glob(os.path.join(w, "out." + name, "*.wit"))):
            ok, out = replay(e.unit, name, wit, san)
            if ok is None: continue
            if not ok and "COVER" in out: traces += 1
            elif ok:  # a witness of a passing path fails natively: the encoding and the code disagree
                tv_fail.append("%s: witness replay fails natively: %s" % (os.path.basename(wit), out.strip()[-300:]))
            if len(samples) < 6: samples.append({"entry": name, "witness": os.path.basename(wit), "inputs": [l.strip() for l in open(wit)][1:12], "native": out.strip()[-200:]})
        tryviol(name, e, r["violations"])
    # entries with undecided assertions or unconfirmed counterexamples: the solver decides lower-dimensional slices of them
    unc = {x["entry"] for x in unconf}
    weak = [e for n, (e, r) in sorted(results.items()) if ("error" in r or n in unc or r["timed_out"] or r["dropped"] or any(c["undecided"] for c in r["labels"].values())) and e.kv.get("slices") != "0"]
    kf = known(); isknown = lambda v: next((x for x in kf if x[0] == prop and x[1] == v["entry"] and (x[2] == v["label"] or "CHECKFAIL " + x[2] in v["native"])), None)
    if weak and not [v for v in viol if not isknown(v)]:
        per = max(4, min(24, 120 // len(weak))) * (1 if tier == "quick" else 6)
        with cf.ThreadPoolExecutor(8) as ex:
            for k in range(0, per, 4):
                if time.time() > deadline - 60 or [v for v in viol if not isknown(v)]: break
                sl = {ex.submit(run_entry, e, w, tier, seed, deadline, 1 + q + 1000 * (seed - 1)): e for q in range(k, min(k + 4, per)) for e in weak}
                for f in cf.as_completed(sl):
                    r = f.result(); slices.setdefault(sl[f].name, []).append(r)
                    if "error" not in r: tryviol(sl[f].name, sl[f], r["violations"])
    # --------------------------------------------------------------- verdict
    new = []; seen = set()
    for v in viol:
        k = isknown(v)
        if k:
            if k[1:3] not in seen: print("KNOWN-FINDING: property=%s %s" % (prop, k[3] or v["label"])); seen.add(k[1:3])
        else: new.append(v)
    rs = [r for _, r in results.values() if "error" not in r]
    S = lambda k: sum(r[k] for r in rs)
    lab = {}
    for _, (e, r) in sorted(results.items()):
        if "error" in r: continue
        for l, c in r["labels"].items():
            d = lab.setdefault(l, {"reached": 0, "discharged": 0, "violated": 0, "undecided": 0})
            for k in d: d[k] += c[k]
    cov = {"states": S("paths") + S("error_paths") + S("uncaught_paths"), "transitions": S("instructions"), "traces_validated_against_impl": traces,
        "samples": samples or ["(no witness)"],
        "explanation": "states = symbolic paths explored to the end, transitions = LLVM IR instructions executed symbolically, traces = solver witnesses re-executed on the natively compiled code with all checks holding",
        "queries": S("queries"), "queries_unsat": S("unsat"), "queries_sat": S("sat"), "queries_unknown": S("unknown"), "queries_cached": S("cached"), "external_portfolio": S("external"), "equalities_by_normal_form": S("normalform"), "solver_s": round(S("solver_s"), 2),
        "assertions": lab, "functions_encoded": own_functions(rs), "library_functions_encoded": len({f for r in rs for f in r["functions"]}),
        "bounds": [b for u in units for b in u["bound"]], "not_covered": {"unsupported_paths": S("unsupported_paths"), "paths_dropped_at_time_limit": S("dropped"), "undecided_assertions": sum(d["undecided"] for d in lab.values()), "unsupported": {n: r["unsupported"] for n, (e, r) in results.items() if "error" not in r and r["unsupported"]}},
        "slices": {n: {"runs": len(q), "queries": sum(x["queries"] for x in q if "error" not in x), "solver_s": round(sum(x["solver_s"] for x in q if "error" not in x), 2)} for n, q in slices.items()},
        "covers_missing": [n + ":" + c for n, (e, r) in results.items() if "error" not in r for c, h in r["covers"].items() if not r["coverhit"].get(c)],
        "unconfirmed_counterexamples": [{k: x[k] for k in ("entry", "label", "what", "where")} for x in unconf], "witness_mismatch": tv_fail, "notes": notes,
        "entries": {n: {k: r[k] for k in ("mode", "paths", "pruned", "error_paths", "unsupported_paths", "dropped", "timed_out", "queries", "solver_s", "wall_s", "labels")} for n, (e, r) in results.items() if "error" not in r}}
    EV = os.environ.get("VP_EVID", os.path.join(V, "evidence"))
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": sorted({a for u in units for a in u["assume"]}) + ["real mode: IEEE rounding is outside the claim (exact reals with NaN/Inf); fp mode is bit-precise", "symbolic executor, clang-18 lowering and the SMT solvers are trusted; every reported violation is replayed on natively compiled code"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(EV, exist_ok=True)
    json.dump(ev, open(os.path.join(EV, prop + ".json"), "w"), indent=1)
    if os.environ.get("VP_VERBOSE") or only:
        for n, (e, r) in sorted(results.items()):
            if "error" in r: print(n, r["error"], r["log"]); continue
            print("%-28s %s paths=%d pruned=%d err=%d unsup=%d drop=%d q=%d solver=%.1fs wall=%.1fs" % (n, r["mode"], r["paths"], r["pruned"], r["error_paths"], r["unsupported_paths"], r["dropped"], r["queries"], r["solver_s"], r["wall_s"]))
            for l, c in r["labels"].items(): print("     ", l, c)
            for x, c in r["unsupported"].items(): print("      UNSUP", c, x[:400])
        for x in unconf[:6]: print("UNCONFIRMED", json.dumps(x)[:420])
        for x in tv_fail: print("WITNESS-MISMATCH", x)
        for x in cov["covers_missing"]: print("COVER-MISSING", x)
    for n in notes: print("NOTE", n[:800])
    for v in new[:12]: print("  %s/%s: %s at %s\n    native: %s" % (v["entry"], v["label"], v["what"], v["where"][:300], v["native"].strip()[-300:].replace("\n", " | ")))
    if new: print("VIOLATION property=%s replay=%s" % (prop, new[0]["replay"])); return 1
    if not rs: print("no entry of %s could be decided" % prop); return 2
    print("ok property=%s paths=%d assertions=%d discharged=%d undecided=%d unconfirmed=%d unsup=%d queries=%d solver=%.1fs traces=%d wall=%.1fs" % (prop, cov["states"], sum(d["reached"] for d in lab.values()), sum(d["discharged"] for d in lab.values()), sum(d["undecided"] for d in lab.values()), len(unconf), cov["not_covered"]["unsupported_paths"], cov["queries"], cov["solver_s"], traces, time.time() - t0))
    return 0
main()
