"""Runs one property: extraction, obligations, solvers, vacuity checks, counterexample search on the real code, evidence."""
import glob
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NW = int(os.environ.get("VERIF_JOBS", "8"))


class Unit:
    """a translation unit of /repo (or an instantiation of one of its template headers) and the contracts verified on it"""

    def __init__(self, src, contracts, fp="uf", axioms=(), flags=(), uses=(), t0=None, quick_ms=120, extra_axioms=None):
        self.src, self.contracts, self.fp, self.axioms, self.flags, self.uses, self.t0, self.quick_ms = src, contracts, fp, axioms, flags, uses, t0, quick_ms
        self.extra_axioms = extra_axioms


class Lemma:
    def __init__(self, name, facts, goal):
        self.name, self.facts, self.goal = name, facts, goal


class Cbmc:
    """harness over the full input domain of real functions (loop-free or fully unwound with unwinding assertions)"""

    def __init__(self, name, harness, sources=(), flags=(), function="main", unwind=None, complete=True, thorough=False, tmo=300, checks=True):
        self.name, self.harness, self.sources, self.flags, self.function = name, harness, sources, list(flags), function
        self.unwind, self.complete, self.thorough, self.tmo, self.checks = unwind, complete, thorough, tmo, checks


class Oracle:
    """executable form of the contracts, run on the real code: replays and searches for a failing input"""

    def __init__(self, harness, sources="all", iters=(2000, 20000), san=True, flags=(), tmo=200, always=False, libs=("-lm", "-lpthread"), what="", exclude=()):
        self.harness, self.sources, self.iters, self.san, self.flags, self.tmo, self.always, self.libs = harness, sources, iters, san, list(flags), tmo, always, libs
        self.what, self.exclude = what, tuple(exclude)


class Prop:
    def __init__(self, id, units=(), lemmas=None, cbmc=(), oracles=(), level="proof", note="", bounded=(), trusted=()):
        self.id, self.units, self.lemmas, self.cbmc, self.oracles, self.level = id, list(units), lemmas, list(cbmc), list(oracles), level
        self.note, self.bounded, self.trusted = note, list(bounded), list(trusted)


def load_prop(pid):
    sys.path.insert(0, VERIF)
    return importlib.import_module("props." + pid.replace("-", "_")).PROP


def gen_task(a):
    pid, ui, ci, wd = a
    from . import engine, extract, solve
    out = {"unit": ui, "ci": ci, "fn": None, "variants": [], "error": None}
    try:
        prop = load_prop(pid)
        u = prop.units[ui]
        ct = u.contracts[ci]
        out["fn"] = ct.fn
        M, D = extract.ir(u.src, u.flags, os.path.join(wd, "ir%d_%d" % (ui, ci)) if os.makedirs(os.path.join(wd, "ir%d_%d" % (ui, ci)), exist_ok=True) is None else wd)
        cmap = {}
        for c in list(u.contracts) + list(u.uses):
            cmap[c.fn] = c

        def attempt(alias):
            E = engine.Engine(M, u.fp, u.axioms, cmap, D, u.quick_ms)
            E.alias = alias
            if u.extra_axioms:
                E.axiom_facts += u.extra_axioms(E)
            E.verify(ct)
            return E
        todo = [{}]
        tries = 0
        while todo and tries < 10:
            al = todo.pop(0)
            tries += 1
            try:
                E = attempt(al)
            except engine.NameMissing as nm:
                taken = set(v for k, v in al.items() if k[0] == nm.fn and k[1] == nm.loop)
                opts = [c for c in nm.cands if c not in taken]
                for c in opts:
                    d = dict(al)
                    d[(nm.fn, nm.loop, nm.name)] = c
                    todo.append(d)
                out["error"] = ("shape", str(nm))
                continue
            k = len(out["variants"])
            vd = os.path.join(wd, "u%d_c%d_v%d" % (ui, ci, k))
            os.makedirs(vd)
            obs = []
            for n, o in enumerate(E.obls):
                p = os.path.join(vd, "o%d.smt2" % n)
                with open(p, "w") as f:
                    f.write(solve.smt2(list(o.facts[0]) + o.facts[1][:o.nf], o.goal))
                obs.append({"name": o.name, "kind": o.kind, "fn": o.fn, "line": o.line, "file": p})
            cvs = []
            for n, (fn, lab, g, nf, ax, allf) in enumerate(E.covers):
                p = os.path.join(vd, "c%d.smt2" % n)
                with open(p, "w") as f:
                    f.write(solve.smt2(list(ax) + allf[:nf], engine.z3.Not(g)))
                cvs.append({"fn": fn, "label": lab, "file": p})
            out["variants"].append({"obls": obs, "covers": cvs, "assumed": sorted(E.assumed), "inlined": sorted(E.inlined), "called": sorted(E.called),
                                    "contracts_used": sorted(E.used_contracts), "gone": E.gone, "trivial": getattr(E, "trivial", 0), "quick": E.nquick,
                                    "alias": {"/".join(map(str, k)): v for k, v in al.items()},
                                    "axioms": sorted(set(n for n, _ in E.fp.axioms())), "fpmode": u.fp})
            out["error"] = None
            if len(out["variants"]) >= 6 or not al:
                break
    except (engine.Unsupported, engine.ShapeError, engine.NameMissing) as e:
        out["error"] = ("shape" if not isinstance(e, engine.Unsupported) else "unsupported", str(e))
    except RecursionError as e:
        out["error"] = ("unsupported", "recursion limit: " + str(e))
    except Exception as e:
        out["error"] = ("internal", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    return out


def gen_lemmas(a):
    pid, wd = a
    from . import engine, solve
    prop = load_prop(pid)
    res = []
    for n, lm in enumerate(prop.lemmas()):
        p = os.path.join(wd, "lemma%d.smt2" % n)
        with open(p, "w") as f:
            f.write(solve.smt2(list(lm.facts), lm.goal))
        res.append({"name": "lemma:" + lm.name, "kind": "lemma", "fn": "-", "line": 0, "file": p})
    return res


def quantified(o):
    if "quant" not in o:
        with open(o["file"]) as f:
            t = f.read()
        o["quant"] = "(forall" in t or "(exists" in t or "(lambda" in t
    return o["quant"]


def solve_all(obls, tiers, deadline, limit=None):
    from . import solve

    def one(o, level, tmo):
        if time.time() > deadline:
            o.setdefault("res", "timeout")
            return
        L = solve.backends(tmo, level)
        if level == 0:
            rs = [(L[0][0],) + solve.run(L[0][1], o["file"], tmo)[:2]]
        else:
            rs = solve.race(L, o["file"], tmo)
        for name, r, t in rs:
            o["time"] = o.get("time", 0) + t
            o.setdefault("log", []).append("%s: %s (%.1fs)" % (name, r, t))
            if r == "unsat":
                o["res"], o["solver"] = r, name
        if o.get("res") == "unsat":
            return
        for name, r, t in rs:
            if r == "sat" or "res" not in o or o["res"] == "timeout":
                o["res"], o["solver"] = r, name
    for level, tmo in tiers:
        # a model of a quantified query is not final: the model finders are incomplete (arrays under quantifiers)
        left = [o for o in obls if o.get("res") != "unsat" and (o.get("res") != "sat" or quantified(o))]
        if not left or (limit and level >= 2 and len(left) > limit):
            break
        with ThreadPoolExecutor(NW) as ex:
            list(ex.map(lambda o: one(o, level, tmo), left))
    for o in obls:
        o.setdefault("res", "timeout")
        o.setdefault("time", 0)


def check_covers(cvs):
    from . import solve

    def one(c):
        c["res"] = solve.run(["z3-new", "-T:2"], c["file"], 2)[0]
    with ThreadPoolExecutor(NW) as ex:
        list(ex.map(one, cvs))


# ------------------------------------------------------------------------------------------------ CBMC
def run_cbmc(h, wd, quick):
    r = {"name": "cbmc:" + h.name, "kind": "cbmc", "fn": h.name, "line": 0, "complete": h.complete, "solver": "cbmc-6.11.0/minisat"}
    src = os.path.join(VERIF, "harness", h.harness)
    out = os.path.join(wd, h.name + ".gb")
    cmd = ["goto-cc", "-std=c99", "-D_GNU_SOURCE", "-DNDEBUG", "-DVL_DISABLE_SSE2", "-DVL_DISABLE_AVX", "-DVL_DISABLE_OPENMP", "-DVERIF_CBMC", "-I" + REPO, "-I" + REPO + "/vl", "-I" + VERIF + "/harness"] + h.flags + \
          ["-o", out, src] + [os.path.join(REPO, s) for s in h.sources]
    t0 = time.time()
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        r.update(res="error", log=[p.stderr[-1500:]], time=time.time() - t0)
        return r
    cmd = ["cbmc", out, "--function", h.function, "--json-ui", "--trace", "--slice-formula", "--no-standard-checks"]
    if h.checks:
        cmd += ["--bounds-check", "--pointer-check", "--div-by-zero-check", "--pointer-overflow-check", "--undefined-shift-check"] if h.checks is True else list(h.checks)
    if h.unwind:
        cmd += ["--unwind", str(h.unwind), "--unwinding-assertions"]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=h.tmo)
    except subprocess.TimeoutExpired:
        r.update(res="timeout", log=["cbmc timed out after %ds" % h.tmo], time=time.time() - t0)
        return r
    r["time"] = time.time() - t0
    props, status, msgs = [], None, []
    try:
        for m in json.loads(p.stdout):
            if "result" in m:
                props = m["result"]
            if "cProverStatus" in m:
                status = m["cProverStatus"]
            if m.get("messageType") == "ERROR":
                msgs.append(m.get("messageText", ""))
    except Exception as e:
        r.update(res="error", log=[str(e), p.stdout[-800:], p.stderr[-800:]])
        return r
    r["nprops"] = len(props)
    r["nok"] = sum(1 for q in props if q["status"] == "SUCCESS")
    bad = [q for q in props if q["status"] == "FAILURE"]
    r["cmd"] = " ".join(cmd)
    if status == "success" and props:
        r["res"] = "unsat"
    elif bad:
        r["res"] = "sat"
        r["failed"] = []
        for q in bad[:8]:
            vals = {}
            for s in q.get("trace", []):
                if s.get("stepType") == "assignment" and not s.get("hidden") and s.get("sourceLocation", {}).get("function") in (h.function, "main"):
                    v = s.get("value", {})
                    if "data" in v:
                        vals[s.get("lhs")] = v["data"]
            r["failed"].append({"property": q["property"], "description": q.get("description"), "input": vals})
        r["log"] = [json.dumps(x) for x in r["failed"]]
        if all(".unwind." in q["property"] for q in bad):
            r["res"] = "unknown"
    else:
        r["res"] = "error"
        r["log"] = msgs or [p.stdout[-500:]]
    return r


# ------------------------------------------------------------------------------------------------ oracles
LIBSRC_EXCLUDE = ()


def build_oracle(o, wd):
    b = os.path.join(wd, "orc")
    os.makedirs(b, exist_ok=True)
    san = ["-fsanitize=address"] if o.san else []
    cf = ["-g", "-O1", "-std=gnu99", "-D_GNU_SOURCE", "-DNDEBUG", "-DVL_DISABLE_OPENMP", "-w", "-fno-omit-frame-pointer", "-I" + REPO, "-I" + REPO + "/vl", "-I" + VERIF + "/harness", "-ffp-contract=off"] + san + o.flags
    srcs = []
    if o.sources == "all":
        srcs = [s for s in sorted(glob.glob(REPO + "/vl/*.c")) if os.path.relpath(s, REPO) not in o.exclude]
    else:
        srcs = [os.path.join(REPO, s) for s in o.sources]
    jobs, objs = [], []
    for s in srcs + [os.path.join(VERIF, "harness", o.harness)]:
        fl = list(cf)
        if s.endswith("_sse2.c"):
            fl.append("-msse2")
        if s.endswith("_avx.c"):
            fl.append("-mavx")
        ob = os.path.join(b, os.path.basename(s) + "." + hashlib.md5((s + " ".join(fl)).encode()).hexdigest()[:8] + ".o")
        objs.append(ob)
        if not os.path.exists(ob):
            jobs.append(["gcc"] + fl + ["-c", s, "-o", ob])
    with ThreadPoolExecutor(NW) as ex:
        rs = list(ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), jobs))
    for r in rs:
        if r.returncode:
            return None, r.stderr[-2000:]
    exe = os.path.join(b, o.harness + ".exe")
    r = subprocess.run(["gcc"] + san + objs + ["-o", exe] + list(o.libs), capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-2000:]
    return exe, None


def run_oracle(o, wd, seed, iters, tmo=None):
    exe, err = build_oracle(o, wd)
    if exe is None:
        return {"status": "nobuild", "out": err}
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
    sc = os.path.join(wd, "scratch")
    os.makedirs(sc, exist_ok=True)
    cmd = [exe, str(seed), str(iters)]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=tmo or o.tmo, env=env, cwd=sc, errors="replace")
    except subprocess.TimeoutExpired as e:
        so = e.stdout or b""
        so = so.decode(errors="replace") if isinstance(so, bytes) else so
        if "RUNNING " in so:
            return {"status": "hang", "out": so[-3000:], "cmd": cmd, "time": time.time() - t0}
        return {"status": "timeout", "out": so[-3000:], "cmd": cmd, "time": time.time() - t0}
    cases = 0
    samples = []
    for line in p.stdout.split("\n"):
        if line.startswith("CASES "):
            cases = int(line.split()[1])
        if line.startswith("SAMPLE "):
            samples.append(line[7:])
    st = "ok" if p.returncode == 0 else "fail"
    if st == "ok" and cases == 0:
        st = "empty"
    return {"status": st, "rc": p.returncode, "out": (p.stdout[-3000:] + "\n" + p.stderr[:3500]), "cmd": cmd, "cases": cases, "samples": samples[:3], "time": time.time() - t0}


# ------------------------------------------------------------------------------------------------ main
def main(pid, tier):
    t_start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    quick = tier == "quick"
    deadline = t_start + (560 if quick else 840)
    wd = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        return _main(pid, tier, t_start, seed, quick, deadline, wd)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(wd, ignore_errors=True)
        else:
            print("kept", wd)


def _main(pid, tier, t_start, seed, quick, deadline, wd):
    prop = load_prop(pid)
    tasks = [(pid, ui, ci, wd) for ui, u in enumerate(prop.units) for ci, c in enumerate(u.contracts) if not getattr(c, "assumed", False)]
    only = os.environ.get("VERIF_ONLY")   # development only: functions whose name contains one of these
    if only:
        tasks = [t for t in tasks if any(o in prop.units[t[1]].contracts[t[2]].fn for o in only.split(","))]
        prop.cbmc, prop.oracles = [], []
    with ProcessPoolExecutor(NW) as ex:
        fgen = [ex.submit(gen_task, t) for t in tasks]
        flem = ex.submit(gen_lemmas, (pid, wd)) if prop.lemmas else None
        cb = [h for h in prop.cbmc if not (quick and h.thorough)]
        with ThreadPoolExecutor(4) as tex:
            fcb = [tex.submit(run_cbmc, h, wd, quick) for h in cb]
            gens = [f.result() for f in fgen]
            lem = flem.result() if flem else []
            cbr = [f.result() for f in fcb]
    gen_time = time.time() - t_start
    tiers = [(0, 4), (1, 15), (2, 60)] if quick else [(0, 10), (1, 60), (2, 150)]
    structural, failed, allob, assumed, functions = [], [], [], set(), []
    inl, cuse, covers = set(), set(), []
    # first pass with the default variant of each function
    first = []
    for g in gens:
        if g["error"] and not g["variants"]:
            structural.append({"fn": g["fn"], "why": "%s: %s" % g["error"]})
            continue
        for v in g["variants"]:
            first += v["obls"]
    first += lem
    solve_all(first, tiers[:1], deadline)
    rest = []
    chosen = []
    for g in gens:
        if not g["variants"]:
            continue
        best = min(g["variants"], key=lambda v: sum(1 for o in v["obls"] if o.get("res") != "unsat"))
        chosen.append((g, best))
        rest += [o for o in best["obls"] if o.get("res") != "unsat"]
    rest += [o for o in lem if o.get("res") != "unsat"]
    # a solver that found a model is final; the others get more time and the other back ends
    orc = []

    def search(final=False):
        """looks for a failing input on the real code (and is the bounded stand-in for what could not be decided)"""
        for o in prop.oracles:
            left = max(60, deadline + 250 - time.time())
            r = run_oracle(o, wd, seed, o.iters[1], tmo=min(o.tmo if quick else 2 * o.tmo, left))
            r["harness"] = o.harness
            orc.append((o, r))
            if r["status"] in ("fail", "hang"):
                return True
        return False
    chunk = 16
    k = 0
    while k < len(rest):
        solve_all(rest[k:k + chunk], tiers[1:2], deadline)
        bad = [o for o in rest[k:k + chunk] if o["res"] != "unsat"]
        if (bad or structural) and not orc and search():
            break
        k += chunk
    for o in rest:
        o.setdefault("res", "timeout")
    if not any(r["status"] in ("fail", "hang") for _, r in orc):
        solve_all([o for o in rest if o["res"] != "unsat"], tiers[2:], deadline, limit=10 if quick else None)
    for g, v in chosen:
        allob += v["obls"]
        assumed |= set(v["assumed"])
        inl |= set(v["inlined"])
        cuse |= set(v["contracts_used"])
        covers += v["covers"]
        bad = [o for o in v["obls"] if o["res"] != "unsat"]
        functions.append({"function": g["fn"], "unit": prop.units[g["unit"]].src, "obligations": len(v["obls"]), "discharged": len(v["obls"]) - len(bad), "fp": v["fpmode"]})
        if v["gone"]:
            structural.append({"fn": g["fn"], "why": "loops with invariants not found: %s" % v["gone"]})
        if not v["obls"]:
            structural.append({"fn": g["fn"], "why": "no obligations generated"})
        failed += bad
    allob += lem
    failed += [o for o in lem if o["res"] != "unsat"]
    check_covers(covers)
    vac = [c for c in covers if c.get("res") == "unsat"]
    for r in cbr:
        if r["res"] in ("error",):
            structural.append({"fn": r["fn"], "why": "cbmc: " + " ".join(r.get("log", []))[:600]})
        elif r["res"] != "unsat":
            failed.append(r)
    vac_bad = []
    for c in vac:
        vac_bad.append({"name": "%s:vacuity:%s" % (c["fn"], c["label"]), "kind": "vacuity", "fn": c["fn"], "line": 0, "res": "vacuous", "file": c["file"], "time": 0})
    # ------------------------------------------------ counterexample search on the real code / bounded stand-ins
    need = bool(failed or structural or vac_bad)
    verdict = 0
    if need and not orc:
        search()
    elif not need:
        for o in prop.oracles:
            if o.always or not quick:
                r = run_oracle(o, wd, seed, o.iters[0] if quick else o.iters[1], tmo=min(o.tmo if quick else 2 * o.tmo, max(30, deadline - time.time())))
                r["harness"] = o.harness
                orc.append((o, r))
    concrete = next(((o, r) for o, r in orc if r["status"] in ("fail", "hang")), None)
    cbmc_cex = [f for f in failed if f["kind"] == "cbmc" and f["res"] == "sat"]
    lines = []
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    rp = os.path.join(VERIF, "replays", "%s.json" % pid)

    def dump(o):
        d = {k: o.get(k) for k in ("name", "kind", "fn", "line", "res", "log", "failed", "solver")}
        return d
    known = load_known(pid)
    if concrete or failed or vac_bad:
        rep = {"property": pid, "seed": seed, "tier": tier, "failed_obligations": [dump(o) for o in (failed + vac_bad)[:40]], "undecided": structural}
        if concrete:
            o, r = concrete
            rep["failing_input"] = {"harness": "harness/" + o.harness, "args": r["cmd"][1:], "output": r["out"], "status": r["status"],
                                    "how_to_replay": "python3 /verif/check.py %s --replay %s %s" % (pid, o.harness, " ".join(r["cmd"][1:]))}
        elif cbmc_cex:
            rep["failing_input"] = {"cbmc": [dump(f) for f in cbmc_cex]}
        else:
            o = (failed + vac_bad)[0]
            rep["solver_output"] = model_text(o) if o.get("file") else None
        with open(rp, "w") as f:
            json.dump(rep, f, indent=1, default=str)
        for o in (failed + vac_bad)[:12]:
            print("FAILED-OBLIGATION %s [%s]" % (o["name"], o["res"]))
        if concrete:
            print("failing input (real code):\n" + concrete[1]["out"][:1500])
        verdict = 1
        line = "VIOLATION property=%s replay=%s" % (pid, rp)
        if not concrete and not cbmc_cex:
            line += " no-failing-input-found"
        lines.append(line)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    # ------------------------------------------------ evidence
    solvers = {}
    for o in allob:
        if o["res"] == "unsat":
            solvers[o["solver"]] = solvers.get(o["solver"], 0) + 1
    ncb = sum(r.get("nprops", 0) for r in cbr)
    ncbok = sum(r.get("nok", 0) for r in cbr)
    if ncbok:
        solvers["cbmc-6.11.0 (SAT)"] = ncbok
    nob, ndis = len(allob) + ncb, sum(1 for o in allob if o["res"] == "unsat") + ncbok
    cov = {"obligations": nob, "discharged": ndis, "checker_cmd": "python3-vt check.py %s --tier %s" % (pid, tier),
           "trusted_base": ["clang 18 front end and opt mem2reg/simplifycfg/loop-simplify/lcssa (extraction)", "/verif/vcg (verification-condition generator, memory model)",
                            "z3 5.3.2, z3 4.8.12, cvc5 1.1.2" + (", CBMC 6.11.0" if cbr else "")] + prop.trusted + sorted("float axiom: " + a for g, v in chosen for a in []),
           "functions_under_contract": functions, "inlined_without_contract": sorted(inl), "callee_contracts_used": sorted(cuse),
           "discharged_by": solvers, "solver_seconds": round(sum(o.get("time", 0) for o in allob) + sum(r.get("time", 0) for r in cbr), 1), "generation_seconds": round(gen_time, 1),
           "float_axioms": sorted(set(a for g, v in chosen for a in v["axioms"])),
           "vacuity_checks": {"run": len(covers), "vacuous": len(vac), "satisfiable": sum(1 for c in covers if c.get("res") == "sat"), "undetermined": sum(1 for c in covers if c.get("res") not in ("sat", "unsat"))},
           "cbmc": [{k: r.get(k) for k in ("name", "res", "nprops", "nok", "complete", "time")} for r in cbr],
           "undecided": structural, "failed": [o["name"] for o in failed][:40],
           "bounded_stand_ins": prop.bounded,
           "renamed_bindings": {g["fn"]: v["alias"] for g, v in chosen if v["alias"]},
           "samples": [o["name"] for o in allob[:5]]}
    if orc:
        cov["replay_harness"] = [{"harness": r["harness"], "status": r["status"], "cases": r.get("cases"), "iters": r.get("cmd", [None])[-1], "samples": r.get("samples"), "what": o.what} for o, r in orc]
        cov["evaluations"] = sum(r.get("cases") or 0 for _, r in orc)
    level = prop.level
    if level in ("exploration", "other"):
        cov.setdefault("evaluations", 0)
        cov["distinct_nontrivial"] = cov["evaluations"]
        cov["rule"] = prop.note or "random and boundary inputs checked against the executable contract"
        cov["explanation"] = prop.note
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": sorted(assumed) + GLOBAL_ASSUMPTIONS,
          "wall_s": round(time.time() - t_start, 2), "violations": 1 if verdict else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json") if not only else "/tmp/evidence-only.json", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for s in structural:
        print("UNDECIDED %s: %s" % (s["fn"], s["why"]))
    for o, r in orc:
        print("replay harness %s: %s, %s cases, %.1fs" % (r["harness"], r["status"], r.get("cases"), r.get("time", 0)))
        if r["status"] in ("nobuild", "empty"):
            print(r["out"][:1500])
    print("%s: %d/%d obligations discharged, %d functions, %d undecided, %.1fs" % (pid, ndis, nob, len(functions), len(structural), time.time() - t_start))
    for ln in lines:
        print(ln)
    return verdict


GLOBAL_ASSUMPTIONS = [
    "objects are at most 2^47 bytes and distinct pointer parameters/fields named by different regions of a contract do not overlap",
    "pointer arithmetic is only checked where the pointer is dereferenced",
    "NDEBUG build: assert() is compiled out",
    "single thread: no other thread writes the objects during the call",
]


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=%s " % pid):
                    out.append(line.split(" ", 2)[2])
    return out


def model_text(o):
    from . import solve
    try:
        with open(o["file"]) as f:
            t = f.read()
        p = o["file"] + ".m.smt2"
        with open(p, "w") as f:
            f.write(t + "\n(get-model)\n")
        r, _, out = solve.run(["z3-new", "-T:10"], p, 10)
        return out[:6000]
    except Exception as e:
        return str(e)


def replay(pid, harness, args):
    prop = load_prop(pid)
    wd = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        for o in prop.oracles:
            if o.harness == harness:
                r = run_oracle(o, wd, args[0], args[1])
                print(r["status"])
                print(r["out"])
                return 1 if r["status"] in ("fail", "hang") else 0
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return 0
