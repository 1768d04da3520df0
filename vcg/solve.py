"""Discharges obligations with a portfolio of external SMT solvers (one process per query)."""
import os
import re
import subprocess
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor
import z3

Z3NEW = ["z3-new", "-smt2"]
NW = int(os.environ.get("VERIF_JOBS", "8"))


def smt2(facts, goal):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    t = s.to_smt2()
    for n in ("exp", "sin", "cos", "tan", "sqrt", "arctan", "arcsin", "arccos"):      # names cvc5 reserves
        if "(declare-fun %s " % n in t:
            t = re.sub(r"(?<=[( ])%s(?= )" % n, n + "_fn", t)
    return t


def run(cmd, path, tmo):
    t0 = time.time()
    try:
        r = subprocess.run(cmd + [path], capture_output=True, text=True, timeout=tmo + 3)
        out = r.stdout.strip()
    except subprocess.TimeoutExpired:
        out = "timeout"
    first = out.split("\n")[0] if out else "unknown"
    if first not in ("sat", "unsat", "unknown"):
        first = "unknown" if "unknown" in out else ("timeout" if "timeout" in out or not out else "error:" + first[:120])
    return first, time.time() - t0, out


def backends(tmo, level):
    t = str(int(tmo))
    if level == 0:
        return [("z3-5.3.2", ["z3-new", "-T:" + t])]
    L = [("z3-4.8.12", ["z3", "-T:" + t]),
         ("z3-5.3.2", ["z3-new", "-T:" + t, "smt.mbqi=false", "smt.auto_config=false", "smt.arith.solver=2"]),
         ("cvc5-1.1.2", ["cvc5", "--tlimit=%d" % (tmo * 1000)])]
    if level >= 2:
        L += [("z3-5.3.2", ["z3-new", "-T:" + t, "smt.random_seed=7", "smt.mbqi=false", "smt.case_split=3"]),
              ("cvc5-1.1.2", ["cvc5", "--tlimit=%d" % (tmo * 1000), "--enum-inst"]),
              ("z3-5.3.2", ["z3-new", "-T:" + t, "tactic.default_tactic=smt", "sat.euf=true"]),
              ("z3-5.3.2", ["z3-new", "-T:" + t])]
    return L


def first_word(out):
    f = out.strip().split("\n")[0] if out.strip() else "unknown"
    if f not in ("sat", "unsat", "unknown"):
        f = "unknown" if "unknown" in out else ("timeout" if "timeout" in out or "interrupted" in out else "error:" + f[:120])
    return f


_slots = threading.Semaphore(NW)


def race(L, path, tmo):
    """runs the back ends concurrently (bounded by the number of cores); the first `unsat` wins and ends the others.
    Returns [(backend, answer, seconds)]"""
    procs = []
    done = threading.Event()
    res = []
    lock = threading.Lock()

    def one(name, cmd):
        with _slots:
            if done.is_set():
                return
            t0 = time.time()
            p = subprocess.Popen(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            with lock:
                procs.append(p)
            try:
                out, _ = p.communicate(timeout=tmo + 3)
            except subprocess.TimeoutExpired:
                p.kill()
                out = "timeout"
                p.communicate()
            r = first_word(out or "timeout")
            with lock:
                if not (done.is_set() and r != "unsat"):
                    res.append((name, r, time.time() - t0))
            if r == "unsat":
                done.set()
                with lock:
                    for q in procs:
                        if q.poll() is None:
                            q.kill()
    ths = [threading.Thread(target=one, args=x) for x in L]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return res
