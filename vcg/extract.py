"""Mechanical extraction: /repo source -> LLVM IR (clang, no optimisation) -> SSA form (mem2reg, simplifycfg, loop-simplify, lcssa)."""
import hashlib
import os
import subprocess
import tempfile
from . import llvmir, dbg, engine

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
FLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-g", "-std=c99", "-D_GNU_SOURCE", "-DNDEBUG", "-DVL_DISABLE_OPENMP",
         "-ffp-contract=off", "-fno-strict-aliasing", "-w", "-D__NO_CTYPE"]
PASSES = "function(mem2reg,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts>,lcssa)"
CMDS = []


def ir(src, extra=(), workdir=None):
    """src: path relative to /repo (or absolute path of a /verif instantiation file). Returns (Module, Dbg)"""
    wd = workdir or tempfile.mkdtemp(prefix="vcg")
    path = src if os.path.isabs(src) else os.path.join(VERIF if src.startswith("inst/") else REPO, src)
    base = os.path.join(wd, hashlib.md5((path + " ".join(extra)).encode()).hexdigest()[:10])
    passes = PASSES.replace("mem2reg", "sroa") if "@sroa" in extra else PASSES      # @sroa: also split local unions/structs into scalars
    c1 = ["clang"] + FLAGS + [x for x in extra if x[0] != "@"] + ["-I" + REPO, "-I" + os.path.join(REPO, "vl"), "-S", "-emit-llvm", "-o", base + ".0.ll", path]
    r = subprocess.run(c1, capture_output=True, text=True)
    if r.returncode:
        raise engine.ShapeError("clang failed on %s: %s" % (src, r.stderr[-500:]))
    c2 = ["opt", "-S", "-passes=" + passes, base + ".0.ll", "-o", base + ".ll"]
    r = subprocess.run(c2, capture_output=True, text=True)
    if r.returncode:
        raise engine.ShapeError("opt failed on %s: %s" % (src, r.stderr[-500:]))
    with open(base + ".ll") as f:
        text = f.read()
    return llvmir.load(base + ".ll"), dbg.Dbg(text)
