"""Trusted semantics of library functions and intrinsics (each use is listed in the evidence)."""
import z3
from .engine import (IV, PV, Ptr, NULL, Region, I, TRUE, FALSE, And, Or, Not, Implies, If, Unsupported, ivc, strip, leaf_walk)

MATHF = {"sqrt": "sqrt", "sqrtf": "sqrt", "fabs": "fabs", "fabsf": "fabs", "exp": "exp", "expf": "exp", "log": "log", "logf": "log",
         "sin": "sin", "cos": "cos", "tan": "tan", "atan": "atan", "tanh": "tanh", "cosh": "cosh", "sinh": "sinh", "floor": "floor", "floorf": "floor",
         "ceil": "ceil", "ceilf": "ceil", "log2": "log2", "log2f": "log2", "sinf": "sin", "cosf": "cos", "rint": "rint", "trunc": "trunc",
         "log10": "log10", "acos": "acos", "asin": "asin"}
MATH2 = {"pow": "pow", "powf": "pow", "atan2": "atan2", "atan2f": "atan2", "fmod": "fmod", "fmodf": "fmod", "hypot": "hypot"}


def lookup(name):
    if name.startswith("llvm."):
        base = name.split(".")[1]
        if base in ("memcpy", "memmove"):
            return memcpy
        if base == "memset":
            return memset
        if base in ("fabs", "sqrt", "floor", "ceil", "exp", "log", "pow", "rint", "trunc", "sin", "cos", "round", "exp2", "log2"):
            return llvm_math
        if base == "fmuladd":
            return fmuladd
        if base in ("trap", "ubsantrap"):
            return abort
        if base == "expect":
            return lambda e, n, a, i: a[0]
        if base in ("umin", "umax", "smin", "smax"):
            return minmax
        if base == "abs":
            return llabs
        if base == "bswap":
            return bswap
        if base.startswith("x86"):
            return x86
        if base in ("stacksave", "stackrestore"):
            return lambda e, n, a, i: PV([(TRUE, NULL)])
        return None
    if name in MATHF:
        return math1
    if name in MATH2:
        return math2
    return TABLE.get(name)


def llvm_math(e, name, args, i):
    base = name.split(".")[1]
    e.assumed.add("libm/intrinsic %s: uninterpreted, deterministic" % base)
    if base == "pow":
        return e.vmap(lambda x, y: e.fp.call("pow", x, y), *args)
    return e.vmap(lambda x: e.fp.un(base, x), args[0])


def math1(e, name, args, i):
    e.assumed.add("libm %s: deterministic function of its argument" % name)
    return e.fp.un(MATHF[name], args[0])


def math2(e, name, args, i):
    e.assumed.add("libm %s: deterministic function of its arguments" % name)
    return e.fp.call(MATH2[name], *args)


def fmuladd(e, name, args, i):
    return e.vmap(lambda a, b, c: e.fp.bin("fadd", e.fp.bin("fmul", a, b), c), *args)


def minmax(e, name, args, i):
    base = name.split(".")[1]
    f = e.U if base[0] == "u" else e.S
    a, b = f(args[0]), f(args[1])
    lo, hi = e.rng(args[0].w, base[0] == "s")
    return IV(args[0].w, z3.If((a <= b) if base.endswith("min") else (a >= b), a, b), lo, hi)


def llabs(e, name, args, i):
    s = e.S(args[0])
    return IV(args[0].w, z3.If(s >= 0, s, -s), 0, 1 << (args[0].w - 1))


def cabs(e, name, args, i):
    s = e.S(args[0])
    w = args[0].w
    e.oblige("overflow", "abs", e.guard, s > -(1 << (w - 1)))
    return IV(w, z3.If(s >= 0, s, -s), 0, (1 << (w - 1)) - 1)


def bswap(e, name, args, i):
    w = args[0].w
    u = e.U(args[0])
    n = w // 8
    return IV(w, z3.Sum([((u / (256 ** k)) % 256) * (256 ** (n - 1 - k)) for k in range(n)]), 0, (1 << w) - 1)


def x86(e, name, args, i):
    n = name.split(".", 2)[2]
    if n.endswith(("rsqrt.ps",)):
        e.assumed.add("rsqrtps: uninterpreted")
        return [e.fp.un("rsqrtps", x) for x in args[0]]
    if n in ("sse.min.ps", "sse2.min.pd", "avx.min.ps.256", "avx.min.pd.256"):
        return [If(e.fp.lt(x, y), x, y) for x, y in zip(*args)]
    if n in ("sse.max.ps", "sse2.max.pd", "avx.max.ps.256", "avx.max.pd.256"):
        return [If(e.fp.lt(y, x), x, y) for x, y in zip(*args)]
    if n in ("sse3.hadd.ps", "avx.hadd.ps.256", "avx.hadd.pd.256", "sse3.hadd.pd"):
        a, b = args
        lane = 4 if n.endswith(("ps", "ps.256")) else 2
        out = []
        for base in range(0, len(a), lane):
            for src in (a, b):
                for k in range(0, lane, 2):
                    out.append(e.fp.bin("fadd", src[base + k], src[base + k + 1]))
        return out
    if n in ("avx.vzeroupper",):
        return None
    if n in ("sse2.cvttpd2dq", "sse2.cvttps2dq"):
        return [e.f2i("fptosi", x, i.ty.el) for x in args[0]] + [ivc(32, 0)] * (i.ty.n - len(args[0]))
    raise Unsupported("intrinsic " + name)


def abort(e, name, args, i):
    if getattr(e.top, "abort_ok", False):
        e.guard = FALSE
        return None
    e.oblige("noabort", "abort is not reachable", e.guard, FALSE)
    e.guard = FALSE
    return None


def new_region(e, name, bytes_, zeroed=False, site=None):
    e.n += 1
    r = Region("%s!%d" % (name, e.n), None, I(0), 0, array=True, local=True)
    r.bytes = bytes_
    r.zeroed = zeroed
    r.signed = e.top.overrides.get("local_signed", {}) if e.top.overrides else {}
    e.n_alloc = getattr(e, "n_alloc", 0) + 1
    if site is not None:
        e.blocks[site] = r
        ht = getattr(e.top, "heap_types", ())
        if len(e.blocks) <= len(ht) and ht[len(e.blocks) - 1]:
            e.set_type(r, e.type_of(ht[len(e.blocks) - 1]))
    return PV([(TRUE, Ptr("reg", r, (), I(0), ()))])


def alloc_size(e, v):
    b = v.e
    if not (v.lo >= 0 and v.hi < (1 << 64)):
        # the requested size must not have wrapped; then the mathematical product is the size
        e.assumed.add("allocation sizes do not overflow size_t (%s)" % e.cur_fn)
        e.fact(Implies(e.guard, z3.And(b >= 0, b < (1 << 64))))
    return b


def vmalloc(e, name, args, i):
    e.assumed.add("memory allocation succeeds (vl_malloc/vl_calloc/malloc)")
    return new_region(e, "heap", alloc_size(e, args[0]), site=i)


def vcalloc(e, name, args, i):
    e.assumed.add("memory allocation succeeds (vl_malloc/vl_calloc/malloc)")
    return new_region(e, "heap", alloc_size(e, e.mul(args[0], args[1])), True, i)


def vfree(e, name, args, i):
    return None


def memcpy(e, name, args, i):
    dst, src, n = args[:3]
    if n.const() and n.lo == 0:
        return dst
    d, s = e.single(dst), e.single(src)
    e.deref(dst, "memcpy"), e.deref(src, "memcpy")
    copy_range(e, d, s, n)
    return dst


def elem_ptr(e, p, other):
    """pointer to first scalar/struct element with arithmetic"""
    return p


def copy_range(e, d, s, n):
    for p, o in ((d, s), (s, d)):
        if p.region.ty is None:
            if o.region.ty is None:
                raise Unsupported("memcpy between untyped blocks")
            t = leaf_walk(o.region.ty, o.path)
            while t.k in ("array", "vec"):
                t = t.el
            e.set_type(p.region, t)
    td, ts = leaf_walk(d.region.ty, d.path), leaf_walk(s.region.ty, s.path)
    # whole-struct / small constant copies: leaf by leaf
    if n.const() and td.size() == n.lo and ts.size() == n.lo and td.k == "struct" and ts.k == "struct":
        e.check_access(d, 1, "memcpy", True)
        e.check_access(s, 1, "memcpy")
        copy_leaves(e, d, s, td)
        return
    while td.k in ("struct", "array", "vec") and td.size() != ts.size():
        if td.k == "struct":
            d = d.at(path=d.path + (0,))
            td = td.fields[0]
        else:
            d = d.at(path=d.path + (("a", I(0)),))
            td = td.el
    while ts.k in ("array", "vec") and td.size() != ts.size():
        s = s.at(path=s.path + (("a", I(0)),))
        ts = ts.el
    if td.k in ("array", "vec") and ts.k in ("array", "vec") :
        while td.k in ("array", "vec"):
            d = d.at(path=d.path + (("a", I(0)),))
            td = td.el
        while ts.k in ("array", "vec"):
            s = s.at(path=s.path + (("a", I(0)),))
            ts = ts.el
    if td.size() != ts.size():
        raise Unsupported("memcpy between %s and %s" % (td, ts))
    cnt = e.exact_div(n.e, td.size())
    if cnt is None:
        raise Unsupported("memcpy of a partial element")
    if z3.is_int_value(cnt) and cnt.as_long() <= 16:
        k = cnt.as_long()
        e.check_access(d, k, "memcpy", True)
        e.check_access(s, k, "memcpy")
        for j in range(k):
            copy_leaves(e, e.shift(d, j), e.shift(s, j), td)
        return
    if not (0 <= n.lo and n.hi < 1 << 64):
        e.oblige("nowrap", "memcpy size", e.guard, And(n.e >= 0, n.e < (1 << 64)))
    g = e.guard
    e.guard = And(g, cnt > 0)
    e.check_access(d, cnt, "memcpy", True)
    e.check_access(s, cnt, "memcpy")
    e.guard = g
    if any(not isinstance(x, int) for x in d.path) or any(not isinstance(x, int) for x in s.path):
        raise Unsupported("symbolic memcpy into nested arrays")
    for lp, ty in e.leaves(td):
        if any(not isinstance(x, int) for x in lp):
            raise Unsupported("symbolic memcpy of nested arrays")
        kd, ks = (d.region, strip(d.path) + lp), (s.region, strip(s.path) + lp)
        for wl in e.writelogs:
            wl.add(kd)
        od, os_ = e.getmem(e.state, kd), e.getmem(e.state, ks)
        new = e.fresh("cp_" + e.keyname(kd), e.keysort(kd))
        e.state[kd] = new
        a, b, c = new, od, os_
        if d.fam or s.fam:
            a, b, c = range_fam(e, a, b, d.fam), e.sel(od, d.fam), e.sel(os_, s.fam)
        q = z3.Int("cp!i")
        src = z3.Select(c, q - d.idx + s.idx)
        if ty.k == "int" and e.signed_key(kd) != e.signed_key(ks):
            m, h = 1 << ty.w, 1 << (ty.w - 1)
            src = z3.If(src >= h, src - m, src) if e.signed_key(kd) else z3.If(src < 0, src + m, src)
        e.fact(z3.ForAll([q], z3.Select(a, q) == z3.If(z3.And(q >= d.idx, q < d.idx + cnt), src, z3.Select(b, q)), patterns=[z3.Select(a, q)]))


def range_fam(e, new, old, fam):
    vs = [z3.Int("cf!%d" % k) for k in range(len(fam))]
    x, y = old, new
    for v in vs:
        x, y = z3.Select(x, v), z3.Select(y, v)
    e.fact(z3.ForAll(vs, Implies(Or(*[v != f for v, f in zip(vs, fam)]), x == y), patterns=[y]))
    return e.sel(new, fam)


def copy_leaves(e, d, s, ty):
    if ty.k == "struct":
        for j, f in enumerate(ty.fields):
            copy_leaves(e, d.at(path=d.path + (j,)), s.at(path=s.path + (j,)), f)
    elif ty.k in ("array", "vec"):
        if ty.n > 64:
            raise Unsupported("copy of a large array member")
        for j in range(ty.n):
            copy_leaves(e, d.at(path=d.path + (("a", I(j)),)), s.at(path=s.path + (("a", I(j)),)), ty.el)
    else:
        v = e.raw_load(e.state, s)
        e.raw_store(d, v)


def memset(e, name, args, i):
    dst, c, n = args[:3]
    if n.const() and n.lo == 0:
        return dst
    d = e.single(dst)
    e.deref(dst, "memset")
    if d.region.ty is None:
        e.set_type(d.region, e.pending_type(d.region) if hasattr(e, "pending_type") else None)
    ty = leaf_walk(d.region.ty, d.path)
    while ty.k in ("array", "vec"):
        d = d.at(path=d.path + (("a", I(0)),))
        ty = ty.el
    if not c.const():
        raise Unsupported("memset of a variable byte")
    byte = c.lo % 256
    cnt = e.exact_div(n.e, ty.size())
    if cnt is None:
        raise Unsupported("memset of partial elements")

    def val(t, signed):
        if t.k == "int":
            x = sum(byte << (8 * k) for k in range(t.w // 8))
            if signed and x >= 1 << (t.w - 1):
                x -= 1 << t.w
            return I(x)
        if byte == 0:
            return e.zero_of(t)
        raise Unsupported("memset of floats to nonzero")
    const = z3.is_int_value(cnt) and cnt.as_long() <= 16
    if const:
        k = cnt.as_long()
        e.check_access(d, k, "memset", True)
        for j in range(k):
            p = e.shift(d, j)
            for lp, t in e.leaves(ty):
                if any(not isinstance(x, int) for x in lp):
                    raise Unsupported("memset nested")
                if t.k == "ptr":
                    e.raw_store(p.at(path=p.path + lp), PV([(TRUE, NULL)]))
                    continue
                v = val(t, e.signed_key((d.region, strip(p.path + lp))))
                e.raw_store(p.at(path=p.path + lp), IV(t.w, v, v.as_long(), v.as_long()) if t.k == "int" else v)
        return dst
    g = e.guard
    e.guard = And(g, cnt > 0)
    e.check_access(d, cnt, "memset", True)
    e.guard = g
    for lp, t in e.leaves(ty):
        if t.k == "ptr":
            raise Unsupported("memset over pointers")
        key = (d.region, strip(d.path) + lp)
        for wl in e.writelogs:
            wl.add(key)
        old = e.getmem(e.state, key)
        new = e.fresh("ms_" + e.keyname(key), e.keysort(key))
        e.state[key] = new
        a, b = new, old
        if d.path and not isinstance(d.path[-1], int):
            base = d.path[-1][1]
            if d.region.array or d.fam:
                raise Unsupported("memset into nested arrays")
        else:
            base = d.idx
            if d.fam:
                a, b = range_fam(e, new, old, d.fam), e.sel(old, d.fam)
        q = z3.Int("ms!i")
        e.fact(z3.ForAll([q], z3.Select(a, q) == z3.If(z3.And(q >= base, q < base + cnt), val(t, e.signed_key(key)), z3.Select(b, q)), patterns=[z3.Select(a, q)]))
    return dst


def strlen_(e, name, args, i):
    """smallest k with s[k] == 0; the caller's contract must make the string terminated"""
    p = e.single(args[0])
    e.deref(args[0], "strlen")
    q = p
    ty = leaf_walk(p.region.ty, p.path)
    if ty.k == "array":
        raise Unsupported("strlen of member array")
    e.assumed.add("strlen: ISO C semantics")
    k = e.fresh("strlen", z3.IntSort())
    a = e.getmem(e.state, (p.region, strip(p.path)))
    for f in p.fam:
        a = a[f]
    j = z3.Int("sl!j")
    cnt = e.count_of(p.region, p.fam)
    e.oblige("precondition", "strlen: terminated string", e.guard, z3.Exists([j], z3.And(j >= p.idx, j < cnt, a[j] == 0)))
    e.fact(Implies(e.guard, z3.And(k >= 0, p.idx + k < cnt, a[p.idx + k] == 0, z3.ForAll([j], Implies(z3.And(p.idx <= j, j < p.idx + k), a[j] != 0), patterns=[a[j]]))))
    e.fact(z3.And(k >= 0, k < (1 << 47)))
    return IV(64, k, 0, 1 << 47)


def tolower_(e, name, args, i):
    s = e.S(args[0])
    e.assumed.add("tolower: C locale on unsigned char values, uninterpreted elsewhere")
    r = z3.If(z3.And(s >= 65, s <= 90), s + 32, s)
    return IV(32, r, -(1 << 31), (1 << 31) - 1)


def ret0(e, name, args, i):
    return None


TABLE = {"malloc": vmalloc, "vl_malloc": vmalloc, "vl_calloc": vcalloc, "calloc": vcalloc, "vl_free": vfree, "free": vfree, "abort": abort,
         "strlen": strlen_, "tolower": tolower_, "abs": cabs, "labs": cabs, "memcpy": memcpy, "memset": memset, "memmove": None, "vl_abs_d_": None}
TABLE = {k: v for k, v in TABLE.items() if v}
