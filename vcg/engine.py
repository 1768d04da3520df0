"""Verification-condition generator for LLVM IR extracted from the real sources.

Forward symbolic execution, function by function: loops are cut at their headers by invariants (or fully unrolled when
the contract says so, with an unwinding obligation), calls are replaced by contracts (or inlined when the callee has none),
every load/store is checked against the region it must stay in and against the function's modifies clause.
Each obligation is (facts so far) => goal; solve.py discharges them with external solvers.
"""
import re
import z3
from . import llvmir as L
from .fp import FP

I = z3.IntVal
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Unsupported(Exception):
    """the extracted code is outside of the verified dialect"""


class NameMissing(Exception):
    def __init__(self, fn, loop, name, cands):
        self.fn, self.loop, self.name, self.cands = fn, loop, name, cands
        Exception.__init__(self, "%s loop %s: no variable %s (have %s)" % (fn, loop, name, cands))


class ShapeError(Exception):
    """contract refers to a loop/function/field that is not in the current source"""


def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    if not a:
        return TRUE
    if any(z3.is_false(x) for x in a):
        return FALSE
    return a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [x for x in a if not z3.is_false(x)]
    if not a:
        return FALSE
    if any(z3.is_true(x) for x in a):
        return TRUE
    return a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    if z3.is_true(a):
        return FALSE
    if z3.is_false(a):
        return TRUE
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


def If(c, a, b):
    a, b = (I(x) if isinstance(x, int) else x for x in (a, b))
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b or z3.eq(a, b):
        return a
    return z3.If(c, a, b)


_exists_n = [0]


def forall(f, lo=None, hi=None, pat=None, n=1):
    """forall ints i (lo <= i < hi): f(i). pat: function i -> list of patterns"""
    _exists_n[0] += 1
    vs = [z3.Int("q!%d!%d" % (_exists_n[0], j)) for j in range(n)]
    body = f(*vs)
    rng = []
    if lo is not None:
        rng += [I(lo) <= v if isinstance(lo, int) else lo <= v for v in vs]
    if hi is not None:
        rng += [v < (I(hi) if isinstance(hi, int) else hi) for v in vs]
    b = Implies(And(*rng), body)
    if pat is not None:
        p = pat(*vs)
        if not isinstance(p, (list, tuple)):
            p = [p]
        try:
            return z3.ForAll(vs, b, patterns=list(p))
        except z3.Z3Exception:
            return z3.ForAll(vs, b)
    return z3.ForAll(vs, b)


def exists(f, lo=None, hi=None):
    _exists_n[0] += 1
    v = z3.Int("e!%d" % _exists_n[0])
    rng = []
    if lo is not None:
        rng.append(v >= lo)
    if hi is not None:
        rng.append(v < hi)
    return z3.Exists([v], And(*(rng + [f(v)])))


class IV:
    """an LLVM integer of width w: the bit pattern is e mod 2^w; lo <= e <= hi is known"""
    __slots__ = ("w", "e", "lo", "hi")

    def __init__(self, w, e, lo, hi):
        self.w, self.e, self.lo, self.hi = w, e, lo, hi

    def const(self):
        return self.lo == self.hi

    def __repr__(self):
        return "IV%d(%s)" % (self.w, self.e)


def ivc(w, v):
    return IV(w, I(v), v, v)


class Ptr:
    __slots__ = ("kind", "region", "fam", "idx", "path", "x")

    def __init__(self, kind, region=None, fam=(), idx=None, path=(), x=None):
        self.kind, self.region, self.fam, self.idx, self.path, self.x = kind, region, fam, idx, path, x

    def at(self, **kw):
        d = dict(kind=self.kind, region=self.region, fam=self.fam, idx=self.idx, path=self.path, x=self.x)
        d.update(kw)
        return Ptr(**d)

    def __repr__(self):
        return "Ptr(%s,%s,%s,%s,%s)" % (self.kind, self.region and self.region.name, self.fam, self.idx, self.path)


class PV:
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts


NULL = Ptr("null")


class Region:
    def __init__(self, name, ty, count=None, fam=0, array=None, local=False, signed=None, const=False):
        self.name, self.ty, self.count, self.fam = name, ty, count, fam
        self.array = (count is not None) if array is None else array
        self.local = local
        self.links = {}
        self.signed = {} if signed is None else signed
        self.const = const
        self.bytes = None
        self.init = {}
        self.ginit = None
        self.tinv = None
        self.inits = None
        self.zeroed = self.bytes_typed = self.retypable = False

    def __repr__(self):
        return "Region(%s)" % self.name


def leaf_walk(ty, path):
    """type reached by path; array markers are anything that is not an int"""
    for p in path:
        if isinstance(p, int):
            ty = ty.fields[p]
        else:
            ty = ty.el
    return ty


def strip(path):
    return tuple(p if isinstance(p, int) else "*" for p in path)


class Obl:
    __slots__ = ("name", "kind", "fn", "line", "goal", "nf", "facts", "res", "solver", "time", "model", "expect", "file")

    def __init__(self, **k):
        for n in self.__slots__:
            setattr(self, n, k.get(n))


class Frame:
    def __init__(self, fn, parent=None, inlined=False):
        self.fn = fn
        self.env = {}
        self.parent = parent
        self.phinames = {}
        self.loops = None
        self.headers = []
        self.inlined = inlined


class LoopInfo:
    pass


def square(e):
    return z3.Function("square", z3.IntSort(), z3.IntSort())(e)


def has_ite(m):
    todo, seen = [m], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE:
                return True
            todo.extend(x.children())
    return False


def stem(name):
    name = re.sub(r"\.sroa\.\d+(\.\d+)*", "", name)
    n = re.sub(r"(\.(lcssa|be|ph|sink|pre|us|ph))+", "", name)
    n = re.sub(r"\.\d+$", "", n)
    n = re.sub(r"\.(lcssa|addr)$", "", n)
    n = re.sub(r"\.addr$", "", n)
    return n


def analyse_loops(fn):
    """natural loops by dominators; returns RPO and {header: LoopInfo}"""
    if getattr(fn, "_loops", None):
        return fn._loops
    order, seen = [], set()
    stack = [(fn.blocks[0], iter(fn.blocks[0].succs))]
    seen.add(fn.blocks[0])
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(s.succs)))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in b.preds if p in idom]
            n = ps[0]
            for p in ps[1:]:
                x, y = n, p
                while x is not y:
                    while num[x] > num[y]:
                        x = idom[x]
                    while num[y] > num[x]:
                        y = idom[y]
                n = x
            if idom.get(b) is not n:
                idom[b] = n
                ch = True

    def dom(a, b):
        while True:
            if a is b:
                return True
            if idom[b] is b:
                return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in b.succs:
            if num[s] <= num[b]:
                if not dom(s, b):
                    raise Unsupported("irreducible control flow in " + fn.name)
                if s not in loops:
                    li = LoopInfo()
                    li.header, li.blocks, li.latches = s, {s}, []
                    loops[s] = li
                li = loops[s]
                li.latches.append(b)
                wl = [b]
                while wl:
                    x = wl.pop()
                    if x not in li.blocks:
                        li.blocks.add(x)
                        wl.extend(p for p in x.preds if p in num)
    # ordinals: by source position of the header (line of first located instruction in the loop), RPO as tie break
    def keyline(li):
        ls = [x.line for b in li.blocks for x in b.insts if x.line and x.op != "phi"]
        return (min(ls) if ls else 0, num[li.header])
    hs = sorted(loops.values(), key=keyline)
    for i, li in enumerate(hs):
        li.ord = i
        li.fn = fn
    # parents
    for li in hs:
        li.parent = None
        best = None
        for o in hs:
            if o is not li and li.header in o.blocks:
                if best is None or len(o.blocks) < len(best.blocks):
                    best = o
        li.parent = best
    # dotted ordinals: outer index path
    for li in hs:
        sibs = [o for o in hs if o.parent is li.parent]
        li.path = None
    for li in hs:
        sibs = sorted([o for o in hs if o.parent is li.parent], key=keyline)
        li.sib = sibs.index(li)
    for li in hs:
        p, x = [], li
        while x is not None:
            p.append(x.sib)
            x = x.parent
        li.path = ".".join(str(v) for v in reversed(p))
    fn._loops = (order, loops)
    return fn._loops


class Edge:
    __slots__ = ("guard", "state", "phis", "src")

    def __init__(self, guard, state, phis, src):
        self.guard, self.state, self.phis, self.src = guard, state, phis, src


def in_array(p):
    """the pointer designates an element of an array inside its object (an array member or a local array)"""
    return bool(p.path) and not isinstance(p.path[-1], int)


class Ctx:
    """what contracts see"""

    def __init__(self, eng, state, frame, regs, args, pre=None, ret=None, phis=None, loop=None, ent=None, header=None):
        self.eng, self.state, self.frame, self.regs, self._args = eng, state, frame, regs, args
        self.pre = pre if pre is not None else self
        self.ret = ret
        self.phis, self.loop, self.ent, self.header = phis, loop, ent, header
        self.fp = eng.fp

    # -- iteration counter of the loop (0 on entry); using it makes the engine relate every induction variable to it
    @property
    def it(self):
        self.eng.it_used.add(self.loop.header)
        return self.__dict__["_it"]

    def itof(self, path):
        """iteration counter of an enclosing loop"""
        x = self.loop
        while x is not None:
            if x.path == path:
                self.eng.it_used.add(x.header)
                return self.frame.env[("it", x.header)]
            x = x.parent
        raise ShapeError("no enclosing loop %s" % path)

    # -- arguments (entry values)
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        a = self.__dict__.get("_args") or {}
        if n in a:
            return self.eng.spec_val(a[n])
        raise AttributeError(n)

    def arg(self, n):
        return self.eng.spec_val(self._args[n])

    def reg(self, name):
        b = self.regs[name]
        return b

    def at(self, name, idx=None, *path, fam=()):
        """value stored in region `name` at element idx, field path (names or ints or z3 index exprs)"""
        b = self.regs[name]
        if idx is not None and in_array(b):
            b, idx = b.at(path=tuple(b.path[:-1]) + (("a", b.path[-1][1] + idx),)), None
        p = b.at(fam=tuple(b.fam) + tuple(fam), idx=(b.idx if idx is None else (b.idx + idx)))
        r = p.region
        p = p.at(path=self.eng.mkpath(r, tuple(b.path) + tuple(path), r.ty))
        return self.eng.spec_val(self.eng.raw_load(self.state, p, sign=None))

    def arr(self, name, *path, fam=()):
        """(array expression, offset) of a component with the family indices applied"""
        b = self.regs[name]
        r = b.region
        pth = self.eng.mkpath(r, tuple(b.path) + tuple(path), r.ty)
        key = (r, strip(pth))
        a = self.eng.getmem(self.state, key)
        for f in tuple(b.fam) + tuple(fam):
            a = a[f]
        if in_array(b):
            for i in ([b.idx] if r.array else []) + [x[1] for x in b.path[:-1] if not isinstance(x, int)]:
                a = a[i]
        return a

    def off(self, name):
        b = self.regs[name]
        return b.path[-1][1] if in_array(b) else b.idx

    def cnt(self, name, fam=()):
        b = self.regs[name]
        return self.eng.count_of(b.region, tuple(b.fam) + tuple(fam)) - b.idx

    # -- loop variables
    def v(self, name, alt=None):
        val = self.eng.lookup(self, name)
        if isinstance(val, PV):
            return self.eng.single(val).idx
        sg = self.eng.sign_of(self.frame, name)
        if isinstance(val, IV):
            return self.eng.canon(val, sg)
        return val

    def pv(self, name):
        return self.eng.lookup(self, name)

    def outv(self, path, name):
        """value of a variable when an earlier loop ended"""
        hs = analyse_loops(self.frame.fn)[1]
        for li in hs.values():
            if li.path == path:
                for i in li.header.insts:
                    if i.op == "phi" and stem(i.name or "") == name and i in self.frame.env:
                        v = self.frame.env[i]
                        return self.eng.canon(v, self.eng.sign_of(self.frame, name)) if isinstance(v, IV) else self.eng.single(v).idx if isinstance(v, PV) else v
        raise ShapeError("no variable %s in loop %s" % (name, path))

    def heap(self, k, idx, *path):
        """element idx of the k-th block the function allocates"""
        bl = list(self.eng.blocks.values())
        if k >= len(bl):
            raise ShapeError("no allocated block %d" % k)
        r = bl[k]
        if r.ty is None:
            raise ShapeError("allocated block %d not used yet" % k)
        pth = self.eng.mkpath(r, path, r.ty)
        self.eng.name_mem(self.state, (r, strip(pth)))
        return self.eng.spec_val(self.eng.raw_load(self.state, Ptr("reg", r, (), idx, pth), sign=None))

    def p(self, name):
        return self.eng.single(self.eng.lookup(self, name))


class Contract:
    """Specification of one function of /repo.

    params : {param name: region name} for pointer params (others are scalars); nullable ones in `nullable`
    regions: {name: dict(ty=..., count=lambda c: expr | None, fam=n, links={field path: region name}, signed={...})}
    requires/ensures : lambda c: list of formula or (label, formula)
    modifies : lambda c: list of (region, path or None, lo, hi) (lo None: everything)
    loops : {"ordinal path" or (fn, "ordinal path"): Loop}
    """

    def __init__(self, fn, params=None, regions=None, requires=None, ensures=None, modifies=None, loops=None, hints=None,
                 nullable=(), fresh_ret=None, ret=None, decreases=None, calls=None, indirect=None, signed=None,
                 nsw="prove", wrap="exact", inline=(), post_hints=None, pure=False, externs=None, args=None, extra=None,
                 fpconv="assume", offsets=None, overrides=None, ret_region=None, distinct=True, cover=True, names=None, noreturn_ok=False, assume=None, heap_types=(), known=None):
        self.__dict__.update({k: v for k, v in locals().items() if k != "self"})
        if known:       # a precondition that also prunes the blocks it makes unreachable (e.g. code for another data type)
            self.requires = lambda c, r=requires: [("known", known(c))] + list(r(c) if r else [])
        self.params = params or {}
        self.regions = regions or {}
        self.loops = loops or {}
        self.calls = calls or {}
        self.externs = externs or {}


class Loop:
    def __init__(self, inv=None, dec=None, hints=None, unroll=None, names=None, latch_hints=None, steps=None):
        self.inv, self.dec, self.hints, self.unroll, self.latch_hints = inv, dec, hints, unroll, latch_hints
        self.steps = steps


def labelled(lst):
    out = []
    for i, x in enumerate(lst or []):
        if x is None:
            continue
        if isinstance(x, tuple):
            out.append(x)
        else:
            out.append(("#%d" % i, x))
    return out


class Engine:
    def __init__(self, module, fpmode="uf", axioms=(), contracts=None, dbg=None, quick_ms=120):
        self.M = module
        self.fp = FP(fpmode, axioms)
        self.contracts = contracts or {}
        self.dbg = dbg
        self.facts = []
        self.obls = []
        self.n = 0
        self.assumed = set()
        self.inlined = set()
        self.called = set()
        self.quick_ms = quick_ms
        self.qs = None
        self.qn = 0
        self.qguards = set()
        self.writelogs = []
        self.blocks = {}
        self.dry = 0
        self.loop_cache = {}
        self.globals = {}
        self.opaque_n = 0
        self.alias = {}
        self.nquick = 0
        self.covers = []
        self.axiom_facts = []
        self.used_loops = set()
        self.it_used = set()
        self.addrs = {}
        self.cached_norm = {}
        self.nsw = "prove"
        self.wrap = "exact"
        self.wild_quick = {}

    # ------------------------------------------------------------------ basics
    def fresh(self, name, sort):
        self.n += 1
        return z3.Const("%s!%d" % (name, self.n), sort)

    def fact(self, f):
        if not z3.is_true(f):
            self.facts.append(f)

    def oblige(self, kind, label, guard, goal, line=None, assume=True):
        if z3.is_true(goal) or z3.is_false(guard):
            self.trivial = getattr(self, "trivial", 0) + 1
            return
        if not self.dry:
            self.obls.append(Obl(name="%s:%s:%s@L%s" % (self.cur_fn, kind, label, line if line else self.line), kind=kind, fn=self.cur_fn,
                                 line=line or self.line, goal=Implies(guard, goal), nf=len(self.facts)))
        if assume:
            self.fact(Implies(guard, goal))

    def _qf(self, f):
        """cheap: no quantifiers"""
        todo, seen = [f], set()
        while todo:
            x = todo.pop()
            if z3.is_quantifier(x):
                return False
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            todo.extend(x.children())
            if len(seen) > 400:
                return False
        return True

    def quick(self, guard, goal):
        """prove goal under guard from the quantifier-free facts, with a small time limit"""
        if z3.is_true(goal):
            return True
        if self.quick_ms <= 0:
            return False
        if self.qs is None:
            self.qs = z3.Solver()
            self.qs.set("timeout", self.quick_ms)
            self.qn = 0
        if self.qn > len(self.facts):
            self.qs.reset()
            self.qs.set("timeout", self.quick_ms)
            self.qn = 0
        while self.qn < len(self.facts):
            f = self.facts[self.qn]
            if self._qf(f):
                self.qs.add(f)
            self.qn += 1
        self.nquick += 1
        self.qs.push()
        self.qs.add(guard, Not(goal))
        r = self.qs.check()
        self.qs.pop()
        return r == z3.unsat

    # ------------------------------------------------------------------ integers
    def U(self, v, guard=None):
        m = 1 << v.w
        if v.lo >= 0 and v.hi < m:
            return v.e
        if v.const():
            return I(v.lo % m)
        e = v.e
        g = self.guard if guard is None else guard
        k = ("U", e.get_id(), g.get_id(), v.w)
        if k in self.cached_norm:
            return self.cached_norm[k][0]
        if v.lo >= -m and v.hi < 2 * m:
            if self.quick(g, z3.And(e >= 0, e < m)):
                r = e
            else:
                r = e
                if v.hi >= m:
                    r = z3.If(e >= m, e - m, r)
                if v.lo < 0:
                    r = z3.If(e < 0, e + m, r)
        else:
            if self.quick(g, z3.And(e >= 0, e < m)):
                r = e
            elif self.wrap == "assume":
                self.assumed.add("size/index arithmetic does not overflow 2^%d (%s)" % (v.w, self.cur_fn))
                self.fact(Implies(g, z3.And(e >= 0, e < m)))
                r = e
            elif self.wrap == "prove":
                self.oblige("nowrap", "u%d" % v.w, g, z3.And(e >= 0, e < m))
                r = e
            else:
                r = e % I(m)
        self.cached_norm[k] = (r, e, g)
        return r

    def S(self, v, guard=None):
        h, m = 1 << (v.w - 1), 1 << v.w
        if v.lo >= -h and v.hi < h:
            return v.e
        if v.const():
            x = v.lo % m
            return I(x - m if x >= h else x)
        e = v.e
        g = self.guard if guard is None else guard
        k = ("S", e.get_id(), g.get_id(), v.w)
        if k in self.cached_norm:
            return self.cached_norm[k][0]
        if self.quick(g, z3.And(e >= -h, e < h)):
            r = e
        elif v.lo >= -h - m and v.hi < h + m:
            r = e
            if v.hi >= h:
                r = z3.If(e >= h, e - m, r)
            if v.lo < -h:
                r = z3.If(e < -h, e + m, r)
        elif self.wrap == "assume":
            self.assumed.add("size/index arithmetic does not overflow 2^%d (%s)" % (v.w, self.cur_fn))
            self.fact(Implies(g, z3.And(e >= -h, e < h)))
            r = e
        elif self.wrap == "prove":
            self.oblige("nowrap", "s%d" % v.w, g, z3.And(e >= -h, e < h))
            r = e
        else:
            r = (e + h) % I(m) - h
        self.cached_norm[k] = (r, e, g)
        return r

    def canon(self, v, signed):
        return self.S(v) if signed else self.U(v)

    def rng(self, w, signed):
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)

    def fresh_int(self, name, w, signed):
        lo, hi = self.rng(w, signed)
        e = self.fresh(name, z3.IntSort())
        self.fact(z3.And(e >= lo, e <= hi))
        return IV(w, e, lo, hi)

    def add(self, a, b):
        if a.const() and b.const():
            return ivc(a.w, a.lo + b.lo)
        if a.const() and a.lo == 0:
            return IV(a.w, b.e, b.lo, b.hi)
        if b.const() and b.lo == 0:
            return a
        return IV(a.w, a.e + b.e, a.lo + b.lo, a.hi + b.hi)

    def sub(self, a, b):
        if a.const() and b.const():
            return ivc(a.w, a.lo - b.lo)
        return IV(a.w, a.e - b.e, a.lo - b.hi, a.hi - b.lo)

    def mul(self, a, b):
        if a.const() and b.const():
            return ivc(a.w, a.lo * b.lo)
        if a.const() and a.lo == 1:
            return b
        if b.const() and b.lo == 1:
            return a
        c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        if "abssq" in self.fp.want and z3.eq(a.e, b.e):
            # the square as an uninterpreted function with a true bound
            q = square(a.e)
            self.fact(And(q >= 0, Implies(And(a.e > -2 ** 31, a.e < 2 ** 31), q < 2 ** 62)))
            return IV(a.w, q, min(c), max(c))
        return IV(a.w, a.e * b.e, min(c), max(c))

    @staticmethod
    def smallconst(v):
        """signed reading of constant"""
        return v

    def exact_div(self, e, k):
        e = z3.simplify(e, som=True)

        def d(x):
            if z3.is_int_value(x):
                n = x.as_long()
                return I(n // k) if n % k == 0 else None
            if z3.is_add(x):
                cs = [d(c) for c in x.children()]
                return None if any(c is None for c in cs) else z3.Sum(cs)
            if z3.is_mul(x) and z3.is_int_value(x.arg(0)):
                n = x.arg(0).as_long()
                if n % k == 0:
                    rest = x.children()[1:]
                    r = rest[0]
                    for c in rest[1:]:
                        r = r * c
                    q = n // k
                    return r if q == 1 else I(q) * r
            if k == 1:
                return x
            return None
        return d(e)

    # ------------------------------------------------------------------ memory
    def leafsort(self, ty):
        if ty.k == "int":
            return z3.BoolSort() if ty.w == 1 else z3.IntSort()
        if ty.k in ("float", "double", "fp80"):
            return self.fp.sort(ty)
        if ty.k == "ptr":
            return z3.IntSort()
        raise Unsupported("leaf type " + repr(ty))

    def nidx(self, key):
        r, p = key
        return r.fam + (1 if r.array else 0) + sum(1 for x in p if not isinstance(x, int))

    def keysort(self, key):
        r, p = key
        s = self.leafsort(leaf_walk(r.ty, p))
        for _ in range(self.nidx(key)):
            s = z3.ArraySort(z3.IntSort(), s)
        return s

    def keyname(self, key):
        r, p = key
        return r.name + "".join("." + str(x) for x in p if isinstance(x, int))

    def getmem(self, state, key):
        if key in state:
            return state[key]
        r = key[0]
        if key not in r.init:
            if r.inits is not None and key[1] in r.inits:
                r.init[key] = r.inits[key[1]]
            else:
                r.init[key] = z3.Const("mem_" + self.keyname(key), self.keysort(key))
        return r.init[key]

    def name_mem(self, state, key):
        """a memory that is a case distinction gets a name (quantifier patterns cannot contain one)"""
        m = state.get(key)
        if isinstance(m, z3.ExprRef) and has_ite(m):
            n = self.fresh("m_" + self.keyname(key), m.sort())
            self.fact(n == m)
            state[key] = n

    def mkpath(self, r, path, ty):
        out = []
        for p in path:
            if isinstance(p, str):
                out.append(self.field(ty, p))
                ty = ty.fields[out[-1]]
            elif isinstance(p, int) and ty.k == "struct":
                out.append(p)
                ty = ty.fields[p]
            else:
                x = p
                if isinstance(p, tuple):
                    x = p[1]
                out.append(("a", I(x) if isinstance(x, int) else x))
                ty = ty.el
        return tuple(out)

    def field(self, ty, name):
        if self.dbg:
            i = self.dbg.field(ty.name, name)
            if i is not None:
                return i
        raise ShapeError("no field %s in %s" % (name, ty))

    def indices(self, p):
        ix = list(p.fam)
        if p.region.array:
            ix.append(p.idx)
        for x in p.path:
            if not isinstance(x, int):
                ix.append(x[1])
        return ix

    def sel(self, a, ix):
        for i in ix:
            a = z3.Select(a, i)
        return a

    def sto(self, a, ix, v):
        if not ix:
            return v
        if len(ix) == 1:
            return z3.Store(a, ix[0], v)
        return z3.Store(a, ix[0], self.sto(z3.Select(a, ix[0]), ix[1:], v))

    def count_of(self, r, fam):
        if r.count is None:
            return I(1)
        if callable(r.count):
            return r.count(*fam)
        return r.count

    def signed_key(self, key):
        r, p = key
        sg = r.signed
        if isinstance(sg, bool):
            return sg
        pk = strip(p)
        if pk in sg:
            return sg[pk]
        ty = r.ty
        dsg = None
        for x in p:
            if isinstance(x, int):
                if self.dbg and ty.name:
                    dsg = self.dbg.field_signed(ty.name, x)
                ty = ty.fields[x]
            else:
                ty = ty.el
        if dsg is not None:
            return dsg
        if r.local and self.dbg:
            pass
        return ty.w in (8, 32) if ty.k == "int" else False

    def raw_load(self, state, p, sign=None):
        r = p.region
        ty = leaf_walk(r.ty, p.path)
        key = (r, strip(p.path))
        if ty.k == "ptr":
            return self.load_ptr(state, p, key)
        m = self.getmem(state, key)
        v = self.sel(m, self.indices(p))
        if ty.k == "int" and ty.w > 1:
            sg = self.signed_key(key)
            lo, hi = self.rng(ty.w, sg)
            if z3.is_int_value(v):
                return ivc(ty.w, v.as_long())
            self.range_fact(v, lo, hi)
            return IV(ty.w, v, lo, hi)
        return v

    def range_fact(self, v, lo, hi):
        k = v.get_id()
        rf = self.__dict__.setdefault("rfacts", {})
        if k in rf and rf[k][1] <= len(self.facts):
            return
        if self._has_bound_var(v):
            return
        rf[k] = (v, len(self.facts) + 1)
        self.fact(z3.And(v >= lo, v <= hi))

    def _has_bound_var(self, v):
        todo, seen = [v], set()
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_var(x):
                return True
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if nm.startswith("q!") or nm.startswith("e!"):
                    return True
            if not z3.is_quantifier(x):
                todo.extend(x.children())
        return False

    def load_ptr(self, state, p, key):
        r = p.region
        if key in state and isinstance(state[key], PV):
            return state[key]
        lk = r.links.get(key[1])
        if lk is not None:
            tgt, nullable = lk
            fam = list(p.fam)
            if r.array:
                fam.append(p.idx)
            fam += [x[1] for x in p.path if not isinstance(x, int)]
            q = Ptr("reg", tgt, tuple(fam)[:tgt.fam], I(0), ())
            if nullable is None:
                return PV([(TRUE, q)])
            nb = nullable(*fam) if callable(nullable) else nullable
            return PV([(nb, NULL), (Not(nb), q)])
        m = self.getmem(state, key)
        if isinstance(m, PV):
            return m
        v = self.sel(m, self.indices(p))
        return PV([(TRUE, Ptr("opaque", x=v))])

    def check_access(self, p, n=1, what="load", store=False):
        r = p.region
        g = self.guard
        ln = self.line
        if r.array:
            cnt = self.count_of(r, p.fam)
            self.oblige("bounds", "%s %s" % (what, r.name), g, z3.And(p.idx >= 0, p.idx + n <= cnt) if not (isinstance(n, int) and n == 1) else z3.And(p.idx >= 0, p.idx < cnt))
        else:
            k = z3.simplify(p.idx)
            if not (z3.is_int_value(k) and k.as_long() == 0):
                self.oblige("bounds", "%s %s" % (what, r.name), g, p.idx == 0)
        ty = r.ty
        for i, x in enumerate(p.path):
            if isinstance(x, int):
                ty = ty.fields[x]
            else:
                e = z3.simplify(x[1])
                last = (i == len(p.path) - 1)
                m = n if last else 1
                if not (z3.is_int_value(e) and 0 <= e.as_long() and e.as_long() + m <= ty.n):
                    self.oblige("bounds", "%s %s[]" % (what, r.name), g, z3.And(x[1] >= 0, x[1] + m <= ty.n))
                ty = ty.el
        if store:
            if r.const:
                self.oblige("frame", "store to constant %s" % r.name, g, FALSE)
            elif not r.local:
                self.oblige("frame", "store %s" % self.keyname((r, strip(p.path))), g, self.may_write(p, n))

    def may_write(self, p, n=1):
        ds = []
        for (q, path, lo, hi) in self.modset:
            if q.region is not p.region:
                continue
            if path is not None and strip(p.path)[:len(path)] != path:
                continue
            c = [a == b for a, b in zip(q.fam, p.fam) if not z3.eq(a, b)]
            if lo is not None:
                c += [p.idx >= q.idx + lo, p.idx + n <= q.idx + hi]
            ds.append(And(*c))
        return Or(*ds)

    def single(self, pv):
        rs = [(g, p) for g, p in pv.alts if p.kind == "reg"]
        if len(rs) == 1:
            return rs[0][1]
        if not rs:
            raise Unsupported("pointer without region")
        # same region: merge idx
        r0 = rs[0][1]
        if all(p.region is r0.region and p.path == r0.path and len(p.fam) == len(r0.fam) for _, p in rs):
            idx, fam = rs[-1][1].idx, rs[-1][1].fam
            for g, p in reversed(rs[:-1]):
                idx = If(g, p.idx, idx)
                fam = tuple(If(g, a, b) for a, b in zip(p.fam, fam))
            return r0.at(idx=idx, fam=fam)
        raise Unsupported("pointer with several regions")

    def deref(self, pv, what):
        """alternatives that are regions; obligation that the others are impossible"""
        if not isinstance(pv, PV):
            raise Unsupported("deref of non pointer")
        rs, bad = [], []
        for g, p in pv.alts:
            if p.kind == "reg":
                rs.append((g, p))
            else:
                bad.append(g)
        for g in bad:
            if not z3.is_false(g):
                self.oblige("null", what, self.guard, Not(g))
        if not rs:
            raise Unsupported("dereference of an unmodelled pointer (%s)" % what)
        # merge same-region alternatives
        out = []
        for g, p in rs:
            for i, (g2, q) in enumerate(out):
                if q.region is p.region and strip(q.path) == strip(p.path):
                    if not (q.region.array or all(isinstance(x, int) for x in q.path)) and q.path != p.path:
                        continue
                    pa = tuple(x if isinstance(x, int) else ("a", If(g2, x[1], y[1])) for x, y in zip(q.path, p.path))
                    out[i] = (Or(g, g2), q.at(idx=If(g2, q.idx, p.idx), fam=tuple(If(g2, a, b) for a, b in zip(q.fam, p.fam)), path=pa))
                    break
            else:
                out.append((g, p))
        return out

    def fit(self, p, ty):
        """adjust p so that the view type matches a scalar access of type ty; returns (p, n) n>1 for vector access"""
        r = p.region
        if r.ty is None:
            self.set_type(r, ty.el if ty.k == "vec" else ty)
        vt = leaf_walk(r.ty, p.path)
        while vt.k in ("struct", "array", "vec") and vt.key() != ty.key():
            if vt.k == "struct":
                p = p.at(path=p.path + (0,))
                vt = vt.fields[0]
            else:
                if ty.k == "vec" and vt.el == ty.el:
                    break
                p = p.at(path=p.path + (("a", I(0)),))
                vt = vt.el
        if ty.k == "vec":
            if vt.k in ("array", "vec"):
                p = p.at(path=p.path + (("a", I(0)),))
                vt = vt.el
            if vt == ty.el:
                return p, ty.n
            if vt.size() == ty.el.size() and vt.k == ty.el.k:
                return p, ty.n
            return p, -ty.n
        return p, 1

    def set_type(self, r, ty):
        if ty.k == "vec":
            ty = ty.el
        r.ty = ty
        if r.bytes is not None:
            q = self.exact_div(r.bytes, ty.size())
            if q is None:
                q = self.fresh("cnt_" + r.name, z3.IntSort())
                s = ty.size()
                self.fact(z3.And(q * s <= r.bytes, r.bytes < q * s + s))
            r.count = q
        if r.zeroed:
            self.zero_region(r)

    def zero_region(self, r):
        r.inits = {}
        for path, ty in self.leaves(r.ty):
            key = (r, path)
            s = self.leafsort(ty)
            z = self.zero_of(ty)
            for _ in range(self.nidx(key)):
                z = z3.K(z3.IntSort(), z)
            r.inits[path] = z

    def zero_of(self, ty):
        if ty.k == "int":
            return FALSE if ty.w == 1 else I(0)
        if ty.k in ("float", "double", "fp80"):
            return self.fp.const(ty, 0.0)
        return I(0)

    def leaves(self, ty, pre=()):
        """(stripped path, leaf type)"""
        if ty.k == "struct":
            for i, f in enumerate(ty.fields):
                yield from self.leaves(f, pre + (i,))
        elif ty.k in ("array", "vec"):
            yield from self.leaves(ty.el, pre + ("*",))
        else:
            yield pre, ty

    def vec_align(self, pv, ty, al):
        """a vector access through an aligned pointer type faults unless the address is a multiple of the vector size"""
        if ty.k == "vec" and al >= 16 and not all(p.kind == "reg" and p.region.local for _, p in pv.alts):
            self.oblige("alignment", "vector access is aligned to %d bytes" % al, self.guard, self.ptr_id(pv) % al == 0)

    def load(self, pv, ty):
        outs = []
        for g, p in self.deref(pv, "load"):
            p, n = self.fit(p, ty)
            sg = self.guard
            if not z3.is_true(g) and len(pv.alts) > 1:
                self.guard = And(sg, g)
            if n == 1:
                self.check_access(p, 1, "load")
                v = self.raw_load(self.state, p)
                vt = leaf_walk(p.region.ty, p.path)
                v = self.retype(v, vt, ty)
            elif n > 1:
                self.check_access(p, n, "load")
                v = [self.raw_load(self.state, self.shift(p, i)) for i in range(n)]
            else:
                raise Unsupported("vector load view mismatch %s %s" % (leaf_walk(p.region.ty, p.path), ty))
            self.guard = sg
            outs.append((g, v))
        v = outs[-1][1]
        for g, x in reversed(outs[:-1]):
            v = self.ite(g, x, v)
        return v

    def shift(self, p, i):
        if i == 0:
            return p
        if p.path and not isinstance(p.path[-1], int):
            return p.at(path=p.path[:-1] + (("a", p.path[-1][1] + i),))
        return p.at(idx=p.idx + i)

    def retype(self, v, vt, ty):
        if vt == ty or (vt.k == ty.k and vt.k != "int"):
            return v
        if vt.k == "int" and ty.k == "int":
            if vt.w == ty.w:
                return v
            if vt.w == 8 and ty.w == 1:
                return self.U(v) != 0
            if ty.w < vt.w:
                lo, hi = v.lo, v.hi
                return IV(ty.w, v.e, lo, hi)
        if vt.k in ("float", "double") and ty.k == "int" and vt.size() * 8 == ty.w:
            s = v.sort()
            b = self.fp.fn("f2bits%d" % ty.w, s, z3.IntSort())(v)
            self.range_fact(b, 0, (1 << ty.w) - 1)
            return IV(ty.w, b, 0, (1 << ty.w) - 1)
        if vt.k == "int" and ty.k in ("float", "double") and ty.size() * 8 == vt.w:
            if v.const():
                import struct
                return self.fp.const(ty, struct.unpack("<f" if vt.w == 32 else "<d", (v.lo % 2 ** vt.w).to_bytes(vt.w // 8, "little"))[0])
            return self.fp.fn("bits2f%d" % vt.w, z3.IntSort(), self.fp.sort(ty))(self.U(v))
        raise Unsupported("load of %s as %s" % (vt, ty))

    def store(self, pv, v, ty):
        for g, p in self.deref(pv, "store"):
            p, n = self.fit(p, ty)
            sg = self.guard
            single = len(pv.alts) == 1 or z3.is_true(g)
            if not single:
                self.guard = And(sg, g)
            if n == 1:
                self.check_access(p, 1, "store", True)
                vt = leaf_walk(p.region.ty, p.path)
                self.raw_store(p, self.retype_store(v, vt, ty), g, single)
            elif n > 1:
                self.check_access(p, n, "store", True)
                for i in range(n):
                    self.raw_store(self.shift(p, i), v[i], g, single)
            else:
                raise Unsupported("vector store view mismatch")
            self.guard = sg

    def retype_store(self, v, vt, ty):
        if vt == ty or (vt.k == ty.k and vt.k != "int"):
            return v
        if vt.k == "int" and ty.k == "int" and vt.w == 8 and ty.w == 1:
            return IV(8, z3.If(v, I(1), I(0)), 0, 1)
        if vt.k == "int" and ty.k == "int" and vt.w == ty.w:
            return v
        return self.retype(v, ty, vt)

    def raw_store(self, p, v, g=TRUE, single=True):
        r = p.region
        key = (r, strip(p.path))
        ty = leaf_walk(r.ty, p.path)
        for wl in self.writelogs:
            wl.add(key)
        if ty.k == "ptr":
            if not isinstance(v, PV):
                raise Unsupported("storing non-pointer in pointer")
            if self.nidx(key) == 0:
                if not single:
                    v = self.merge_vals([(g, v), (Not(g), self.load_ptr(self.state, p, key))])
                self.state[key] = v
                return
            if key[1] in r.links:
                lk = r.links[key[1]]
                cur = self.load_ptr(self.state, p, key)
                q, c = self.single(v), self.single(cur)
                if q.region is c.region:
                    self.oblige("shape", "pointer field keeps its target", self.guard, And(*([q.idx == c.idx] + [a == b for a, b in zip(q.fam, c.fam)])))
                    return
                raise Unsupported("store changes a linked pointer field")
            e = self.ptr_id(v)
        elif ty.k == "int" and ty.w > 1:
            e = self.canon(v, self.signed_key(key))
        else:
            e = v
        m = self.getmem(self.state, key)
        ix = self.indices(p)
        if not single:
            e = If(g, e, self.sel(m, ix))
        self.state[key] = self.sto(m, ix, e)

    def ptr_id(self, pv):
        out = None
        for g, p in reversed(pv.alts):
            if p.kind == "null":
                x = I(0)
            elif p.kind == "opaque":
                x = p.x
            elif p.kind == "func":
                x = z3.Int("fnaddr_" + p.x)
            else:
                x = self.addr(p)
            out = x if out is None else If(g, x, out)
        return out

    def addr(self, p):
        r = p.region
        if p.fam:
            b = z3.Function("addr_" + r.name, *([z3.IntSort()] * (len(p.fam) + 1)))(*p.fam)
        else:
            b = z3.Int("addr_" + r.name)
        if not self._has_bound_var(b):
            self.range_fact(b, 16, (1 << 47))
        off = p.idx * r.ty.size() if r.ty is not None else p.idx
        ty = r.ty
        for x in p.path:
            if isinstance(x, int):
                off = off + ty.offsets()[x]
                ty = ty.fields[x]
            else:
                off = off + x[1] * ty.el.size()
                ty = ty.el
        return b + off

    # ------------------------------------------------------------------ values
    def spec_val(self, v):
        if isinstance(v, IV):
            return v.e
        if isinstance(v, PV):
            return v
        return v

    def ite(self, g, a, b):
        if a is b:
            return a
        return self.merge_vals([(g, a), (Not(g), b)])

    def merge_vals(self, gv):
        v0 = gv[0][1]
        if all(v is v0 for _, v in gv):
            return v0
        live = [(g, v) for g, v in gv if v is not None]
        if not live:
            return None
        v0 = live[0][1]
        if isinstance(v0, IV):
            # bring to a common representation
            if all(isinstance(v, IV) for _, v in live):
                e = live[-1][1].e
                lo, hi = live[-1][1].lo, live[-1][1].hi
                for g, v in reversed(live[:-1]):
                    e = If(g, v.e, e)
                    lo, hi = min(lo, v.lo), max(hi, v.hi)
                return IV(v0.w, e, lo, hi)
        if isinstance(v0, PV):
            alts = []
            for g, v in live:
                for g2, p in v.alts:
                    alts.append((And(g, g2), p))
            return PV(self.compact(alts))
        if isinstance(v0, list):
            return [self.merge_vals([(g, v[i]) for g, v in live]) for i in range(len(v0))]
        if isinstance(v0, tuple):
            return tuple(self.merge_vals([(g, v[i]) for g, v in live]) for i in range(len(v0)))
        e = live[-1][1]
        for g, v in reversed(live[:-1]):
            e = If(g, v, e)
        return e

    def same_ptr(self, p, q):
        if p.kind != q.kind:
            return False
        if p.kind == "null":
            return True
        if p.kind == "reg":
            return p.region is q.region and strip(p.path) == strip(q.path) and len(p.fam) == len(q.fam) and all(z3.eq(a, b) for a, b in zip(p.fam, q.fam)) \
                and z3.eq(p.idx, q.idx) and all(isinstance(a, int) or z3.eq(a[1], b[1]) for a, b in zip(p.path, q.path))
        if p.kind == "func":
            return p.x == q.x
        return z3.eq(p.x, q.x)

    def compact(self, alts):
        out = []
        for g, p in alts:
            if z3.is_false(g):
                continue
            for i, (g2, q) in enumerate(out):
                if self.same_ptr(p, q):
                    out[i] = (Or(g2, g), q)
                    break
                if p.kind == "reg" and q.kind == "reg" and p.region is q.region and strip(p.path) == strip(q.path) and len(p.fam) == len(q.fam):
                    pa = tuple(x if isinstance(x, int) else ("a", If(g2, x[1], y[1])) for x, y in zip(q.path, p.path))
                    out[i] = (Or(g2, g), q.at(idx=If(g2, q.idx, p.idx), fam=tuple(If(g2, a, b) for a, b in zip(q.fam, p.fam)), path=pa))
                    break
            else:
                out.append((g, p))
        if len(out) == 1:
            return [(TRUE, out[0][1])]
        return out

    def merge(self, edges):
        """edges -> (guard, state, phis)"""
        edges = [e for e in edges if not z3.is_false(e.guard)]
        if not edges:
            return FALSE, {}, {}
        if len(edges) == 1:
            e = edges[0]
            return e.guard, dict(e.state), e.phis
        g = self.fresh("g", z3.BoolSort())
        self.fact(g == Or(*[e.guard for e in edges]))
        st = {}
        keys = []
        for e in edges:
            for k in e.state:
                if k not in st:
                    st[k] = None
                    keys.append(k)
        for k in keys:
            vals = [(e.guard, self.getmem_or_link(e.state, k)) for e in edges]
            v0 = vals[0][1]
            if not isinstance(v0, PV) and all(not isinstance(v, PV) for _, v in vals) and not all(z3.eq(v, v0) for _, v in vals) and z3.is_array(v0):
                m = self.fresh("j_" + self.keyname(k), v0.sort())
                for gg, v in vals:
                    self.fact(Implies(gg, m == v))
                st[k] = m
                continue
            st[k] = self.merge_vals(vals)
        ph = {}
        for inst in edges[0].phis:
            ph[inst] = self.merge_vals([(e.guard, e.phis[inst]) for e in edges])
        return g, st, ph

    def getmem_or_link(self, state, k):
        if k in state:
            return state[k]
        r, p = k
        if leaf_walk(r.ty, p).k == "ptr" and self.nidx(k) == 0:
            return self.load_ptr(state, Ptr("reg", r, (), I(0), p), k)
        return self.getmem(state, k)

    # ------------------------------------------------------------------ constants
    def value(self, v):
        k = v.k
        if k in ("inst", "arg"):
            x = self.frame.env.get(v.inst if k == "inst" else v)
            if x is None:
                raise Unsupported("undefined value %s in %s" % (v, self.frame.fn.name))
            return x
        return self.constant(v)

    def constant(self, v):
        k, ty = v.k, v.ty
        if k == "int":
            if ty.w == 1:
                return z3.BoolVal(bool(v.val))
            n = v.val
            if n >= 1 << (ty.w - 1):
                n -= 1 << ty.w
            return ivc(ty.w, n)
        if k == "fp":
            return self.fp.const(ty, v.val)
        if k == "null":
            return PV([(TRUE, NULL)])
        if k == "undef":
            return self.undef(ty)
        if k == "zero":
            return self.zero_val(ty)
        if k == "agg":
            return [self.constant(e) for e in v.elems]
        if k == "global":
            return PV([(TRUE, Ptr("reg", self.global_region(v.name), (), I(0), ()))])
        if k == "func":
            return PV([(TRUE, Ptr("func", x=v.name))])
        if k == "cexpr":
            if v.op == "getelementptr":
                base = self.constant(v.elems[0])
                return self.gep(base, v.idx, [self.constant(e) for e in v.elems[1:]])
            if v.op in ("bitcast",):
                return self.constant(v.elems[0])
        raise Unsupported("constant " + repr(v) + " " + str(v.op))

    def zero_val(self, ty):
        if ty.k == "vec" or ty.k == "array":
            return [self.zero_val(ty.el) for _ in range(ty.n)]
        if ty.k == "struct":
            return [self.zero_val(f) for f in ty.fields]
        if ty.k == "int":
            return FALSE if ty.w == 1 else ivc(ty.w, 0)
        if ty.k == "ptr":
            return PV([(TRUE, NULL)])
        return self.fp.const(ty, 0.0)

    def undef(self, ty):
        if ty.k == "vec" or ty.k == "array":
            return [self.undef(ty.el) for _ in range(ty.n)]
        if ty.k == "struct":
            return [self.undef(f) for f in ty.fields]
        if ty.k == "int":
            return self.fresh("undef", z3.BoolSort()) if ty.w == 1 else self.fresh_int("undef", ty.w, False)
        if ty.k == "ptr":
            return PV([(TRUE, Ptr("opaque", x=self.fresh("undefp", z3.IntSort())))])
        return self.fresh("undef", self.fp.sort(ty))

    def global_region(self, name):
        if name in self.globals:
            return self.globals[name]
        ty, init, const = self.M.globals[name]
        r = Region("G_" + name, ty, None, 0, array=False, const=const)
        self.globals[name] = r
        r.zeroed = False
        if init is not None and (const or name.startswith(".str")):
            self.init_global(r, init)
        return r

    def init_global(self, r, init):
        r.inits = {}
        cells = {}

        def walk(v, ty, path, ix):
            if ty.k == "struct":
                for i, f in enumerate(ty.fields):
                    walk(v.elems[i] if v.k == "agg" else L.V("zero", f), f, path + (i,), ix)
            elif ty.k in ("array", "vec"):
                if ty.n > 5000:
                    return
                for i in range(ty.n):
                    walk(v.elems[i] if v.k == "agg" else L.V("zero", ty.el), ty.el, path + ("*",), ix + (i,))
            else:
                cells.setdefault(path, []).append((ix, self.constant(v), ty))
        walk(init, r.ty, (), ())
        for path, lst in cells.items():
            ty = lst[0][2]
            if ty.k == "ptr":
                if len(lst) == 1:
                    r.inits[path] = lst[0][1]
                continue
            key = (r, path)
            n = self.nidx(key)

            def cv(x):
                return self.canon(x, self.signed_key(key)) if isinstance(x, IV) else x
            if n == 0:
                r.inits[path] = cv(lst[0][1])
            elif n == 1:
                arr = z3.K(z3.IntSort(), cv(lst[0][1]))
                c0 = cv(lst[0][1])
                for ix, x, _ in lst:
                    c = cv(x)
                    if not z3.eq(c, c0):
                        arr = z3.Store(arr, I(ix[0]), c)
                r.inits[path] = arr
            else:
                m = z3.Const("mem_" + self.keyname(key), self.keysort(key))
                for ix, x, _ in lst:
                    self.axiom_facts.append(self.sel(m, [I(i) for i in ix]) == cv(x))

    # ------------------------------------------------------------------ gep
    def gep(self, base, T, idxs):
        alts = []
        for g, p in base.alts:
            if p.kind == "reg":
                alts.append((g, self.gep1(p, T, idxs)))
            elif p.kind == "null":
                if all(isinstance(i, IV) and i.const() and i.lo == 0 for i in idxs):
                    alts.append((g, p))
                else:
                    alts.append((g, Ptr("opaque", x=self.fresh("nullplus", z3.IntSort()))))
            else:
                if all(isinstance(i, IV) and i.const() and i.lo == 0 for i in idxs):
                    alts.append((g, p))
                else:
                    alts.append((g, Ptr("opaque", x=self.fresh("opq", z3.IntSort()))))
        return PV(alts)

    def ix(self, v):
        """index as mathematical integer (raw: an access through it is checked against the region size)"""
        if v.w < 64:
            return self.S(v)
        return v.e

    def gep1(self, p, T, idxs):
        r = p.region
        i0 = idxs[0]
        z0 = isinstance(i0, IV) and i0.const() and i0.lo == 0
        if r.ty is None:
            if T.k == "int" and T.w == 8 and len(idxs) == 1 and not (r.bytes_typed):
                # byte arithmetic on an untyped block: remember raw offset only if zero
                if z0:
                    return p
                self.set_type(r, T)
            else:
                self.set_type(r, T if T.k != "array" or True else T.el)
        vt = leaf_walk(r.ty, p.path)
        if not z0:
            e = self.ix(i0)
            if vt.key() == T.key() or vt.size() == T.size() and vt.k == T.k:
                p = self.move(p, e)
            elif vt.k in ("array", "vec") and vt.el.key() == T.key():
                p = p.at(path=p.path + (("a", e),))
                vt = vt.el
            elif T.k == "int" and T.w == 8:
                p = self.byte_move(p, vt, e)
                vt = leaf_walk(r.ty, p.path)
            elif vt.size() and T.size() % vt.size() == 0:
                p = self.move(p, e * (T.size() // vt.size()))
            elif r.bytes is not None and r.retypable:
                raise Unsupported("region %s used with several element types" % r.name)
            else:
                raise Unsupported("pointer arithmetic in %s over %s" % (T, vt))
        cur = T
        for i in idxs[1:]:
            if cur.k == "struct":
                j = i.lo
                if vt.key() == cur.key() or (vt.k == "struct" and len(vt.fields) == len(cur.fields) and vt.size() == cur.size()):
                    p = p.at(path=p.path + (j,))
                    vt = vt.fields[j]
                elif j == 0:
                    pass
                elif vt.k == "struct" and vt.fields and vt.fields[0].key() == cur.key():
                    p = p.at(path=p.path + (0, j))
                    vt = vt.fields[0].fields[j]
                else:
                    raise Unsupported("field access %s over %s" % (cur, vt))
                cur = cur.fields[j]
            elif cur.k in ("array", "vec"):
                e = self.ix(i)
                if vt.key() == cur.key() or (vt.k in ("array", "vec") and vt.el.key() == cur.el.key()):
                    p = p.at(path=p.path + (("a", e),))
                    vt = vt.el
                elif vt.key() == cur.el.key():
                    if not (i.const() and i.lo == 0):
                        p = self.move(p, e)
                elif i.const() and i.lo == 0:
                    pass
                else:
                    raise Unsupported("array access %s over %s" % (cur, vt))
                cur = cur.el
            else:
                raise Unsupported("gep into " + repr(cur))
        return p

    def move(self, p, e):
        if p.path:
            if not isinstance(p.path[-1], int):
                return p.at(path=p.path[:-1] + (("a", p.path[-1][1] + e),))
            k = z3.simplify(e)
            if z3.is_int_value(k) and k.as_long() == 0:
                return p
            raise Unsupported("pointer arithmetic past a struct field")
        return p.at(idx=p.idx + e)

    def byte_move(self, p, vt, e):
        q = self.exact_div(e, vt.size())
        if q is not None:
            return self.move(p, q)
        k = z3.simplify(e)
        if z3.is_int_value(k) and vt.k == "struct":
            k = k.as_long()
            for j, o in enumerate(vt.offsets()):
                if o <= k < o + vt.fields[j].size():
                    p = p.at(path=p.path + (j,))
                    return p if o == k else self.byte_move(p, vt.fields[j], I(k - o))
        if p.path:
            # inside a field: go up
            pass
        raise Unsupported("byte offset into %s" % vt)

    # ------------------------------------------------------------------ instructions
    def instr(self, i):
        op = i.op
        env = self.frame.env
        if i.line:
            self.line = i.line
        if op in ("add", "sub", "mul"):
            a, b = self.value(i.ops[0]), self.value(i.ops[1])
            if isinstance(a, list):
                env[i] = [self.arith(op, x, y, False, False) for x, y in zip(a, b)]
            else:
                env[i] = self.arith(op, a, b, i.nsw, i.nuw)
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = self.value(i.ops[0]), self.value(i.ops[1])
            env[i] = self.vmap(lambda x, y: self.fp.bin(op, x, y), a, b)
        elif op == "fneg":
            env[i] = self.vmap(self.fp.neg, self.value(i.ops[0]))
        elif op == "icmp":
            a, b = self.value(i.ops[0]), self.value(i.ops[1])
            env[i] = [self.icmp(i.pred, x, y) for x, y in zip(a, b)] if isinstance(a, list) else self.icmp(i.pred, a, b)
        elif op == "fcmp":
            a, b = self.value(i.ops[0]), self.value(i.ops[1])
            env[i] = self.vmap(lambda x, y: self.fp.cmp(i.pred, x, y), a, b)
        elif op == "load":
            self.vec_align(self.value(i.ops[0]), i.ty, i.align)
            env[i] = self.load(self.value(i.ops[0]), i.ty)
        elif op == "store":
            self.vec_align(self.value(i.ops[1]), i.ops[0].ty, i.align)
            self.store(self.value(i.ops[1]), self.value(i.ops[0]), i.ops[0].ty)
        elif op == "getelementptr":
            env[i] = self.gep(self.value(i.ops[0]), i.gepty, [self.value(o) for o in i.ops[1:]])
        elif op in ("zext", "sext", "trunc"):
            a = self.value(i.ops[0])
            if isinstance(a, list):
                env[i] = [self.intcast(op, x, i.ops[0].ty.el, i.ty.el) for x in a]
            else:
                env[i] = self.intcast(op, a, i.ops[0].ty, i.ty)
        elif op in ("sitofp", "uitofp"):
            a = self.value(i.ops[0])
            if i.ty.k == "vec":
                env[i] = [self.i2f(op, x, i.ty.el) for x in a]
            else:
                env[i] = self.i2f(op, a, i.ty)
        elif op in ("fptosi", "fptoui"):
            env[i] = self.f2i(op, self.value(i.ops[0]), i.ty)
        elif op in ("fpext", "fptrunc"):
            a = self.value(i.ops[0])
            if i.ty.k == "vec":
                env[i] = [self.fp.conv(x, i.ty.el) for x in a]
            else:
                env[i] = self.fp.conv(a, i.ty)
        elif op in ("udiv", "sdiv", "urem", "srem"):
            env[i] = self.divide(op, self.value(i.ops[0]), self.value(i.ops[1]))
        elif op in ("shl", "lshr", "ashr"):
            env[i] = self.shiftop(op, self.value(i.ops[0]), self.value(i.ops[1]))
        elif op in ("and", "or", "xor"):
            a, b = self.value(i.ops[0]), self.value(i.ops[1])
            if isinstance(a, list):
                env[i] = [self.bitop(op, x, y) for x, y in zip(a, b)]
            else:
                env[i] = self.bitop(op, a, b)
        elif op == "select":
            c, a, b = [self.value(o) for o in i.ops]
            if isinstance(c, list):
                env[i] = [self.ite(x, y, z) for x, y, z in zip(c, a, b)]
            else:
                env[i] = self.ite(c, a, b)
        elif op == "alloca":
            sz = self.value(i.ops[0]) if i.ops else ivc(64, 1)
            self.n += 1
            one = sz.const() and sz.lo == 1
            r = Region("%s_%s!%d" % (self.frame.fn.name, stem(i.name) or "tmp", self.n), i.allocty, None if one else self.U(sz), 0, local=True)
            r.zeroed = False
            dn = self.dbg.local_signed(self.frame.fn.name, stem(i.name)) if self.dbg else None
            if dn is not None:
                r.signed = dn
            self.frame.locals[stem(i.name)] = r
            env[i] = PV([(TRUE, Ptr("reg", r, (), I(0), ()))])
        elif op == "bitcast":
            env[i] = self.bitcast(self.value(i.ops[0]), i.ops[0].ty, i.ty)
        elif op == "freeze":
            env[i] = self.value(i.ops[0])
        elif op == "ptrtoint":
            p = self.value(i.ops[0])
            w = i.ty.w
            e = self.ptr_id(p)
            env[i] = IV(w, e, 0, 1 << 48)
        elif op == "inttoptr":
            v = self.value(i.ops[0])
            env[i] = PV([(v.e == 0, NULL), (v.e != 0, Ptr("opaque", x=v.e))])
        elif op == "extractelement":
            v, k = self.value(i.ops[0]), self.value(i.ops[1])
            env[i] = v[k.lo]
        elif op == "insertelement":
            v, x, k = [self.value(o) for o in i.ops]
            v = list(v)
            v[k.lo] = x
            env[i] = v
        elif op == "shufflevector":
            a, b = self.value(i.ops[0]), self.value(i.ops[1])
            ab = list(a) + list(b)
            env[i] = [ab[m] if m >= 0 else a[0] for m in i.mask]
        elif op == "extractvalue":
            v = self.value(i.ops[0])
            for k in i.indices:
                v = v[k]
            env[i] = v
        elif op == "insertvalue":
            env[i] = self.insval(self.value(i.ops[0]), self.value(i.ops[1]), i.indices)
        elif op == "call":
            r = self.call(i)
            if i.ty.k != "void":
                env[i] = r
        else:
            raise Unsupported("instruction " + op)

    def insval(self, agg, v, ix):
        agg = list(agg)
        agg[ix[0]] = v if len(ix) == 1 else self.insval(agg[ix[0]], v, ix[1:])
        return agg

    def vmap(self, f, *a):
        if isinstance(a[0], list):
            return [f(*x) for x in zip(*a)]
        return f(*a)

    def arith(self, op, a, b, nsw, nuw):
        f = {"add": self.add, "sub": self.sub, "mul": self.mul}[op]
        if isinstance(a, z3.BoolRef):
            return z3.Xor(a, b)
        if nsw:
            x = IV(a.w, self.S(a), *self.clamp(a))
            y = IV(b.w, self.S(b), *self.clamp(b))
            r = f(x, y)
            h = 1 << (a.w - 1)
            if r.lo < -h or r.hi >= h:
                c = []
                if r.lo < -h:
                    c.append(r.e >= -h)
                if r.hi >= h:
                    c.append(r.e < h)
                if self.nsw == "prove":
                    self.oblige("overflow", "signed %s" % op, self.guard, And(*c))
                else:
                    self.assumed.add("signed %d-bit arithmetic does not overflow (%s)" % (a.w, self.cur_fn))
                    self.fact(Implies(self.guard, And(*c)))
                r = IV(r.w, r.e, max(r.lo, -h), min(r.hi, h - 1))
            return r
        r = f(a, b)
        # keep raw representations from growing without bound
        m = 1 << a.w
        if op == "mul" and (r.hi - r.lo) > m * 4 and not r.const():
            if a.lo >= 0 and b.lo >= 0:
                pass
        return r

    def clamp(self, v):
        h = 1 << (v.w - 1)
        return (max(v.lo, -h), min(v.hi, h - 1)) if (v.lo >= -h and v.hi < h) else (-h, h - 1)

    def icmp(self, pred, a, b):
        if isinstance(a, PV) or isinstance(b, PV):
            return self.pcmp(pred, a, b)
        if isinstance(a, z3.BoolRef):
            if pred == "eq":
                return a == b
            if pred == "ne":
                return z3.Xor(a, b)
            raise Unsupported("icmp i1")
        if pred in ("eq", "ne"):
            m = 1 << a.w
            if b.const() and a.lo >= 0 and a.hi < m:
                x, y = a.e, I(b.lo % m)
            elif max(a.hi, b.hi) - min(a.lo, b.lo) < m:
                x, y = a.e, b.e
            elif a.lo < 0 and a.lo >= -(m // 2) and a.hi < m // 2:
                x, y = a.e, self.S(b)
            elif b.lo < 0 and b.lo >= -(m // 2) and b.hi < m // 2 and not b.const():
                x, y = self.S(a), b.e
            else:
                x, y = self.U(a), self.U(b)
            r = x == y
            return r if pred == "eq" else z3.Not(r)
        if pred[0] == "u":
            x, y = self.U(a), self.U(b)
        else:
            x, y = self.S(a), self.S(b)
        return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]]

    def pcmp(self, pred, a, b):
        def one(p, q):
            if pred in ("eq", "ne"):
                if p.kind == "null" and q.kind == "null":
                    return TRUE
                if "null" in (p.kind, q.kind):
                    o = q if p.kind == "null" else p
                    return o.x == 0 if o.kind == "opaque" else FALSE
                if p.kind == "reg" and q.kind == "reg":
                    if p.region is q.region:
                        if strip(p.path) == strip(q.path):
                            c = [x == y for x, y in zip(p.fam, q.fam)] + [p.idx == q.idx]
                            c += [x[1] == y[1] for x, y in zip(p.path, q.path) if not isinstance(x, int)]
                            return And(*c)
                        return self.addr(p) == self.addr(q)
                    self.assumed.add("pointers into different objects compare unequal")
                    return FALSE
                if p.kind == "func" and q.kind == "func":
                    return z3.BoolVal(p.x == q.x)
                return self.ptr_id(PV([(TRUE, p)])) == self.ptr_id(PV([(TRUE, q)]))
            if p.kind == "reg" and q.kind == "reg" and p.region is q.region and strip(p.path) == strip(q.path):
                if p.path and not isinstance(p.path[-1], int):
                    x, y = p.path[-1][1], q.path[-1][1]
                else:
                    x, y = p.idx, q.idx
            else:
                x, y = self.ptr_id(PV([(TRUE, p)])), self.ptr_id(PV([(TRUE, q)]))
            return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]]
        pr = pred
        if pred == "ne":
            pred = "eq"
        ds = []
        for g, p in a.alts:
            for h, q in b.alts:
                ds.append(And(g, h, one(p, q)))
        r = Or(*ds)
        return Not(r) if pr == "ne" else r

    def intcast(self, op, v, fr, to):
        if fr.w == 1:
            if to.w == 1:
                return v
            n = 1 if op == "zext" else -1
            if z3.is_true(v):
                return ivc(to.w, n)
            if z3.is_false(v):
                return ivc(to.w, 0)
            return IV(to.w, z3.If(v, I(n), I(0)), min(0, n), max(0, n))
        if op == "trunc":
            if to.w == 1:
                return self.U(v) % 2 == 1
            return IV(to.w, v.e, v.lo, v.hi)
        if op == "zext":
            e = self.U(v)
            m = 1 << v.w
            lo, hi = (v.lo, v.hi) if v.lo >= 0 and v.hi < m else (0, m - 1)
        else:
            e = self.S(v)
            lo, hi = self.clamp(v)
        if z3.is_int_value(e):
            return ivc(to.w, e.as_long())
        return IV(to.w, e, lo, hi)

    def i2f(self, op, v, ty):
        if isinstance(v, z3.BoolRef):
            n = 1 if op == "uitofp" else -1
            return If(v, self.fp.const(ty, float(n)), self.fp.const(ty, 0.0))
        return self.fp.from_int(self.S(v) if op == "sitofp" else self.U(v), ty)

    def f2i(self, op, v, ty):
        e = self.fp.to_int(v) if self.fp.mode == "real" else None
        if e is None:
            rk = self.fp.rk(v)
            e = z3.If(rk >= 0, z3.ToInt(rk), -z3.ToInt(-rk))
        lo, hi = self.rng(ty.w, op == "fptosi")
        if self.top.overrides and self.top.overrides.get("f2i_fn"):     # a function of the value instead of a fresh name, so that contracts can name it
            x = v if self.fp.mode == "real" else self.fp.rk(v)
            k = z3.Function("real_to_int", z3.RealSort(), z3.IntSort())(x)
        else:
            k = self.fresh("f2i", z3.IntSort())
        self.fact(k == e)
        if self.fpconv == "prove":
            self.oblige("fpconv", "float to integer in range", self.guard, z3.And(Not(self.fp.isnan(v)), k >= lo, k <= hi))
        else:
            self.assumed.add("float to integer conversions are in range (%s)" % self.cur_fn)
            self.fact(Implies(self.guard, z3.And(k >= lo, k <= hi)))
        return IV(ty.w, k, lo, hi)

    def divide(self, op, a, b):
        w = a.w
        self.oblige("divzero", op, self.guard, (self.U(b) if op[0] == "u" else self.S(b)) != 0)
        if op[0] == "u":
            x, y = self.U(a), self.U(b)
            if op == "udiv":
                if "absudiv" in self.fp.want and not b.const():   # an arbitrary function of the two (holds in particular of division)
                    q = z3.Function("intquotient", z3.IntSort(), z3.IntSort(), z3.IntSort())(x, y)
                    return IV(w, q, 0, (1 << w) - 1)
                return IV(w, x / y, 0, (1 << w) - 1)
            hi = b.hi - 1 if b.const() and b.lo > 0 else (1 << w) - 1
            return IV(w, x % y, 0, hi)
        x, y = self.S(a), self.S(b)
        lo, hi = self.rng(w, True)
        if b.const():
            q = self.exact_div(x, abs(b.lo)) if b.lo else None
            if q is not None:
                if op == "sdiv":
                    return IV(w, q if b.lo > 0 else -q, lo, hi)
                return ivc(w, 0)
        ypos = (b.const() and b.lo > 0) or self.quick(self.guard, y > 0)
        xpos = a.lo >= 0 and a.hi <= hi or self.quick(self.guard, x >= 0)
        if not (b.const() and b.lo != -1) and not ypos:
            self.oblige("overflow", "sdiv", self.guard, Not(And(x == lo, y == -1)))
        if ypos:
            q = x / y if xpos else z3.If(x >= 0, x / y, -((-x) / y))
        else:
            ay = z3.If(y >= 0, y, -y)
            ax = z3.If(x >= 0, x, -x)
            q = ax / ay
            q = z3.If((x >= 0) == (y >= 0), q, -q)
        if op == "sdiv":
            return IV(w, q, lo, hi)
        if ypos and xpos:
            return IV(w, x % y, 0, hi)
        if ypos:
            return IV(w, z3.If(x >= 0, x % y, -((-x) % y)), lo, hi)
        return IV(w, x - q * y, lo, hi)

    def shiftop(self, op, a, b):
        w = a.w
        if b.const():
            k = b.lo % (1 << w)
            if op == "shl":
                return IV(w, a.e * (1 << k), a.lo << k, a.hi << k)
            if op == "lshr":
                if a.const():
                    return ivc(w, (a.lo % (1 << w)) >> k)
                hi = (a.hi if a.lo >= 0 and a.hi < (1 << w) else (1 << w) - 1)
                return IV(w, self.U(a) / (1 << k), 0, hi >> k)
            lo, hi = self.clamp(a)
            return IV(w, self.S(a) / (1 << k), lo >> k, hi >> k)
        self.oblige("shift", "shift amount", self.guard, self.U(b) < w)
        s = self.U(b)
        p = I(1 << (w - 1))
        for j in range(w - 2, -1, -1):
            p = z3.If(s == j, I(1 << j), p)
        if op == "shl":
            if a.const() and a.lo >= 0:
                return IV(w, a.lo * p, 0, a.lo << (w - 1))
            return IV(w, self.U(a) * p, 0, 1 << (2 * w))
        if op == "lshr":
            return IV(w, self.U(a) / p, 0, (1 << w) - 1)
        lo, hi = self.rng(w, True)
        return IV(w, self.S(a) / p, lo, hi)

    def float_bitop(self, op, a, b):
        """the bit tricks of vector code: clearing the sign, selecting by a comparison mask"""
        if isinstance(a, IV) or (a[0] == "bits" and not isinstance(b, IV) and b[0] == "nosign"):
            a, b = b, a
        allones = lambda v: isinstance(v, IV) and v.const() and v.lo in (-1, (1 << v.w) - 1)
        if a[0] == "bits" and op == "xor" and allones(b) and z3.eq(a[1], self.fp.const(a[2], -0.0)):
            return ("nosign", a[2])
        if a[0] == "nosign" and op == "and" and not isinstance(b, IV) and b[0] == "bits":
            return ("bits", self.fp.un("fabs", b[1]), b[2])
        if a[0] == "bits" and op == "and" and isinstance(b, IV):
            w = b.w
            e = self.U(b)
            other = self.fresh("bits", a[1].sort())
            return ("bits", If(e == 0, self.fp.const(a[2], 0.0), If(e == (1 << w) - 1, a[1], other)), a[2])
        raise Unsupported("bit operation on float bits")

    def bitop(self, op, a, b):
        if isinstance(a, z3.BoolRef):
            if op == "and":
                return And(a, b)
            if op == "or":
                return Or(a, b)
            if z3.is_true(b):
                return Not(a)
            if z3.is_true(a):
                return Not(b)
            return z3.Xor(a, b)
        if not isinstance(a, IV) or not isinstance(b, IV):
            return self.float_bitop(op, a, b)
        w = a.w
        m = 1 << w
        if a.const() and b.const():
            x, y = a.lo % m, b.lo % m
            return ivc(w, {"and": x & y, "or": x | y, "xor": x ^ y}[op])
        if a.const():
            a, b = b, a
        if b.const():
            c = b.lo % m
            if op == "and":
                if c == 0:
                    return ivc(w, 0)
                if c == m - 1:
                    return a
                # contiguous run of ones
                lowbit = (c & -c).bit_length() - 1
                run = c >> lowbit
                if run & (run + 1) == 0:
                    n = run.bit_length()
                    e = a.e if lowbit == 0 else self.U(a) / (1 << lowbit)
                    if lowbit + n == w and lowbit:
                        return IV(w, e * (1 << lowbit), 0, m - 1)
                    e = e % (1 << n)
                    return IV(w, e * (1 << lowbit) if lowbit else e, 0, c)
                # two runs: complement contiguous
                d = (m - 1) ^ c
                lb = (d & -d).bit_length() - 1
                run = d >> lb
                if run & (run + 1) == 0:
                    n = run.bit_length()
                    u = self.U(a)
                    return IV(w, u - ((u / (1 << lb)) % (1 << n)) * (1 << lb), 0, m - 1)
            if op == "xor" and c == m - 1:
                return IV(w, -1 - a.e, -1 - a.hi, -1 - a.lo)
            if op in ("or", "xor") and c == 0:
                return a
            if op == "or":
                lb = (c & -c).bit_length() - 1
                run = c >> lb
                if 0 <= a.lo and a.hi < (1 << lb):
                    return IV(w, a.e + c, a.lo + c, a.hi + c)
                if run & (run + 1) == 0:
                    n = run.bit_length()
                    u = self.U(a)
                    return IV(w, u - ((u / (1 << lb)) % (1 << n)) * (1 << lb) + c, 0, m - 1)
        x, y = self.U(a), self.U(b)
        if op in ("or", "xor"):
            # disjoint bits
            for p, q, ph in ((x, y, b), (y, x, a)):
                if 0 <= ph.lo and ph.hi < m:
                    n = ph.hi.bit_length()
                    s = self.exact_div(p, 1 << n)
                    if s is not None:
                        return IV(w, p + q, 0, m - 1)
        if all(v.lo >= 0 and v.hi <= 1 for v in (a, b)):
            p, q = x == 1, y == 1
            return IV(w, z3.If({"and": And, "or": Or, "xor": z3.Xor}[op](p, q), I(1), I(0)), 0, 1)
        if op == "and":
            for v, u in ((a, y), (b, x)):
                if v.lo >= 0 and v.hi <= 1:
                    return IV(w, z3.If(v.e == 1, u % 2, I(0)), 0, 1)
        f = z3.Function("bv%s%d" % (op, w), z3.IntSort(), z3.IntSort(), z3.IntSort())
        r = f(x, y)
        if not self._has_bound_var(r):
            self.range_fact(r, 0, m - 1)
            if op == "and":
                self.fact(z3.And(r <= x, r <= y))
            if op == "or":
                self.fact(z3.And(r >= x, r >= y, r <= x + y))
        hi = m - 1
        if op == "and":
            hi = min([hi] + [v.hi for v in (a, b) if v.lo >= 0])
        return IV(w, r, 0, hi)

    def bits_of(self, x, fr, to):
        if isinstance(x, tuple) and x[0] == "bits":
            return x[1] if x[2] == to else x
        if isinstance(x, tuple) and x[0] == "mask":
            return x[1]
        if isinstance(x, IV) and to.k != "int":
            return ("mask", x)
        if isinstance(x, IV) or (isinstance(x, tuple) and x[0] == "nosign"):
            return x
        return ("bits", x, fr)

    def bitcast(self, v, fr, to):
        if fr == to:
            return v
        if fr.k == "ptr" and to.k == "ptr":
            return v
        if fr.k == "vec" and to.k == "vec":
            if fr.n == to.n and {fr.el.k, to.el.k} <= {"float", "double", "int"}:
                return [self.bits_of(x, fr.el, to.el) for x in v]
            return ("vbits", v, fr)
        return self.retype(v, fr, to)

    # ------------------------------------------------------------------ calls
    def call(self, i):
        cal = i.callee
        args = None
        if cal.k == "func":
            name = cal.name
        elif cal.k == "asm":
            raise Unsupported("inline asm")
        else:
            pv = self.value(cal)
            fns = [p.x for g, p in pv.alts if p.kind == "func"]
            if len(pv.alts) == 1 and fns:
                name = fns[0]
            else:
                name = None
                h = self.top.indirect
                if h is None:
                    raise Unsupported("indirect call")
                args = [self.value(o) for o in i.ops]
                return h(self, pv, args, i)
        if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime") or name.startswith("llvm.assume") or name == "llvm.experimental.noalias.scope.decl":
            return None
        args = [self.value(o) for o in i.ops]
        self.called.add(name)
        if name in self.top.calls:
            h = self.top.calls[name]
            if isinstance(h, Contract):
                return self.apply_contract(h, args, i)
            return h(self, args, i)
        if name in self.contracts and name not in self.top.inline and not (self.contracts[name] is None):
            return self.apply_contract(self.contracts[name], args, i)
        from . import builtins as B
        h = B.lookup(name)
        if h:
            return h(self, name, args, i)
        f = self.M.funcs.get(name)
        if f is None or f.decl:
            raise Unsupported("call of %s (no body, no contract)" % name)
        if any(fr.fn is f for fr in self.stack):
            raise Unsupported("recursion through %s without a contract" % name)
        if len(self.stack) > 14:
            raise Unsupported("inlining too deep")
        self.inlined.add(name)
        return self.run_inline(f, args)

    def run_inline(self, f, args):
        fr = Frame(f, self.frame, True)
        fr.locals = {}
        for a, v in zip(f.args, args):
            fr.env[a] = v
        old = self.frame
        self.frame = fr
        self.stack.append(fr)
        g0 = self.guard
        rets = self.run_body(f, self.guard, self.state)
        self.stack.pop()
        self.frame = old
        if not rets:
            self.guard = FALSE
            return self.undef(f.ret) if f.ret.k != "void" else None
        edges = [Edge(g, st, {"r": v}, None) for g, st, v in rets]
        if len(edges) == 1:
            g, st, ph = edges[0].guard, dict(edges[0].state), edges[0].phis
        else:
            g, st, ph = self.merge(edges)
        self.state = st
        self.guard = g
        return ph.get("r")

    def default_external(self, name, args, i):
        raise Unsupported("external " + name)

    # ---- contracts at call sites
    def bind(self, contract, args, f=None):
        """formal region name -> actual Ptr; returns (regs, argmap)"""
        regs, amap = {}, {}
        fn = self.M.funcs.get(contract.fn)
        names = contract.args or [a.name for a in fn.args]
        for nm, v in zip(names, args):
            amap[nm] = v
        for pn, rn in contract.params.items():
            v = amap[pn]
            if contract.offsets and pn in contract.offsets and rn in regs:
                q = self.single(v)
                self.oblige("precondition", "%s: %s points into %s" % (contract.fn, pn, rn), self.guard, And(*([x == y for x, y in zip(q.fam, regs[rn].fam)] if q.region is regs[rn].region else [FALSE])))
                amap[contract.offsets[pn]] = IV(64, q.idx - regs[rn].idx, -(1 << 62), 1 << 62)
                continue
            if not isinstance(v, PV):
                raise ShapeError("parameter %s of %s is not a pointer" % (pn, contract.fn))
            if pn in contract.nullable:
                nb = Or(*[g for g, p in v.alts if p.kind == "null"])
                amap[pn + "_null"] = nb
                if all(p.kind != "reg" for _, p in v.alts):
                    continue
            else:
                for g, p in v.alts:
                    if p.kind != "reg":
                        self.oblige("precondition", "%s: %s is a valid object" % (contract.fn, pn), self.guard, Not(g))
            p = self.single(v)
            self.bind_region(contract, rn, p, regs)
        for rn, spec in contract.regions.items():
            if "glob" in spec:
                regs[rn] = Ptr("reg", self.glob(spec["glob"]), (), I(0), ())
        return regs, amap

    def glob(self, name):
        if name not in self.M.globals:
            raise ShapeError("no global variable " + name)
        return self.global_region(name)

    def bind_region(self, contract, rn, p, regs):
        spec = contract.regions[rn]
        if p.region.ty is None:
            self.set_type(p.region, self.type_of(spec["ty"]))
        regs[rn] = p
        for path, tgt in (spec.get("links") or {}).items():
            tname, nullable = tgt if isinstance(tgt, tuple) else (tgt, None)
            pth = self.mkpath(p.region, tuple(p.path) + (path if isinstance(path, tuple) else (path,)), p.region.ty)
            q = p.at(path=pth)
            key = (p.region, strip(pth))
            pv = self.load_ptr(self.state, q, key)
            rs = [x for _, x in pv.alts if x.kind == "reg"]
            if len(rs) == 1:
                t = rs[0]
                # family indices introduced by an array-of-structs base stay free in the formal view
                nf = len(regs[rn].fam)
                if p.region.array and spec.get("count") is not None:
                    t = t.at(fam=tuple(p.fam) if self.is_fam_link(p, t) else t.fam)
                self.bind_region(contract, tname, t, regs)

    def is_fam_link(self, p, t):
        return t.region.fam > len(p.fam)

    def type_of(self, t):
        if isinstance(t, L.Ty):
            return t
        if isinstance(t, str):
            m = {"float": L.FLOAT, "double": L.DOUBLE, "ptr": L.PTR, "i8": L.I8, "i16": L.I16, "i32": L.I32, "i64": L.I64}
            if t in m:
                return m[t]
            for pre in ("struct.", "struct._", "union.", ""):
                if pre + t in self.M.structs:
                    return self.M.structs[pre + t]
            raise ShapeError("no type " + t)
        return t

    def apply_contract(self, ct, args, inst):
        regs, amap = self.bind(ct, args)
        self.used_contracts.add(ct.fn)
        pre = Ctx(self, self.state, None, regs, amap)
        for rn, p in regs.items():
            spec = ct.regions[rn]
            if spec.get("count") is not None and p.region.array:
                pass
        if ct.hints:
            for f in ct.hints(pre):
                self.fact(f)
        for rn, p in regs.items():
            spec = ct.regions[rn]
            if spec.get("count") is not None and p.region.array and not p.path and not spec.get("fam"):
                c = spec["count"](pre)
                self.oblige("precondition", "%s: %s large enough" % (ct.fn, rn), self.guard,
                            z3.And(p.idx >= 0, p.idx + c <= self.count_of(p.region, p.fam)))
            if spec.get("count") is not None and in_array(p) and not spec.get("fam"):
                ty = p.region.ty
                for x in p.path[:-1]:
                    ty = ty.fields[x] if isinstance(x, int) else ty.el
                self.oblige("precondition", "%s: %s large enough" % (ct.fn, rn), self.guard, z3.And(p.path[-1][1] >= 0, p.path[-1][1] + spec["count"](pre) <= ty.n))
        for lab, f in labelled(ct.requires(pre) if ct.requires else []):
            self.oblige("precondition", "%s: %s" % (ct.fn, lab), self.guard, f)
        if ct.decreases and self.top.fn == ct.fn and self.top.decreases:
            d, d0 = ct.decreases(pre), self.top_dec
            self.oblige("decreases", "recursive call", self.guard, z3.And(d >= 0, d < d0))
        old = dict(self.state)
        mods = [self.norm_mod(m, regs) for m in (ct.modifies(pre) if ct.modifies else [])]
        pre.state = old
        for (q, path, lo, hi) in mods:
            if not q.region.local:
                self.oblige("frame", "%s modifies %s" % (ct.fn, q.region.name), self.guard, self.mod_within(q, path, lo, hi))
            self.havoc_mod(q, path, lo, hi, self.state)
        ret = None
        if ct.ret_region is not None or inst.ty.k == "ptr":
            ret = ct.ret_region(self, pre) if ct.ret_region else PV([(TRUE, Ptr("opaque", x=self.fresh("ret_" + ct.fn, z3.IntSort())))])
        elif inst.ty.k == "int":
            if inst.ty.w == 1:
                ret = self.fresh("ret_" + ct.fn, z3.BoolSort())
            else:
                sg = self.dbg.ret_signed(ct.fn) if self.dbg else False
                ret = self.fresh_int("ret_" + ct.fn, inst.ty.w, bool(sg))
        elif inst.ty.k in ("float", "double"):
            ret = self.fresh("ret_" + ct.fn, self.fp.sort(inst.ty))
        elif inst.ty.k != "void":
            raise Unsupported("return type")
        post = Ctx(self, self.state, None, regs, amap, pre=pre, ret=self.spec_val(ret) if ret is not None else None)
        for lab, f in labelled(ct.ensures(post) if ct.ensures else []):
            self.fact(Implies(self.guard, f))
        return ret

    def norm_mod(self, m, regs):
        rn, path, lo, hi = m[:4]
        p = regs[rn]
        if len(m) > 4:
            p = p.at(fam=tuple(p.fam) + tuple(m[4]))
        if path is not None:
            path = strip(self.mkpath(p.region, tuple(p.path) + tuple(("a", I(0)) if x == "*" else x for x in path), p.region.ty))
        elif p.path:
            path = strip(p.path)
        if lo is not None and p.path and not isinstance(p.path[-1], int):
            pass
        if lo is None and p.region.array and regs.get("__whole__") is None and False:
            pass
        return (p, path, lo, hi)

    def mod_within(self, q, path, lo, hi):
        ds = []
        for (m, mp, mlo, mhi) in self.modset:
            if m.region is not q.region:
                continue
            if mp is not None and (path is None or path[:len(mp)] != mp):
                continue
            c = [a == b for a, b in zip(m.fam, q.fam) if not z3.eq(a, b)]
            if len(m.fam) > len(q.fam):
                continue
            if mlo is not None:
                if lo is None:
                    continue
                c.append(z3.Or(lo >= hi, z3.And(q.idx + lo >= m.idx + mlo, q.idx + hi <= m.idx + mhi)))
            ds.append(And(*c))
        return Or(*ds)

    def havoc_mod(self, q, path, lo, hi, state):
        """new values for the cells [lo,hi) of a region (all cells when lo is None)"""
        r = q.region
        for lp, ty in list(self.leaves(r.ty)):
            if path is not None and lp[:len(path)] != path:
                continue
            key = (r, lp)
            for wl in self.writelogs:
                wl.add(key)
            if ty.k == "ptr":
                if lp in r.links or self.nidx(key) == 0:
                    continue
            old = self.getmem(state, key)
            new = self.fresh("h_" + self.keyname(key), self.keysort(key))
            state[key] = new
            nf = len(q.fam)
            if lo is None and nf == 0:
                continue
            if not r.array and nf == 0:
                continue
            # cells outside are unchanged
            vs = [z3.Int("f!%d" % k) for k in range(nf)]
            iv = z3.Int("i!")
            a, b = old, new
            if nf:
                x, y = old, new
                outside = Or(*[v != f for v, f in zip(vs, q.fam)])
                for v in vs:
                    x, y = z3.Select(x, v), z3.Select(y, v)
                self.fact(z3.ForAll(vs, Implies(outside, x == y), patterns=[y]))
                for f in q.fam:
                    a, b = z3.Select(a, f), z3.Select(b, f)
            if lo is not None:
                self.fact(z3.ForAll([iv], Implies(z3.Or(iv < q.idx + lo, iv >= q.idx + hi), z3.Select(b, iv) == z3.Select(a, iv)), patterns=[z3.Select(b, iv)]))

    # ------------------------------------------------------------------ control flow
    def run_body(self, f, guard, state):
        """executes f from its entry; returns list of (guard, state, retval)"""
        order, loops = analyse_loops(f)
        self.frame.loops = loops
        rets = []
        pend = {f.blocks[0]: [Edge(guard, state, {}, None)]}
        self.run_region(order, loops, None, pend, rets)
        return rets

    def run_region(self, order, loops, within, pend, rets):
        for b in order:
            if within is not None and b not in within.blocks:
                continue
            if within is not None and b is within.header:
                continue
            # skip blocks inside nested loops: handled by their loop
            inner = self.innermost(loops, b, within)
            if inner is not None and b is not inner.header:
                continue
            if b not in pend:
                continue
            edges = pend.pop(b)
            if inner is not None:
                if self.top.known and all(self.pruned(e.guard) for e in edges):
                    continue
                self.run_loop(order, loops, inner, edges, pend, rets)
            else:
                g, st, ph = self.merge(edges)
                if z3.is_false(g) or self.top.known and self.pruned(g):
                    continue
                self.exec_block(b, g, st, ph, pend, rets)

    def pruned(self, g):
        """the guard contradicts the `known` precondition"""
        if z3.is_true(g):
            return False
        sv = z3.Solver()
        sv.set("timeout", 300)
        sv.add(self.top.known(self.prectx), g, *[f for f in self.facts if not z3.is_quantifier(f) and f.decl().kind() == z3.Z3_OP_EQ and f.arg(0).sort() == z3.BoolSort()])
        return sv.check() == z3.unsat

    def innermost(self, loops, b, within):
        """the loop directly below `within` that contains b"""
        best = None
        for li in loops.values():
            if b in li.blocks and li is not within:
                if within is not None and not (li.header in within.blocks and li.header is not within.header):
                    continue
                if best is None or len(li.blocks) > len(best.blocks):
                    best = li
        return best

    def exec_block(self, b, g, st, ph, pend, rets):
        self.guard, self.state = g, st
        for i, v in ph.items():
            self.frame.env[i] = v
        for i in b.insts:
            if i.op == "phi":
                continue
            if i.op in ("br", "switch", "ret", "unreachable"):
                break
            self.instr(i)
            if z3.is_false(self.guard):
                return
        t = b.insts[-1]
        if t.line:
            self.line = t.line
        g, st = self.guard, self.state
        if t.op == "ret":
            rets.append((g, st, self.value(t.ops[0]) if t.ops else None))
        elif t.op == "unreachable":
            if not getattr(self, "_noret", False):
                pass
        elif t.op == "br":
            if len(t.succ) == 1:
                self.edge(b, t.succ[0], g, st, pend)
            else:
                c = self.value(t.ops[0])
                if z3.is_true(c):
                    self.edge(b, t.succ[0], g, st, pend)
                elif z3.is_false(c):
                    self.edge(b, t.succ[1], g, st, pend)
                else:
                    if t.succ[0] is t.succ[1]:
                        self.edge(b, t.succ[0], g, st, pend)
                        return
                    g1, g2 = self.fresh("g", z3.BoolSort()), self.fresh("g", z3.BoolSort())
                    self.fact(g1 == And(g, c))
                    self.fact(g2 == And(g, Not(c)))
                    self.edge(b, t.succ[0], g1, dict(st), pend)
                    self.edge(b, t.succ[1], g2, dict(st), pend)
        elif t.op == "switch":
            v = self.value(t.ops[0])
            rest = []
            bydest = {}
            for cv, dest in t.cases:
                c = self.icmp("eq", v, self.constant(cv))
                bydest.setdefault(dest, []).append(c)
                rest.append(c)
            dflt = t.succ[0]
            bydest.setdefault(dflt, []).append(Not(Or(*rest)))
            for dest, cs in bydest.items():
                c = Or(*cs)
                if z3.is_false(c):
                    continue
                g1 = self.fresh("g", z3.BoolSort())
                self.fact(g1 == And(g, c))
                self.edge(b, dest, g1, dict(st), pend)
        else:
            raise Unsupported("terminator " + t.op)

    def edge(self, b, s, g, st, pend):
        ph = {}
        for i in s.insts:
            if i.op != "phi":
                break
            for v, src in i.phi:
                if src is b:
                    ph[i] = self.value(v)
                    break
        pend.setdefault(s, []).append(Edge(g, st, ph, b))

    # ---- loops
    def loop_spec(self, li):
        k1 = (li.fn.name, li.path)
        base = self.top.loops
        if self.frame.inlined:
            return base.get(k1)
        return base.get(k1) or base.get(li.path)

    def run_loop(self, order, loops, li, edges, pend, rets):
        spec = self.loop_spec(li)
        self.used_loops.add((li.fn.name, li.path))
        if spec is None and self.top.overrides and self.top.overrides.get("unroll_all"):
            spec = Loop(unroll=self.top.overrides["unroll_all"])
        if spec is None:
            raise ShapeError("loop %s of %s (line %s) has no invariant" % (li.path, li.fn.name, self.line))
        if spec.unroll:
            return self.run_unrolled(order, loops, li, edges, pend, rets, spec)
        g0, st0, ph0 = self.merge(edges)
        hdr = li.header
        frame = self.frame
        for i, v in ph0.items():
            if isinstance(v, PV) and len(v.alts) > 1:
                keep = [(g, p) for g, p in v.alts if not self.quick(g0, Not(g))]
                if len(keep) == 1:
                    keep = [(TRUE, keep[0][1])]
                if keep:
                    ph0[i] = PV(keep)
        entphis = dict(ph0)
        for i in hdr.insts:
            if i.op == "phi" and not i.line:
                pass
        line0 = next((x.line for x in hdr.insts if x.line), self.line)
        frame.headers.append(hdr)
        # 1. invariant holds on entry
        self.guard, self.state = g0, st0
        ent = Ctx(self, dict(st0), frame, self.regs, self.argmap, pre=self.prectx, phis=entphis, loop=li, header=hdr)
        ent.ent = ent
        ent._it = frame.env[("it", hdr)] = I(0)
        if spec.hints:
            for f in spec.hints(ent):
                self.fact(Implies(g0, f) if not isinstance(f, tuple) else f[1])
        for i, v in ph0.items():
            frame.env[i] = v
        # discovery of what the body writes
        ck = (hdr, tuple(id(x.fn) for x in self.stack))
        sig = self.loop_sig(ph0)
        if ck + (sig,) not in self.loop_cache:
            self.discover(order, loops, li, g0, st0, ph0, ck + (sig,))
        written, ptralts, indsteps = self.loop_cache[ck + (sig,)]
        self.guard, self.state = g0, st0
        frame.env[("it", hdr)] = I(0)
        for lab, f in labelled(spec.inv(ent) if spec.inv else []):
            self.oblige("invariant-entry", "loop %s %s" % (li.path, lab), g0, f, line0)
        # 2. havoc
        st = dict(st0)
        gh = self.fresh("gl", z3.BoolSort())
        self.fact(Implies(gh, g0))
        ph = self.havoc_phis(li, ph0, ptralts)
        for key in sorted(written, key=lambda k: self.keyname(k)):
            self.havoc_key(key, st, st0, gh)
        self.guard, self.state = gh, st
        for i, v in ph.items():
            frame.env[i] = v
        c = Ctx(self, st, frame, self.regs, self.argmap, pre=self.prectx, phis=ph, loop=li, ent=ent, header=hdr)
        c.state = dict(st)
        it = c._it = frame.env[("it", hdr)] = self.fresh("it", z3.IntSort())
        self.fact(it >= 0)
        auto = {}
        if hdr in self.it_used:
            for i, d in indsteps.items():
                a0, a1 = self.ind_value(i, ph0.get(i)), self.ind_value(i, ph[i])
                if a0 is not None and a1 is not None:
                    auto[i] = (a0, d)
                    self.fact(Implies(gh, a1 == a0 + d * it))
        for lab, f in labelled(spec.inv(c) if spec.inv else []):
            self.fact(Implies(gh, f))
        if spec.hints:
            for f in spec.hints(c):
                self.fact(Implies(gh, f) if not isinstance(f, tuple) else f[1])
        dec0 = spec.dec(c) if spec.dec else None
        if dec0 is not None and not isinstance(dec0, (list, tuple)):
            dec0 = [dec0]
        # 3. body
        sub = {}
        latch = []
        self.exec_block(hdr, gh, st, {}, sub, rets)
        latch += sub.pop(hdr, [])
        self.split_out(li, sub, pend)
        self.run_region_loop(order, loops, li, sub, pend, rets, latch)
        # 4. invariant preserved
        first = True
        for e in latch:
            self.guard, self.state = e.guard, e.state
            if first and not self.dry:
                self.covers.append((self.cur_fn, "loop %s body reachable" % li.path, e.guard, len(self.facts)))
            for i, v in e.phis.items():
                frame.env[i] = v
            cn = Ctx(self, e.state, frame, self.regs, self.argmap, pre=self.prectx, phis=e.phis, loop=li, ent=ent, header=hdr)
            cn.head = c
            cn._it = frame.env[("it", hdr)] = it + 1
            for i, (a0, d) in auto.items():
                a1 = self.ind_value(i, e.phis[i])
                if a1 is None:
                    raise ShapeError("induction variable %s" % i.name)
                self.oblige("invariant-preserved", "loop %s induction variable %s" % (li.path, stem(i.name)), e.guard, a1 == a0 + d * (it + 1), line0)
            if spec.latch_hints:
                for f in spec.latch_hints(cn):
                    self.fact(Implies(e.guard, f) if not isinstance(f, tuple) else f[1])
            if spec.steps:
                for lab, f in labelled(spec.steps(cn)):
                    self.oblige("step", "loop %s %s" % (li.path, lab), e.guard, f, line0)
            for lab, f in labelled(spec.inv(cn) if spec.inv else []):
                self.oblige("invariant-preserved", "loop %s %s" % (li.path, lab), e.guard, f, line0, assume=False)
            if dec0 is not None:
                d1 = spec.dec(cn)
                if not isinstance(d1, (list, tuple)):
                    d1 = [d1]
                goal = FALSE
                for a, b in reversed(list(zip(d1, dec0))):
                    goal = z3.Or(z3.And(a < b, b >= 0), z3.And(a == b, goal))
                self.oblige("decreases", "loop %s" % li.path, e.guard, goal, line0, assume=False)
            first = False
        # header phis must keep the havocked value for code after the loop (edges already evaluated)
        for i, v in ph.items():
            frame.env[i] = v
        frame.env[("it", hdr)] = it
        frame.headers.pop()

    def ind_value(self, i, v):
        """integer that a header variable counts with"""
        if isinstance(v, IV):
            if v.w == 1:
                return None
            return self.canon(v, self.phi_signed(i))
        if isinstance(v, PV) and len(v.alts) == 1:
            p = v.alts[0][1]
            if p.kind == "reg" and not any(isinstance(x, tuple) for x in p.path) and p.region.array:
                return p.idx
        return None

    def ind_raw(self, i, v):
        return v.e if isinstance(v, IV) and v.w > 1 else self.ind_value(i, v)

    def loop_sig(self, ph0):
        return tuple((i.uid, tuple(id(p.region) for _, p in v.alts)) for i, v in ph0.items() if isinstance(v, PV))

    def split_out(self, li, sub, pend):
        for b in list(sub):
            if b not in li.blocks:
                pend.setdefault(b, []).extend(sub.pop(b))

    def run_region_loop(self, order, loops, li, sub, pend, rets, latch):
        """the rest of the loop body"""
        for b in order:
            if b not in li.blocks or b is li.header:
                continue
            inner = self.innermost(loops, b, li)
            if inner is not None and b is not inner.header:
                continue
            if b not in sub:
                continue
            edges = sub.pop(b)
            if inner is not None:
                if self.top.known and all(self.pruned(e.guard) for e in edges):
                    continue
                self.run_loop(order, loops, inner, edges, sub, rets)
            else:
                g, st, ph = self.merge(edges)
                if z3.is_false(g) or self.top.known and self.pruned(g):
                    continue
                self.exec_block(b, g, st, ph, sub, rets)
            latch += sub.pop(li.header, [])
            self.split_out(li, sub, pend)

    def havoc_phis(self, li, ph0, ptralts):
        ph = {}
        for i in li.header.insts:
            if i.op != "phi":
                break
            v0 = ph0[i]
            # loop-invariant phi?
            if all(v is i.val for v, src in i.phi if src in li.blocks):
                ph[i] = v0
                continue
            ph[i] = self.havoc_val(i, v0, ptralts)
        return ph

    def havoc_val(self, i, v0, ptralts):
        nm = stem(i.name) or "v"
        if i.ty.k == "int":
            if i.ty.w == 1:
                return self.fresh(nm, z3.BoolSort())
            sg = self.phi_signed(i)
            return self.fresh_int(nm, i.ty.w, sg)
        if i.ty.k in ("float", "double", "fp80"):
            return self.fresh(nm, self.fp.sort(i.ty))
        if i.ty.k == "vec":
            if i.ty.el.k in ("float", "double"):
                return [self.fresh("%s_%d" % (nm, k), self.fp.sort(i.ty.el)) for k in range(i.ty.n)]
            return [self.fresh_int("%s_%d" % (nm, k), i.ty.el.w, False) for k in range(i.ty.n)]
        if i.ty.k == "ptr":
            shapes = list(ptralts.get(i, []))
            for g, p in v0.alts:
                if not any(self.same_shape(p, q) for q in shapes):
                    shapes.append(p)
            sel = self.fresh("sel_" + nm, z3.IntSort())
            alts = []
            for k, p in enumerate(shapes):
                g = TRUE if len(shapes) == 1 else (sel == k if k < len(shapes) - 1 else z3.And(*[sel != j for j in range(len(shapes) - 1)]))
                if p.kind == "reg":
                    fam = tuple(self.fresh("fam_" + nm, z3.IntSort()) if x is None else x for x in p.fam)
                    idx = self.fresh("idx_" + nm, z3.IntSort())
                    pa = p.path
                    if pa and not isinstance(pa[-1], int):
                        pa = pa[:-1] + (("a", self.fresh("pi_" + nm, z3.IntSort())),)
                        idx = p.idx
                    elif pa:
                        idx = p.idx if not p.region.array else idx
                    elif not p.region.array:
                        pass
                    alts.append((g, p.at(fam=fam, idx=idx, path=pa)))
                elif p.kind == "opaque":
                    alts.append((g, Ptr("opaque", x=self.fresh("opq_" + nm, z3.IntSort()))))
                else:
                    alts.append((g, p))
            return PV(alts)
        raise Unsupported("phi of type %s" % i.ty)

    def same_shape(self, p, q):
        if p.kind != q.kind:
            return False
        if p.kind == "reg":
            return p.region is q.region and strip(p.path) == strip(q.path) and len(p.fam) == len(q.fam) and \
                all((b is None) or (a is not None and z3.eq(a, b)) for a, b in zip(p.fam, q.fam))
        if p.kind == "func":
            return p.x == q.x
        return True

    def havoc_key(self, key, st, st0, g):
        r = key[0]
        if r.ty is None:
            return
        ty = leaf_walk(r.ty, key[1])
        if ty.k == "ptr" and self.nidx(key) == 0:
            old = self.getmem_or_link(st0, key)
            pts = self.ptrkeys.get(key, [])
            # pointer variable in memory: alternatives found in discovery
            fake = L.Inst()
            fake.ty, fake.name = L.PTR, self.keyname(key)
            st[key] = self.havoc_val(fake, old if isinstance(old, PV) else PV([(TRUE, NULL)]), {fake: pts})
            return
        old = self.getmem_or_link(st0, key)
        new = self.fresh("l_" + self.keyname(key), self.keysort(key))
        st[key] = new
        if self.nidx(key) == 0 and ty.k == "int" and ty.w > 1:
            lo, hi = self.rng(ty.w, self.signed_key(key))
            self.fact(z3.And(new >= lo, new <= hi))
        # cells that the function may not modify keep their entry value
        if not r.local:
            self.frame_fact(key, new, g)

    def frame_fact(self, key, new, g):
        r, lp = key
        pre = self.getmem(self.pre_state, key)
        ms = [m for m in self.modset if m[0].region is r and (m[1] is None or lp[:len(m[1])] == m[1])]
        if any(m[2] is None and not m[0].fam for m in ms):
            return
        n = r.fam + (1 if r.array else 0)
        if n == 0:
            if not ms:
                self.fact(new == pre)
            return
        vs = [z3.Int("fr!%d" % k) for k in range(n)]
        inside = []
        for (q, mp, lo, hi) in ms:
            c = [v == f for v, f in zip(vs, q.fam)]
            if lo is not None and r.array:
                iv = vs[r.fam]
                c += [iv >= q.idx + lo, iv < q.idx + hi]
            inside.append(And(*c))
        a, b = new, pre
        for v in vs:
            a, b = z3.Select(a, v), z3.Select(b, v)
        self.fact(z3.ForAll(vs, Implies(Not(Or(*inside)), a == b), patterns=[a]))

    def discover(self, order, loops, li, g0, st0, ph0, ck):
        """dry run of the body to learn which components it writes (result discarded otherwise)"""
        frame = self.frame
        written, ptralts = set(), {}
        for rnd in range(4):
            save = (len(self.facts), len(self.obls), dict(frame.env), list(frame.headers), self.guard, self.state, self.line)
            self.dry += 1
            n0 = self.n
            qm = self.quick_ms
            self.quick_ms = 0
            cn = self.cached_norm
            self.cached_norm = {}
            wl = set()
            self.writelogs.append(wl)
            rets = []
            try:
                st = dict(st0)
                gh = self.fresh("gd", z3.BoolSort())
                ph = self.havoc_phis(li, ph0, ptralts)
                for key in written:
                    self.havoc_key(key, st, st0, gh)
                for i, v in ph.items():
                    frame.env[i] = v
                sub, pend2, latch = {}, {}, []
                self.exec_block(li.header, gh, st, {}, sub, rets)
                latch += sub.pop(li.header, [])
                self.split_out(li, sub, pend2)
                self.run_region_loop(order, loops, li, sub, pend2, rets, latch)
            finally:
                self.writelogs.pop()
                self.dry -= 1
                self.quick_ms = qm
                self.cached_norm = cn
                del self.facts[save[0]:]
                del self.obls[save[1]:]
                frame.env = save[2]
                frame.headers = save[3]
                self.guard, self.state, self.line = save[4:]
                if self.__dict__.get("rfacts"):
                    self.rfacts = {k: v for k, v in self.rfacts.items() if v[1] <= len(self.facts)}
            changed = bool(wl - written)
            indsteps = {}
            for i in ph:
                a = self.ind_raw(i, ph[i])
                if a is None or ph[i] is ph0.get(i):
                    continue
                ds = []
                for e in latch:
                    b = self.ind_raw(i, e.phis.get(i)) if i in e.phis else None
                    ds.append(None if b is None else z3.simplify(b - a))
                if ds and all(d is not None and z3.eq(d, ds[0]) for d in ds) and not (z3.is_int_value(ds[0]) and ds[0].as_long() == 0) and self.older(ds[0], n0):
                    indsteps[i] = ds[0]
            # locals created inside the body are not loop state
            written |= wl
            for e in latch:
                for i, v in e.phis.items():
                    if isinstance(v, PV):
                        cur = ptralts.setdefault(i, [p for _, p in ph0[i].alts] if isinstance(ph0[i], PV) else [])
                        for _, p in v.alts:
                            if self.add_shape(cur, p):
                                changed = True
                for key in written:
                    if key[0].ty is not None and leaf_walk(key[0].ty, key[1]).k == "ptr" and self.nidx(key) == 0:
                        v = e.state.get(key)
                        if isinstance(v, PV):
                            cur = self.ptrkeys.setdefault(key, [])
                            for _, p in v.alts:
                                if self.add_shape(cur, p):
                                    changed = True
            if not changed:
                break
        self.loop_cache[ck] = (written, ptralts, indsteps)

    def older(self, e, n0):
        """every constant in e was introduced before n0, and there is no memory access in it"""
        todo = [e]
        while todo:
            x = todo.pop()
            if not z3.is_app(x):
                return False
            if x.num_args() == 0 and not z3.is_int_value(x):
                m = re.search(r"!(\d+)$", x.decl().name())
                if m and int(m.group(1)) > n0:
                    return False
            todo += x.children()
        return True

    def add_shape(self, cur, p):
        for k, q in enumerate(cur):
            if self.same_shape(p, q):
                return False
            if p.kind == "reg" and q.kind == "reg" and p.region is q.region and strip(p.path) == strip(q.path) and len(p.fam) == len(q.fam):
                cur[k] = q.at(fam=tuple(b if (b is not None and a is not None and z3.eq(a, b)) else None for a, b in zip(p.fam, q.fam)))
                return True
        cur.append(p)
        return True

    def phi_signed(self, i):
        if self.dbg:
            s = self.dbg.local_signed(self.frame.fn.name, stem(i.name))
            if s is not None:
                return s
        return i.ty.w == 32

    def run_unrolled(self, order, loops, li, edges, pend, rets, spec):
        self.frame.headers.append(li.header)
        line0 = next((x.line for x in li.header.insts if x.line), self.line)
        for k in range(spec.unroll + 1):
            g, st, ph = self.merge(edges)
            if z3.is_false(g) or (k and k % 4 == 0 and self.quick(TRUE, Not(g))):
                edges = []
                break
            sub, latch = {}, []
            self.exec_block(li.header, g, st, ph, sub, rets)
            latch += sub.pop(li.header, [])
            self.split_out(li, sub, pend)
            self.run_region_loop(order, loops, li, sub, pend, rets, latch)
            edges = latch
            if not edges:
                break
        if edges:
            g = Or(*[e.guard for e in edges])
            self.oblige("unwind", "loop %s runs at most %d times" % (li.path, spec.unroll), TRUE, Not(g), line0)
        self.frame.headers.pop()

    # ------------------------------------------------------------------ spec names
    def lookup(self, c, name):
        fr = c.frame
        li = c.loop
        if c.phis is not None:
            al = self.alias.get((li.fn.name, li.path, name))
            want = al or name
            hit = [v for i, v in sorted(c.phis.items(), key=lambda iv: "lcssa" in iv[0].name) if stem(i.name) == want]      # a header may also carry the final value of an earlier loop's variable
            if not hit:
                hit = [v for i, v in c.phis.items() if re.sub(r"\d+$", "", stem(i.name)) == re.sub(r"\d+$", "", want)]
            if hit:
                return hit[0]
            # enclosing loops
            x = li.parent
            while x is not None:
                for i in x.header.insts:
                    if i.op == "phi" and stem(i.name) == want and i in fr.env:
                        return fr.env[i]
                x = x.parent
        for a in fr.fn.args:
            if a.name == name:
                return fr.env[a]
        if fr.locals.get(name) is not None:
            r = fr.locals[name]
            if r.ty.k not in ("struct", "array", "vec"):
                return self.raw_load(c.state, Ptr("reg", r, (), I(0), ()))
        best = None
        for i, v in fr.env.items():
            if isinstance(i, L.Inst) and i.name and stem(i.name) == name:
                best = v
        if best is not None:
            return best
        if self.dbg and c.loop is not None:
            pass
        cands = sorted(set(stem(i.name) for i in (c.phis or {})))
        raise NameMissing(fr.fn.name, li.path if li else None, name, cands)

    def sign_of(self, frame, name):
        if self.dbg:
            s = self.dbg.local_signed(frame.fn.name, name)
            if s is not None:
                return s
        return False

    # ------------------------------------------------------------------ verification of one function
    def make_region(self, ct, rn):
        spec = ct.regions[rn]
        ty = self.type_of(spec["ty"])
        r = Region(rn, ty, None, spec.get("fam", 0), array=spec.get("count") is not None, signed=spec.get("signed"), const=spec.get("const", False))
        r.zeroed = False
        return r

    def verify(self, ct):
        f = self.M.funcs.get(ct.fn)
        if f is None or f.decl:
            raise ShapeError("function %s not found in the current source" % ct.fn)
        self.cur_fn = ct.fn
        self.top = ct
        self.line = 0
        self.nsw, self.wrap, self.fpconv = ct.nsw, ct.wrap, ct.fpconv
        self.facts, self.qs, self.qn = [], None, 0
        self.rfacts = {}
        self.cached_norm = {}
        self.loop_cache = {}
        self.ptrkeys = {}
        self.used_contracts = set()
        self.globals = {}
        start = len(self.obls)
        names = [a.name for a in f.args]
        missing = [p for p in list(ct.params) if p not in names]
        if missing:
            # renamed parameters: bind by position
            if ct.args and len(ct.args) == len(names):
                ren = dict(zip(ct.args, names))
            else:
                raise ShapeError("%s: parameters %s not found" % (ct.fn, missing))
        regs, amap = {}, {}
        canon_names = ct.args if ct.args and len(ct.args) == len(names) else names
        for rn, spec in ct.regions.items():
            regs[rn] = Ptr("reg", self.glob(spec["glob"]) if "glob" in spec else self.make_region(ct, rn), (), I(0), ())
        fr = Frame(f)
        fr.locals = {}
        for a, cn in zip(f.args, canon_names):
            if a.ty.k == "ptr":
                if cn in ct.params:
                    p = regs[ct.params[cn]]
                    if ct.offsets and cn in ct.offsets:
                        off = z3.Int("off_" + ct.offsets[cn])
                        amap[ct.offsets[cn]] = IV(64, off, -(1 << 62), 1 << 62)
                        p = p.at(idx=off)
                    if cn in ct.nullable:
                        nb = z3.Bool(cn + "_null")
                        v = PV([(nb, NULL), (Not(nb), p)])
                        amap[cn + "_null"] = nb
                    else:
                        v = PV([(TRUE, p)])
                else:
                    v = PV([(TRUE, Ptr("opaque", x=z3.Int("arg_" + cn)))])
            elif a.ty.k == "int":
                if a.ty.w == 1:
                    v = z3.Bool("arg_" + cn)
                else:
                    sg = None
                    if ct.signed is not None and cn in ct.signed:
                        sg = ct.signed[cn]
                    if sg is None and self.dbg:
                        sg = self.dbg.local_signed(f.name, a.name)
                    if sg is None:
                        sg = False
                    lo, hi = self.rng(a.ty.w, sg)
                    e = z3.Int("arg_" + cn)
                    self.fact(z3.And(e >= lo, e <= hi))
                    v = IV(a.ty.w, e, lo, hi)
            elif a.ty.k in ("float", "double"):
                v = z3.Const("arg_" + cn, self.fp.sort(a.ty))
            elif a.ty.k == "vec":
                v = [z3.Const("arg_%s_%d" % (cn, k), self.fp.sort(a.ty.el)) for k in range(a.ty.n)]
            else:
                raise Unsupported("argument type %s" % a.ty)
            fr.env[a] = v
            amap[cn] = v
        self.argmap, self.regs = amap, regs
        # links
        for rn, spec in ct.regions.items():
            r = regs[rn].region
            for path, tgt in (spec.get("links") or {}).items():
                tname, nullable = tgt if isinstance(tgt, tuple) else (tgt, None)
                path = path if isinstance(path, tuple) else (path,)
                pth = strip(self.mkpath(r, tuple(("a", I(0)) if x == "*" else x for x in path), r.ty))
                if tname is None:
                    r.inits = r.inits or {}
                    r.inits[pth] = PV([(TRUE, NULL)])
                    continue
                r.links[pth] = (regs[tname].region, nullable)
        state = {}
        self.pre_state = {}
        pre = Ctx(self, self.pre_state, fr, regs, amap)
        self.prectx = pre
        for rn, spec in ct.regions.items():
            cf = spec.get("count")
            if cf is not None:
                r = regs[rn].region
                if spec.get("fam"):
                    r.count = (lambda cf: lambda *fam: cf(pre, *fam))(cf)
                else:
                    r.count = cf(pre)
                    r.count = I(r.count) if isinstance(r.count, int) else r.count
                    self.fact(z3.And(r.count >= 0, r.count * max(1, r.ty.size()) <= 2 ** 47))
        for rn, spec in ct.regions.items():
            if spec.get("inv"):
                for x in spec["inv"](pre):
                    self.fact(x)
        for lab, x in labelled(ct.requires(pre) if ct.requires else []):
            self.fact(x)
        if ct.assume:
            for lab, x in labelled(ct.assume(pre)):
                self.assumed.add("%s: %s" % (ct.fn, lab))
                self.fact(x)
        if ct.hints:
            for x in ct.hints(pre):
                self.fact(x)
        self.modset = [self.norm_mod(m, regs) for m in (ct.modifies(pre) if ct.modifies else [])]
        self.top_dec = ct.decreases(pre) if ct.decreases else None
        self.frame = fr
        self.stack = [fr]
        self.guard = TRUE
        self.state = state
        self.covers.append((ct.fn, "precondition satisfiable", TRUE, len(self.facts)))
        rets = self.run_body(f, TRUE, state)
        if not rets:
            if ct.noreturn_ok:
                rets = []
            else:
                raise ShapeError("%s never returns" % ct.fn)
        if rets:
            edges = [Edge(g, st, {"r": v} if v is not None else {}, None) for g, st, v in rets]
            g, st, ph = self.merge(edges)
            self.guard, self.state = g, st
            if ct.cover:
                self.covers.append((ct.fn, "return reachable", g, len(self.facts)))
            ret = ph.get("r")
            rv = None
            if ret is not None:
                if isinstance(ret, IV):
                    sg = self.dbg.ret_signed(ct.fn) if self.dbg else False
                    rv = self.canon(ret, bool(sg))
                else:
                    rv = ret
            post = Ctx(self, st, fr, regs, amap, pre=pre, ret=rv)
            if ct.post_hints:
                for x in ct.post_hints(post):
                    self.fact(Implies(g, x) if not isinstance(x, tuple) else x[1])
            for lab, x in labelled(ct.ensures(post) if ct.ensures else []):
                self.oblige("postcondition", lab, g, x)
        # specs for loops that do not exist any more
        gone = []
        for k in ct.loops:
            kk = k if isinstance(k, tuple) else (ct.fn, k)
            if kk not in self.used_loops:
                gone.append(kk)
        self.gone = gone
        facts = list(self.axiom_facts) + self.fp.const_facts() + [a for _, a in self.fp.axioms()]
        allf = list(self.facts)
        for o in self.obls[start:]:
            o.facts = (facts, allf)
        self.covers = [(a, b, c, n if len(x) == 0 else n, *x) if False else (a, b, c, n, *x) for (a, b, c, n, *x) in self.covers]
        self.covers = [cv if len(cv) > 4 else (cv[0], cv[1], cv[2], cv[3], facts, allf) for cv in self.covers]
        return self.obls[start:]
