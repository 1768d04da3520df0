from vcg.spec import *

ZERO = z3.RealVal(0)


def rec(name, term):
    """name(k) = sum of term(i) over i < k"""
    return RecFn(name, INT, REAL, body=None), term


def fold(fn, ty, names, term, post=lambda s: s):
    """a loop accumulating term(x_i, y_i, ..) over all coordinates"""
    S = z3.Function("sum", INT, REAL)
    regs = {n: dict(ty=ty, count=lambda c: c.dimension) for n in names}

    def t(c, i):
        return term(c, *[c.pre.at(n, i) for n in names])
    return Contract(fn, args=["dimension"] + list(names), params={n: n for n in names}, regions=regs, requires=lambda c: [("size", And(c.dimension >= 0, c.dimension < 2 ** 44))],
                    hints=lambda c: [S(0) == 0], ensures=lambda c: [("is the sum over all coordinates", c.ret == post(S(c.dimension)))],
                    loops={"0": Loop(inv=lambda c: [("range", c.it <= c.dimension), ("partial sum", c.v("acc") == S(c.it))], hints=lambda c: [S(c.it + 1) == S(c.it) + t(c, c.it)], dec=lambda c: c.dimension - c.it)})


ab = lambda x: If(x >= 0, x, -x)
sq = lambda c, x: c.fp.un("sqrt", x)
lg = lambda c, x: c.fp.un("log2", x)
TERMS = {
    "distance_l2": (lambda c, x, y: (x - y) * (x - y), None),
    "distance_l1": (lambda c, x, y: ab(x - y), None),
    "distance_chi2": (lambda c, x, y: If(x + y == 0, ZERO, (x - y) * (x - y) / (x + y)), None),
    "distance_hellinger": (lambda c, x, y: x + y - 2 * sq(c, x * y), None),
    "distance_js": (lambda c, x, y: If(x == 0, ZERO, x - x * lg(c, 1 + y / x)) + If(y == 0, ZERO, y - y * lg(c, 1 + x / y)), None),
    "kernel_l2": (lambda c, x, y: x * y, None),
    "kernel_l1": (lambda c, x, y: ab(x) + ab(y) - ab(x - y), lambda s: s / 2),
    "kernel_chi2": (lambda c, x, y: If(x + y == 0, ZERO, 2 * x * y / (x + y)), None),
    "kernel_hellinger": (lambda c, x, y: sq(c, x * y), None),
    "kernel_js": (lambda c, x, y: If(x == 0, ZERO, x * lg(c, 1 + y / x)) + If(y == 0, ZERO, y * lg(c, 1 + x / y)), lambda s: s / 2),
}


def scalars(sfx, ty):
    out = [fold("_vl_%s_%s" % (k, sfx), ty, ["X", "Y"], t, p or (lambda s: s)) for k, (t, p) in TERMS.items()]
    out.append(fold("_vl_distance_mahalanobis_sq_" + sfx, ty, ["X", "MU", "S"], lambda c, x, m, s: (x - m) * (x - m) * s))
    return out


# ---- choosing the function of a type
TYPES = dict(distance_l1=0, distance_l2=1, distance_chi2=2, distance_hellinger=3, distance_js=4, kernel_l1=6, kernel_l2=7, kernel_chi2=8, kernel_hellinger=9, kernel_js=10)
SSE, AVX, ON = z3.Bools("cpu_has_sse2 cpu_has_avx simd_enabled")


def flag(fn, b):
    c = Contract(fn, ensures=lambda c: [("flag", (c.ret != 0) == b)])
    c.assumed = True
    return c


FLAGS = [flag("vl_cpu_has_sse2", SSE), flag("vl_cpu_has_avx", AVX), flag("vl_get_simd_enabled", ON)]


def chooser(sfx):
    sse = ("distance_l2", "distance_l1", "distance_chi2", "kernel_l2", "kernel_l1", "kernel_chi2")
    avx = ("distance_l2",)

    def ens(c):
        r = []
        for k, v in TYPES.items():
            # any variant of the function of that type is right, and each is there only when the processor has it and SIMD is on
            alts = [is_fn(c.ret, "_vl_%s_%s" % (k, sfx))]
            if k in sse:
                alts.append(And(SSE, ON, is_fn(c.ret, "_vl_%s_sse2_%s" % (k, sfx))))
            if k in avx:
                alts.append(And(AVX, ON, is_fn(c.ret, "_vl_%s_avx_%s" % (k, sfx))))
            r.append(("type %s" % k, Implies(c.type == v, Or(*alts))))
        return r
    return Contract("vl_get_vector_comparison_function_" + sfx, args=["type"], requires=lambda c: [("a two-argument type", Or(*[c.type == v for v in TYPES.values()]))], ensures=ens)


def chooser3(sfx):
    n = "_vl_distance_mahalanobis_sq%s_" + sfx
    return Contract("vl_get_vector_3_comparison_function_" + sfx, args=["type"], requires=lambda c: [("a three-argument type", c.type == 5)],
                    ensures=lambda c: [("type mahalanobis", Or(is_fn(c.ret, n % ""), And(SSE, ON, is_fn(c.ret, n % "_sse2")), And(AVX, ON, is_fn(c.ret, n % "_avx"))))])


# ---- all pairs
ARR = z3.ArraySort(INT, REAL)
CMP = z3.Function("compare", ARR, INT, ARR, INT, REAL)      # the user's comparison of the vectors starting at two positions
TIMES = z3.Function("times", INT, INT, INT)                 # product of two sizes


def compare(e, pv, args, i):
    """the user's comparison of the vectors at two offsets"""
    e.oblige("call", "compares vectors of the given dimension", e.guard, args[0].e == e.argmap["dimension"].e)
    r = None
    for g, p in args[1].alts:
        for h, q in args[2].alts:
            nm = (p.region.name if p.kind == "reg" else None, q.region.name if q.kind == "reg" else None)
            if nm in (("X", "Y"), ("X", "X")):
                v = CMP(e.getmem(e.state, (p.region, ())), p.idx, e.getmem(e.state, (q.region, ())), q.idx)
            else:
                e.oblige("call", "compares a vector of X with one of Y, or of X when there is no Y", And(e.guard, g, h), FALSE)
                continue
            r = v if r is None else If(And(g, h), v, r)
    return r


def allpairs(sfx, ty):
    row = Row("result", lambda c: c.numDataX)
    vec = Row("vector", lambda c: c.dimension)
    cell = Cell("result", row)
    R = lambda c, b, a: c.at("R", cell(b, a))
    xy = lambda c, a, b: R(c, b, a) == CMP(c.arr("X"), vec(a), c.arr("Y"), vec(b))
    xx = lambda c, a, b: R(c, b, a) == CMP(c.arr("X"), vec(Min(a, b)), c.arr("X"), vec(Max(a, b)))
    pat = lambda c: (lambda a, b: R(c, b, a))
    live = lambda c: And(c.dimension > 0, c.numDataX > 0)

    def at_call(c):
        """the same for one vector X and the caller's own view of positions (times(dimension, b) is vec(b), row(b) is b)"""
        return [("entry (0,j) compares X_0 and Y_j", Implies(And(live(c), Not(c.Y_null), c.numDataX == 1), forall(lambda b: c.at("R", b) == CMP(c.arr("X"), c.off("X"), c.arr("Y"), c.off("Y") + TIMES(c.dimension, b)), 0, c.numDataY, pat=lambda b: c.at("R", b))))]
    o = lambda c: c.itof("0")
    o1 = lambda c: c.itof("1")
    return Contract(
        "vl_eval_vector_comparison_on_all_pairs_" + sfx, args=["result", "dimension", "X", "numDataX", "Y", "numDataY", "function"], params={"result": "R", "X": "X", "Y": "Y"}, nullable=("Y",), indirect=compare,
        regions={"R": dict(ty=ty, count=lambda c: If(c.Y_null, c.numDataX * c.numDataX, c.numDataX * c.numDataY)), "X": dict(ty=ty, count=lambda c: c.dimension * c.numDataX), "Y": dict(ty=ty, count=lambda c: c.dimension * c.numDataY)},
        requires=lambda c: [("sizes", And(*[And(x >= 0, x < 2 ** 20) for x in (c.dimension, c.numDataX, c.numDataY)]))],
        hints=lambda c: row.axioms(c, c.numDataX, c.numDataY) + vec.axioms(c) + cell.axioms() if c.frame else [],
        modifies=lambda c: [("R", None, None, None)],
        ensures=lambda c: at_call(c) if c.frame is None else [("entry (i,j) compares X_i and Y_j", Implies(And(live(c), Not(c.Y_null), c.numDataY > 0), forall2(lambda a, b: Implies(And(a >= 0, b >= 0, a < c.numDataX, b < c.numDataY), xy(c, a, b)), pat(c)))),
                           ("entry (i,j) compares X_i and X_j", Implies(And(live(c), c.Y_null), forall2(lambda a, b: Implies(And(a >= 0, b >= 0, a < c.numDataX, b < c.numDataX), xx(c, a, b)), pat(c))))],
        loops={"0": Loop(inv=lambda c: [("range", c.it <= c.numDataY), ("X at the first vector", c.v("X") == 0), ("row", c.v("result") == row(c.it)),
                                        ("rows done", forall2(lambda a, b: Implies(And(a >= 0, b >= 0, a < c.numDataX, b < c.it), xy(c, a, b)), pat(c)))],
                         hints=lambda c: row.at(c, c.it, c.numDataY) + vec.at(c, c.it), dec=lambda c: c.numDataY - c.it),
               "0.0": Loop(inv=lambda c: [("range", c.it <= c.numDataX), ("rows done", forall2(lambda a, b: Implies(And(a >= 0, b >= 0, a < c.numDataX, Or(b < o(c), And(b == o(c), a < c.it))), xy(c, a, b)), pat(c)))],
                           hints=lambda c: vec.at(c, c.it) + [cell(o(c), c.it) == cell(o(c), c.it)], dec=lambda c: c.numDataX - c.it),
               "1": Loop(inv=lambda c: [("range", c.it <= c.numDataX), ("X at the first vector", c.v("X") == 0), ("row", c.v("result") == row(c.it)), ("column", c.v("resultTransp") == c.it),
                                        ("block done", forall2(lambda a, b: Implies(And(a >= 0, b >= 0, a < c.it, b < c.it), xx(c, a, b)), pat(c)))],
                         hints=lambda c: row.at(c, c.it, c.numDataX) + vec.at(c, c.it), dec=lambda c: c.numDataX - c.it),
               "1.0": Loop(inv=lambda c: [("range", c.it <= o1(c) + 1), 
                                          ("block done", forall2(lambda a, b: Implies(And(a >= 0, b >= 0, a <= o1(c), b <= o1(c), Or(And(a < o1(c), b < o1(c)), Min(a, b) < c.it)), xx(c, a, b)), pat(c)))],
                           hints=lambda c: vec.at(c, c.it) + row.at(c, c.it, o1(c)), dec=lambda c: o1(c) + 1 - c.it)})


UNITS = []
for sfx, ty in (("f", "float"), ("d", "double")):
    UNITS.append(Unit("vl/mathop.c", scalars(sfx, ty) + FLAGS + [chooser(sfx), chooser3(sfx), allpairs(sfx, ty)], fp="real"))

PROP = Prop("P05", units=UNITS, oracles=[Oracle("veccomp.c", what="random vectors against the documented sums, all types and set sizes")])
