from vcg.spec import *

MANT, EXPO = z3.Function("frexp_mantissa", REAL, REAL), z3.Function("frexp_exponent", REAL, INT)
COL = z3.Function("column_at", INT, INT)      # column index of a destination offset: j for j * stride, negative for offsets between columns
ROW = G("row")                                 # the subdivision of the octave that holds the value
n = lambda c: c.pre.at("S", 0, "order")
D = lambda c: 2 * n(c) + 1
SUB = lambda c: c.pre.at("S", 0, "numSubdivisions")
sub = lambda c: c.pre.at("S", 0, "subdivision")
lo, hi = (lambda c: c.pre.at("S", 0, "minExponent")), (lambda c: c.pre.at("S", 0, "maxExponent"))
COUNT = lambda c: (hi(c) - lo(c) + 1) * SUB(c) * D(c) + 2 * (1 + n(c))
MAPR = lambda: {"S": dict(ty="_VlHomogeneousKernelMap", links={"table": "T"}), "T": dict(ty="double", count=COUNT)}


def frexp():
    m, e = (lambda c: MANT(c.x)), (lambda c: EXPO(c.x))
    c = Contract("frexp", args=["x", "exponent"], params=dict(exponent="E"), regions={"E": dict(ty="i32", signed=True)}, modifies=lambda c: [("E", None, None, None)],
                 ensures=lambda c: [c.ret == m(c), c.at("E") == e(c), (m(c) == 0) == (c.x == 0), (m(c) >= 0) == (c.x >= 0), Implies(c.x > 0, And(m(c) * 2 >= 1, m(c) < 1)), Implies(c.x < 0, And(m(c) * 2 <= -1, m(c) > -1)), And(e(c) >= -1100, e(c) <= 1100)])
    c.assumed = True
    return c


def evaluate(sfx, ty):
    fn = "vl_homogeneouskernelmap_evaluate_" + sfx
    e = lambda c: EXPO(c.x) - 1
    m = lambda c: MANT(c.x)
    sign = lambda c: If(c.x >= 0, z3.RealVal(1), z3.RealVal(-1))
    mu = lambda c: If(c.x >= 0, 2 * m(c) - 1, -2 * m(c) - 1)                  # position inside the octave, in [0, 1)
    zero = lambda c: Or(c.x == 0, e(c) <= lo(c), e(c) >= hi(c))
    base = lambda c: (e(c) - lo(c)) * SUB(c) * D(c)
    tab = lambda c, r, j: c.pre.at("T", base(c) + r * D(c) + j)
    frac = lambda c, r: mu(c) - z3.ToReal(r) * sub(c)
    val = lambda c, j: sign(c) * ((tab(c, ROW + 1, j) - tab(c, ROW, j)) * (z3.ToReal(SUB(c)) * frac(c, ROW)) + tab(c, ROW, j))
    j0, j1 = (lambda c: c.v("j")), (lambda c: c.v("j"))
    st = lambda c: c.stride
    dst = lambda c, a: c.at("O", a)
    req = lambda c: [("the map", And(n(c) >= 0, n(c) < 2 ** 20, SUB(c) >= 1, SUB(c) < 2 ** 20, sub(c) * z3.ToReal(SUB(c)) == 1, sub(c) > 0, lo(c) < 0, lo(c) >= -1100, hi(c) > 0, hi(c) <= 1100)), ("stride", And(st(c) >= 1, st(c) < 2 ** 32))]
    columns = lambda c: z3.ForAll([AA], Implies(COL(AA) >= 0, AA == COL(AA) * st(c)), patterns=[COL(AA)])
    AA = z3.Int("aa")
    def hints(c):
        h = [columns(c)]
        # the subdivision of the octave
        h += [Implies(Not(zero(c)), And(ROW >= 0, ROW < SUB(c), z3.ToReal(ROW) * sub(c) <= mu(c), mu(c) < z3.ToReal(ROW) * sub(c) + sub(c)))]
        # lemma "table rows"
        h += [Implies(Not(zero(c)), And(base(c) >= 0, base(c) + 2 * (SUB(c) * D(c)) <= (hi(c) - lo(c) + 1) * SUB(c) * D(c), SUB(c) * D(c) >= D(c), (e(c) - lo(c)) * SUB(c) >= 0))]
        return h
    def out(c, a, upto, v):
        return dst(c, a) == If(And(COL(a) >= 0, COL(a) < upto), v(COL(a)), c.pre.at("O", a))
    T = lambda c: D(c) * st(c)
    wr = lambda c, j, v: ("destination", And(*[forall(lambda a: Implies(g(a), dst(c, a) == w(a)), I(0), T(c), pat=lambda a: dst(c, a)) for g, w in (((lambda a: And(COL(a) >= 0, COL(a) < j)), lambda a: v(COL(a))), ((lambda a: Not(And(COL(a) >= 0, COL(a) < j))), lambda a: c.pre.at("O", a)))]))
    col = lambda c, j: [COL(j * st(c)) == j, Implies(And(j >= 0, j < D(c)), And(j * st(c) >= 0, j * st(c) <= T(c) - st(c)))]
    mant, v1 = (lambda c: c.v("mantissa")), (lambda c: c.v("v1"))
    k = lambda c: c.it
    rows = lambda c, r: [Implies(And(r >= 0, r < SUB(c)), And(r * D(c) >= 0, r * D(c) + D(c) <= SUB(c) * D(c)))]
    v1z = z3.RealVal(0)
    L = {
        "0": Loop(inv=lambda c: [("range", And(j0(c) >= 0, j0(c) <= D(c))), ("position", c.v("destination") == j0(c) * st(c)) , wr(c, j0(c), lambda j: v1z)], hints=lambda c: col(c, j0(c)), dec=lambda c: D(c) - j0(c)),
        "1": Loop(inv=lambda c: [("range", And(k(c) >= 0, k(c) <= ROW)), ("position in the subdivision", mant(c) == frac(c, k(c))), ("row", c.v("v1") == base(c) + k(c) * D(c))],
                  hints=lambda c: rows(c, k(c)) + [Implies(k(c) < ROW, frac(c, k(c)) >= sub(c)), Implies(k(c) >= ROW, Implies(k(c) <= ROW, frac(c, k(c)) < sub(c)))], dec=lambda c: ROW - k(c)),
        "2": Loop(inv=lambda c: [("range", And(j1(c) >= 0, j1(c) <= D(c))), ("position", c.v("destination") == j1(c) * st(c)), ("rows", And(c.v("v1") == base(c) + ROW * D(c) + j1(c), c.v("v2") == base(c) + ROW * D(c) + D(c) + j1(c))), wr(c, j1(c), lambda j: val(c, j))],
                  hints=lambda c: col(c, j1(c)) + rows(c, ROW), dec=lambda c: D(c) - j1(c)),
    }
    return Contract(fn, args=["self", "destination", "stride", "x"], params=dict(self="S", destination="O"), regions=dict(MAPR(), O=dict(ty=ty, count=T)), requires=req, hints=hints, loops=L, modifies=lambda c: [("O", None, I(0), T(c))],
                    ensures=lambda c: [("zero outside the range of the table", Implies(zero(c), wr(c, D(c), lambda j: v1z)[1])), ("interpolated table row", Implies(Not(zero(c)), wr(c, D(c), lambda j: val(c, j))[1]))])


def getter(fn, f):
    return Contract("vl_homogeneouskernelmap_get_" + fn, args=["self"], params=dict(self="S"), regions=MAPR(), requires=lambda c: [And(n(c) >= 0, n(c) < 2 ** 62)], ensures=lambda c: [(fn, c.ret == f(c))])


G_ = [getter("order", n), getter("dimension", D), getter("kernel_type", lambda c: c.at("S", 0, "kernelType")), getter("window_type", lambda c: c.at("S", 0, "windowType"))]


def lemmas():
    a, s, d, h = z3.Ints("a s d h")
    k, r = z3.Ints("k r"); u, q = z3.Reals("u q")
    return [Lemma("table rows", [a > 0, a < h, s >= 1, d >= 1], And(a * s >= 0, a * s * d >= 0, a * s * d + 2 * (s * d) <= (h + 1) * s * d, s * d >= d))]


UNITS = [Unit("vl/homkermap.c", G_), Unit("vl/homkermap.c", [frexp(), evaluate("d", "double"), evaluate("f", "float")], fp="real")]
PROP = Prop("P32", units=UNITS, lemmas=lemmas, oracles=[Oracle("homkermap.c", what="random kernels, orders, periods and values: features against interpolation of the closed form at the subdivisions", always=True, iters=(1500, 20000))], bounded=["vl_homogeneouskernelmap_new (the table): random kernels, orders and periods against the closed form"])
