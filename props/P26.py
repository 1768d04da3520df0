from vcg.spec import *

EXP, POW, LOG = z3.Function("exp", REAL, REAL), z3.Function("pow", REAL, REAL, REAL), z3.Function("log", REAL, REAL)
import fractions
STEP = (lambda q: z3.Q(q.numerator, q.denominator))(fractions.Fraction(256 / 25.0))
N, MAX = 257, 25                 # cells and range of the table of exp(-x)
SELF = lambda: {"S": dict(ty="_VlSiftFilt")}
F = lambda c, f: c.pre.at("S", 0, f)


def getter(name, field):
    return Contract("vl_sift_get_" + name, args=["f"], params=dict(f="S"), regions=SELF(), ensures=lambda c: [(field, c.ret == F(c, field))])


def setter(name, field, arg="t"):
    return Contract("vl_sift_set_" + name, args=["f", arg], params=dict(f="S"), regions=SELF(), modifies=lambda c: [("S", (field,), None, None)], ensures=lambda c: [(field, c.at("S", 0, field) == c.v(arg))])


def expn():
    tab = lambda c, i: c.at("T", 0, i)
    x = lambda c: c.x * STEP
    i = lambda c: z3.ToInt(x(c))
    return Contract("fast_expn", args=["x"], regions={"T": dict(glob="expn_tab")}, requires=lambda c: [c.x >= 0, c.x <= 10 ** 9], ensures=lambda c: [("beyond the table", Implies(c.x > MAX, c.ret == 0)), ("interpolates the table", Implies(c.x <= MAX, c.ret == tab(c, i(c)) + (x(c) - i(c)) * (tab(c, i(c) + 1) - tab(c, i(c)))))])


def floor_(T):
    c = Contract("vl_floor_" + T, args=["x"], requires=lambda c: [c.x > -2 ** 31 + 1, c.x < 2 ** 31 - 1] , ensures=lambda c: [c.ret == z3.ToInt(c.x)])
    c.assumed = True     # proved in P07
    return c


def expn_init():
    tab = lambda c, i: c.at("T", 0, i)
    val = lambda k: EXP(-z3.ToReal(k) * z3.Q(25, 256))
    L = {"0": Loop(inv=lambda c: [("range", c.it <= N + 1), ("index", c.v("k") == c.it), ("table so far", forall(lambda i: tab(c, i) == val(i), 0, c.it, pat=lambda i: tab(c, i)))], dec=lambda c: N + 1 - c.it)}
    return Contract("fast_expn_init", args=[], regions={"T": dict(glob="expn_tab")}, modifies=lambda c: [("T", None, None, None)], loops=L, ensures=lambda c: [("exp of minus the grid points", forall(lambda i: tab(c, i) == val(i), 0, N + 1, pat=lambda i: tab(c, i)))])


def up():
    w, h = (lambda c: c.width), (lambda c: c.height)
    sr, dr = Row("source", lambda c: w(c)), Row("dest", lambda c: h(c))
    f0, f1 = z3.Function("even_cell", INT, INT, INT), z3.Function("odd_cell", INT, INT, INT)
    i, k = z3.Ints("i!u k!u")
    src = lambda c, y, x: c.pre.at("I", sr(y) + x)
    nxt = lambda c, x: If(x < w(c) - 1, x + 1, x)
    two = lambda c, y, x: [("pixels", c.at("O", f0(y, x)) == src(c, y, x), f0), ("between the pixels", c.at("O", f1(y, x)) == (src(c, y, x) + src(c, y, nxt(c, x))) / 2, f1)]
    rows = lambda c, hi: [(["pixels", "between the pixels"][j], z3.ForAll([i, k], Implies(And(i >= 0, i < hi, k >= 0, k < w(c)), two(c, i, k)[j][1]), patterns=[two(c, i, k)[j][2](i, k)])) for j in range(2)]
    row = lambda c, y, hi: [(["pixels, row", "between, row"][j], forall(lambda x: two(c, y, x)[j][1], 0, hi, pat=lambda x: two(c, y, x)[j][2](y, x))) for j in range(2)]
    cells = lambda c: [z3.ForAll([i, k], f0(i, k) == dr(2 * k) + i, patterns=[f0(i, k)]), z3.ForAll([i, k], f1(i, k) == dr(2 * k + 1) + i, patterns=[f1(i, k)])]
    y0 = lambda c: c.itof("0")
    # a row of the destination is a column of it: cells of different columns or rows differ
    a, b = z3.Ints("a!u b!u")
    L = {"0": Loop(inv=lambda c: [("range", And(c.it <= h(c), c.v("y") == c.it)), ("cursors", And(c.v("src") == sr(c.it), c.v("dst") == c.it))] + rows(c, c.it), hints=lambda c: sr.at(c, c.it) + [Implies(c.it < h(c), sr(c.it) + w(c) <= sr(h(c)))] + dr.at(c, 2 * w(c) - 2, 2 * w(c) - 1) + [f0(c.it, w(c) - 1) == dr(2 * w(c) - 2) + c.it, f1(c.it, w(c) - 1) == dr(2 * w(c) - 1) + c.it], dec=lambda c: h(c) - c.it),
         "0.0": Loop(inv=lambda c: [("range", And(c.it <= w(c) - 1, c.v("x") == c.it)), ("cursors", And(c.v("src") == sr(y0(c)) + c.it + 1, c.v("dst") == dr(2 * c.it) + y0(c))), ("last pixel", And(c.v("a") == src(c, y0(c), c.it), c.v("b") == src(c, y0(c), c.it)))] + rows(c, y0(c)) + row(c, y0(c), c.it), hints=lambda c: dr.at(c, 2 * c.it, 2 * c.it + 1) + [f0(y0(c), c.it) == dr(2 * c.it) + y0(c), f1(y0(c), c.it) == dr(2 * c.it + 1) + y0(c), Implies(c.it < w(c), dr(2 * c.it + 2) <= dr(2 * w(c)))], dec=lambda c: w(c) - 1 - c.it)}
    return Contract("copy_and_upsample_rows", args=["dst", "src", "width", "height"], params=dict(dst="O", src="I"), regions={"O": dict(ty="float", count=lambda c: dr(2 * w(c))), "I": dict(ty="float", count=lambda c: sr(h(c)))}, requires=lambda c: [("sizes", And(w(c) >= 1, w(c) < 2 ** 14, h(c) >= 1, h(c) < 2 ** 15))],
                    hints=lambda c: sr.axioms(c, h(c)) + dr.axioms(c, 2 * w(c)) + cells(c) + [dr(2 * w(c)) <= 2 ** 30, w(c) * h(c) <= 2 ** 29, w(c) * h(c) >= 0, dr(2 * w(c)) == 2 * (w(c) * h(c))], modifies=lambda c: [("O", None, None, None)], loops=L, ensures=lambda c: rows(c, h(c)))


def down():
    """d: logarithm of the step"""
    w, h, d = (lambda c: c.width), (lambda c: c.height), (lambda c: c.d)
    S = z3.Int("two_to_the_d")
    W2, H2 = (lambda c: w(c) / S), (lambda c: (h(c) + S - 1) / S)
    st, sr, dr = Row("sample", lambda c: S), Row("source", lambda c: w(c)), Row("dest", lambda c: W2(c))
    cell = z3.Function("small_cell", INT, INT, INT)
    i, k = z3.Ints("i!d k!d")
    s0 = lambda c, y, x: c.pre.at("I", sr(st(y)) + st(x))
    rows = lambda c, hi, what="rows so far": (what, z3.ForAll([i, k], Implies(And(i >= 0, i < hi, k >= 0, k < W2(c)), c.at("O", cell(i, k)) == s0(c, i, k)), patterns=[cell(i, k)]))
    row = lambda c, y, hi: ("row so far", forall(lambda x: c.at("O", cell(y, x)) == s0(c, y, x), 0, hi, pat=lambda x: cell(y, x)))
    div = lambda c: [And(W2(c) >= 0, W2(c) * S <= w(c), w(c) < W2(c) * S + S, st(W2(c)) == W2(c) * S), And(H2(c) >= 1, H2(c) * S < h(c) + S, h(c) <= H2(c) * S, st(H2(c)) == H2(c) * S)]
    pw = lambda c: z3.Or(*[And(d(c) == j, S == 2 ** j) for j in range(1, 16)])
    i0 = lambda c: c.itof("0")
    L = {"0": Loop(inv=lambda c: [("range", And(c.it <= H2(c), c.v("y") == st(c.it))), ("cursor", c.v("dst") == dr(c.it)), rows(c, c.it)], hints=lambda c: st.at(c, c.it) + dr.at(c, c.it) + sr.at(c, st(c.it)) + [Implies(c.it < H2(c), And(st(c.it) + S <= st(H2(c)), st(c.it) < h(c))), Implies(c.it >= H2(c), st(c.it) >= st(H2(c))), Implies(st(c.it) < h(c), And(sr(st(c.it)) >= 0, sr(st(c.it)) + w(c) <= sr(h(c))))], dec=lambda c: H2(c) - c.it),
         "0.0": Loop(inv=lambda c: [("range", And(c.it <= W2(c), c.v("x") == st(c.it))), ("cursors", And(c.v("dst") == dr(i0(c)) + c.it, c.v("srcrowp") == sr(st(i0(c))) + st(c.it))), rows(c, i0(c)), row(c, i0(c), c.it)], hints=lambda c: st.at(c, c.it) + [cell(i0(c), c.it) == dr(i0(c)) + c.it, Implies(c.it < W2(c), st(c.it) + S <= st(W2(c))), Implies(c.it >= W2(c), st(c.it) >= st(W2(c))), Implies(st(i0(c)) < h(c), sr(st(i0(c))) + w(c) <= sr(h(c))), dr(i0(c)) + W2(c) <= dr(H2(c))], dec=lambda c: W2(c) - c.it)}
    return Contract("copy_and_downsample", args=["dst", "src", "width", "height", "d"], params=dict(dst="O", src="I"), regions={"O": dict(ty="float", count=lambda c: dr(H2(c))), "I": dict(ty="float", count=lambda c: sr(h(c)))}, requires=lambda c: [("sizes", And(w(c) >= 1, w(c) < 2 ** 15, h(c) >= 1, h(c) < 2 ** 15)), ("step", And(d(c) >= 1, d(c) <= 15))],
                    hints=lambda c: st.axioms(c) + sr.axioms(c, h(c)) + dr.axioms(c, H2(c)) + div(c) + [z3.ForAll([i, k], cell(i, k) == dr(i) + k, patterns=[cell(i, k)]), pw(c), sr(h(c)) <= 2 ** 30, dr(H2(c)) <= 2 ** 30], modifies=lambda c: [("O", None, None, None)], loops=L, ensures=lambda c: [rows(c, H2(c), "every 2^d-th pixel of every 2^d-th row")])


FS = z3.Function("fast_sqrt", REAL, REAL)
PROD, QUO = z3.Function("product", REAL, REAL, REAL), z3.Function("quotient", REAL, REAL, REAL)


def fastsqrt():
    c = Contract("vl_fast_sqrt_f", args=["x"], ensures=lambda c: [c.ret == FS(c.x)])
    c.assumed = True      # how far from the square root is decided in P07
    return c


def normalise(fn):
    n = lambda c: c.endoff
    SQ = z3.Function("sum_of_squares", INT, REAL)
    h, h0 = (lambda c, i: c.at("H", i)), (lambda c, i: c.pre.at("H", i))
    norm = lambda c: FS(SQ(n(c))) + z3.Q(1, 2 ** 23)
    p = lambda c: c.v("iter")
    L = {"0": Loop(inv=lambda c: [("range", And(p(c) >= 0, p(c) <= n(c))), ("sum of squares", c.v("norm") == SQ(p(c)))], hints=lambda c: [SQ(I(0)) == 0, SQ(p(c) + 1) == SQ(p(c)) + PROD(h0(c, p(c)), h0(c, p(c)))], dec=lambda c: n(c) - p(c)),
         "1": Loop(inv=lambda c: [("range", And(p(c) >= 0, p(c) <= n(c))), ("divided so far", forall(lambda i: h(c, i) == QUO(h0(c, i), norm(c)), 0, p(c), pat=lambda i: h(c, i))), ("rest", forall(lambda i: h(c, i) == h0(c, i), p(c), n(c), pat=lambda i: h(c, i)))], dec=lambda c: n(c) - p(c))}
    return Contract(fn, args=["begin", "end"], params=dict(begin="H", end="H"), offsets={"end": "endoff"}, regions={"H": dict(ty="float", count=n)}, requires=lambda c: [And(n(c) >= 0, n(c) < 2 ** 31)], modifies=lambda c: [("H", None, I(0), n(c))], loops=L,
                    ensures=lambda c: [("divided by the norm plus epsilon", forall(lambda i: h(c, i) == QUO(h0(c, i), norm(c)), 0, n(c), pat=lambda i: h(c, i))), ("returns it", c.ret == norm(c))])


SM = [getter(a, b) for a, b in (("octave_index", "o_cur"), ("noctaves", "O"), ("octave_first", "o_min"), ("octave_width", "octave_width"), ("octave_height", "octave_height"), ("nlevels", "S"), ("nkeypoints", "nkeys"), ("peak_thresh", "peak_thresh"), ("edge_thresh", "edge_thresh"), ("norm_thresh", "norm_thresh"), ("magnif", "magnif"), ("window_size", "windowSize"))] + [setter(a, b, x) for a, b, x in (("peak_thresh", "peak_thresh", "t"), ("edge_thresh", "edge_thresh", "t"), ("norm_thresh", "norm_thresh", "t"), ("magnif", "magnif", "m"), ("window_size", "windowSize", "x"))]
UNITS = [Unit("vl/sift.c", SM, flags=("-femit-all-decls",), fp="real"), Unit("vl/sift.c", [expn()], uses=[floor_("d")], fp="real"), Unit("vl/sift.c", [expn_init()], fp="real"), Unit("vl/sift.c", [up()], fp="real"), Unit("vl/sift.c", [down()], fp="real"), Unit("vl/sift.c", [normalise("normalize_histogram")], uses=[fastsqrt()], fp="real", axioms=("absmul", "absdiv"))]
PROP = Prop("P26", units=UNITS, oracles=[Oracle("sift.c", what="scale space, extrema, orientations and descriptors of random images against their definition, over several images with the same filter", always=True, iters=(600, 20000)), Oracle("siftdet.c", what="detection on arbitrary scale spaces, with ties, spikes and borders", always=True, iters=(250000, 4000000))], bounded=["vl_sift_process_first_octave, vl_sift_process_next_octave, vl_sift_detect, vl_sift_calc_keypoint_orientations, vl_sift_calc_keypoint_descriptor, vl_sift_calc_raw_descriptor, vl_sift_keypoint_init: random images and settings against a reference"])
