from vcg.spec import *


def sized(c, *xs):
    return And(*[And(x >= 0, x < 2 ** 31) for x in xs])


# ---- integral images
def integral(sfx, ty):
    num = INT if ty == "i32" else REAL
    gi, go = Grid("image", lambda c: c.imageStride, lambda c: c.imageWidth), Grid("integral", lambda c: c.integralStride, lambda c: c.imageWidth)
    RS, ST = z3.Function("row_sum", INT, INT, num), z3.Function("total", INT, INT, num)
    z = I(0) if num == INT else z3.RealVal(0)
    m = (lambda v: v % 2 ** 32) if sfx == "ui32" else (lambda v: v)
    im = lambda c, y, x: c.pre.at("I", gi(y, x))
    O = lambda c, y, x: c.at("O", go(y, x))
    # the sum of the pixels left of x in row y, and of those above and to the left of (y, x) included
    sums = lambda c, y, x: [RS(y, I(0)) == z, RS(y, x + 1) == m(RS(y, x) + im(c, y, x)), ST(I(0), x) == RS(I(0), x + 1), Implies(y > 0, ST(y, x) == m(ST(y - 1, x) + RS(y, x + 1)))]
    done = lambda c, y, x: forall2(lambda b, a: Implies(And(b >= 0, a >= 0, a < c.imageWidth, Or(b < y, And(b == y, a < x))), O(c, b, a) == ST(b, a)), go)
    fit = []
    if sfx == "i32":
        def fit(c):
            a, b = z3.Ints("a!i b!i")
            ok = lambda v: And(v >= -2 ** 31, v < 2 ** 31)
            return [("the sums fit the type", z3.And(z3.ForAll([a, b], ok(RS(a, b)), patterns=[RS(a, b)]), z3.ForAll([a, b], ok(ST(a, b)), patterns=[ST(a, b)])))]
    else:
        fit = lambda c: []
    y = lambda c: c.itof("1") + 1
    return Contract("vl_imintegral_" + sfx, args=["integral", "integralStride", "image", "imageWidth", "imageHeight", "imageStride"], params={"integral": "O", "image": "I"},
                    regions={"O": dict(ty=ty, signed=sfx == "i32", count=lambda c: go.size(c, c.imageHeight)), "I": dict(ty=ty, signed=sfx == "i32", count=lambda c: gi.size(c, c.imageHeight))},
                    requires=lambda c: [("sizes", sized(c, c.imageWidth, c.imageHeight, c.imageStride, c.integralStride)), ("strides", And(gi.fits(c), go.fits(c)))] + fit(c),
                    hints=lambda c: gi.axioms(c, I(0), c.imageHeight - 1) + go.axioms(c, I(0), c.imageHeight - 1), modifies=lambda c: [("O", None, None, None)],
                    ensures=lambda c: [("every entry is the sum of the pixels above and to the left", done(c, c.imageHeight, I(0)))],
                    loops={"0": Loop(inv=lambda c: [("range", c.it <= c.imageWidth), ("row sum", c.v("temp") == RS(I(0), c.it)), ("sums so far", done(c, I(0), c.it))], hints=lambda c: sums(c, I(0), c.it) + [gi(0, c.it) == c.it], dec=lambda c: c.imageWidth - c.it),
                           "1": Loop(inv=lambda c: [("range", Or(c.it + 1 <= c.imageHeight, c.it == 0)), ("integral at the end of the previous row", Implies(c.imageHeight > 0, And(c.v("integral") == go.row(c.it) + c.imageWidth, c.v("image") == gi.row(c.it) + c.imageWidth))), ("rows done", done(c, Min(c.it + 1, c.imageHeight), I(0)))],
                                     hints=lambda c: go.row.at(c, c.it, c.it + 1) + gi.row.at(c, c.it, c.it + 1), dec=lambda c: c.imageHeight - c.it),
                           "1.0": Loop(inv=lambda c: [("range", c.it <= c.imageWidth), ("row sum", c.v("temp") == RS(y(c), c.it)), ("sums so far", done(c, y(c), c.it))],
                                       hints=lambda c: sums(c, y(c), c.it) + [gi(y(c), c.it) == gi(y(c), c.it), go(y(c), c.it) == go(y(c), c.it), O(c, y(c) - 1, c.it) == O(c, y(c) - 1, c.it)], dec=lambda c: c.imageWidth - c.it)})


# ---- gradients
def grad_spec(c, im, y, x):
    w, h = c.imageWidth, c.imageHeight
    half = lambda v: v / 2
    gx = If(x == 0, im(y, 1) - im(y, 0), If(x == w - 1, im(y, x) - im(y, x - 1), half(im(y, x + 1) - im(y, x - 1))))
    gy = If(y == 0, im(1, x) - im(0, x), If(y == h - 1, im(y, x) - im(y - 1, x), half(im(y + 1, x) - im(y - 1, x))))
    return gx, gy


def gradient(fn, ty, outs, strides, ins, val):
    """outs: the two destinations; val(c, gx, gy): what they hold"""
    ws, hs = strides
    gi = Grid("image", lambda c: c.imageStride, lambda c: c.imageWidth)
    go = Grid("gradient", lambda c: c.arg(hs), lambda c: c.imageWidth, lambda c: c.arg(ws))
    A, B = z3.Function("first", INT, INT, REAL), z3.Function("second", INT, INT, REAL)
    im = lambda c: (lambda y, x: c.pre.at("I", gi(y, x)))

    def defs(c, y, x):
        v = val(c, *grad_spec(c, im(c), y, x))
        return [A(y, x) == v[0], B(y, x) == v[1], go(y, x) == go(y, x)] + go.col.at(c, x)
    done = lambda c, y, x: forall2(lambda b, a: Implies(And(b >= 0, a >= 0, a < c.imageWidth, Or(b < y, And(b == y, a < x))), And(c.at("A", go(b, a)) == A(b, a), c.at("B", go(b, a)) == B(b, a))), go)
    def whole(c):
        b, a = z3.Ints("b!w a!w")
        v = val(c, *grad_spec(c, im(c), b, a))
        return z3.ForAll([b, a], Implies(And(b >= 0, a >= 0, a < c.imageWidth, b < c.imageHeight), And(A(b, a) == v[0], B(b, a) == v[1])), patterns=[A(b, a), B(b, a)])
    y = lambda c: c.itof("1") + 1
    w1 = lambda c: c.imageWidth - 1
    row = lambda yy: Loop(inv=lambda c: [("range", c.it <= Max(c.imageWidth - 2, 0)), ("pixels so far", done(c, yy(c), c.it + 1))], hints=lambda c: defs(c, yy(c), c.it + 1) + go.row.at(c, yy(c)) + gi.row.at(c, yy(c) - 1, yy(c), yy(c) + 1), dec=lambda c: c.imageWidth - c.it)
    h1 = lambda c: c.imageHeight - 1
    return Contract(fn, args=outs + [ws, hs] + ins, params={outs[0]: "A", outs[1]: "B", "image": "I"}, regions={"A": dict(ty=ty, count=lambda c: go.size(c, c.imageHeight)), "B": dict(ty=ty, count=lambda c: go.size(c, c.imageHeight)), "I": dict(ty=ty, count=lambda c: gi.size(c, c.imageHeight))},
                    requires=lambda c: [("sizes", And(sized(c, c.imageWidth, c.imageHeight, c.imageStride, c.arg(ws), c.arg(hs)), c.imageWidth >= 2, c.imageHeight >= 2)), ("strides", And(gi.fits(c), go.fits(c)))],
                    hints=lambda c: gi.axioms(c, I(0), I(1), c.imageHeight - 1, c.imageHeight - 2) + go.axioms(c, I(0), c.imageHeight - 1) + [z for yy in (I(0), c.imageHeight - 1) for xx in (I(0), w1(c)) for z in defs(c, yy, xx)],
                    modifies=lambda c: [("A", None, None, None), ("B", None, None, None)],
                    ensures=lambda c: [("every entry is the documented difference", done(c, c.imageHeight, I(0)))],
                    loops={"0": row(lambda c: I(0)), "2": row(h1),
                           "1": Loop(inv=lambda c: [("range", c.it + 1 <= h1(c)), ("cursors at the start of the row", And(c.v("src") == gi.row(c.it + 1), c.v("PA") == go.row(c.it + 1), c.v("PB") == go.row(c.it + 1))), ("rows done", done(c, c.it + 1, I(0)))],
                                     hints=lambda c: go.row.at(c, c.it, c.it + 1) + gi.row.at(c, c.it, c.it + 1, c.it + 2) + defs(c, c.it + 1, I(0)) + defs(c, c.it + 1, w1(c)), dec=lambda c: c.imageHeight - c.it),
                           "1.0": row(y)})


def plain_gradient(sfx, ty):
    k = gradient("vl_imgradient_" + sfx, ty, ["xGradient", "yGradient"], ("gradWidthStride", "gradHeightStride"), ["image", "imageWidth", "imageHeight", "imageStride"], lambda c, gx, gy: (gx, gy))
    return ren(k, {"PA": "pgrad_x", "PB": "pgrad_y"})


FS, FA, FM = z3.Function("fast_sqrt", REAL, REAL), z3.Function("fast_atan2", REAL, REAL, REAL), z3.Function("mod_2pi", REAL, REAL)


def pure(fn, args, F):
    """the helper is a function of its arguments (what it computes is P07)"""
    k = Contract(fn, args=args, ensures=lambda c: [("function of its arguments", c.ret == F(*[c.arg(a) for a in args]))])
    k.assumed = True
    return k


HELPERS = [pure("vl_fast_sqrt_f", ["x"], FS), pure("vl_fast_atan2_f", ["y", "x"], FA), pure("vl_mod_2pi_f", ["x"], FM)]


def polar_gradient(sfx, ty):
    k = gradient("vl_imgradient_polar_" + sfx, ty, ["gradientModulus", "gradientAngle"], ("gradientHorizontalStride", "gradHeightStride"), ["image", "imageWidth", "imageHeight", "imageStride"],
                 lambda c, gx, gy: (FS(c.fp.bin("fmul", gx, gx) + c.fp.bin("fmul", gy, gy)), FM(FA(gy, gx) + z3.RealVal("6.28318530717958623199592693708837032318115234375"))))
    return ren(k, {"PA": "pgrad_ampl", "PB": "pgrad_angl"})


class Renamed:
    def __init__(self, c, m):
        self.__dict__.update(_c=c, _m=m)

    def __getattr__(self, n):
        return getattr(self._c, n)

    def v(self, n):
        return self._c.v(self._m.get(n, n))


def ren(k, m):
    l = k.loops["1"]
    inv = l.inv
    l.inv = lambda c: inv(Renamed(c, m))
    return k


# ---- smoothing by a triangular kernel
def coltri(sfx, ty):
    gi = Grid("image", lambda c: c.imageStride, lambda c: c.imageWidth)
    T = lambda c: (c.flags / 4) % 2 == 1      # VL_TRANSPOSE
    ZP = lambda c: c.flags % 4 == 0           # VL_PAD_BY_ZERO
    dh = lambda c: (c.imageHeight - 1) / c.step + 1
    # destination: (row, column) -> cell, one row per column of the image when transposing
    go = Grid("dest", lambda c: c.destStride, lambda c: If(T(c), dh(c), c.imageWidth))
    cell = lambda c, m, x: If(T(c), go(x, m), go(m, x))
    st = Row("sampled", lambda c: c.step)
    f, W, V = [z3.Function(n, INT, INT, REAL) for n in ("padded", "prefix", "prefix2")]
    D = z3.Function("smoothed", INT, INT, REAL)
    h = lambda c: c.imageHeight
    F = lambda c: c.filterSize
    pix = lambda c, x, k: c.pre.at("I", gi(k, x))
    pad = lambda c, x, k: [f(x, k) == If(k < 0, If(ZP(c), 0, pix(c, x, I(0))), If(k >= h(c), If(ZP(c), 0, pix(c, x, h(c) - 1)), pix(c, x, k)))]
    v = lambda c, x, k: [V(x, k + 1) == V(x, k) + W(x, k)]
    w = lambda c, x, k: pad(c, x, k) + [gi(k, x) == gi(k, x), W(x, k + 1) == W(x, k) + f(x, k)]
    X = lambda c: c.itof("0")
    scale = lambda c: 1 / (z3.ToReal(F(c)) * z3.ToReal(F(c)))

    def smooth(c, x, m):
        y = st(m)
        return [D(x, m) == scale(c) * (V(x, y + 1 + F(c)) - 2 * V(x, y + 1) + V(x, y + 1 - F(c))), go(m, x) == go(m, x), go(x, m) == go(x, m)]
    done = lambda c, x, m: forall2(lambda a, b: Implies(And(a >= 0, b >= 0, b < dh(c), Or(a < x, And(a == x, b >= m))), And(Implies(T(c), c.at("O", go(a, b)) == D(a, b)), Implies(Not(T(c)), c.at("O", go(b, a)) == D(a, b)))), D)
    B = lambda c, j: c.heap(0, j)
    span = lambda lo, hi, val: (lambda c: forall(lambda j: B(c, j) == val(c, j - F(c)), lo(c) + F(c), hi(c) + F(c), pat=lambda j: B(c, j)))
    # beyond the last pixel the prefix sum grows by the padding
    tail = lambda c, x: [forall(lambda k: W(x, k) == W(x, h(c)) + If(ZP(c), 0, (k - h(c)) * pix(c, x, h(c) - 1)), h(c), h(c) + F(c) + 1, pat=lambda k: W(x, k))]
    S1 = lambda c, k: W(X(c), h(c)) - W(X(c), k)
    S2 = lambda c, k: W(X(c), k + F(c)) - W(X(c), k)
    S3 = lambda c, k: (V(X(c), k + 1 + F(c)) - V(X(c), I(0))) - (V(X(c), k + 1) - V(X(c), -F(c)))
    rng = lambda lo, hi: (lambda c: ("position", And(c.v("y") >= lo(c), c.v("y") <= hi(c))))
    H = lambda c: h(c)
    mF = lambda c: -F(c)
    L = {}
    L["0.0"] = Loop(inv=lambda c: [rng(lambda c: I(-1), lambda c: h(c) - 2)(c), ("pixel", c.v("imagei") == gi.row(c.v("y") + 1) + X(c)), ("suffix sums", span(lambda c: c.v("y") + 1, H, S1)(c))], hints=lambda c: w(c, X(c), c.v("y")) + gi.row.at(c, c.v("y"), c.v("y") + 1) + [gi(c.v("y"), X(c)) == gi(c.v("y"), X(c))], dec=lambda c: c.v("y") + 2)
    ext = lambda: Loop(inv=lambda c: [rng(lambda c: -F(c) - 1, lambda c: I(-1))(c), ("suffix sums", span(lambda c: c.v("y") + 1, H, S1)(c))], hints=lambda c: w(c, X(c), c.v("y")), dec=lambda c: c.v("y") + F(c) + 2)
    L["0.1"], L["0.2"] = ext(), ext()
    L["0.3"] = Loop(inv=lambda c: [rng(mF, lambda c: h(c) - F(c))(c), ("box sums", span(mF, lambda c: c.v("y"), S2)(c)), ("suffix sums", span(lambda c: c.v("y"), H, S1)(c))], dec=lambda c: h(c) - c.v("y"))
    L["0.4"] = Loop(hints=lambda c: tail(c, X(c)) + w(c, X(c), h(c) - 1), inv=lambda c: [rng(lambda c: h(c) - F(c), H)(c), ("box sums", span(mF, lambda c: c.v("y"), S2)(c)), ("suffix sums", span(lambda c: c.v("y"), H, S1)(c))], dec=lambda c: h(c) - c.v("y"))
    L["0.5"] = Loop(hints=lambda c: tail(c, X(c)) + v(c, X(c), -F(c)) + v(c, X(c), I(0)) + v(c, X(c), c.v("y")) + v(c, X(c), c.v("y") + F(c)), inv=lambda c: [rng(lambda c: -F(c) + 1, H)(c), ("double sums", span(mF, lambda c: c.v("y"), S3)(c)), ("box sums", span(lambda c: c.v("y"), H, S2)(c))], dec=lambda c: h(c) - c.v("y"))
    L["0.6"] = Loop(hints=lambda c: smooth(c, X(c), dh(c) - 1 - c.it) + st.at(c, dh(c) - 2 - c.it, dh(c) - 1 - c.it) + go.row.at(c, dh(c) - 1 - c.it, dh(c) - c.it, X(c)) + Q(c), inv=lambda c: [("range", c.it <= dh(c)), ("sample", c.v("y") == st(dh(c) - 1 - c.it)), ("cursor", c.v("dest") == cell(c, dh(c) - c.it, X(c))), ("column so far", done(c, X(c), dh(c) - c.it))], dec=lambda c: dh(c) - c.it)
    # Euclid: the last sample is inside the column
    Q = lambda c: [Implies(c.step > 0, And(((h(c) - 1) / c.step) * c.step <= h(c) - 1, (h(c) - 1) / c.step >= 0, st((h(c) - 1) / c.step) == ((h(c) - 1) / c.step) * c.step))]
    L["0"] = Loop(hints=lambda c: w(c, c.it, h(c) - 1) + go.row.at(c, c.it, dh(c)), inv=lambda c: [("range", c.it <= c.imageWidth), ("cursor", c.v("dest") == If(T(c), go.row(c.it), c.it)), ("columns done", done(c, c.it, dh(c)))], dec=lambda c: c.imageWidth - c.it)
    return Contract("vl_imconvcoltri_" + sfx, args=["dest", "destStride", "image", "imageWidth", "imageHeight", "imageStride", "filterSize", "step", "flags"], params={"dest": "O", "image": "I"},
                    regions={"O": dict(ty=ty, count=lambda c: go.size(c, If(T(c), c.imageWidth, dh(c)))), "I": dict(ty=ty, count=lambda c: gi.size(c, c.imageHeight))},
                    requires=lambda c: [("sizes", And(sized(c, c.imageWidth, c.imageHeight, c.imageStride, c.destStride, c.filterSize, c.step), c.step >= 1, c.filterSize >= 1, c.imageHeight >= 1, c.imageHeight + c.filterSize < 2 ** 31)), ("strides", And(gi.fits(c), go.fits(c)))],
                    hints=lambda c: gi.axioms(c, I(0), c.imageHeight - 1) + go.axioms(c, I(0)) + st.axioms(c), modifies=lambda c: [("O", None, None, None)],
                    ensures=lambda c: [("every sample is the triangular average of the padded column", done(c, c.imageWidth, dh(c)))], loops=L)


UNITS = [Unit("vl/imopv.c", HELPERS + [polar_gradient("f", "float"), polar_gradient("d", "double")], fp="real", axioms=("absmul",)), Unit("vl/imopv.c", [integral("f", "float"), integral("d", "double"), plain_gradient("f", "float"), plain_gradient("d", "double")], fp="real"), Unit("vl/imopv.c", [coltri("f", "float"), coltri("d", "double")], fp="real"), Unit("vl/imopv.c", [integral("ui32", "i32"), integral("i32", "i32")])]


def lemmas():
    k, F, y = z3.Ints("k F y")
    l, Wh = z3.Reals("last Wh")
    W, V, box = [z3.Function(n, INT, REAL) for n in ("W", "V", "box")]
    closed = lambda n: Wh + z3.ToReal(n) * l      # n pixels past the last one
    d = lambda F: V(y + 1 + F) - 2 * V(y + 1) + V(y + 1 - F)
    return [Lemma("prefix sums grow by the padding past the last pixel", [], closed(k + 1) - closed(k) == l),
            Lemma("triangular kernel of size 0 is empty", [], d(I(0)) == 0),
            # the kernel (F-|u|)+ grows by one at every |u| <= F when F does
            Lemma("second difference of the double prefix sum is the triangular sum (step)", [V(y + 1 + F + 1) == V(y + 1 + F) + W(y + 1 + F), V(y + 1 - F) == V(y - F) + W(y - F), W(y + F + 1) - W(y - F) == box(F)], d(F + 1) == d(F) + box(F))]


PROP = Prop("P08", units=UNITS, lemmas=lemmas, oracles=[Oracle("imopv.c", what="random small images against the defining sums and differences", always=True)], bounded=["vl_imsmooth_*: random small images against the Gaussian sum"])
