from vcg.spec import *


def sized(c, *xs):
    return And(*[And(x >= 0, x < 2 ** 31) for x in xs])


def imconvcol(fn, ty, vs):
    """vs: 0 for the scalar function, the number of lanes for the vectorised one"""
    sc = "0.1" if vs else "0.0"
    gi = Grid("image", lambda c: c.src_stride, lambda c: c.src_width)
    T = lambda c: (c.flags / 4) % 2 == 1      # VL_TRANSPOSE
    ZP = lambda c: c.flags % 4 == 0           # VL_PAD_BY_ZERO
    dh = lambda c: (c.src_height - 1) / c.step + 1
    go = Grid("dest", lambda c: c.dst_stride, lambda c: If(T(c), dh(c), c.src_width))
    st = Row("sampled", lambda c: c.step)
    S = z3.Function("taps", INT, INT, INT, REAL)       # the last t taps at (x, y)
    D = z3.Function("convolved", INT, INT, REAL)
    h, fb, fe = (lambda c: c.src_height), (lambda c: c.filt_begin), (lambda c: c.filt_end)
    n = lambda c: fe(c) - fb(c) + 1
    pix = lambda c, x, k: c.pre.at("I", gi(k, x))
    pad = lambda c, x, k: If(And(k >= 0, k < h(c)), pix(c, x, k), If(ZP(c), z3.RealVal(0), If(k < 0, pix(c, x, I(0)), pix(c, x, h(c) - 1))))
    tap = lambda c, x, y, t: [S(x, y, t + 1) == S(x, y, t) + pad(c, x, y - fe(c) + t) * c.pre.at("F", n(c) - 1 - t), gi(y - fe(c) + t, x) == gi(y - fe(c) + t, x)]
    dfn = lambda c, x, m: [D(x, m) == S(x, st(m), n(c)), go(m, x) == go(m, x), go(x, m) == go(x, m), S(x, st(m), I(0)) == 0, gi(0, x) == gi(0, x), gi(h(c) - 1, x) == gi(h(c) - 1, x)]
    # a column (k columns at x) up to sample m
    done = lambda c, x, m, k=1: forall2(lambda a, b: Implies(And(a >= 0, b >= 0, b < dh(c), Or(a < x, And(a >= x, a < x + k, b < m))), And(Implies(T(c), c.at("O", go(a, b)) == D(a, b)), Implies(Not(T(c)), c.at("O", go(b, a)) == D(a, b)))), D)
    # Euclid: the last sample is inside the column
    E = lambda c: [Implies(c.step > 0, And(((h(c) - 1) / c.step) * c.step <= h(c) - 1, (h(c) - 1) / c.step >= 0, (h(c) - 1) < ((h(c) - 1) / c.step + 1) * c.step, st((h(c) - 1) / c.step) == ((h(c) - 1) / c.step) * c.step, st((h(c) - 1) / c.step + 1) == ((h(c) - 1) / c.step + 1) * c.step))]
    L = {}

    def column(sc, X, k):
        """the loop `sc` over the samples of a column (or of k columns at once) and the three loops over the filter inside it"""
        Y = lambda c: st(c.itof(sc))
        used = lambda c: n(c) - 1 - c.v("filti")
        above = lambda c: Max(0, Min(n(c), fe(c) - Y(c)))         # taps above the image
        inside = lambda c: Max(above(c), Min(n(c), fe(c) - Y(c) + h(c)))
        vec = vs and k > 1
        al = lambda c, *js: [Implies(c.src_stride % vs == 0, gi.row(j) % vs == 0) for j in js] if vec else []     # multiples of a multiple
        partial = (lambda c: And(*[c.pv("acc")[j] == S(X(c) + j, Y(c), used(c)) for j in range(k)])) if vec else (lambda c: c.v("acc") == S(X(c), Y(c), used(c)))

        def taps(lo, hi, src):
            return Loop(inv=lambda c: [("taps", And(used(c) >= lo(c), used(c) <= hi(c))), ("partial sum", partial(c))] + ([("row", c.v("srci") == gi.row(Y(c) - fe(c) + used(c)) + X(c))] if src else []),
                        hints=lambda c: [z for j in range(k) for z in tap(c, X(c) + j, Y(c), used(c))] + gi.row.at(c, Y(c) - fe(c) + used(c)) + al(c, Y(c) - fe(c) + used(c), h(c) - 1) + st.at(c, c.itof(sc)) + E(c), dec=lambda c: c.v("filti") + 1)
        L[sc + ".0"] = taps(lambda c: I(0), above, True)
        L[sc + ".1"] = taps(above, inside, True)
        L[sc + ".2"] = taps(inside, n, False)
        cell = lambda c, m, x: If(T(c), go.row(x) + m, go.row(m) + x)
        L[sc] = Loop(inv=lambda c: [("range", c.it <= dh(c)), ("sample", c.v("y") == st(c.it)), ("cursor", c.v("dst") == cell(c, c.it, X(c))), ("column so far", done(c, X(c), c.it, k))],
                     hints=lambda c: st.at(c, c.it, c.it + 1) + go.row.at(c, c.it, *[X(c) + j for j in range(k)]) + gi.row.at(c, st(c.it) - fe(c), I(0), h(c) - 1) + al(c, h(c) - 1, st(c.it) - fe(c)) + E(c) + [z for j in range(k) for z in dfn(c, X(c) + j, c.it)], dec=lambda c: h(c) - c.v("y"))
    if vs:
        X = lambda c: c.v("x")
        column("0.0", X, vs)
        column("0.1", X, 1)
    else:
        X = lambda c: c.it
        column("0.0", lambda c: c.itof("0"), 1)
    L["0"] = Loop(inv=lambda c: [("range", And(X(c) >= 0, X(c) <= c.src_width)), ("cursor", c.v("dst") == If(T(c), go.row(X(c)), X(c))), ("columns done", done(c, X(c), I(0)))], hints=lambda c: [z for j in range((vs or 1) + 1) for z in go.row.at(c, X(c) + j)] + go.row.at(c, dh(c)) + E(c), dec=lambda c: c.src_width - X(c))
    return Contract(fn, args=["dst", "dst_stride", "src", "src_width", "src_height", "src_stride", "filt", "filt_begin", "filt_end", "step", "flags"], params={"dst": "O", "src": "I", "filt": "F"},
                    regions={"O": dict(ty=ty, count=lambda c: go.size(c, If(T(c), c.src_width, dh(c)))), "I": dict(ty=ty, count=lambda c: gi.size(c, c.src_height)), "F": dict(ty=ty, count=n)},
                    requires=lambda c: [("sizes", And(sized(c, c.src_width, c.src_height, c.src_stride, c.dst_stride, c.step), c.step >= 1, c.src_height >= 1, fe(c) >= fb(c), fb(c) > -2 ** 30, fe(c) < 2 ** 30, c.src_height < 2 ** 30)), ("strides", And(gi.fits(c), go.fits(c)))],
                    hints=lambda c: gi.axioms(c, I(0), c.src_height - 1) + go.axioms(c, I(0)) + st.axioms(c), modifies=lambda c: [("O", None, None, None)],
                    ensures=lambda c: [("every sample is the convolution of the padded column", done(c, c.src_width, I(0)))], loops=L)


def flag(fn):
    c = Contract(fn, ensures=lambda c: [])
    c.assumed = True
    return c


FLAGS = [flag("vl_cpu_has_sse2"), flag("vl_get_simd_enabled")]


def used(c):
    c.assumed = True
    return c


UNITS = []
for s, ty, vs in (("f", "float", 4), ("d", "double", 2)):
    UNITS += [Unit("vl/imopv.c", FLAGS + [imconvcol("vl_imconvcol_v" + s, ty, 0), used(imconvcol("_vl_imconvcol_v%s_sse2" % s, ty, vs))], fp="real"),
              Unit("vl/imopv_sse2.c", [imconvcol("_vl_imconvcol_v%s_sse2" % s, ty, vs)], fp="real", flags=("-msse2", "@sroa"))]
PROP = Prop("P09", units=UNITS, oracles=[Oracle("imconvcol.c", what="random small images, filters, steps, paddings against the defining sum", always=True)])
