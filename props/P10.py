from vcg.spec import *
from vcg.engine import square

PINF = z3.Real("fpconst_pinf")


def disttf(sfx, ty):
    fn = "vl_image_distance_transform_" + sfx
    w, h = (lambda c: c.numColumns), (lambda c: c.numRows)
    g = Grid("image", lambda c: c.rowStride, w, lambda c: c.columnStride)
    V = z3.Function("parabola", INT, INT, INT, REAL)      # (row, site, pixel) -> value of the site's parabola at the pixel
    Z = z3.Function("crossing", INT, INT, INT, REAL)      # (row, left site, right site) -> where the right one becomes lower
    W = z3.Function("argmin", INT, INT, INT)              # ghost: the site chosen for (row, pixel)
    im = lambda c, y, s: c.pre.at("I", g(y, s))
    R = z3.ToReal
    fdiv = lambda c, a, b: c.fp.bin("fdiv", a, b)
    fmul = lambda c, a, b: c.fp.bin("fmul", a, b)

    def vdef(c, y, s, p):
        d = R(p) - R(s) - c.offset
        return [V(y, s, p) == im(c, y, s) + fmul(c, fmul(c, c.coeff, d), d)]

    def zdef(c, y, s, t):
        r, r_ = im(c, y, t), im(c, y, s)
        return [Z(y, s, t) == If(r == r_, (R(t + s)) / 2 + c.offset, fdiv(c, fdiv(c, (r - r_) + fmul(c, c.coeff, R(square(t)) - R(square(s))), R(t - s)), 2 * c.coeff) + c.offset), g(y, s) == g(y, s), g(y, t) == g(y, t)] + g.col.at(c, s, t)
    ys, ss, ts, ps = z3.Ints("y!v s!v t!v p!v")
    # lemma "crossing" below, instantiated for every pair of sites
    cross = z3.ForAll([ys, ss, ts, ps], Implies(And(ss >= 0, ss < ts), (V(ys, ts, ps) <= V(ys, ss, ps)) == (R(ps) >= Z(ys, ss, ts))), patterns=[z3.MultiPattern(V(ys, ss, ps), V(ys, ts, ps), Z(ys, ss, ts)), ])

    def cross_at(c, y, s, t):
        """the same for one pair, at every pixel that is looked at"""
        return [z3.ForAll([ss, ps], Implies(And(s >= 0, s < t), (V(y, t, ps) <= V(y, s, ps)) == (R(ps) >= Z(y, s, t))), patterns=[V(y, ss, ps)])]
    below = z3.ForAll([ys, ss, ts], And(Z(ys, ss, ts) < PINF, Z(ys, ss, ts) > -PINF), patterns=[Z(ys, ss, ts)])
    From, Base, BI, Wh = [(lambda k: (lambda c, j: c.heap(k, j)))(k) for k in range(4)]
    Y = lambda c: c.itof("0")

    def stack(c, n, x):
        """the first n sites are increasing, below x, and their breakpoints are the crossings"""
        k = z3.Int("k!s")
        return [("sites below the current pixel", forall(lambda k: And(Wh(c, k) >= 0, Wh(c, k) < x, Base(c, k) == im(c, Y(c), Wh(c, k)), Implies(Not(c.indexes_null), BI(c, k) == c.pre.at("X", g(Y(c), Wh(c, k))))), 0, n, pat=lambda k: Wh(c, k))),
                ("breakpoints are finite", forall(lambda k: And(From(c, k) > -PINF, From(c, k) < PINF), 1, n, pat=lambda k: From(c, k))), ("breakpoints increase", z3.ForAll([ss, ts], Implies(And(ss >= 0, ss < ts, ts < n), From(c, ss) < From(c, ts)), patterns=[z3.MultiPattern(From(c, ss), From(c, ts))])), ("first breakpoint", Implies(n > 0, From(c, I(0)) == -PINF))]

    def envelope(c, n, x, extra=None):
        k, s, p = z3.Ints("k!e s!e p!e")
        y = Y(c)
        top = V(y, Wh(c, k), p) <= V(y, s, p)
        last = top if extra is None else Or(top, V(y, extra, p) <= V(y, s, p))
        return z3.ForAll([k, s, p], Implies(And(k >= 0, k < n, s >= 0, s < x, R(p) >= From(c, k)), And(Implies(And(k < n - 1, R(p) < From(c, k + 1)), top), Implies(k == n - 1, last))), patterns=[z3.MultiPattern(From(c, k), V(y, s, p))])
    total = lambda c: c.outv("0.0", "num")
    L = {}
    L["0.0"] = Loop(inv=lambda c: [("range", And(c.it <= w(c), c.v("num") <= c.it, (c.v("num") == 0) == (c.it == 0)))] + stack(c, c.v("num"), c.it) + [("lower envelope", envelope(c, c.v("num"), c.it))],
                    hints=lambda c: [g(Y(c), c.it) == g(Y(c), c.it)] + g.col.at(c, c.it), dec=lambda c: w(c) - c.it)
    x = lambda c: c.itof("0.0")
    L["0.0.0"] = Loop(inv=lambda c: [("nothing accepted yet", c.v("from_") == -PINF), ("range", And(c.v("num") <= x(c), (c.v("num") == 0) == (x(c) == 0)))] + stack(c, c.v("num"), x(c)) + [("lower envelope with the new parabola", envelope(c, c.v("num"), x(c), x(c)))],
                      hints=lambda c: zdef(c, Y(c), Wh(c, c.v("num") - 1), x(c)) + cross_at(c, Y(c), Wh(c, c.v("num") - 1), x(c)), dec=lambda c: c.v("num"))
    done = lambda c, y, x: forall2(lambda b, a: Implies(And(b >= 0, a >= 0, a < w(c), Or(b < y, And(b == y, a < x))), And(W(b, a) >= 0, W(b, a) < w(c), c.at("D", g(b, a)) == V(b, W(b, a), a), Implies(Not(c.indexes_null), c.at("X", g(b, a)) == c.pre.at("X", g(b, W(b, a)))))), g)
    def best(c, y, x):
        b, a, s = z3.Ints("b!m a!m s!m")
        return z3.ForAll([b, a, s], Implies(And(b >= 0, a >= 0, s >= 0, a < w(c), s < w(c), Or(b < y, And(b == y, a < x))), V(b, W(b, a), a) <= V(b, s, a)), patterns=[V(b, s, a)])
    n = lambda c: c.v("num")
    todo = lambda c, y, x: ("indexes still to be read", forall2(lambda b, a: Implies(And(a >= 0, a < w(c), Or(b > y, And(b == y, a >= x)), Not(c.indexes_null)), c.at("X", g(b, a)) == c.pre.at("X", g(b, a))), g))
    L["0.1"] = Loop(inv=lambda c: [("range", And(c.it <= w(c), n(c) >= 0, Or(n(c) < total(c), w(c) == 0))), ("inside the interval", Or(n(c) == 0, R(c.it) >= From(c, n(c)))), todo(c, Y(c), c.it), ("minima so far", done(c, Y(c), c.it)), ("no site is lower", best(c, Y(c), c.it))],
                    hints=lambda c: [g(Y(c), c.it) == g(Y(c), c.it)] + g.col.at(c, c.it), dec=lambda c: w(c) - c.it)
    L["0.1.0"] = Loop(inv=lambda c: [("range", And(n(c) >= 0, n(c) < total(c))), ("inside the interval", R(c.itof("0.1")) >= From(c, n(c)))],
                      hints=lambda c: [Implies(R(c.itof("0.1")) < From(c, n(c) + 1), W(Y(c), c.itof("0.1")) == Wh(c, n(c))), g(Y(c), Wh(c, n(c))) == g(Y(c), Wh(c, n(c)))] + vdef(c, Y(c), Wh(c, n(c)), c.itof("0.1")), dec=lambda c: total(c) - n(c))
    L["0"] = Loop(inv=lambda c: [("range", c.it <= h(c)), todo(c, c.it, I(0)), ("rows done", done(c, c.it, I(0))), ("no site is lower", best(c, c.it, I(0)))], hints=lambda c: g.row.at(c, c.it, c.it + 1), dec=lambda c: h(c) - c.it)
    return Contract(fn, heap_types=(ty, ty, "i64", "i64"), args=["image", "numColumns", "numRows", "columnStride", "rowStride", "distanceTransform", "indexes", "coeff", "offset"], params={"image": "I", "distanceTransform": "D", "indexes": "X"}, nullable=("indexes",),
                    regions={"I": dict(ty=ty, count=lambda c: g.size(c, h(c))), "D": dict(ty=ty, count=lambda c: g.size(c, h(c))), "X": dict(ty="i64", count=lambda c: g.size(c, h(c)))},
                    requires=lambda c: [("sizes", And(*[And(x >= 0, x < 2 ** 31) for x in (w(c), h(c), c.columnStride, c.rowStride)])), ("strides", g.fits(c)), ("curvature", c.coeff > z3.Q(1, 2 ** (23 if sfx == "f" else 52))), ("finite crossings", And(below, PINF > 2 ** 32))],
                    hints=lambda c: g.axioms(c, I(0), h(c) - 1) + [cross], modifies=lambda c: [("D", None, None, None), ("X", None, None, None)],
                    ensures=lambda c: [("values and indexes are those of a site", done(c, h(c), I(0))), ("no site is lower", best(c, h(c), I(0)))], loops=L)


UNITS = [Unit("vl/imopv.c", [disttf(s, t)], fp="real", axioms=("absmul", "absdiv", "abssq")) for s, t in (("f", "float"), ("d", "double"))]


def lemmas():
    r, r_, s, t, p, c, o, z = z3.Reals("r r_ s t p c o z")
    v = lambda r, s: r + c * (p - s - o) * (p - s - o)
    form = ((r - r_) + c * (t * t - s * s)) / (t - s) / (2 * c) + o
    pre = [c > 0, s < t]
    return [Lemma("crossing is where the parabolas agree", pre + [z == form], (z - o) * (2 * c * (t - s)) == (r - r_) + c * (t * t - s * s)),
            Lemma("equal heights cross midway", pre + [r == r_, z == (s + t) / 2 + o], (z - o) * (2 * c * (t - s)) == (r - r_) + c * (t * t - s * s)),
            Lemma("difference of the parabolas", pre + [(z - o) * (2 * c * (t - s)) == (r - r_) + c * (t * t - s * s)], v(r, t) - v(r_, s) == (2 * c * (t - s)) * (z - p)),
            Lemma("sign of the difference", [c > 0, s < t], ((2 * c * (t - s)) * (z - p) <= 0) == (p >= z))]


PROP = Prop("P10", units=UNITS, lemmas=lemmas, oracles=[Oracle("disttf.c", what="random small images, curvatures, offsets and strides against the defining minimum", always=True)])
