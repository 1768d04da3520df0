from vcg.spec import *

F = lambda c, *f: c.at("S", 0, *f)
F0 = lambda c, *f: c.pre.at("S", 0, *f)
SELF = lambda: {"S": dict(ty="VlDsiftFilter_")}
GEOM = ["numBinT", "numBinX", "numBinY", "binSizeX", "binSizeY"]
NX, NY = z3.Int("frames_along_x"), z3.Int("frames_along_y")
lim = lambda x: And(x >= 0, x < 2 ** 10)


def params_ok(g):
    """g: field path -> value: sizes for which the counts are computed without overflow"""
    bounds = [And(g(f) > -2 ** 13, g(f) < 2 ** 13) for f in ("boundMinX", "boundMaxX", "boundMinY", "boundMaxY")]
    return And(g("stepX") >= 1, g("stepY") >= 1, *bounds, *[And(g("geom", f) >= 1, g("geom", f) < 2 ** 10) for f in GEOM])


def counts(g, a):
    """the number of bins n and frames: n_x is the largest number of frames that start at multiples of the step and end inside the bounds"""
    lo, hi, st, nb, bs = (g(x) if isinstance(x, str) else g(*x) for x in (("boundMinX", "boundMaxX", "stepX", ("geom", "numBinX"), ("geom", "binSizeX")) if a == "x" else ("boundMinY", "boundMaxY", "stepY", ("geom", "numBinY"), ("geom", "binSizeY"))))
    last = lambda k: lo + k * st + (nb - 1) * bs
    n = NX if a == "x" else NY
    # definition of n: frame n-1 fits the bounds, frame n does not (none when the first does not)
    return And(n >= 0, n <= 2 ** 15, Implies(n > 0, lo + n * st - st + (nb - 1) * bs <= hi), lo + n * st + (nb - 1) * bs > hi)


def post(c):
    g = lambda *f: F(c, *f)
    return [("number of frames that fit the bounds", F(c, "numFrames") == NX * NY), ("descriptor size", F(c, "descrSize") == F(c, "geom", "numBinT") * F(c, "geom", "numBinX") * F(c, "geom", "numBinY"))]


SIZES_ = [("numFrames",), ("descrSize",)]
mods = lambda *fs: (lambda c: [("S", f, None, None) for f in SIZES_ + list(fs)])


def update():
    g = lambda c: (lambda *f: F0(c, *f))
    pr = lambda c: [And(F0(c, "geom", "numBinX") * F0(c, "geom", "binSizeX") < 2 ** 20, (F0(c, "geom", "numBinX") - 1) * F0(c, "geom", "binSizeX") >= 0, (F0(c, "geom", "numBinX") - 1) * F0(c, "geom", "binSizeX") < 2 ** 20, (F0(c, "geom", "numBinY") - 1) * F0(c, "geom", "binSizeY") >= 0, (F0(c, "geom", "numBinY") - 1) * F0(c, "geom", "binSizeY") < 2 ** 20,
                        F0(c, "geom", "numBinT") * F0(c, "geom", "numBinX") >= 0, F0(c, "geom", "numBinT") * F0(c, "geom", "numBinX") < 2 ** 20, F0(c, "geom", "numBinT") * F0(c, "geom", "numBinX") * F0(c, "geom", "numBinY") >= 0, F0(c, "geom", "numBinT") * F0(c, "geom", "numBinX") * F0(c, "geom", "numBinY") < 2 ** 30, NX * NY >= 0, NX * NY <= 2 ** 30)]
    return Contract("_vl_dsift_update_buffers", args=["self"], params=dict(self="S"), regions=SELF(), requires=lambda c: [("parameters", params_ok(g(c)))], hints=lambda c: [counts(g(c), "x"), counts(g(c), "y")] + pr(c), modifies=mods(), ensures=post)


def setter(name, args, fields):
    g = lambda c: (lambda *f: {fl: c.__getattr__(a) for a, fl in zip(args, fields)}.get(f[0], None) if f[0] in fields else F0(c, *f))
    return Contract("vl_dsift_set_" + name, args=["self"] + args, params=dict(self="S"), regions=SELF(), requires=lambda c: [("parameters", params_ok(g(c)))], hints=lambda c: [counts(g(c), "x"), counts(g(c), "y")], modifies=mods(*[(f,) for f in fields]), ensures=lambda c: [(f, F(c, f) == getattr(c, a)) for a, f in zip(args, fields)] + post(c))


def plain(name, arg, field):
    return Contract("vl_dsift_set_" + name, args=["self", arg], params=dict(self="S"), regions=SELF(), modifies=lambda c: [("S", (field,), None, None)], ensures=lambda c: [(field, F(c, field) == getattr(c, arg))])


def getter(name, field):
    return Contract("vl_dsift_get_" + name, args=["self"], params=dict(self="S"), regions=SELF(), ensures=lambda c: [(field, c.ret == F(c, field))])


def outs(name, args, fields):
    return Contract("vl_dsift_get_" + name, args=["self"] + args, params=dict(self="S", **{a: "O" + a for a in args}), regions=dict(SELF(), **{"O" + a: dict(ty="i32", signed=True) for a in args}), modifies=lambda c: [("O" + a, None, None, None) for a in args], ensures=lambda c: [(f, c.at("O" + a) == F0(c, f)) for a, f in zip(args, fields)])


def transpose():
    T, X, Y = (lambda c: c.numBinT), (lambda c: c.numBinX), (lambda c: c.numBinY)
    bn, rx, ry = Row("bins", T), Row("rows", X), Row("columns", Y)     # T*b, X*y, Y*x
    rot = lambda c, t: If(T(c) / 4 - t >= 0, T(c) / 4 - t, T(c) / 4 - t + T(c))
    d = z3.Function("transposed_cell", INT, INT, INT, INT)
    x, y, t = z3.Ints("x!t y!t t!t")
    src = lambda c, x, y, t: c.pre.at("I", bn(x + rx(y)) + t)
    eqn = lambda c, x, y, t: c.at("O", d(x, y, t)) == src(c, x, y, t)
    rng = lambda c, *more: And(x >= 0, x < X(c), y >= 0, y < Y(c), t >= 0, t < T(c), *more)
    inv = lambda c, name, *more: (name, z3.ForAll([x, y, t], Implies(rng(c, *more), eqn(c, x, y, t)), patterns=[d(x, y, t)]))
    ddef = lambda c, x, y, t: d(x, y, t) == bn(y + ry(x)) + rot(c, t)
    y0, x0 = (lambda c: c.itof("0")), (lambda c: c.itof("0.0"))
    rows = lambda c: inv(c, "rows so far", y < y0(c))
    cols = lambda c, hi: inv(c, "cells so far", y == y0(c), x < hi)
    at = lambda c: rx.at(c, y0(c)) + ry.at(c, x0(c)) + bn.at(c, x0(c) + rx(y0(c)), y0(c) + ry(x0(c)))
    small = lambda c, e, n: And(e >= 0, e + 1 <= n)
    inside = lambda c: [Implies(And(y0(c) < Y(c), x0(c) < X(c)), And(rx(y0(c)) + X(c) <= rx(Y(c)), ry(x0(c)) + Y(c) <= ry(X(c)), bn(x0(c) + rx(y0(c))) + T(c) <= bn(rx(Y(c))), bn(y0(c) + ry(x0(c))) + T(c) <= bn(ry(X(c))), rx(y0(c)) >= 0, ry(x0(c)) >= 0, bn(x0(c) + rx(y0(c))) >= 0, bn(y0(c) + ry(x0(c))) >= 0))]
    L = {"0": Loop(inv=lambda c: [("range", And(c.it <= Y(c), c.v("y") == c.it)), inv(c, "rows so far", y < c.it)], hints=lambda c: rx.at(c, c.it), dec=lambda c: Y(c) - c.it),
         "0.0": Loop(inv=lambda c: [("range", And(c.it <= X(c), c.v("x") == c.it)), rows(c), cols(c, c.it)], hints=lambda c: rx.at(c, y0(c)) + ry.at(c, c.it) + bn.at(c, c.it + rx(y0(c)), y0(c) + ry(c.it)), dec=lambda c: X(c) - c.it),
         "0.0.0": Loop(inv=lambda c: [("range", And(c.it <= T(c), c.v("t") == c.it)), rows(c), cols(c, x0(c)), inv(c, "bins so far", y == y0(c), x == x0(c), t < c.it)], hints=lambda c: at(c) + inside(c) + [ddef(c, x0(c), y0(c), c.it)], dec=lambda c: T(c) - c.it)}
    return Contract("vl_dsift_transpose_descriptor", args=["dst", "src", "numBinT", "numBinX", "numBinY"], params=dict(dst="O", src="I"), regions={"O": dict(ty="float", count=lambda c: bn(ry(X(c)))), "I": dict(ty="float", count=lambda c: bn(rx(Y(c))))}, requires=lambda c: [("sizes", And(*[And(n(c) >= 1, n(c) < 2 ** 10) for n in (T, X, Y)]))],
                    hints=lambda c: bn.axioms(c) + rx.axioms(c, Y(c)) + ry.axioms(c, X(c)) + [rx(Y(c)) <= 2 ** 20, ry(X(c)) <= 2 ** 20, bn(rx(Y(c))) <= 2 ** 30, bn(ry(X(c))) <= 2 ** 30, z3.ForAll([x, y, t], ddef(c, x, y, t), patterns=[d(x, y, t)])], modifies=lambda c: [("O", None, None, None)], loops=L, ensures=lambda c: [inv(c, "bins of the transposed patch")])


def set_geometry():
    g = lambda c: (lambda *f: c.pre.at("G", 0, f[1]) if f[0] == "geom" else F0(c, *f))
    return Contract("vl_dsift_set_geometry", args=["self", "geom"], params=dict(self="S", geom="G"), regions=dict(SELF(), G=dict(ty="VlDsiftDescriptorGeometry_")), requires=lambda c: [("parameters", params_ok(g(c)))], hints=lambda c: [counts(g(c), "x"), counts(g(c), "y")], modifies=mods(("geom",)), ensures=lambda c: [(f, F(c, "geom", f) == c.pre.at("G", 0, f)) for f in GEOM] + post(c))


FS = z3.Function("fast_sqrt", REAL, REAL)
EXP, PROD, QUO = z3.Function("exp", REAL, REAL), z3.Function("product", REAL, REAL, REAL), z3.Function("quotient", REAL, REAL, REAL)


def fastsqrt():
    c = Contract("vl_fast_sqrt_f", args=["x"], ensures=lambda c: [c.ret == FS(c.x)])
    c.assumed = True      # how far from the square root is decided in P07
    return c


def normalise(fn):
    n = lambda c: c.endoff
    SQ = z3.Function("sum_of_squares", INT, REAL)
    h, h0 = (lambda c, i: c.at("H", i)), (lambda c, i: c.pre.at("H", i))
    norm = lambda c: FS(SQ(n(c))) + z3.Q(1, 2 ** 23)
    p = lambda c: c.v("iter")
    L = {"0": Loop(inv=lambda c: [("range", And(p(c) >= 0, p(c) <= n(c))), ("sum of squares", c.v("norm") == SQ(p(c)))], hints=lambda c: [SQ(I(0)) == 0, SQ(p(c) + 1) == SQ(p(c)) + PROD(h0(c, p(c)), h0(c, p(c)))], dec=lambda c: n(c) - p(c)),
         "1": Loop(inv=lambda c: [("range", And(p(c) >= 0, p(c) <= n(c))), ("divided so far", forall(lambda i: h(c, i) == QUO(h0(c, i), norm(c)), 0, p(c), pat=lambda i: h(c, i))), ("rest", forall(lambda i: h(c, i) == h0(c, i), p(c), n(c), pat=lambda i: h(c, i)))], dec=lambda c: n(c) - p(c))}
    return Contract(fn, args=["begin", "end"], params=dict(begin="H", end="H"), offsets={"end": "endoff"}, regions={"H": dict(ty="float", count=n)}, requires=lambda c: [And(n(c) >= 0, n(c) < 2 ** 31)], modifies=lambda c: [("H", None, I(0), n(c))], loops=L,
                    ensures=lambda c: [("divided by the norm plus epsilon", forall(lambda i: h(c, i) == QUO(h0(c, i), norm(c)), 0, n(c), pat=lambda i: h(c, i))), ("returns it", c.ret == norm(c))])


SM = [outs("bounds", ["minX", "minY", "maxX", "maxY"], ["boundMinX", "boundMinY", "boundMaxX", "boundMaxY"]), outs("steps", ["stepX", "stepY"], ["stepX", "stepY"])] + [getter("descriptor_size", "descrSize"), getter("keypoint_num", "numFrames"), getter("flat_window", "useFlatWindow"), getter("window_size", "windowSize")] + [plain("flat_window", "useFlatWindow", "useFlatWindow"), plain("window_size", "windowSize", "windowSize")]
SET = [update(), setter("steps", ["stepX", "stepY"], ["stepX", "stepY"]), setter("bounds", ["minX", "minY", "maxX", "maxY"], ["boundMinX", "boundMinY", "boundMaxX", "boundMaxY"]), set_geometry()]
ALL = ("-femit-all-decls",)
UNITS = [Unit("vl/dsift.c", SM + SET, flags=ALL, fp="real"), Unit("vl/dsift.c", [transpose()], flags=ALL, fp="real"), Unit("vl/dsift.c", [normalise("_vl_dsift_normalize_histogram")], uses=[fastsqrt()], fp="real", axioms=("absmul", "absdiv"))]
PROP = Prop("P25", units=UNITS, oracles=[Oracle("dsift.c", what="dense SIFT against its definition", always=True, iters=(1500, 40000))], bounded=["vl_dsift_process, vl_dsift_new, buffer allocation: random images, bounds, steps and geometries against a reference, several calls on one filter"])
