from vcg.spec import *

POW = z3.Function("pow", REAL, REAL, REAL)
EXP2 = lambda x: POW(z3.RealVal(2), x)
FIELDS = ["width", "height", "firstOctave", "lastOctave", "octaveResolution", "octaveFirstSubdivision", "octaveLastSubdivision", "baseScale", "nominalScale"]
GEO = lambda: dict(ty="_VlScaleSpaceGeometry")
SELF = lambda: {"S": dict(ty="_VlScaleSpace")}
geo = lambda c, f: c.pre.at("S", 0, "geom", f)
SGN = ("firstOctave", "lastOctave", "octaveFirstSubdivision", "octaveLastSubdivision")


def equal():
    return Contract("vl_scalespacegeometry_is_equal", args=["a", "b"], params=dict(a="A", b="B"), regions={"A": GEO(), "B": GEO()}, ensures=lambda c: [("equal when all the fields are", (c.ret != 0) == And(*[c.pre.at("A", 0, f) == c.pre.at("B", 0, f) for f in FIELDS])), ("a truth value", Or(c.ret == 0, c.ret == 1))])


def get_geometry():
    return Contract("vl_scalespace_get_geometry", args=["agg.result", "self"], params={"agg.result": "G", "self": "S"}, regions=dict(SELF(), G=GEO()), modifies=lambda c: [("G", None, None, None)], ensures=lambda c: [(f, c.at("G", 0, f) == geo(c, f)) for f in FIELDS])


def sigma():
    s, o, r = (lambda c: c.s), (lambda c: c.o), (lambda c: geo(c, "octaveResolution"))
    lim = lambda x: And(x > -2 ** 31, x < 2 ** 31)
    return Contract("vl_scalespace_get_level_sigma", args=["self", "o", "s"], params=dict(self="S"), regions=SELF(), requires=lambda c: [And(lim(o(c)), lim(s(c)), r(c) >= 1, r(c) < 2 ** 31)],
                    ensures=lambda c: [("base scale times 2 to the o + s / resolution", c.ret == geo(c, "baseScale") * EXP2(z3.ToReal(o(c)) + z3.ToReal(s(c)) / z3.ToReal(r(c))))])


def octave(neg):
    """octaves are told apart: up to 0 (up-sampled) and above"""
    P = z3.Int("two_to_the_octave")
    k = lambda c: -c.o if neg else c.o
    pw = lambda c: z3.Or(*[And(k(c) == j, P == 2 ** j) for j in range(0 if neg else 1, 20)])
    g = lambda c, f: c.at("G", 0, f)
    new = lambda c, f: geo(c, f) * P if neg else geo(c, f) / P
    return Contract("vl_scalespace_get_octave_geometry", args=["agg.result", "self", "o"], params={"agg.result": "G", "self": "S"}, regions=dict(SELF(), G=dict(ty="_VlScaleSpaceOctaveGeometry")), requires=lambda c: [("octave", And(c.o > -20, c.o <= 0) if neg else And(c.o > 0, c.o < 20)), ("size", And(geo(c, "width") < 2 ** 31, geo(c, "height") < 2 ** 31))], hints=lambda c: [pw(c)],
                    modifies=lambda c: [("G", None, None, None)], ensures=lambda c: [("width", g(c, "width") == new(c, "width")), ("height", g(c, "height") == new(c, "height")), ("step", g(c, "step") == EXP2(z3.ToReal(c.o)))])


def default():
    g = lambda c, f: c.at("G", 0, f)
    lim = lambda x: And(x >= 1, x < 2 ** 31)
    m = lambda c: If(c.width < c.height, c.width, c.height)
    return Contract("vl_scalespace_get_default_geometry", args=["agg.result", "width", "height"], params={"agg.result": "G"}, regions={"G": GEO()}, requires=lambda c: [And(lim(c.width), lim(c.height))], modifies=lambda c: [("G", None, None, None)],
                    ensures=lambda c: [("size", And(g(c, "width") == c.width, g(c, "height") == c.height)), ("octaves start at the image", g(c, "firstOctave") == 0), ("a valid range of octaves", g(c, "lastOctave") >= 0), ("three levels an octave", And(g(c, "octaveResolution") == 3, g(c, "octaveFirstSubdivision") == 0, g(c, "octaveLastSubdivision") == 2)), ("nominal scale", g(c, "nominalScale") == z3.RealVal("0.5"))])


def down():
    w, h, d = (lambda c: c.width), (lambda c: c.height), (lambda c: c.numOctaves)
    S = z3.Int("two_to_the_octaves")
    st, sr, dr = Row("sample", lambda c: S), Row("source", lambda c: w(c)), Row("dest", lambda c: w(c) / S)
    W2, H2 = (lambda c: w(c) / S), (lambda c: h(c) / S)
    cell = z3.Function("small_cell", INT, INT, INT)
    i, k = z3.Ints("i!d k!d")
    O, s0 = (lambda c, a: c.at("O", a)), (lambda c, y, x: c.pre.at("I", sr(st(y)) + st(x)))
    rows = lambda c, hi, what="rows so far": (what, z3.ForAll([i, k], Implies(And(i >= 0, i < hi, k >= 0, k < W2(c)), O(c, cell(i, k)) == s0(c, i, k)), patterns=[cell(i, k)]))
    row = lambda c, y, hi: ("row so far", forall(lambda x: O(c, cell(y, x)) == s0(c, y, x), 0, hi, pat=lambda x: cell(y, x)))
    div = lambda c: [And(W2(c) >= 0, W2(c) * S <= w(c), w(c) < W2(c) * S + S, st(W2(c)) == W2(c) * S), And(H2(c) >= 0, H2(c) * S <= h(c), h(c) < H2(c) * S + S, st(H2(c)) == H2(c) * S)]
    pw = lambda c: z3.Or(*[And(d(c) == j, S == 2 ** j) for j in range(1, 31)])
    axm = lambda c: st.axioms(c) + sr.axioms(c, h(c)) + dr.axioms(c, H2(c)) + div(c) + [z3.ForAll([i, k], cell(i, k) == dr(i) + k, patterns=[cell(i, k)])]
    i0 = lambda c: c.itof("0")
    below = lambda f, a, b: [Implies(a < b, f(a) + f.stride(None) <= f(b))]
    L = {"0": Loop(inv=lambda c: [("range", And(c.it <= H2(c), c.v("y") == st(c.it))), ("cursor", c.v("destination") == dr(c.it)), rows(c, c.it)], hints=lambda c: st.at(c, c.it) + dr.at(c, c.it) + sr.at(c, st(c.it)) + [Implies(c.it < H2(c), st(c.it) + S <= st(H2(c))), Implies(c.it >= H2(c), st(c.it) >= st(H2(c)))], dec=lambda c: H2(c) - c.it),
         "0.0": Loop(inv=lambda c: [("range", And(c.it <= W2(c), c.v("x") == st(c.it))), ("cursor", And(c.v("destination") == dr(i0(c)) + c.it, c.v("p") == sr(st(i0(c))) + st(c.it))), rows(c, i0(c)), row(c, i0(c), c.it)], hints=lambda c: st.at(c, c.it) + [cell(i0(c), c.it) == dr(i0(c)) + c.it, Implies(c.it < W2(c), st(c.it) + S <= st(W2(c))), Implies(c.it >= W2(c), st(c.it) >= st(W2(c))), Implies(st(i0(c)) < h(c), sr(st(i0(c))) + w(c) <= sr(h(c))), dr(i0(c)) + W2(c) <= dr(H2(c))], dec=lambda c: W2(c) - c.it)}
    return Contract("copy_and_downsample", args=["destination", "source", "width", "height", "numOctaves"], params=dict(destination="O", source="I"), regions={"O": dict(ty="float", count=lambda c: dr(H2(c))), "I": dict(ty="float", count=lambda c: sr(h(c)))}, requires=lambda c: [("sizes", And(w(c) >= 1, w(c) < 2 ** 30, h(c) >= 1, h(c) < 2 ** 30)), ("octaves", And(d(c) >= 1, d(c) <= 30))],
                    hints=lambda c: axm(c) + [pw(c)], modifies=lambda c: [("O", None, None, None)], loops=L, ensures=lambda c: [rows(c, H2(c), "every 2^d-th pixel of every 2^d-th row")])


def copy0():
    w, h = (lambda c: c.width), (lambda c: c.height)
    sr = Row("source", lambda c: w(c))
    n = lambda c: sr(h(c))
    return Contract("copy_and_downsample", args=["destination", "source", "width", "height", "numOctaves"], params=dict(destination="O", source="I"), regions={"O": dict(ty="float", count=n), "I": dict(ty="float", count=n)}, requires=lambda c: [("sizes", And(w(c) >= 1, w(c) < 2 ** 30, h(c) >= 1, h(c) < 2 ** 30))], known=lambda c: c.numOctaves == 0, cover=False,
                    hints=lambda c: sr.axioms(c, h(c)), modifies=lambda c: [("O", None, None, None)], ensures=lambda c: [("a copy", forall(lambda a: c.at("O", a) == c.pre.at("I", a), 0, n(c), pat=lambda a: c.at("O", a)))])


def up():
    w, h = (lambda c: c.width), (lambda c: c.height)
    sr, dr = Row("source", lambda c: w(c)), Row("dest", lambda c: 4 * w(c))
    f = z3.Function("large_cell", INT, INT, INT)
    i, k = z3.Ints("i!u k!u")
    nxt = lambda a, n: If(a < n - 1, a + 1, a)
    src = lambda c, y, x: c.pre.at("I", sr(y) + x)
    down_ = lambda c, y: If(y < h(c) - 1, sr(y) + w(c), sr(y))
    v = lambda c, y, x: (src(c, y, x), c.pre.at("I", sr(y) + nxt(x, w(c))), c.pre.at("I", down_(c, y) + x), c.pre.at("I", down_(c, y) + nxt(x, w(c))))
    def four(c, y, x):
        v00, v10, v01, v11 = v(c, y, x)
        a = f(y, x)
        return [("pixel", c.at("O", a) == v00), ("between columns", c.at("O", a + 1) == (v00 + v10) / 2), ("between rows", c.at("O", a + 2 * w(c)) == (v00 + v01) / 2), ("between both", c.at("O", a + 2 * w(c) + 1) == (v00 + v01 + v10 + v11) / 4)]
    names = [x for x, _ in [("pixel", 0), ("between columns", 0), ("between rows", 0), ("between both", 0)]]
    rows = lambda c, hi: [(nm, z3.ForAll([i, k], Implies(And(i >= 0, i < hi, k >= 0, k < w(c)), four(c, i, k)[j][1]), patterns=[f(i, k)])) for j, nm in enumerate(names)]
    row = lambda c, y, hi: [(nm + ", row", forall(lambda x: four(c, y, x)[j][1], 0, hi, pat=lambda x: f(y, x))) for j, nm in enumerate(names)]
    y0 = lambda c: c.itof("0")
    col = lambda c: If(c.it < w(c), c.it, w(c) - 1)
    L = {"0": Loop(inv=lambda c: [("range", And(c.it <= h(c), c.v("y") == c.it)), ("cursors", And(c.v("source") == sr(c.it), c.v("destination") == dr(c.it)))] + rows(c, c.it), hints=lambda c: sr.at(c, c.it) + dr.at(c, c.it) + [Implies(c.it < h(c), And(sr(c.it) + w(c) <= sr(h(c)), dr(c.it) + 4 * w(c) <= dr(h(c)))), Implies(c.it + 1 < h(c), sr(c.it) + 2 * w(c) <= sr(h(c)))], dec=lambda c: h(c) - c.it),
         "0.0": Loop(inv=lambda c: [("range", And(c.it <= w(c), c.v("x") == c.it)), ("cursors", And(c.v("source") == sr(y0(c)) + c.it, c.v("destination") == dr(y0(c)) + 2 * c.it)), ("next pixels", And(c.v("v10") == src(c, y0(c), col(c)), c.v("v11") == c.pre.at("I", down_(c, y0(c)) + col(c))))] + rows(c, y0(c)) + row(c, y0(c), c.it), hints=lambda c: [f(y0(c), c.it) == dr(y0(c)) + 2 * c.it], dec=lambda c: w(c) - c.it)}
    return Contract("copy_and_upsample", args=["destination", "source", "width", "height"], params=dict(destination="O", source="I"), regions={"O": dict(ty="float", count=lambda c: dr(h(c))), "I": dict(ty="float", count=lambda c: sr(h(c)))}, requires=lambda c: [("sizes", And(w(c) >= 1, w(c) < 2 ** 29, h(c) >= 1, h(c) < 2 ** 29))],
                    hints=lambda c: sr.axioms(c, h(c)) + dr.axioms(c, h(c)) + [z3.ForAll([i, k], f(i, k) == dr(i) + 2 * k, patterns=[f(i, k)])], modifies=lambda c: [("O", None, None, None)], loops=L, ensures=lambda c: rows(c, h(c)))


UNITS = [Unit("vl/scalespace.c", [equal(), get_geometry(), sigma(), default()], fp="real"), Unit("vl/scalespace.c", [octave(True)], fp="real"), Unit("vl/scalespace.c", [octave(False)], fp="real"), Unit("vl/scalespace.c", [down()], fp="real"), Unit("vl/scalespace.c", [copy0()], fp="real"), Unit("vl/scalespace.c", [up()], fp="real")]
PROP = Prop("P24", units=UNITS, oracles=[Oracle("scalespace.c", san=True, what="random small images and geometries: every level against a reference, under the address sanitizer", always=True, iters=(4000, 60000))], bounded=["vl_scalespace_put_image, vl_scalespace_get_level, allocation and copies: random geometries and images against a reference, under the address sanitizer"])
