from vcg.spec import *
from props.P05 import TERMS, ZERO

SUM = z3.Function("sum", INT, REAL)


def lanes(v):
    return z3.Sum(list(v))


def simd(fn, ty, names, term, width, post=lambda s: s, scale=1):
    """vector loops (aligned, unaligned) and a scalar tail, together the sum of term over all coordinates; `scale`: the accumulator is sum/scale"""
    al = 32 if "avx" in fn else 16

    def t(c, i):
        return term(c, *[c.pre.at(n, i) for n in names])

    def unfold(c, k0, n):
        return [SUM(k0 + j + 1) == SUM(k0 + j) + t(c, k0 + j) for j in range(n)]
    same = lambda c: ("cursors agree", And(*[c.v(n) == c.v(names[0]) for n in names[1:]]))
    aligned = lambda c: ("the cursors stay aligned", And(*[c.eng.ptr_id(c.pv(n)) % al == 0 for n in names]))
    vec = lambda a=False: Loop(inv=lambda c: ([aligned(c)] if a else []) + [same(c), ("in range", And(c.v(names[0]) >= 0, c.v(names[0]) <= c.dimension)), ("lanes add up to the partial sum", scale * lanes(c.pv("vacc")) == SUM(c.v(names[0])))],
                       hints=lambda c: unfold(c, c.v(names[0]), width), dec=lambda c: c.dimension - c.v(names[0]))
    return Contract(fn, args=["dimension"] + names, params={n: n for n in names}, regions={n: dict(ty=ty, count=lambda c: c.dimension) for n in names},
                    requires=lambda c: [("size", And(c.dimension >= 0, c.dimension < 2 ** 44))], hints=lambda c: [SUM(I(0)) == 0],
                    ensures=lambda c: [("is the scalar result", c.ret == post(SUM(c.dimension)))],
                    loops={"0": vec(True), "1": vec(), "2": Loop(inv=lambda c: [same(c), ("in range", And(c.v(names[0]) >= 0, c.v(names[0]) <= c.dimension)), ("partial sum", scale * c.v("acc") == SUM(c.v(names[0])))],
                                                             hints=lambda c: unfold(c, c.v(names[0]), 1), dec=lambda c: c.dimension - c.v(names[0]))})


def weighted(fn, ty, dst, names, new, width):
    """dst[i] becomes new(old dst[i], W, ...)"""
    def done(c, hi):
        return forall(lambda i: c.at(dst, i) == If(i < hi, new(c.pre.at(dst, i), c.W, *[c.pre.at(n, i) for n in names]), c.pre.at(dst, i)), 0, c.dimension, pat=lambda i: c.at(dst, i))
    al = 32 if "avx" in fn else 16
    aligned = lambda c: ("the cursors stay aligned", And(*[c.eng.ptr_id(c.pv(n)) % al == 0 for n in names + [dst]]))
    loop = lambda a=False: Loop(inv=lambda c: ([aligned(c)] if a else []) + [("cursors agree", And(*[c.v(n) == c.v(names[0]) for n in names[1:] + [dst]])), ("in range", And(c.v(names[0]) >= 0, c.v(names[0]) <= c.dimension)), ("updated so far", done(c, c.v(names[0])))],
                        dec=lambda c: c.dimension - c.v(names[0]))
    return Contract(fn, args=["dimension", dst] + names + ["W"], params={n: n for n in names + [dst]}, regions={n: dict(ty=ty, count=lambda c: c.dimension) for n in names + [dst]},
                    requires=lambda c: [("size", And(c.dimension >= 0, c.dimension < 2 ** 44))], modifies=lambda c: [(dst, None, I(0), c.dimension)],
                    ensures=lambda c: [("every coordinate is updated", done(c, c.dimension))], loops={"0": loop(True), "1": loop(), "2": loop()})


def hsum(fn, width):
    return Contract(fn, args=["x"], ensures=lambda c: [("adds all lanes", c.ret == lanes(c._args["x"]))])


MAHA = lambda c, x, m, s: (x - m) * (x - m) * s
units = []
for sfx, ty, w in (("f", "float", 4), ("d", "double", 2)):
    # (2xy)/(x+y) of P05, written as twice the quotient the vector code accumulates
    T = lambda k: TERMS[k][0] if k != "kernel_chi2" else lambda c, x, y: If(x + y == 0, ZERO, 2 * (x * y / (x + y)))
    cs = [hsum("_vl_vhsum_sse2_" + sfx, w)]
    for k, name, sc in (("kernel_l2", "dot", 1), ("distance_l2", "distance_l2", 1), ("distance_l1", "distance_l1", 1), ("distance_chi2", "distance_chi2", 1), ("kernel_l2", "kernel_l2", 1), ("kernel_l1", "kernel_l1", 1), ("kernel_chi2", "kernel_chi2", 2)):
        cs.append(simd("_vl_%s_sse2_%s" % (name, sfx), ty, ["X", "Y"], T(k), w, TERMS[k][1] or (lambda s: s), sc))
    cs.append(simd("_vl_distance_mahalanobis_sq_sse2_" + sfx, ty, ["X", "MU", "S"], MAHA, w))
    MEAN, SIGMA = (lambda d, W, x: d + x * W), (lambda d, W, x, y: d + (x - y) * (x - y) * W)
    cs.append(weighted("_vl_weighted_mean_sse2_" + sfx, ty, "MU", ["X"], MEAN, w))
    cs.append(weighted("_vl_weighted_sigma_sse2_" + sfx, ty, "S", ["X", "Y"], SIGMA, w))
    units.append(Unit("vl/mathop_sse2.c", cs, fp="real", flags=("-msse2",)))
    av = [hsum("_vl_vhsum_avx_" + sfx, 2 * w), simd("_vl_distance_l2_avx_" + sfx, ty, ["X", "Y"], T("distance_l2"), 2 * w), simd("_vl_distance_mahalanobis_sq_avx_" + sfx, ty, ["X", "MU", "S"], MAHA, 2 * w),
          weighted("_vl_weighted_mean_avx_" + sfx, ty, "MU", ["X"], MEAN, 2 * w), weighted("_vl_weighted_sigma_avx_" + sfx, ty, "S", ["X", "Y"], SIGMA, 2 * w)]
    units.append(Unit("vl/mathop_avx.c", av, fp="real", flags=("-mavx",)))



def chi2():
    x, y = z3.Reals("x y")
    return [Lemma("chi2 kernel term as twice a quotient", [x + y != 0], 2 * x * y / (x + y) == 2 * (x * y / (x + y)))]


PROP = Prop("P06", units=units, lemmas=chi2, oracles=[Oracle("veccomp.c", what="every vectorised function against the documented sum, all tails and alignments")])
