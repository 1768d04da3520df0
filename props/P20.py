import struct
from vcg.spec import *

PROD, QUO, SQRT = z3.Function("product", REAL, REAL, REAL), z3.Function("quotient", REAL, REAL, REAL), z3.Function("sqrt", REAL, REAL)
NS = z3.Function("cell_energy", INT, INT, REAL)                 # (cell, orientations added)
FC = z3.Function("block_factor", INT, INT, REAL)                # (block 1..4, cell)
TX = z3.Function("texture", INT, INT, INT, REAL)                # (block, cell, orientations added)
dbl = lambda x: z3.Q(*x.as_integer_ratio())
DALAL, UOCTTI = 0, 1


def extract():
    S = lambda c, n: c.pre.at("S", None, n)
    HW, HH, no, var = (lambda c: S(c, "hogWidth")), (lambda c: S(c, "hogHeight")), (lambda c: S(c, "numOrientations")), (lambda c: S(c, "variant"))
    tr = lambda c: S(c, "transposed") != 0
    ry = Row("cellrows", HW)
    area = lambda c: ry(HH(c))
    rk = Row("planes", area)
    cell = Cell("planes", rk)
    hog = lambda c, d, q: c.pre.at("H", cell(d, q))
    at = lambda c, *ks: sum([[rk(k) == HW(c) * HH(c) * k, rk(k + 1) == rk(k) + area(c)] for k in ks], []) + [HW(c) * HH(c) == area(c)]     # rk(k) = (HW HH) k
    add = lambda c, k: [rk(k + j * no(c)) == rk(k) + j * rk(no(c)) for j in range(1, 4)] + [rk(j * no(c)) == j * rk(no(c)) for j in (2, 3)] + [rk(3 * no(c) + j) == 3 * rk(no(c)) + j * area(c) for j in range(5)] + \
        [cell(k, z) == rk(k) + z for z in ()]

    def energy(c, q, k):
        h = hog(c, k, q) + hog(c, k + no(c), q)
        return [z3.ForAll([z3.Int("q!0")], NS(z3.Int("q!0"), I(0)) == 0, patterns=[NS(z3.Int("q!0"), I(0))]), NS(q, k + 1) == NS(q, k) + PROD(h, h)]
    m = lambda x: If(x <= dbl(0.2), x, dbl(0.2))
    ha = lambda c, j, d, q: PROD(FC(I(j), q), hog(c, d, q))
    hc = lambda c, j, k, q: m(ha(c, j, k, q) + ha(c, j, k + no(c), q))

    def tex(c, q, k):
        return [TX(I(j), q, I(0)) == 0 for j in range(1, 5)] + [TX(I(j), q, k + 1) == TX(I(j), q, k) + hc(c, j, k, q) for j in range(1, 5)]
    s4 = lambda f: dbl(0.5) * (f(1) + f(2) + f(3) + f(4))
    CT = QUO(z3.RealVal(1), SQRT(z3.RealVal(18)))

    def value(c, d, q):
        """feature number d of cell q"""
        n = no(c)
        ori = s4(lambda j: m(ha(c, j, d, q)))
        un = s4(lambda j: hc(c, j, d - 2 * n, q))
        t = lambda j: PROD(CT, TX(I(j), q, n))
        uo = If(d < 2 * n, ori, If(d < 3 * n, un, If(d == 3 * n, t(1), If(d == 3 * n + 1, t(2), If(d == 3 * n + 2, t(3), t(4))))))
        da = If(d < n, hc(c, 1, d, q), If(d < 2 * n, hc(c, 2, d - n, q), If(d < 3 * n, hc(c, 3, d - 2 * n, q), hc(c, 4, d - 3 * n, q))))
        return If(var(c) == UOCTTI, uo, da)
    dims = lambda c: If(var(c) == UOCTTI, 3 * no(c) + 4, 4 * no(c))
    FV = z3.Function("feature", INT, INT, REAL)

    def inst(c, k, q):
        """instances of the definition of the features at d = k + j*n"""
        n = no(c)
        uo = [FV(k, q) == s4(lambda j: m(ha(c, j, k, q))), FV(k + n, q) == s4(lambda j: m(ha(c, j, k + n, q))), FV(k + 2 * n, q) == s4(lambda j: hc(c, j, k, q))]
        return [Implies(And(k >= 0, k < n), If(var(c) == UOCTTI, And(*uo), And(*[FV(k + (j - 1) * n, q) == hc(c, j, k, q) for j in range(1, 5)])))] + [cell(k + j * n, q) == rk(k) + j * rk(n) + q for j in range(4)]

    def fvdef(c):
        d, q = z3.Ints("d!v q!v")
        return [z3.ForAll([d, q], FV(d, q) == value(c, d, q), patterns=[FV(d, q)])]
    norms = lambda c, f, lo, hi, w="energies": (w, forall(lambda q: c.at("N", q) == f(q), lo, hi, pat=lambda q: NS(q, no(c))))
    full = lambda c: norms(c, lambda q: NS(q, no(c)), I(0), area(c))

    def feats(c, hi):
        d, q = z3.Ints("d!f q!f")
        return ("features of earlier cells", z3.ForAll([d, q], Implies(And(d >= 0, d < dims(c), q >= 0, q < hi), c.at("F", cell(d, q)) == FV(d, q)), patterns=[cell(d, q)]))
    yy, xx, q = (lambda c: c.v("y")), (lambda c: c.v("x")), (lambda c: ry(c.v("y")) + c.v("x"))

    def factors(c):
        y, x = yy(c), xx(c)
        nn = lambda v, u: c.at("N", u + v * HW(c))
        xm, xp, ym, yp = If(0 < x - 1, x - 1, I(0)), If(x + 1 < HW(c) - 1, x + 1, HW(c) - 1), If(0 < y - 1, y - 1, I(0)), If(y + 1 < HH(c) - 1, y + 1, HH(c) - 1)
        inv = lambda s: QUO(z3.RealVal(1), SQRT(s + dbl(1e-4)))
        f = [inv(nn(a, b) + nn(a, e) + nn(g, b) + nn(g, e)) for a, g, b, e in ((ym, y, xm, x), (ym, y, x, xp), (y, yp, xm, x), (y, yp, x, xp))]
        return [FC(I(1), q(c)) == f[0], FC(I(4), q(c)) == f[3], FC(I(2), q(c)) == If(tr(c), f[2], f[1]), FC(I(3), q(c)) == If(tr(c), f[1], f[2])] + ry.at(c, ym, y, yp) + [nn(a, b) == nn(a, b) for a in () for b in ()]

    def done(c, k):
        d = z3.Int("d!g")
        n = no(c)
        grp = lambda g: z3.ForAll([d], Implies(And(d >= g * n, d < g * n + k, d < dims(c), *([var(c) == DALAL] if g == 3 else [])), c.at("F", cell(d, q(c))) == FV(d, q(c))), patterns=[cell(d, q(c))])
        return [("this cell so far, group %d" % g, grp(g)) for g in range(4)]
    TN = ["t1", "t2", "t3", "t4"]
    k0 = lambda c: c.itof("0")
    W = 2 ** 20
    L = {"0": Loop(inv=lambda c: [("range", c.it <= no(c)), ("at the plane", c.v("iter") == rk(c.it)), norms(c, lambda q: NS(q, c.it), I(0), area(c))], hints=lambda c: at(c, c.it, no(c)), dec=lambda c: no(c) - c.it),
         "0.0": Loop(inv=lambda c: [("range", And(c.v("niter") >= 0, c.v("niter") <= area(c))), ("in step", c.v("iter") == rk(k0(c)) + c.v("niter")), norms(c, lambda q: NS(q, k0(c) + 1), I(0), c.v("niter"), "done"), norms(c, lambda q: NS(q, k0(c)), c.v("niter"), area(c), "rest")],
                     hints=lambda c: energy(c, c.v("niter"), k0(c)) + add(c, k0(c)) + [cell(k0(c), c.v("niter")) == rk(k0(c)) + c.v("niter"), cell(k0(c) + no(c), c.v("niter")) == rk(k0(c) + no(c)) + c.v("niter")], dec=lambda c: area(c) - c.v("niter")),
         "1": Loop(inv=lambda c: [("range", And(yy(c) >= 0, yy(c) <= HH(c))), ("at the row", c.v("iter") == ry(yy(c))), full(c), feats(c, ry(yy(c)))], hints=lambda c: ry.at(c, yy(c)) + at(c, no(c)), dec=lambda c: HH(c) - yy(c)),
         "1.0": Loop(inv=lambda c: [("range", And(xx(c) >= 0, xx(c) <= HW(c))), ("at the cell", c.v("iter") == q(c)), feats(c, q(c))], hints=lambda c: factors(c) + tex(c, q(c), I(0)) + add(c, I(0)), dec=lambda c: HW(c) - xx(c)),
         "1.0.0": Loop(inv=lambda c: [("range", And(c.it >= 0, c.it <= no(c))), ("output cursor", c.v("oiter") == rk(c.it) + q(c))] + [("texture %d" % (j + 1), c.v(TN[j]) == TX(I(j + 1), q(c), c.it)) for j in range(4)] + [("factor %d" % (j + 1), c.v("factor%d" % (j + 1)) == FC(I(j + 1), q(c))) for j in range(4)] + [feats(c, q(c))] + done(c, c.it),
                       hints=lambda c: at(c, c.it, no(c), c.it + no(c)) + add(c, c.it) + tex(c, q(c), c.it) + inst(c, c.it, q(c)), dec=lambda c: no(c) - c.it)}
    return Contract("vl_hog_extract", args=["self", "features"], params=dict(self="S", features="F"),
                    regions={"S": dict(ty="VlHog_", links={"hog": "H", "hogNorm": "N"}), "F": dict(ty="float", count=lambda c: rk(dims(c))), "H": dict(ty="float", count=lambda c: rk(2 * no(c))), "N": dict(ty="float", count=area)},
                    requires=lambda c: [("sizes", And(HW(c) >= 1, HW(c) < W, HH(c) >= 1, HH(c) < W, no(c) >= 1, no(c) < 2 ** 16)), ("variant", Or(var(c) == DALAL, var(c) == UOCTTI))],
                    hints=lambda c: ry.axioms(c, HH(c)) + rk.axioms(c, no(c), 2 * no(c), dims(c)) + cell.axioms() + fvdef(c) + at(c, 2 * no(c), no(c)) + add(c, I(0)) + energy(c, I(0), I(0)), modifies=lambda c: [("F", None, None, None), ("N", None, None, None)],
                    ensures=lambda c: [feats(c, area(c)), full(c)], loops=L)


UNITS = [Unit("vl/hog.c", [extract()], fp="real", axioms=("absdiv", "absmul"))]
PROP = Prop("P20", units=UNITS, oracles=[Oracle("hog.c", what="random small images and polar fields, both variants, orientations, bilinear or not, flipped and transposed", always=True, iters=(12000, 100000))], bounded=["vl_hog_put_image, vl_hog_put_polar_field, vl_hog_new: random small images against the definition"])
