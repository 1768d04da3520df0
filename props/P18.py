import struct
from vcg.spec import *

PROD, QUO, SQRT = z3.Function("product", REAL, REAL, REAL), z3.Function("quotient", REAL, REAL, REAL), z3.Function("sqrt", REAL, REAL)
ACC = z3.Function("votes", INT, INT, INT, REAL)                  # (position, row, column reached)
NS = z3.Function("cell_mass", INT, INT, REAL)                    # (cell, bins added)
FY, FX = z3.Function("cell_row", INT, INT), z3.Function("cell_column", INT, INT)
BIN = z3.Function("pattern_bin", INT, INT, INT)
HALF = z3.Q(1, 2)
f32 = lambda x: z3.Q(*struct.unpack("f", struct.pack("f", x))[0].as_integer_ratio())
NEIGHBOURS = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)]


def floor():
    return Contract("vl_floor_f", args=["x"], requires=lambda c: [("moderate", And(c.x > -2 ** 40, c.x < 2 ** 40))], ensures=lambda c: [("largest integer not above", c.ret == z3.ToInt(c.x))])


def process():
    W, H, cs = (lambda c: c.width), (lambda c: c.height), (lambda c: c.cellSize)
    IQ = z3.Function("intquotient", INT, INT, INT)
    CW, CH = (lambda c: IQ(W(c), cs(c))), (lambda c: IQ(H(c), cs(c)))
    dim = lambda c: c.pre.at("S", None, "dimension")
    ri, ry = Row("image", W), Row("cellrows", CW)
    rb = Row("bins", lambda c: ry(CH(c)))
    cell = Cell("bins", rb)
    at = lambda c, k: [rb(k) == CW(c) * CH(c) * k, CW(c) * CH(c) == ry(CH(c)), rb(k + 1) == rb(k) + ry(CH(c))]     # rb(k) = (CW CH) k
    F = lambda c, p: c.at("F", p)
    px = lambda c, x, y: c.pre.at("I", W(c) * y + x)
    yy, xx = (lambda c: c.v("y")), (lambda c: c.v("x"))
    WY, WX = (lambda c, y: QUO(z3.ToReal(y) + HALF, z3.ToReal(cs(c))) - HALF), (lambda c, x: QUO(z3.ToReal(x) + HALF, z3.ToReal(cs(c))) - HALF)

    def pattern(c, y, x):
        s = I(0)
        for k, (dx, dy) in enumerate(NEIGHBOURS):
            s = If(px(c, x + dx, y + dy) > px(c, x, y), s + (1 << k), s)
        return s
    xend, yend = (lambda c: Max(I(1), W(c) - 1)), (lambda c: Max(I(1), H(c) - 1))

    def vote(c, p, y, x):
        t = z3.RealVal(0)
        fy, fx = WY(c, y) - z3.ToReal(FY(y)), WX(c, x) - z3.ToReal(FX(x))
        for dy, wy in ((0, 1 - fy), (1, fy)):
            for dx, wx in ((0, 1 - fx), (1, fx)):
                v, u = FY(y) + dy, FX(x) + dx
                t = t + If(And(v >= 0, v < CH(c), u >= 0, u < CW(c), p == rb(BIN(y, x)) + ry(v) + u), PROD(wx, wy), 0)
        return t

    def defs(c, y, x):
        p = z3.Int("p!v")
        e = c.eng
        k = e.fresh("pattern", INT)
        q = QUO(z3.ToReal(y) + HALF, z3.ToReal(cs(c)))
        fl = [FY(y) == z3.ToInt(WY(c, y)), FX(x) == z3.ToInt(WX(c, x))]
        pos = [Implies(And(y >= 0, cs(c) > 0), And(QUO(z3.ToReal(y) + HALF, z3.ToReal(cs(c))) > 0, QUO(z3.ToReal(y) + HALF, z3.ToReal(cs(c))) <= z3.ToReal(y) + HALF)),
               Implies(And(x >= 0, cs(c) > 0), And(QUO(z3.ToReal(x) + HALF, z3.ToReal(cs(c))) > 0, QUO(z3.ToReal(x) + HALF, z3.ToReal(cs(c))) <= z3.ToReal(x) + HALF))]
        return fl + pos + [k == pattern(c, y, x), BIN(y, x) == c.pre.at("S", None, "mapping", k), k >= 0, k < 256,
                           z3.ForAll([p], ACC(p, I(1), I(1)) == 0, patterns=[ACC(p, I(1), I(1))]), z3.ForAll([p], ACC(p, y, x + 1) == ACC(p, y, x) + vote(c, p, y, x), patterns=[ACC(p, y, x + 1)]),
                           z3.ForAll([p], ACC(p, y + 1, I(1)) == ACC(p, y, xend(c)), patterns=[ACC(p, y + 1, I(1))])]
    skip = lambda c, y: z3.ForAll([z3.Int("p!s"), z3.Int("x!s")], Implies(And(FY(y) >= CH(c)), ACC(z3.Int("p!s"), y, z3.Int("x!s")) == ACC(z3.Int("p!s"), y, I(1))), patterns=[ACC(z3.Int("p!s"), y, z3.Int("x!s"))])
    size = lambda c: rb(dim(c))
    acc = lambda c, y, x: [("votes so far", forall(lambda p: F(c, p) == ACC(p, y, x), 0, size(c), pat=lambda p: ACC(p, y, x)))]
    AE = lambda c, p: ACC(p, yend(c), I(1))
    norm = lambda c, q: SQRT(NS(q, dim(c))) + f32(1e-10)
    final = lambda c, q, k: QUO(SQRT(AE(c, cell(k, q))), norm(c, q))
    area = lambda c: ry(CH(c))
    q = lambda c: c.v("features")
    k0 = lambda c: c.it

    def cells(c, lo, hi, f):
        k, p = z3.Ints("k!c q!c")
        return z3.ForAll([k, p], Implies(And(k >= 0, k < dim(c), p >= lo, p < hi), F(c, cell(k, p)) == f(p, k)), patterns=[cell(k, p)])
    raw = lambda c: (lambda p, k: AE(c, cell(k, p)))
    fin = lambda c: (lambda p, k: final(c, p, k))
    near = lambda c, y, x: ri.at(c, y - 1) + ri.at(c, y) + ri.at(c, y + 1) + ry.at(c, FY(y)) + ry.at(c, FY(y) + 1) + at(c, BIN(y, x))
    one = lambda c, f, lo, hi: [("this cell", forall(lambda k: F(c, cell(k, q(c))) == f(q(c), k), lo, hi, pat=lambda k: cell(k, q(c))))]
    rest = lambda c: [("cells before", cells(c, I(0), q(c), fin(c))), ("cells after", cells(c, q(c) + 1, area(c), raw(c)))]
    L = {"0": Loop(inv=lambda c: [("range", And(yy(c) >= 1, yy(c) <= yend(c)))] + acc(c, yy(c), I(1)), hints=lambda c: defs(c, yy(c), I(1)) + [skip(c, yy(c))], dec=lambda c: H(c) - yy(c)),
         "0.0": Loop(inv=lambda c: [("range", And(xx(c) >= 1, xx(c) <= xend(c)))] + acc(c, yy(c), xx(c)), hints=lambda c: defs(c, yy(c), xx(c)) + near(c, yy(c), xx(c)), dec=lambda c: W(c) - xx(c)),
         "1": Loop(inv=lambda c: [("range", And(c.v("cy") <= CH(c), c.v("cy") >= 0)), ("at the row", q(c) == ry(c.v("cy")))] + [("cells before", cells(c, I(0), q(c), fin(c))), ("cells after", cells(c, q(c), area(c), raw(c)))], hints=lambda c: ry.at(c, c.v("cy")), dec=lambda c: CH(c) - c.v("cy")),
         "1.0": Loop(inv=lambda c: [("range", And(c.v("cx") <= CW(c), c.v("cx") >= 0)), ("at the cell", q(c) == ry(c.v("cy")) + c.v("cx"))] + [("cells before", cells(c, I(0), q(c), fin(c))), ("cells after", cells(c, q(c), area(c), raw(c)))], hints=lambda c: [NS(q(c), I(0)) == 0], dec=lambda c: CW(c) - c.v("cx")),
         "1.0.0": Loop(inv=lambda c: [("range", And(c.it >= 0, c.it <= dim(c))), ("mass", c.v("norm") == NS(q(c), c.it))], hints=lambda c: [NS(q(c), c.it + 1) == NS(q(c), c.it) + AE(c, cell(c.it, q(c)))] + at(c, c.it), dec=lambda c: dim(c) - c.it),
         "1.0.1": Loop(inv=lambda c: [("range", And(c.it >= 0, c.it <= dim(c)))] + one(c, fin(c), I(0), c.it) + [("rest of this cell", one(c, raw(c), c.it, dim(c))[0][1])] + rest(c), hints=lambda c: at(c, c.it), dec=lambda c: dim(c) - c.it)}
    return Contract("vl_lbp_process", args=["self", "features", "image", "width", "height", "cellSize"], params=dict(self="S", features="F", image="I"),
                    regions={"S": dict(ty="VlLbp_", signed={"mapping": False}), "F": dict(ty="float", count=size), "I": dict(ty="float", count=lambda c: ri(H(c)))},
                    requires=lambda c: [("sizes", And(W(c) >= 0, W(c) < 2 ** 20, H(c) >= 0, H(c) < 2 ** 20, cs(c) >= 1, cs(c) < 2 ** 20, CW(c) >= 0, CW(c) < 2 ** 20, CH(c) >= 0, CH(c) < 2 ** 20, dim(c) >= 1, dim(c) < 2 ** 16)), ("every pattern has a bin", forall(lambda i: And(c.at("S", None, "mapping", i) >= 0, c.at("S", None, "mapping", i) < dim(c)), 0, 256))],
                    hints=lambda c: ri.axioms(c, H(c)) + ry.axioms(c, CH(c)) + rb.axioms(c, dim(c)) + cell.axioms(), modifies=lambda c: [("F", None, None, None)],
                    ensures=lambda c: [("normalised histograms", cells(c, I(0), area(c), fin(c)))], loops=L)


UNITS = [Unit("vl/lbp.c", [floor(), process()], fp="real", axioms=("absdiv", "absmul", "absudiv"))]
PROP = Prop("P18", units=UNITS, cbmc=[Cbmc("_vl_lbp_init_uniform", "cbmc_lbp.c", unwind=258)], oracles=[Oracle("lbp.c", what="random small images, cell sizes, both orientations", always=True, iters=(20000, 200000))])
