from vcg.spec import *

PROD, QUO = z3.Function("product", REAL, REAL, REAL), z3.Function("quotient", REAL, REAL, REAL)
FLOOR, CEIL = z3.Function("floor", REAL, REAL), z3.Function("ceil", REAL, REAL)
PINF = z3.Real("fpconst_pinf")
R_ = z3.ToReal
HALF = z3.Q(1, 2)
TOI = z3.Function("real_to_int", REAL, INT)


def segment():
    W, H, C, S = (lambda c: c.width), (lambda c: c.height), (lambda c: c.numChannels), (lambda c: c.regionSize)
    row = Row("pixelrows", W)
    N = lambda c: row(H(c))
    chan = Row("channels", N)
    q = lambda c, n: QUO(R_(n), R_(S(c)))
    NX, NY = (lambda c: TOI(CEIL(q(c, W(c))))), (lambda c: TOI(CEIL(q(c, H(c)))))
    tile = Row("tiles", NX)
    NR = lambda c: tile(NY(c))
    cen = Row("centers", lambda c: C(c) + 2)
    pix = Cell("pixels", row)
    seg = lambda c, p: c.at("G", p)
    im = lambda c, x, y, k: c.pre.at("I", chan(k) + pix(y, x))
    ctr, mass, clean, todo = (lambda c, i: c.heap(2, i)), (lambda c, i: c.heap(1, i)), (lambda c, p: c.heap(3, p)), (lambda c, j: c.heap(4, j))
    TX = lambda c, n: TOI(FLOOR(q(c, n) - HALF))
    low = lambda c, n: If(TX(c, n) < 0, I(0), TX(c, n))

    # -- geometry: facts about ceil, floor and the quotient (proved in lemmas())
    def tiles(c):
        r = []
        for n, m in ((W(c), NX(c)), (H(c), NY(c))):
            x = CEIL(q(c, n))
            r += [x == R_(m), m >= 1, m <= n]
        return r + [NR(c) <= N(c), NR(c) >= 1, tile(I(0)) == 0]

    def near(c, n, m):
        x = FLOOR(q(c, n) - HALF)
        return [x == R_(TOI(x)), TOI(x) >= -1, TOI(x) <= m - 1]

    def rows(c, *ys):
        return sum([[row(y) == W(c) * y, row(y + 1) == row(y) + W(c), row(y - 1) == row(y) - W(c), W(c) * (y - 1) == row(y - 1), W(c) * (y + 1) == row(y + 1)] for y in ys], [])

    def chans(c, k):
        return [chan(k) == W(c) * H(c) * k, chan(k) == H(c) * W(c) * k, chan(k) == N(c) * k, chan(k + 1) == chan(k) + N(c)]
    splitting = lambda c, p: [row(p / W(c)) + p % W(c) == p, p % W(c) >= 0, p % W(c) < W(c), p / W(c) >= 0, Implies(And(p >= 0, p < N(c)), p / W(c) < H(c))] + rows(c, p / W(c))

    def cenx(c, v, u):
        return [cen(tile(v) + u) == 2 * (NX(c) * v) + 2 * u + C(c) * (NX(c) * v) + C(c) * u, tile(v) == NX(c) * v]

    # -- the distance of a pixel to a center, in one iteration
    APP, SPA = z3.Function("appearance", INT, INT, INT, INT, INT, REAL), z3.Function("distance", INT, INT, INT, INT, REAL)
    FINE = z3.Function("nearest_of_the_adjacent_tiles", INT, INT, INT, INT, BOOL)      # iteration, y, x, label
    t0, y0, x0 = (lambda c: c.itof("2")), (lambda c: c.itof("2.0")), (lambda c: c.itof("2.0.0"))
    p0 = lambda c: pix(y0(c), x0(c))
    D = lambda c, r: SPA(t0(c), y0(c), x0(c), r)
    fac = lambda c: QUO(c.regularization, R_(S(c) * S(c)))
    sq = lambda a: PROD(a, a)

    def cand(c):
        return [(tile(low(c, y0(c)) + b) + low(c, x0(c)) + a, low(c, y0(c)) + b, low(c, x0(c)) + a, And(low(c, y0(c)) + b <= Min(NY(c) - 1, TX(c, y0(c)) + 1), low(c, x0(c)) + a <= Min(NX(c) - 1, TX(c, x0(c)) + 1))) for b in (0, 1) for a in (0, 1)]

    def fine(c, r, seen=lambda b, a: TRUE):
        cs = cand(c)
        return And(Or(*[And(ok, seen(b, a), r == k) for k, b, a, ok in cs]), *[Implies(And(ok, seen(b, a)), D(c, r) <= D(c, k)) for k, b, a, ok in cs])
    TRUE = z3.BoolVal(True)
    seenrow = lambda vp, up: lambda b, a: Or(b < vp, And(b == vp, a < up))

    def best(c, vp, up):
        s = seenrow(vp, up)
        some = Or(*[And(ok, s(b, a)) for k, b, a, ok in cand(c)])
        return [("nearest of the tiles seen", And(Implies(some, And(fine(c, seg(c, p0(c)), s), c.v("minDistance") == D(c, seg(c, p0(c))), seg(c, p0(c)) < NR(c), seg(c, p0(c)) >= 0)), Implies(Not(some), c.v("minDistance") == PINF)))]
    yy, xx, pp = z3.Ints("y!s x!s p!s")

    def done(c, y, x):
        """the pixels before (y, x) are labelled"""
        return [("labels of the pixels seen", z3.ForAll([yy, xx], Implies(And(yy >= 0, xx >= 0, xx < W(c), Or(yy < y, And(yy == y, xx < x))), And(seg(c, pix(yy, xx)) >= 0, seg(c, pix(yy, xx)) < NR(c), FINE(t0(c), yy, xx, seg(c, pix(yy, xx))))), patterns=[pix(yy, xx)]))]
    alllab = lambda c: [("every pixel has a label", forall(lambda p: And(seg(c, p) >= 0, seg(c, p) < NR(c)), 0, N(c), pat=lambda p: seg(c, p)))]
    cut = lambda c: z3.ForAll([pp], Implies(And(pp >= 0, pp < N(c)), And(pix(pp / W(c), pp % W(c)) == pp, pp / W(c) >= 0, pp / W(c) < H(c), pp % W(c) >= 0, pp % W(c) < W(c))), patterns=[c.pre.at("G", pp)])
    rg = lambda lo, v, hi: ("range", And(v >= lo, v <= hi))
    L = {}
    # edge map
    L["0"] = Loop(inv=lambda c: [rg(0, c.it, C(c))], hints=lambda c: chans(c, c.it), dec=lambda c: C(c) - c.it)
    L["0.0"] = Loop(inv=lambda c: [rg(1, c.v("y"), Max(H(c), I(1)))], hints=lambda c: rows(c, c.v("y")), dec=lambda c: H(c) - c.v("y"))
    L["0.0.0"] = Loop(inv=lambda c: [rg(1, c.v("x"), Max(W(c), I(1)))], dec=lambda c: W(c) - c.v("x"))
    # initial centers
    tl = lambda c, v, u: tile.at(c, v) + cen.at(c, tile(v) + u) + cenx(c, v, u)
    L["1"] = Loop(inv=lambda c: [rg(0, c.it, NY(c)), ("position", c.v("i") == cen(tile(c.it)))], hints=lambda c: tl(c, c.it, I(0)), dec=lambda c: NY(c) - c.it)
    L["1.0"] = Loop(inv=lambda c: [rg(0, c.it, NX(c)), ("position", c.v("i") == cen(tile(c.itof("1")) + c.it))], hints=lambda c: tl(c, c.itof("1"), c.it), dec=lambda c: NX(c) - c.it)
    inside = lambda c: ("inside the image", And(c.v("centerx") >= 0, c.v("centerx") < W(c), c.v("centery") >= 0, c.v("centery") < H(c)))
    L["1.0.0"] = Loop(inv=lambda c: [rg(0, c.v("yp"), H(c)), inside(c)], hints=lambda c: rows(c, c.v("yp")), dec=lambda c: H(c) - c.v("yp"))
    L["1.0.0.0"] = Loop(inv=lambda c: [rg(0, c.v("xp"), W(c)), inside(c)], dec=lambda c: W(c) - c.v("xp"))
    L["1.0.1"] = Loop(inv=lambda c: [rg(0, c.it, C(c)), ("position", c.v("i") == cen(tile(c.itof("1")) + c.itof("1.0")) + 2 + c.it)], hints=lambda c: chans(c, c.it) + rows(c, c.v("centery")), dec=lambda c: C(c) - c.it)
    # iterations
    L["2"] = Loop(inv=lambda c: [rg(0, c.it, 100), ("every pixel has a label", Implies(c.it > 0, alllab(c)[0][1]))], dec=lambda c: 100 - c.it)
    L["2.0"] = Loop(inv=lambda c: [rg(0, c.it, H(c))] + done(c, c.it, I(0)), hints=lambda c: rows(c, c.it) + near(c, c.it, NY(c)) + [cut(c)], dec=lambda c: H(c) - c.it)
    L["2.0.0"] = Loop(inv=lambda c: [rg(0, c.it, W(c))] + done(c, y0(c), c.it), hints=lambda c: near(c, c.it, NX(c)) + [p0h(c, y0(c), c.it)] + finedef(c, c.it), dec=lambda c: W(c) - c.it)

    def p0h(c, y, x):
        return pix(y, x) == row(y) + x

    def finedef(c, x):
        """definition of the predicate at this pixel"""
        r = z3.Int("r!f")
        cc = lambda: None
        return []
    vp, up = (lambda c: c.v("vp")), (lambda c: c.v("up"))
    def fdef(c):
        r = z3.Int("r!f")
        return [z3.ForAll([r], FINE(t0(c), y0(c), x0(c), r) == fine(c, r), patterns=[FINE(t0(c), y0(c), x0(c), r)])]
    keep = lambda c: done(c, y0(c), x0(c))
    top = lambda c: sum([tl(c, low(c, y0(c)) + b, low(c, x0(c)) + a) for b in (0, 1) for a in (0, 1)], [])
    L["2.0.0.0"] = Loop(inv=lambda c: [("range", And(vp(c) >= low(c, y0(c)), vp(c) <= Max(Min(NY(c) - 1, TX(c, y0(c)) + 1) + 1, low(c, y0(c)))))] + best(c, vp(c), low(c, x0(c))) + keep(c), hints=lambda c: fdef(c) + top(c) + tile.at(c, vp(c)), dec=lambda c: NY(c) - vp(c))
    L["2.0.0.0.0"] = Loop(inv=lambda c: [("range", And(up(c) >= low(c, x0(c)), up(c) <= Max(Min(NX(c) - 1, TX(c, x0(c)) + 1) + 1, low(c, x0(c)))))] + best(c, vp(c), up(c)) + keep(c),
                          hints=lambda c: tile.at(c, vp(c)) + cen.at(c, tile(vp(c)) + up(c)) + cenx(c, vp(c), up(c)) + ddef(c), dec=lambda c: NX(c) - up(c))

    def reg(c):
        return tile(vp(c)) + up(c)

    def ddef(c):
        r = reg(c)
        dx, dy = R_(x0(c)) - ctr(c, cen(r)), R_(y0(c)) - ctr(c, cen(r) + 1)
        return [D(c, r) == APP(t0(c), y0(c), x0(c), r, C(c)) + PROD(fac(c), sq(dx) + sq(dy)), D(c, r) < PINF, APP(t0(c), y0(c), x0(c), r, I(0)) == 0]
    L["2.0.0.0.0.0"] = Loop(inv=lambda c: [rg(0, c.it, C(c)), ("appearance", c.v("appearance") == APP(t0(c), y0(c), x0(c), reg(c), c.it))],
                            hints=lambda c: chans(c, c.it) + [APP(t0(c), y0(c), x0(c), reg(c), c.it + 1) == APP(t0(c), y0(c), x0(c), reg(c), c.it) + sq(im(c, x0(c), y0(c), c.it) - ctr(c, cen(reg(c)) + c.it + 2)), p0h(c, y0(c), x0(c))], dec=lambda c: C(c) - c.it)
    # centers again
    y1, x1 = (lambda c: c.itof("2.1")), (lambda c: c.itof("2.1.0"))
    L["2.1"] = Loop(inv=lambda c: [rg(0, c.it, H(c))], hints=lambda c: rows(c, c.it), dec=lambda c: H(c) - c.it)
    rr = lambda c, y, x: seg(c, pix(y, x))
    L["2.1.0"] = Loop(inv=lambda c: [rg(0, c.it, W(c))], hints=lambda c: [p0h(c, y1(c), c.it)] + cen.at(c, rr(c, y1(c), c.it)), dec=lambda c: W(c) - c.it)
    L["2.1.0.0"] = Loop(inv=lambda c: [rg(0, c.it, C(c))], hints=lambda c: chans(c, c.it), dec=lambda c: C(c) - c.it)
    L["2.2"] = Loop(inv=lambda c: [rg(0, c.it, NR(c))], hints=lambda c: cen.at(c, c.it), dec=lambda c: NR(c) - c.it)
    L["2.2.0"] = Loop(inv=lambda c: [("range", And(c.v("i") >= cen(c.itof("2.2")), c.v("i") <= cen(c.itof("2.2") + 1)))], dec=lambda c: cen(NR(c)) - c.v("i"))
    # small regions
    Z = lambda c, a: z3.Function("zeros", a.sort(), INT)(a)

    def arr(c, k):
        return c.eng.getmem(c.state, (list(c.eng.blocks.values())[k], ()))

    def counting(c):
        so = z3.ArraySort(INT, INT)
        A, i, v = z3.Const("A!z", so), z3.Int("i!z"), z3.Int("v!z")
        Zf = z3.Function("zeros", so, INT)
        return [z3.ForAll([A], And(Zf(A) >= 0, Zf(A) <= N(c)), patterns=[Zf(A)]), z3.ForAll([A, i, v], Implies(And(i >= 0, i < N(c), v != 0), Zf(z3.Store(A, i, v)) == Zf(A) - If(A[i] == 0, 1, 0)), patterns=[Zf(z3.Store(A, i, v))])]
    lab = lambda c: seg(c, c.itof("3"))
    pos = lambda c: [("labels are labels of regions", forall(lambda p: And(clean(c, p) >= 0, clean(c, p) <= NR(c)), 0, N(c), pat=lambda p: clean(c, p)))]
    have = lambda c, hi: [("pixels before have a label", forall(lambda p: clean(c, p) >= 1, 0, hi, pat=lambda p: clean(c, p)))]
    size = lambda c: c.v("segmentSize")
    part = lambda c, n: [("pixels of the region", forall(lambda j: And(todo(c, j) >= 0, todo(c, j) < N(c), seg(c, todo(c, j)) == lab(c)), 0, n, pat=lambda j: todo(c, j)))]
    marked = lambda c, lo, hi, v: [("pixels of the region are marked", forall(lambda j: clean(c, todo(c, j)) == v, lo, hi, pat=lambda j: todo(c, j)))]
    room = lambda c: [("room for the pixels of the region", And(size(c) >= 1, size(c) + Z(c, arr(c, 3)) <= N(c)))]
    L["3"] = Loop(inv=lambda c: [rg(0, c.it, N(c))] + pos(c) + have(c, c.it), hints=lambda c: splitting(c, c.it), dec=lambda c: N(c) - c.it)
    cl = lambda c: ("label of a region", And(c.v("cleanedLabel") >= 1, c.v("cleanedLabel") <= NR(c)))
    L["3.0"] = Loop(unroll=4)
    L["3.1"] = Loop(inv=lambda c: [rg(0, c.v("numExpanded"), size(c))] + room(c) + part(c, size(c)) + marked(c, I(0), size(c), lab(c) + 1) + pos(c) + have(c, c.itof("3") + 1), hints=lambda c: splitting(c, todo(c, c.v("numExpanded"))))
    L["3.1.0"] = Loop(unroll=4)
    L["3.2"] = Loop(inv=lambda c: [("range", size(c) >= 0)] + pos(c) + have(c, c.itof("3") + 1), dec=size)
    L["4"] = Loop(inv=lambda c: [rg(0, c.it, N(c)), ("restored", forall(lambda p: And(clean(c, p) >= 0, clean(c, p) < NR(c)), 0, c.it, pat=lambda p: clean(c, p))), ("rest", forall(lambda p: And(clean(c, p) >= 1, clean(c, p) <= NR(c)), c.it, N(c), pat=lambda p: clean(c, p)))], dec=lambda c: N(c) - c.it)
    return Contract("vl_slic_segment", args=["segmentation", "image", "width", "height", "numChannels", "regionSize", "regularization", "minRegionSize"], params=dict(segmentation="G", image="I"), overrides=dict(f2i_fn=True), heap_types=("float", "i32", "float", "i32", "i64"),
                    regions=dict(G=dict(ty="i32", signed=False, count=N), I=dict(ty="float", count=lambda c: chan(C(c)))),
                    requires=lambda c: [("sizes", And(*[And(x(c) >= 1, x(c) < 2 ** 31) for x in (W, H, C, S)])), ("the image can be addressed", And(N(c) < 2 ** 31, chan(C(c)) < 2 ** 61, cen(N(c)) < 2 ** 61)), ("minimum size", And(c.minRegionSize >= 0, c.minRegionSize < 2 ** 63))],
                    hints=lambda c: row.axioms(c, H(c)) + chan.axioms(c, C(c)) + [chan(C(c)) == W(c) * H(c) * C(c), N(c) == W(c) * H(c)] + cen.axioms(c, N(c), NR(c)) + tile.axioms(c, NY(c)) + cenx(c, NY(c), I(0)) + [cen(NR(c)) == 2 * (NX(c) * NY(c)) + C(c) * (NX(c) * NY(c))] + tiles(c) + pix.axioms() + counting(c), modifies=lambda c: [("G", None, None, None)], loops=L, ensures=alllab)


ROUND = Contract("vl_round_d", args=["x"], ensures=lambda c: [])
UNITS = [Unit("vl/slic.c", [segment()], fp="real", axioms=("absmul", "absdiv"), uses=[ROUND])]
PROP = Prop("P29", units=UNITS)
