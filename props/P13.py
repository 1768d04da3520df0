from vcg.spec import *

ARR = z3.ArraySort(INT, INT)
SQ = z3.Function("squared_distance", ARR, INT, ARR, INT, INT, INT)   # (data, offset, centres, offset, n): sum of (data - centre)^2 over the first n coordinates
T2 = 255 * 255                                          # largest squared difference of two bytes
B = 2 ** 40


def partial(c, d, do, ct, co, i):
    """definition of the partial sums at i, and the bound that follows"""
    t = d[do + i] - ct[co + i]
    return [SQ(d, do, ct, co, I(0)) == 0, SQ(d, do, ct, co, i + 1) == SQ(d, do, ct, co, i) + t * t, Implies(And(t <= 255, t >= -255), And(t * t >= 0, t * t <= T2))]


def moderate(c, name, n):
    return ("centres are bytes, as after training", forall(lambda i: And(c.at(name, i) <= 255, c.at(name, i) >= 0), 0, n, pat=lambda i: c.at(name, i)))


size = lambda x: And(x >= 0, x < 2 ** 20)


def first_nearest(f, K, best):
    """best is the first index of a smallest f"""
    return [("a centre", And(best >= 0, best < K)), ("none is nearer", forall(lambda k: f(best) <= f(k), 0, K, pat=lambda k: f(k))), ("the first such", forall(lambda k: f(best) < f(k), 0, best, pat=lambda k: f(k)))]


def push_one():
    M, K = (lambda c: c.M), (lambda c: c.K)
    row = Row("center", M)
    dist = lambda c, k, i=None: SQ(c.arr("D"), c.off("D"), c.arr("C"), c.off("C") + row(k), M(c) if i is None else i)

    def so_far(c, n):
        b = c.v("best")
        return [("best so far", If(n == 0, b == 2 ** 64 - 1, And(b >= 0, b < n, c.v("best_dist") == dist(c, b), forall(lambda k: dist(c, b) <= dist(c, k), 0, n, pat=lambda k: dist(c, k)), forall(lambda k: dist(c, b) < dist(c, k), 0, b, pat=lambda k: dist(c, k)))))]
    L = {"0": Loop(inv=lambda c: [("range", c.it <= K(c))] + so_far(c, c.it), hints=lambda c: row.at(c, c.it), dec=lambda c: K(c) - c.it),
         "0.0": Loop(inv=lambda c: [("range", c.it <= M(c)), ("partial sum", And(c.v("dist") == dist(c, c.itof("0"), c.it), c.v("dist") >= 0, c.v("dist") <= c.it * T2))],
                     hints=lambda c: partial(c, c.arr("D"), c.off("D"), c.arr("C"), c.off("C") + row(c.itof("0")), c.it), dec=lambda c: M(c) - c.it)}

    def ens(c):
        if c.frame is None:                               # at a call: the caller's name for row(k)
            f = lambda k: SQ(c.arr("D"), c.off("D"), c.arr("C"), c.off("C") + CROW(k), M(c))
            return [(l, Implies(K(c) > 0, x)) for l, x in first_nearest(f, K(c), c.ret)]
        return [(l, Implies(K(c) > 0, x)) for l, x in first_nearest(lambda k: dist(c, k), K(c), c.ret)]
    return Contract("vl_ikm_push_one", args=["centers", "data", "M", "K"], params={"centers": "C", "data": "D"}, regions={"C": dict(ty="i32", signed=True, count=lambda c: K(c) * M(c)), "D": dict(ty="i8", signed=False, count=M)},
                    requires=lambda c: [("sizes", And(M(c) >= 0, M(c) <= 33000, size(K(c)))), moderate(c, "C", K(c) * M(c))], hints=lambda c: row.axioms(c, K(c)) if c.frame else [], ensures=ens, loops=L)


CROW = z3.Function("row_centers", INT, INT)
FILT = {"S": dict(ty="VlIKMFilt", links={"centers": "C", "inter_dist": "T"}), "C": dict(ty="i32", signed=True), "T": dict(ty="i32", signed=True)}


def filt(**counts):
    r = {k: dict(v) for k, v in FILT.items()}
    for k, v in counts.items():
        r[k]["count"] = v
    return r


M_, K_ = (lambda c: c.at("S", None, "M")), (lambda c: c.at("S", None, "K"))
rc, rd, rt = Row("centers", M_), Row("data", M_), Row("table", K_)
fd = lambda c, j, k: SQ(c.arr("D"), rd(j), c.arr("C"), rc(k), M_(c))


def pushed(c, n):
    j, k = z3.Ints("j!q k!q")
    q = lambda j: c.at("Q", j)
    return [("assigned to a centre", forall(lambda j: And(q(j) >= 0, q(j) < K_(c)), 0, n, pat=q)),
            ("no centre is nearer", z3.ForAll([j, k], Implies(And(j >= 0, j < n, k >= 0, k < K_(c)), And(fd(c, j, q(j)) <= fd(c, j, k), Implies(k < q(j), fd(c, j, q(j)) < fd(c, j, k)))), patterns=[z3.MultiPattern(q(j), rc(k))]))]


def push_lloyd():
    return Contract("vl_ikm_push_lloyd", args=["f", "asgn", "data", "N"], params={"f": "S", "asgn": "Q", "data": "D"}, regions=dict(filt(C=lambda c: rc(K_(c))), Q=dict(ty="i32", signed=False, count=lambda c: c.N), D=dict(ty="i8", signed=False, count=lambda c: rd(c.N))),
                    requires=lambda c: [("sizes", And(M_(c) >= 0, M_(c) <= 33000, size(K_(c)), K_(c) > 0, c.N >= 0, c.N < 2 ** 40)), moderate(c, "C", rc(K_(c)))], hints=lambda c: rc.axioms(c, K_(c)) + rd.axioms(c, c.N), modifies=lambda c: [("Q", None, None, None)],
                    ensures=lambda c: pushed(c, c.N), loops={"0": Loop(inv=lambda c: [("range", c.it <= c.N)] + pushed(c, c.it), hints=lambda c: rd.at(c, c.it), dec=lambda c: c.N - c.it)})


CC = z3.Function("between_centers", INT, INT, INT)       # squared distance of two centres


def triangle(c, j):
    """Euclidean geometry: if 4 |x-a|^2 <= |a-b|^2 then |x-a| <= |x-b|"""
    k, m = z3.Ints("k!t m!t")
    f = lambda k: fd(c, j, k)
    return [z3.ForAll([k, m], Implies(4 * f(k) <= CC(k, m), f(k) <= f(m)), patterns=[CC(k, m)])]


def table(c):
    k, m = z3.Ints("k!b m!b")
    return ("table of quarter squared distances", z3.ForAll([k, m], Implies(And(k >= 0, m >= 0, k < K_(c), m < K_(c)), c.at("T", rt(k) + m) == CC(k, m) / 4), patterns=[CC(k, m)]))


def push_elkan():
    TOP = 2 ** 31 - 1
    x = lambda c: c.itof("0")
    bd = lambda c: c.v("best_dist")

    def so_far(c, n):
        b = c.v("cx")
        k = z3.Int("k!s")
        return [("nearest so far", And(b >= 0, Implies(n == 0, And(b == 0, bd(c) == TOP)), Implies(n > 0, And(b < n, bd(c) == fd(c, x(c), b))))),
                ("none so far is nearer", forall(lambda k: And(bd(c) <= fd(c, x(c), k), Implies(k < b, bd(c) < fd(c, x(c), k))), 0, n, pat=lambda k: rc(k)))]
    L = {"0": Loop(inv=lambda c: [("range", c.it <= c.N)] + pushed(c, c.it), hints=lambda c: rd.at(c, c.it) + triangle(c, c.it), dec=lambda c: c.N - c.it),
         "0.0": Loop(inv=lambda c: [("range", c.it <= K_(c))] + so_far(c, c.it), hints=lambda c: rc.at(c, c.it) + rt.at(c, c.v("cx")) + [CC(c.v("cx"), c.it) >= 0, Implies(c.v("cx") == c.it, CC(c.v("cx"), c.it) == 0), SQ(c.arr("D"), rd(x(c)), c.arr("C"), rc(c.it), I(0)) == 0], dec=lambda c: K_(c) - c.it),
         "0.0.0": Loop(inv=lambda c: [("range", c.it <= M_(c)), ("partial sum", And(c.v("dist") == SQ(c.arr("D"), rd(x(c)), c.arr("C"), rc(c.itof("0.0")), c.it), c.v("dist") >= 0, c.v("dist") <= c.it * T2))],
                       hints=lambda c: partial(c, c.arr("D"), rd(x(c)), c.arr("C"), rc(c.itof("0.0")), c.it), dec=lambda c: M_(c) - c.it)}
    return Contract("vl_ikm_push_elkan", args=["f", "asgn", "data", "N"], params={"f": "S", "asgn": "Q", "data": "D"},
                    regions=dict(filt(C=lambda c: rc(K_(c)), T=lambda c: rt(K_(c))), Q=dict(ty="i32", signed=False, count=lambda c: c.N), D=dict(ty="i8", signed=False, count=lambda c: rd(c.N))),
                    requires=lambda c: [("sizes", And(M_(c) >= 0, M_(c) <= 33000, size(K_(c)), K_(c) > 0, c.N >= 0, c.N < 2 ** 40)), moderate(c, "C", rc(K_(c))), table(c)], hints=lambda c: rc.axioms(c, K_(c)) + rd.axioms(c, c.N) + rt.axioms(c, K_(c)), modifies=lambda c: [("Q", None, None, None)],
                    ensures=lambda c: pushed(c, c.N), loops=L)


def update_table():
    cell = Cell("table", rt)
    SC = z3.Function("between_partial", INT, INT, INT, INT)
    K = K_
    k0, k1 = (lambda c: c.itof("0")), (lambda c: c.itof("0.0"))
    ctr = lambda c, k, i: c.pre.at("C", rc(k) + i)

    def step(c, a, b, i):
        t = ctr(c, b, i) - ctr(c, a, i)
        return [SC(a, b, I(0)) == 0, SC(a, b, i + 1) == SC(a, b, i) + t * t, Implies(And(t <= 255, t >= -255), And(t * t >= 0, t * t <= T2))]
    ab = z3.Ints("a!u b!u")

    def done(c, cond):
        a, b = ab
        return z3.ForAll([a, b], Implies(And(a >= 0, b >= 0, a < K(c), b < K(c), cond(a, b)), c.at("T", cell(a, b)) == CC(a, b) / 4), patterns=[cell(a, b)])
    sym = lambda c, a, b: [CC(a, b) == If(a == b, 0, SC(a, b, M_(c))), CC(b, a) == CC(a, b)]      # squared differences do not depend on the order
    L = {"0": Loop(inv=lambda c: [("range", c.it <= K(c)), ("rows and columns done", done(c, lambda a, b: Or(a < c.it, b < c.it)))], hints=lambda c: rt.at(c, c.it) + rc.at(c, c.it), dec=lambda c: K(c) - c.it),
         "0.0": Loop(inv=lambda c: [("range", c.it <= K(c)), ("rows and columns done", done(c, lambda a, b: Or(a < k0(c), b < k0(c), And(a == k0(c), b < c.it), And(b == k0(c), a < c.it))))],
                     hints=lambda c: rt.at(c, c.it) + rc.at(c, c.it) + [cell(k0(c), c.it) == rt(k0(c)) + c.it, cell(c.it, k0(c)) == rt(c.it) + k0(c)] + sym(c, k0(c), c.it), dec=lambda c: K(c) - c.it),
         "0.0.0": Loop(inv=lambda c: [("range", c.it <= M_(c)), ("partial sum", And(c.v("dist") == SC(k0(c), k1(c), c.it), c.v("dist") >= 0, c.v("dist") <= c.it * T2))], hints=lambda c: step(c, k0(c), k1(c), c.it), dec=lambda c: M_(c) - c.it)}
    return Contract("vl_ikm_elkan_update_inter_dist", args=["f"], params={"f": "S"}, regions=filt(C=lambda c: rc(K_(c)), T=lambda c: rt(K_(c))),
                    requires=lambda c: [("sizes", And(M_(c) >= 0, M_(c) <= 33000, size(K_(c)))), moderate(c, "C", rc(K_(c)))], hints=lambda c: rc.axioms(c, K_(c)) + rt.axioms(c, K_(c)) + cell.axioms(), modifies=lambda c: [("T", None, None, None)],
                    ensures=lambda c: [("quarter of the squared distance of every two centres", done(c, lambda a, b: TRUE))], loops=L)


UNITS = [Unit("vl/ikmeans.c", [push_one(), push_lloyd(), push_elkan(), update_table()])]
PROP = Prop("P13", units=UNITS, oracles=[Oracle("ikmeans.c", what="random byte points, both methods, before and after training, trees to depth 3", always=True, iters=(8000, 100000))], bounded=["vl_hikm_push, vl_ikm_train: random small data"])
