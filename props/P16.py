from vcg.spec import *

PROD, QUO, SQRT = z3.Function("product", REAL, REAL, REAL), z3.Function("quotient", REAL, REAL, REAL), z3.Function("sqrt", REAL, REAL)
F2, F3 = (lambda n: z3.Function(n, INT, INT, REAL)), (lambda n: z3.Function(n, INT, INT, INT, REAL))
MASS, NRM = F2("mass"), F2("component_norm")                     # partial sums over points, over dimensions
ACC = F3("weighted_sum")                                         # (cluster, dimension, points so far)
E1, E2, E3 = F2("residual"), F2("rooted"), F2("component_normalised")
GN = z3.Function("global_norm", INT, REAL)                       # partial sums over the cells of the encoding
EPS = z3.Q(*(1e-12).as_integer_ratio())
lim = lambda n: If(SQRT(n) > EPS, SQRT(n), EPS)


def encode(sfx, ty):
    K, N, dim = (lambda c: c.numClusters), (lambda c: c.numData), (lambda c: c.dimension)
    row, dat, asg = Row("clusters", dim), Row("points", dim), Row("assignments", K)
    cell, acell = Cell("clusters", row), Cell("assignments", asg)
    flag = lambda c, b: (c.flags / b) % 2 == 1
    W = lambda c, i, k: c.pre.at("A", acell(i, k))
    FIN = lambda c, k, d: If(flag(c, 4), E3(k, d), QUO(E3(k, d), lim(GN(row(K(c))))))
    k0, i0 = (lambda c: c.itof("0")), (lambda c: c.itof("0.0"))
    O = lambda c, k, d: c.at("O", cell(k, d))

    def others(c, k):
        """clusters before k are done, those after k still zero"""
        a, d = z3.Ints("a!o d!o")
        inr = And(a >= 0, a < K(c), d >= 0, d < dim(c))
        return [("clusters before", z3.ForAll([a, d], Implies(And(inr, a < k), O(c, a, d) == E3(a, d)), patterns=[cell(a, d)])), ("clusters after", z3.ForAll([a, d], Implies(And(inr, a > k), O(c, a, d) == 0), patterns=[cell(a, d)]))]

    def cur(c, f, lo=0, hi=None):
        return ("this cluster", forall(lambda d: O(c, k0(c), d) == f(d), lo, dim(c) if hi is None else hi, pat=lambda d: cell(k0(c), d)))
    m = lambda c, k: MASS(k, N(c))

    def mu(c, k, d):
        return c.pre.at("U", cell(k, d))

    def stage1(c, k, d):
        a = ACC(k, d, N(c))
        return E1(k, d) == If(m(c, k) > 0, If(flag(c, 8), QUO(a, m(c, k)) - mu(c, k, d), a - PROD(m(c, k), mu(c, k, d))), a)

    def stage2(c, k, d):
        z = E1(k, d)
        return E2(k, d) == If(flag(c, 2), If(z >= 0, SQRT(z), -SQRT(-z)), z)

    def stage3(c, k, d):
        return E3(k, d) == If(flag(c, 1), QUO(E2(k, d), lim(NRM(k, dim(c)))), E2(k, d))

    def stages(c):
        """definitions of the intermediate quantities"""
        k, d = z3.Ints("k!d d!d")
        return [z3.ForAll([k, d], f(c, k, d), patterns=[h(k, d)]) for f, h in ((stage1, E1), (stage2, E2), (stage3, E3))]

    def accum(c, k, i):
        d = z3.Int("d!a")
        w = W(c, i, k)
        x = c.pre.at("D", dat(i) + d)
        return [z3.ForAll([d], ACC(k, d, I(0)) == 0, patterns=[ACC(k, d, I(0))]), MASS(k, I(0)) == 0, MASS(k, i + 1) == MASS(k, i) + If(w > 0, w, 0),
                z3.ForAll([d], ACC(k, d, i + 1) == ACC(k, d, i) + If(w > 0, PROD(w, x), 0), patterns=[ACC(k, d, i + 1)])]
    inst = lambda c, d: [cell(k0(c), d) == row(k0(c)) + d]
    dimloop = lambda f, g, **kw: Loop(inv=lambda c: [("range", c.it <= dim(c)), cur(c, lambda d: f(c, k0(c), d), 0, c.it), ("rest", cur(c, lambda d: g(c, k0(c), d), c.it)[1])] + others(c, k0(c)), hints=lambda c: inst(c, c.it), dec=lambda c: dim(c) - c.it)
    e1, e2, e3 = (lambda c, k, d: E1(k, d)), (lambda c, k, d: E2(k, d)), (lambda c, k, d: E3(k, d))
    acc = lambda c, k, d: ACC(k, d, N(c))
    half = lambda c, k, d: QUO(ACC(k, d, N(c)), m(c, k)) - mu(c, k, d)
    flat = lambda c, f, lo, hi: z3.ForAll([z3.Int("k!f"), z3.Int("d!f")], (lambda k, d: Implies(And(k >= 0, k < K(c), d >= 0, d < dim(c), cell(k, d) >= lo, cell(k, d) < hi), O(c, k, d) == f(c, k, d)))(z3.Int("k!f"), z3.Int("d!f")), patterns=[cell(z3.Int("k!f"), z3.Int("d!f"))])
    kof, dof = z3.Function("cluster_of", INT, INT), z3.Function("dimension_of", INT, INT)

    def split(c, p):
        """every cell of the encoding belongs to a cluster and dimension"""
        k, d = kof(p), dof(p)
        return [Implies(And(p >= 0, p < row(K(c))), And(k >= 0, k < K(c), d >= 0, d < dim(c), cell(k, d) == p))]
    L = {"0": Loop(inv=lambda c: [("range", c.it <= K(c))] + others(c, c.it) + [("not yet", forall(lambda d: O(c, c.it, d) == 0, 0, If(c.it < K(c), dim(c), 0), pat=lambda d: cell(c.it, d)))], hints=lambda c: row.at(c, c.it), dec=lambda c: K(c) - c.it),
         "0.0": Loop(inv=lambda c: [("range", c.it <= N(c)), ("mass", And(c.v("clusterMass") == MASS(k0(c), c.it))), cur(c, lambda d: ACC(k0(c), d, c.it))] + others(c, k0(c)), hints=lambda c: accum(c, k0(c), c.it) + dat.at(c, c.it) + asg.at(c, c.it) + [acell(c.it, k0(c)) == asg(c.it) + k0(c)], dec=lambda c: N(c) - c.it),
         "0.0.0": Loop(inv=lambda c: [("range", c.it <= dim(c)), cur(c, lambda d: ACC(k0(c), d, i0(c) + 1), 0, c.it), ("rest", cur(c, lambda d: ACC(k0(c), d, i0(c)), c.it)[1])] + others(c, k0(c)), hints=lambda c: inst(c, c.it), dec=lambda c: dim(c) - c.it),
         "0.1": dimloop(e1, acc), "0.2": dimloop(e1, acc), "0.3": dimloop(e2, e1),
         "0.4": Loop(inv=lambda c: [("range", c.it <= dim(c)), ("sum of squares", c.v("n") == NRM(k0(c), c.it)), cur(c, lambda d: E2(k0(c), d))] + others(c, k0(c)), hints=lambda c: inst(c, c.it) + [NRM(k0(c), I(0)) == 0, NRM(k0(c), c.it + 1) == NRM(k0(c), c.it) + PROD(E2(k0(c), c.it), E2(k0(c), c.it))], dec=lambda c: dim(c) - c.it),
         "0.5": dimloop(e3, e2),
         "1": Loop(inv=lambda c: [("range", c.it <= row(K(c))), ("sum of squares", c.v("n") == GN(c.it)), ("encoding", flat(c, e3, 0, row(K(c))))], hints=lambda c: split(c, c.it) + [GN(I(0)) == 0, GN(c.it + 1) == GN(c.it) + PROD(E3(kof(c.it), dof(c.it)), E3(kof(c.it), dof(c.it)))], dec=lambda c: row(K(c)) - c.it),
         "2": Loop(inv=lambda c: [("range", c.it <= row(K(c))), ("normalised", flat(c, lambda c, k, d: QUO(E3(k, d), lim(GN(row(K(c))))), 0, c.it)), ("rest", flat(c, e3, c.it, row(K(c))))], hints=lambda c: split(c, c.it), dec=lambda c: row(K(c)) - c.it)}
    size = lambda x: And(x >= 1, x < 2 ** 20)
    return Contract("_vl_vlad_encode_" + sfx, args=["enc", "means", "dimension", "numClusters", "data", "numData", "assignments", "flags"], params=dict(enc="O", means="U", data="D", assignments="A"),
                    regions={"O": dict(ty=ty, count=lambda c: row(K(c))), "U": dict(ty=ty, count=lambda c: row(K(c))), "D": dict(ty=ty, count=lambda c: dat(N(c))), "A": dict(ty=ty, count=lambda c: asg(N(c)))},
                    requires=lambda c: [("sizes", And(size(K(c)), size(dim(c)), N(c) >= 0, N(c) < 2 ** 31)), ("flags", And(c.flags >= 0, c.flags < 16))],
                    hints=lambda c: row.axioms(c, K(c)) + dat.axioms(c, N(c)) + asg.axioms(c, N(c)) + cell.axioms() + acell.axioms() + stages(c), modifies=lambda c: [("O", None, None, None)],
                    ensures=lambda c: [("the encoding", flat(c, FIN, 0, row(K(c))))], loops=L)


UNITS = [Unit("vl/vlad.c", [encode(s, t)], fp="real", axioms=("absdiv", "absmul")) for s, t in (("f", "float"), ("d", "double"))]
PROP = Prop("P16", units=UNITS, oracles=[Oracle("vlad.c", what="random small encodings, hard and soft assignments, both precisions, every flag combination", always=True, iters=(60000, 600000))])
