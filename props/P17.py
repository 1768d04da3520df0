from vcg.spec import *
from props import P15
from props.P16 import PROD, QUO, SQRT, lim, F2, F3
from props.P15 import EXP, PK, MX, SM

SQI = F2("sqrt_inverse_variance")
BEST = z3.Function("best_component", INT, INT, INT)               # (point, components looked at)
UA, VA = F3("first_order"), F3("second_order")                    # (component, dimension, points so far)
EU, EV, RU, RV = F2("u"), F2("v"), F2("u_rooted"), F2("v_rooted")
UP, VP = z3.Function("u_prefix", INT, REAL), z3.Function("v_prefix", INT, REAL)
NTK, NTI = z3.Function("terms", INT, INT), z3.Function("terms_of", INT, INT, INT)
GN = z3.Function("fisher_norm", INT, REAL)
TINY = z3.Q(*(1e-6).as_integer_ratio())


def encode(sfx, ty):
    K, N, dim = (lambda c: c.numClusters), (lambda c: c.numData), (lambda c: c.dimension)
    row, dat, pst = Row("components", dim), Row("points", dim), Row("posteriors", K)
    cell, pcell = Cell("components", row), Cell("posteriors", pst)
    flag = lambda c, b: (c.flags / b) % 2 == 1
    H = lambda c: row(K(c))
    post = lambda c, i, k: QUO(EXP(PK(i, k) - MX(i, K(c))), SM(i, K(c)))
    best = lambda c, i: BEST(i, K(c))
    used = lambda c, i, k: If(flag(c, 4), If(k == best(c, i), z3.RealVal(1), z3.RealVal(0)), post(c, i, k))
    P = lambda c, i, k: c.heap(0, pcell(i, k))
    O, OV = (lambda c, k, d: c.at("O", cell(k, d))), (lambda c, k, d: c.at("O", cell(k, d) + H(c)))
    k0 = lambda c: c.itof("2")
    i0 = lambda c: c.itof("2.0")
    prior = lambda c, k: c.pre.at("W", k)

    def diff(c, i, k, d):
        return PROD(c.pre.at("D", dat(i) + d) - c.pre.at("U", cell(k, d)), SQI(k, d))

    def defs(c):
        k, d = z3.Ints("k!d d!d")
        eu = If(prior(c, k) < TINY, 0, If(N(c) > 0, PROD(UA(k, d, N(c)), UP(k)), 0))
        ev = If(prior(c, k) < TINY, 0, If(N(c) > 0, PROD(VA(k, d, N(c)), VP(k)), 0))
        root = lambda x: If(flag(c, 1), If(x >= 0, SQRT(x), -SQRT(-x)), x)
        n = z3.ToReal(N(c))
        A = [(EU(k, d), eu), (EV(k, d), ev), (RU(k, d), root(EU(k, d))), (RV(k, d), root(EV(k, d))), (SQI(k, d), SQRT(QUO(z3.RealVal(1), c.pre.at("C", cell(k, d)))))]
        B = [(UP(k), QUO(z3.RealVal(1), PROD(n, SQRT(prior(c, k))))), (VP(k), QUO(z3.RealVal(1), PROD(n, SQRT(2 * prior(c, k)))))]
        return [z3.ForAll([k, d], a == b, patterns=[a]) for a, b in A] + [z3.ForAll([k], a == b, patterns=[a]) for a, b in B]

    def flat(c, f, klo, khi, lo=None, hi=None, second=False):
        k, d = z3.Ints("k!f d!f")
        p = cell(k, d) + (H(c) if second else 0)
        g = [k >= klo, k < khi, d >= 0, d < dim(c)] + ([p >= lo, p < hi] if lo is not None else [])
        return z3.ForAll([k, d], Implies(And(*g), c.at("O", p) == f(k, d)), patterns=[cell(k, d)])
    zero = lambda k, d: z3.RealVal(0)

    def both(c, fu, fv, klo, khi, what, lo=None, hi=None):
        return [(what + ", first order", flat(c, fu, klo, khi, lo, hi)), (what + ", second order", flat(c, fv, klo, khi, lo, hi, True))]

    def others(c, k):
        return both(c, EU, EV, I(0), k, "components before") + both(c, zero, zero, k + 1, K(c), "components after")

    def cur(c, fu, fv, lo, hi, what="this component"):
        return [(what + ", first order", forall(lambda d: O(c, k0(c), d) == fu(d), lo, hi, pat=lambda d: cell(k0(c), d))), (what + ", second order", forall(lambda d: OV(c, k0(c), d) == fv(d), lo, hi, pat=lambda d: cell(k0(c), d)))]

    def rows(c, f, lo, hi, what="posteriors"):
        i, k = z3.Ints("i!r k!r")
        return [(what, z3.ForAll([i, k], Implies(And(i >= lo, i < hi, k >= 0, k < K(c)), P(c, i, k) == f(c, i, k)), patterns=[pcell(i, k)]))]
    sqis = lambda c, hi: [("standard deviations", forall(lambda p: c.heap(1, p) == SQRT(QUO(z3.RealVal(1), c.pre.at("C", p))), 0, hi, pat=lambda p: c.heap(1, p)))]
    base = lambda c: rows(c, used, I(0), N(c)) + sqis(c, H(c))
    zeros = lambda c: both(c, zero, zero, I(0), K(c), "encoding still zero")
    i1 = lambda c: c.itof("1")
    fast = lambda c, i, k: If(k == best(c, i), z3.RealVal(1), z3.RealVal(0))

    def thisrow(c, f, lo, hi, what):
        return [(what, forall(lambda k: P(c, i1(c), k) == f(k), lo, hi, pat=lambda k: pcell(i1(c), k)))]

    def bestdef(c, i, k):
        return [BEST(i, I(1)) == 0, BEST(i, k + 1) == If(post(c, i, k) > post(c, i, BEST(i, k)), k, BEST(i, k)), pcell(i, k) == pst(i) + k, pcell(i, I(0)) == pst(i), pcell(i, BEST(i, k)) == pst(i) + BEST(i, k)]

    def terms(c, k):
        return [NTK(I(0)) == 0, NTI(k, I(0)) == NTK(k), NTK(k + 1) == If(prior(c, k) < TINY, NTK(k), NTI(k, N(c)))]

    def accum(c, k, i):
        d = z3.Int("d!a")
        p = used(c, i, k)
        f = diff(c, i, k, d)
        return [NTI(k, i + 1) == NTI(k, i) + If(p < TINY, 0, 1), z3.ForAll([d], UA(k, d, I(0)) == 0, patterns=[UA(k, d, I(0))]), z3.ForAll([d], VA(k, d, I(0)) == 0, patterns=[VA(k, d, I(0))]),
                z3.ForAll([d], UA(k, d, i + 1) == UA(k, d, i) + If(p < TINY, 0, PROD(p, f)), patterns=[UA(k, d, i + 1)]), z3.ForAll([d], VA(k, d, i + 1) == VA(k, d, i) + If(p < TINY, 0, PROD(p, PROD(f, f) - 1)), patterns=[VA(k, d, i + 1)])]
    inst = lambda c, d: [cell(k0(c), d) == row(k0(c)) + d]
    kof, dof = z3.Function("component_of", INT, INT), z3.Function("dimension_of", INT, INT)

    def split(c, p):
        k, d = kof(p), dof(p)
        return [Implies(And(p >= 0, p < 2 * H(c)), And(k >= 0, k < K(c), d >= 0, d < dim(c), cell(k, d) == If(p < H(c), p, p - H(c))))]
    val = lambda c, p: If(p < H(c), RU(kof(p), dof(p)), RV(kof(p), dof(p)))
    norm = lambda c: lim(GN(2 * H(c)))
    nrm = lambda c, f: (lambda k, d: QUO(f(k, d), norm(c)))
    kd = lambda f, c: (lambda d: f(k0(c), d))
    ua, va = (lambda c, i: (lambda d: UA(k0(c), d, i))), (lambda c, i: (lambda d: VA(k0(c), d, i)))
    part = lambda c, f, lo, hi, what: both(c, f[0], f[1], I(0), K(c), what, lo, hi)
    count = lambda c, k, i: [("terms", c.v("numTerms") == (NTI(k, i) if i is not None else NTK(k))), ("number of terms", And(c.v("numTerms") >= 0, c.v("numTerms") <= k * 2 ** 31 + (i if i is not None else 0)))]
    keep = lambda c: [("terms", c.v("numTerms") == c.ent.v("numTerms"))]
    L = {"0": Loop(inv=lambda c: [("range", c.it <= K(c))] + sqis(c, row(c.it)) + zeros(c), hints=lambda c: row.at(c, c.it), dec=lambda c: K(c) - c.it),
         "0.0": Loop(inv=lambda c: [("range", c.it <= dim(c))] + sqis(c, row(c.itof("0")) + c.it) + zeros(c), dec=lambda c: dim(c) - c.it),
         "1": Loop(inv=lambda c: [("range", c.it <= N(c))] + rows(c, fast, I(0), c.it, "sparsified so far") + rows(c, post, c.it, N(c), "other posteriors") + zeros(c) + sqis(c, H(c)), hints=lambda c: pst.at(c, c.it) + [pcell(c.it, I(0)) == pst(c.it)], dec=lambda c: N(c) - c.it),
         "1.0": Loop(inv=lambda c: [("range", And(c.v("i_cl") >= 1, c.v("i_cl") <= K(c))), ("best", And(c.v("best") == BEST(i1(c), c.v("i_cl")), BEST(i1(c), c.v("i_cl")) >= 0, BEST(i1(c), c.v("i_cl")) < c.v("i_cl"), c.v("bestValue") == post(c, i1(c), c.v("best"))))] + rows(c, fast, I(0), i1(c), "sparsified so far") + rows(c, post, i1(c), N(c), "other posteriors"),
                     hints=lambda c: bestdef(c, i1(c), c.v("i_cl")), dec=lambda c: K(c) - c.v("i_cl")),
         "1.1": Loop(inv=lambda c: [("range", c.it <= K(c))] + rows(c, fast, I(0), i1(c), "sparsified so far") + rows(c, post, i1(c) + 1, N(c), "other posteriors") + thisrow(c, lambda k: fast(c, i1(c), k), 0, c.it, "row so far") + thisrow(c, lambda k: post(c, i1(c), k), c.it, K(c), "rest of the row"),
                     hints=lambda c: [pcell(i1(c), c.it) == pst(i1(c)) + c.it], dec=lambda c: K(c) - c.it),
         "2": Loop(inv=lambda c: [("range", c.it <= K(c))] + count(c, c.it, None) + others(c, c.it) + [("not yet, first order", forall(lambda d: O(c, c.it, d) == 0, 0, If(c.it < K(c), dim(c), 0), pat=lambda d: cell(c.it, d))), ("not yet, second order", forall(lambda d: OV(c, c.it, d) == 0, 0, If(c.it < K(c), dim(c), 0), pat=lambda d: cell(c.it, d)))] + base(c), hints=lambda c: row.at(c, c.it) + terms(c, c.it), dec=lambda c: K(c) - c.it),
         "2.0": Loop(inv=lambda c: [("range", c.it <= N(c))] + count(c, k0(c), c.it) + cur(c, ua(c, c.it), va(c, c.it), 0, dim(c)) + others(c, k0(c)) + base(c), hints=lambda c: accum(c, k0(c), c.it) + dat.at(c, c.it) + pst.at(c, c.it) + [pcell(c.it, k0(c)) == pst(c.it) + k0(c)], dec=lambda c: N(c) - c.it),
         "2.0.0": Loop(inv=lambda c: [("range", c.it <= dim(c))] + cur(c, ua(c, i0(c) + 1), va(c, i0(c) + 1), 0, c.it) + cur(c, ua(c, i0(c)), va(c, i0(c)), c.it, dim(c), "rest") + others(c, k0(c)), hints=lambda c: inst(c, c.it), dec=lambda c: dim(c) - c.it),
         "2.1": Loop(inv=lambda c: [("range", c.it <= dim(c))] + cur(c, kd(EU, c), kd(EV, c), 0, c.it) + cur(c, ua(c, N(c)), va(c, N(c)), c.it, dim(c), "rest") + others(c, k0(c)), hints=lambda c: inst(c, c.it), dec=lambda c: dim(c) - c.it),
         "3": Loop(inv=lambda c: [("range", c.it <= 2 * H(c))] + part(c, (RU, RV), I(0), c.it, "rooted") + part(c, (EU, EV), c.it, 2 * H(c), "rest"), hints=lambda c: split(c, c.it), dec=lambda c: 2 * H(c) - c.it),
         "4": Loop(inv=lambda c: [("range", c.it <= 2 * H(c)), ("sum of squares", c.v("n") == GN(c.it))] + both(c, RU, RV, I(0), K(c), "encoding"), hints=lambda c: split(c, c.it) + [GN(I(0)) == 0, GN(c.it + 1) == GN(c.it) + PROD(val(c, c.it), val(c, c.it))], dec=lambda c: 2 * H(c) - c.it),
         "5": Loop(inv=lambda c: [("range", c.it <= 2 * H(c))] + part(c, (nrm(c, RU), nrm(c, RV)), I(0), c.it, "normalised") + part(c, (RU, RV), c.it, 2 * H(c), "rest"), hints=lambda c: split(c, c.it), dec=lambda c: 2 * H(c) - c.it)}
    size = lambda x: And(x >= 1, x < 2 ** 20)
    FU = lambda c, r: (lambda k, d: If(flag(c, 2), QUO(r(k, d), norm(c)), r(k, d)))
    return Contract("_vl_fisher_encode_" + sfx, args=["enc", "means", "dimension", "numClusters", "covariances", "priors", "data", "numData", "flags"], params=dict(enc="O", means="U", covariances="C", priors="W", data="D"), heap_types=(ty, ty),
                    regions={"O": dict(ty=ty, count=lambda c: 2 * H(c)), "U": dict(ty=ty, count=H), "C": dict(ty=ty, count=H), "W": dict(ty=ty, count=K), "D": dict(ty=ty, count=lambda c: dat(N(c)))},
                    requires=lambda c: [("sizes", And(size(K(c)), size(dim(c)), N(c) >= 0, N(c) < 2 ** 31)), ("flags", And(c.flags >= 0, c.flags < 8))],
                    hints=lambda c: row.axioms(c, K(c)) + dat.axioms(c, N(c)) + pst.axioms(c, N(c)) + cell.axioms() + pcell.axioms() + defs(c) + [NTK(I(0)) == 0], modifies=lambda c: [("O", None, None, None)],
                    ensures=lambda c: both(c, FU(c, RU), FU(c, RV), I(0), K(c), "the encoding") + [("number of terms", c.ret == NTK(K(c)))], loops=L)


UNITS = [Unit("vl/fisher.c", [encode(s, t)], uses=[P15.posteriors(s, t)], fp="real", axioms=("absdiv", "absmul")) for s, t in (("f", "float"), ("d", "double"))]
PROP = Prop("P17", units=UNITS, oracles=[Oracle("fisher.c", what="random small mixtures and points, both precisions, every flag combination", always=True, iters=(40000, 400000))])
