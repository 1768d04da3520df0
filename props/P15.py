from vcg.spec import *

R3 = lambda n: z3.Function(n, INT, INT, REAL)
Q = z3.Function("quotient", REAL, REAL, REAL)
LOG, EXP = z3.Function("log", REAL, REAL), z3.Function("exp", REAL, REAL)
NINF = -z3.Real("fpconst_pinf")
fr = lambda x: z3.Q(*x.as_integer_ratio())
MAH = R3("mahalanobis")                    # (data point, component): squared Mahalanobis distance under the component's covariances
LCP, MX, SM = R3("log_det_partial"), R3("largest_partial"), R3("sum_partial")
LW, LC, LLR = (z3.Function(n, INT, REAL) for n in ("log_weight", "log_det", "log_likelihood_partial"))
PK = R3("log_density")                     # (point, component): log of the weighted Gaussian density
PT, CP = z3.Function("point_at", INT, INT), z3.Function("component_at", INT, INT)


def unknown_function(fn):
    c = Contract(fn, args=["type"])
    c.assumed = True
    return c


def posteriors(sfx, ty):
    K, N, dim = (lambda c: c.numClusters), (lambda c: c.numData), (lambda c: c.dimension)
    row, dat, pst = Row("components", dim), Row("points", dim), Row("posteriors", K)
    cell = Cell("posteriors", pst)
    cov = lambda c, k, d: c.pre.at("C", row(k) + d)

    def det(c, k, d):
        return [LCP(k, I(0)) == 0, LCP(k, d + 1) == LCP(k, d) + LOG(cov(c, k, d)), LC(k) == LCP(k, dim(c))]

    def model(c, hi):
        """what the three temporary arrays hold for the first components"""
        w = lambda k: c.pre.at("W", k)
        a, b = z3.Ints("a!m b!m")
        return [("log weights", forall(lambda k: c.heap(2, k) == If(w(k) < fr(1e-6), NINF, LOG(w(k))), 0, hi, pat=lambda k: c.heap(2, k))),
                ("log determinants", forall(lambda k: c.heap(0, k) == LC(k), 0, hi, pat=lambda k: c.heap(0, k))),
                ("inverse covariances", forall(lambda p: c.heap(1, p) == Q(z3.RealVal(1), c.pre.at("C", p)), 0, row(hi), pat=lambda p: c.heap(1, p)))]
    i1 = lambda c: c.itof("1")
    HD = lambda c: z3.ToReal(dim(c)) / 2 * LOG(2 * fr(3.141592653589793))
    dens = lambda c, i, k: PK(i, k) == LW(k) - HD(c) - LC(k) / 2 - MAH(i, k) / 2
    M, S = (lambda c, i: MX(i, K(c))), (lambda c, i: SM(i, K(c)))
    ex = lambda c, i, k: EXP(PK(i, k) - M(c, i))

    def rows(c, hi):
        return [("posteriors of the points so far", z3.ForAll([z3.Int("i!p"), z3.Int("k!p")], (lambda i, k: Implies(And(i >= 0, i < hi, k >= 0, k < K(c)), c.at("O", cell(i, k)) == Q(ex(c, i, k), S(c, i))))(z3.Int("i!p"), z3.Int("k!p")), patterns=[cell(z3.Int("i!p"), z3.Int("k!p"))]))]

    def this_row(c, f, lo, hi):
        return ("row", forall(lambda k: c.at("O", cell(i1(c), k)) == f(k), lo, hi, pat=lambda k: cell(i1(c), k)))

    def dist(e, pv, args, inst):
        """the comparison function: Mahalanobis distance of a point to a mean under inverse covariances"""
        e.oblige("call", "compares vectors of the given dimension", e.guard, args[0].e == e.argmap["dimension"].e)
        ps = [e.single(a) for a in args[1:4]]
        e.oblige("call", "compares a point, a mean and the same component's inverse covariances", And(e.guard), And(ps[0].region.name == "D", ps[1].region.name == "U", ps[2].idx == ps[1].idx) if ps[0].region.name == "D" and ps[1].region.name == "U" and ps[2].region in e.blocks.values() else FALSE)
        return MAH(PT(ps[0].idx), CP(ps[1].idx))
    L = {"0": Loop(inv=lambda c: [("range", c.it <= K(c))] + model(c, c.it), hints=lambda c: row.at(c, c.it), dec=lambda c: K(c) - c.it),
         "0.0": Loop(inv=lambda c: [("range", c.it <= dim(c)), ("log determinant so far", c.v("logSigma") == LCP(c.itof("0"), c.it)), ("log weights", forall(lambda k: c.heap(2, k) == If(c.pre.at("W", k) < fr(1e-6), NINF, LOG(c.pre.at("W", k))), 0, c.itof("0") + 1, pat=lambda k: c.heap(2, k))), model(c, c.itof("0"))[1],
                                    ("inverse covariances", forall(lambda p: c.heap(1, p) == Q(z3.RealVal(1), c.pre.at("C", p)), 0, row(c.itof("0")) + c.it, pat=lambda p: c.heap(1, p)))],
                     hints=lambda c: det(c, c.itof("0"), c.it), dec=lambda c: dim(c) - c.it),
         "1": Loop(inv=lambda c: [("range", c.it <= N(c)), ("log-likelihood", c.v("LL") == LLR(c.it))] + rows(c, c.it),
                   hints=lambda c: dat.at(c, c.it) + pst.at(c, c.it) + [LLR(I(0)) == 0, LLR(c.it + 1) == LLR(c.it) + LOG(S(c, c.it)) + M(c, c.it)], dec=lambda c: N(c) - c.it),
         "1.0": Loop(inv=lambda c: [("range", c.it <= K(c)), ("largest so far", c.v("maxPosterior") == MX(i1(c), c.it)), this_row(c, lambda k: PK(i1(c), k), 0, c.it)] + rows(c, i1(c)),
                     hints=lambda c: row.at(c, c.it) + [PT(dat(i1(c))) == i1(c), CP(row(c.it)) == c.it, cell(i1(c), c.it) == pst(i1(c)) + c.it, dens(c, i1(c), c.it), LW(c.it) == If(c.pre.at("W", c.it) < fr(1e-6), NINF, LOG(c.pre.at("W", c.it))), MX(i1(c), I(0)) == NINF, MX(i1(c), c.it + 1) == Max(PK(i1(c), c.it), MX(i1(c), c.it))], dec=lambda c: K(c) - c.it),
         "1.1": Loop(inv=lambda c: [("range", c.it <= K(c)), ("sum so far", c.v("clusterPosteriorsSum") == SM(i1(c), c.it)), this_row(c, lambda k: ex(c, i1(c), k), 0, c.it), ("rest", this_row(c, lambda k: PK(i1(c), k), c.it, K(c))[1])] + rows(c, i1(c)),
                     hints=lambda c: [cell(i1(c), c.it) == pst(i1(c)) + c.it, SM(i1(c), I(0)) == 0, SM(i1(c), c.it + 1) == SM(i1(c), c.it) + ex(c, i1(c), c.it)], dec=lambda c: K(c) - c.it),
         "1.2": Loop(inv=lambda c: [("range", c.it <= K(c)), this_row(c, lambda k: Q(ex(c, i1(c), k), S(c, i1(c))), 0, c.it), ("rest", this_row(c, lambda k: ex(c, i1(c), k), c.it, K(c))[1])] + rows(c, i1(c)), hints=lambda c: [cell(i1(c), c.it) == pst(i1(c)) + c.it], dec=lambda c: K(c) - c.it)}
    size = lambda x: And(x >= 1, x < 2 ** 20)
    return Contract("vl_get_gmm_data_posteriors_" + sfx, args=["posteriors", "numClusters", "numData", "priors", "means", "dimension", "covariances", "data"], params=dict(posteriors="O", priors="W", means="U", covariances="C", data="D"), heap_types=(ty,), indirect=dist,
                    regions={"O": dict(ty=ty, count=lambda c: pst(N(c))), "W": dict(ty=ty, count=K), "U": dict(ty=ty, count=lambda c: row(K(c))), "C": dict(ty=ty, count=lambda c: row(K(c))), "D": dict(ty=ty, count=lambda c: dat(N(c)))},
                    requires=lambda c: [("sizes", And(size(K(c)), size(dim(c)), N(c) >= 0, N(c) < 2 ** 31))],
                    hints=lambda c: row.axioms(c, K(c)) + dat.axioms(c, N(c)) + pst.axioms(c, N(c)) + cell.axioms(), modifies=lambda c: [("O", None, None, None)],
                    ensures=lambda c: rows(c, N(c)) + [("log-likelihood", c.ret == LLR(N(c)))], loops=L)


def normal():
    """posteriors are e_k / S with S the sum of the e_k: non-negative and summing to one (induction step of the partial sums)"""
    e, p, s, S = z3.Reals("e p s S")
    return Lemma("partial sums of e_k/S are (partial sums of e_k)/S, so all of them add up to S/S", [S > 0, e > 0, p == s / S], And(p + e / S == (s + e) / S, e / S >= 0))


UNITS = [Unit("vl/gmm.c", [posteriors(s, t)], uses=[unknown_function("vl_get_vector_3_comparison_function_" + s)], fp="real", axioms=("absdiv",)) for s, t in (("f", "float"), ("d", "double"))]

PROP = Prop("P15", units=UNITS, lemmas=lambda: [normal()], oracles=[Oracle("gmm.c", what="random small mixtures, both precisions, with and without SIMD", always=True, iters=(8000, 60000))], bounded=["_vl_gmm_maximization_*, _vl_gmm_em_*, vl_gmm_cluster: random small mixtures against the definitions"])
