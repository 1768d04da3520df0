from vcg.spec import *
from props.P05 import allpairs, CMP, TIMES

PINF = z3.Real("fpconst_pinf")


def unknown_function(fn):
    """which comparison it is does not matter here (P05 covers that it is the one of the type)"""
    c = Contract(fn, args=["type"])
    c.assumed = True
    return c


def quantize(sfx, ty):
    n, K, dim = (lambda c: c.numData), (lambda c: c.at("S", None, "numCenters")), (lambda c: c.at("S", None, "dimension"))
    data, cent = Row("data", dim), Row("centers", dim)
    dist = lambda c, i, k: CMP(c.pre.arr("D"), data(i), c.pre.arr("C"), TIMES(dim(c), k))
    Q = lambda c, i: c.at("Q", i)

    def nearest(c, hi):
        i, k = z3.Ints("i!n k!n")
        return [("assigned to a centre", forall(lambda i: And(Q(c, i) >= 0, Q(c, i) < K(c)), 0, hi, pat=lambda i: Q(c, i))),
                ("no centre is closer", z3.ForAll([i, k], Implies(And(i >= 0, i < hi, k >= 0, k < K(c)), dist(c, i, Q(c, i)) <= dist(c, i, k)), patterns=[z3.MultiPattern(Q(c, i), TIMES(dim(c), k))])),
                ("distance to it is stored", Implies(Not(c.distances_null), forall(lambda i: c.at("E", i) == dist(c, i, Q(c, i)), 0, hi, pat=lambda i: Q(c, i))))]
    i0 = lambda c: c.itof("0")
    L = {"0": Loop(inv=lambda c: [("range", c.it <= n(c))] + nearest(c, c.it), hints=lambda c: data.at(c, c.it), dec=lambda c: n(c) - c.it),
         "0.0": Loop(inv=lambda c: [("range", c.it <= K(c)), ("nearest so far", And(Implies(c.it == 0, c.v("bestDistance") == PINF), Implies(c.it > 0, And(Q(c, i0(c)) >= 0, Q(c, i0(c)) < c.it, c.v("bestDistance") == dist(c, i0(c), Q(c, i0(c))))))),
                                    ("no closer centre so far", forall(lambda k: c.v("bestDistance") <= dist(c, i0(c), k), 0, c.it, pat=lambda k: TIMES(dim(c), k)))] + nearest(c, i0(c)),
                     hints=lambda c: [TIMES(dim(c), c.it) == TIMES(dim(c), c.it)], dec=lambda c: K(c) - c.it)}
    size = lambda x: And(x >= 1, x < 2 ** 20)
    return Contract("_vl_kmeans_quantize_" + sfx, args=["self", "assignments", "distances", "data", "numData"], params={"self": "S", "assignments": "Q", "distances": "E", "data": "D"}, nullable=("distances",), heap_types=(ty,),
                    regions={"S": dict(ty="VlKMeans", links={"centers": "C"}), "C": dict(ty=ty, count=lambda c: TIMES(K(c), dim(c))), "Q": dict(ty="i32", signed=False, count=n), "E": dict(ty=ty, count=n), "D": dict(ty=ty, count=lambda c: data(n(c)))},
                    requires=lambda c: [("sizes", And(size(K(c)), size(dim(c)), n(c) >= 0, n(c) < 2 ** 31)), ("finite distances", z3.ForAll([z3.Int("i!f"), z3.Int("k!f")], dist(c, z3.Int("i!f"), z3.Int("k!f")) < PINF, patterns=[dist(c, z3.Int("i!f"), z3.Int("k!f"))]))],
                    hints=lambda c: data.axioms(c, n(c)) + [TIMES(K(c), dim(c)) == K(c) * dim(c)], modifies=lambda c: [("Q", None, None, None), ("E", None, None, None)],
                    ensures=lambda c: nearest(c, n(c)), loops=L)


UNITS = [Unit("vl/kmeans.c", [quantize(s, t)], uses=[allpairs(s, t), unknown_function("vl_get_vector_comparison_function_" + s)], fp="real") for s, t in (("f", "float"), ("d", "double"))]
PROP = Prop("P12", units=UNITS, oracles=[Oracle("kmeans.c", what="random small clusterings, all algorithms, both norms and precisions", always=True, iters=(6000, 60000))], bounded=["vl_kmeans_quantize_ann, _vl_kmeans_refine_centers_*, seeding: random small data against the definitions"])
