from vcg.spec import *
from props.P05 import TIMES

product = z3.Function("product", REAL, REAL, REAL)

SUB = z3.Function("in_subtree", INT, INT, BOOL)


def calc_bounds():
    D, U = G("dimension"), (lambda c: c.at("S", None, "numUsedNodes"))
    nd = lambda c, n, f: c.at("N", n, f)
    lo_, up_, spl, thr = (lambda c, n, f=f: nd(c, n, f) for f in ("lowerChild", "upperChild", "splitDimension", "splitThreshold"))
    so = lambda c: c.arr("N", "lowerBound").sort().range()
    BL = lambda c, n, d: z3.Function("cell_low", INT, INT, so(c))(n, d)
    BU = lambda c, n, d: z3.Function("cell_high", INT, INT, so(c))(n, d)

    def shape(c):
        n, d = z3.Ints("n!k d!k")
        inr = And(n >= 0, n < U(c))
        r = [z3.ForAll([n], Implies(inr, And(spl(c, n) >= 0, spl(c, n) < D)), patterns=[spl(c, n)])]
        for ch, B1, B2 in ((lo_, BU, BL), (up_, BL, BU)):
            k = ch(c, n)
            r += [z3.ForAll([n], Implies(And(inr, k > 0), And(k > n, k < U(c))), patterns=[k]),
                  z3.ForAll([n, d], Implies(And(inr, k > 0), And(B1(c, k, d) == If(d == spl(c, n), thr(c, n), B1(c, n, d)), B2(c, k, d) == B2(c, n, d))), patterns=[B1(c, k, d), B2(c, k, d)])]
        return ("a tree: children follow their parents, cells are split by the threshold", And(*r))

    def unfold(c):
        m = z3.Int("m!k")
        n = c.nodeIndex
        return [z3.ForAll([m], SUB(n, m) == Or(m == n, And(lo_(c, n) > 0, SUB(lo_(c, n), m)), And(up_(c, n) > 0, SUB(up_(c, n), m))), patterns=[SUB(n, m)])]

    def ok(c, m):
        return And(nd(c, m, "lowerBound") == BL(c, m, spl(c, m)), nd(c, m, "upperBound") == BU(c, m, spl(c, m)))
    same = lambda c, m: And(nd(c, m, "lowerBound") == nd(c.pre, m, "lowerBound"), nd(c, m, "upperBound") == nd(c.pre, m, "upperBound"))
    sb = lambda c, n: forall(lambda d: And(c.at("B", 2 * d) == BL(c, n, d), c.at("B", 2 * d + 1) == BU(c, n, d)), 0, D, pat=lambda d: BL(c, n, d)) if False else And(
        forall(lambda d: c.at("B", 2 * d) == BL(c, n, d), 0, D, pat=lambda d: BL(c, n, d)), forall(lambda d: c.at("B", 2 * d + 1) == BU(c, n, d), 0, D, pat=lambda d: BU(c, n, d)))
    anyn = lambda c, f: z3.ForAll([z3.Int("m!n")], Implies(And(z3.Int("m!n") >= 0, z3.Int("m!n") < U(c)), f(z3.Int("m!n"))), patterns=[nd(c, z3.Int("m!n"), "lowerBound"), nd(c, z3.Int("m!n"), "upperBound")])
    return Contract("vl_kdtree_calc_bounds_recursively", args=["tree", "nodeIndex", "searchBounds"], params={"tree": "S", "searchBounds": "B"},
                    regions={"S": dict(ty="VlKDTree", links={"nodes": "N"}), "N": dict(ty="VlKDTreeNode", count=U), "B": dict(ty="double", count=lambda c: 2 * D)},
                    requires=lambda c: [("sizes", And(D >= 1, D < 2 ** 31, U(c) < 2 ** 40, c.nodeIndex >= 0, c.nodeIndex < U(c))), shape(c), ("bounds are those of the cell", sb(c, c.nodeIndex))],
                    hints=unfold, modifies=lambda c: [("N", None, None, None), ("B", None, None, None)], decreases=lambda c: U(c) - c.nodeIndex,
                    ensures=lambda c: [("search bounds restored", forall(lambda j: c.at("B", j) == c.pre.at("B", j), 0, 2 * D, pat=lambda j: c.at("B", j))),
                                       ("every node below has the bounds of its cell", forall(lambda m: Implies(SUB(c.nodeIndex, m), ok(c, m)), 0, U(c), pat=lambda m: SUB(c.nodeIndex, m))),
                                       ("other nodes keep theirs", anyn(c, lambda m: Or(same(c, m), ok(c, m)))),
                                       ("the tree itself is kept", anyn(c, lambda m: And(*[nd(c, m, f) == nd(c.pre, m, f) for f in ("parent", "lowerChild", "upperChild", "splitDimension", "splitThreshold")])) if False else
                                        And(*[c.arr("N", f) == c.pre.arr("N", f) for f in ("parent", "lowerChild", "upperChild", "splitDimension", "splitThreshold")]))])


# ---- search.  For one query: CELL(n) bounds the distance to the points of node n's cell, DQ(d) is the distance to point d, UNDER(n,d): point d is below node n
CELL = z3.Function("cell_distance", INT, REAL)
DQ = z3.Function("distance_to_query", INT, REAL)
UNDER = z3.Function("point_below", INT, INT, BOOL)
IARR, RARR = z3.ArraySort(INT, INT), z3.ArraySort(INT, REAL)
HAS = z3.Function("has_entry", IARR, INT, INT, BOOL)            # among the first n entries there is index d
PEND = z3.Function("has_pending", IARR, INT, INT, BOOL)         # among the first n nodes one is above point d
HEAP = z3.Function("is_heap", RARR, INT, BOOL)                  # keys in heap order (P02)
MEMB = {}


def among(c):
    """definitions, and what the heap order means (the root lemma of P02)"""
    a, r, b = z3.Const("a!q", IARR), z3.Const("r!q", RARR), z3.Const("b!q", RARR)
    n, d, j = z3.Ints("n!q d!q j!q")
    return [z3.ForAll([a, n, d, j], Implies(And(j >= 0, j < n, a[j] == d), HAS(a, n, d)), patterns=[z3.MultiPattern(HAS(a, n, d), a[j])]),
            z3.ForAll([a, n, d, j], Implies(And(j >= 0, j < n, UNDER(a[j], d)), PEND(a, n, d)), patterns=[z3.MultiPattern(PEND(a, n, d), UNDER(a[j], d))]),
            z3.ForAll([r, n, j], Implies(And(HEAP(r, n), j >= 0, j < n), r[0] >= r[j]), patterns=[z3.MultiPattern(HEAP(r, n), r[j])])]


def last(f, a, n, key):
    """the first n+1 entries are the first n and a[n]"""
    d = z3.Int("d!l")
    return z3.ForAll([d], f(a, n + 1, d) == Or(f(a, n, d), key(a[n], d)), patterns=[f(a, n + 1, d)])


def stores():
    """what changing an entry does to these predicates: beyond the first n nothing; at 0 only that entry is lost"""
    a, r = z3.Const("a!u", IARR), z3.Const("r!u", RARR)
    n, d, v = z3.Ints("n!u d!u v!u")
    w = z3.Real("w!u")
    out = [z3.ForAll([r, n, w], HEAP(z3.Store(r, n, w), n) == HEAP(r, n), patterns=[HEAP(z3.Store(r, n, w), n)])]
    for f, key in ((HAS, lambda x, d: x == d), (PEND, lambda x, d: UNDER(x, d))):
        out += [z3.ForAll([a, n, v, d], f(z3.Store(a, n, v), n, d) == f(a, n, d), patterns=[f(z3.Store(a, n, v), n, d)]),
                z3.ForAll([a, n, v, d], Implies(n >= 1, And(Implies(f(a, n, d), Or(f(z3.Store(a, 0, v), n, d), key(a[0], d))), Implies(key(v, d), f(z3.Store(a, 0, v), n, d)))), patterns=[f(z3.Store(a, 0, v), n, d)])]
    return out


eqk = lambda x, d: x == d


def heap_ops():
    """what P02 shows of the heaps, as seen by the caller (assumed here): entries are rearranged, in heap order"""
    SRC = z3.Function("moved_from", IARR, IARR, INT, INT)
    out = []
    for nm, ty, key, keys, f, op, idx in (("vl_kdforest_neighbor_heap_push", "VlKDForestNeighbor", "distance", True, HAS, "push", "index"), ("vl_kdforest_neighbor_heap_update", "VlKDForestNeighbor", "distance", True, HAS, "update", "index"),
                                          ("vl_kdforest_search_heap_push", "VlKDForestSearchState", "distanceLowerBound", False, PEND, "push", "nodeIndex")):
        push = op == "push"
        n0 = (lambda c: c.pre.at("S")) if push else (lambda c: c.heapSize)
        n1 = (lambda c: c.pre.at("S") + 1) if push else (lambda c: c.heapSize)

        def ens(c, key=key, keys=keys, f=f, idx=idx, push=push, n0=n0, n1=n1):

            def nm_(c, x):
                v = c.arr("A", x)
                n = c.eng.fresh("keys", v.sort())
                c.eng.fact(n == v)
                return n
            a, b, ka, kb = nm_(c.pre, idx), nm_(c, idx), nm_(c.pre, key), nm_(c, key)
            n = c.eng.fresh("length", INT)
            c.eng.fact(n == n0(c))
            n0 = lambda c: n
            n1 = (lambda c: n + 1) if push else n0
            d = z3.Int("d!h")
            kk = eqk if f is HAS else lambda x, d: UNDER(x, d)
            src = lambda j: SRC(a, b, j)
            r = [("rearranged", forall(lambda j: And(src(j) >= 0, src(j) < n1(c), b[j] == a[src(j)], kb[j] == ka[src(j)]), 0, n1(c), pat=lambda j: b[j])), ("rearranged", forall(lambda j: And(src(j) >= 0, src(j) < n1(c), b[j] == a[src(j)], kb[j] == ka[src(j)]), 0, n1(c), pat=lambda j: kb[j])),
                 ("same entries", z3.ForAll([d], f(b, n1(c), d) == f(a, n1(c), d), patterns=[f(b, n1(c), d)]))]
            if push:
                r += [("length", c.at("S") == n1(c)), ("definition", last(f, a, n0(c), kk))]
            return r + ([("heap order", HEAP(kb, n1(c)))] if keys else [])

        def req(c, push=push, key=key, keys=keys, n0=n0):
            if not keys:
                return [("room", And(c.at("S") >= 0, c.at("S") < HCAP))]
            k = c.arr("A", key)
            if push:
                return [("room", And(c.at("S") >= 0, c.at("S") < NCAP)), ("heap order before", HEAP(k, c.at("S")))]
            return [("the root was lowered", And(c.index == 0, c.heapSize >= 1, c.heapSize <= NCAP))]
        ct = Contract(nm, args=["array", "heapSize"] if push else ["array", "heapSize", "index"], params=dict(array="A", heapSize="S") if push else dict(array="A"),
                      regions=dict(A=dict(ty=ty), **(dict(S=dict(ty="i64")) if push else {})), requires=req, ensures=ens, modifies=lambda c, push=push: [("A", None, None, None)] + ([("S", None, I(0), I(1))] if push else []))
        ct.assumed = True
        out.append(ct)
    return out


HCAP, NCAP, NDATA = G("heap_room"), G("numNeighbors"), G("numData")


def named(c, v):
    """patterns cannot contain a case distinction: give it a name"""
    if z3.is_const(v):
        return v
    n = c.eng.fresh("at", v.sort())
    c.eng.fact(n == v)
    return n


def query(ty):
    FT = 1 if ty == "float" else 2
    f = lambda c, x: c.at("F", None, x)
    s = lambda c, x: c.at("SR", None, x)
    U = lambda c: c.at("T", None, "numUsedNodes")
    nd = lambda c, n, x: c.at("N", n, x)
    xq = lambda c, n: c.at("Q", nd(c, n, "splitDimension"))
    sq = lambda e: z3.Function("square", REAL, REAL)(e)
    isL1 = lambda c: f(c, "distance") == 0

    def pw(c, e):
        return If(isL1(c), e, product(e, e))

    def gap(c, x, a, b):
        """contribution of one coordinate to the distance of x from [a,b]"""
        return If(x < a, pw(c, a - x), If(x > b, pw(c, x - b), z3.RealVal(0)))

    def here(c):
        if c.frame:
            return c.nodeIndex
        n = c.eng.fresh("node", INT)
        c.eng.fact(n == c.nodeIndex)
        return n

    def tree(c):
        n = z3.Int("n!t")
        d = z3.Int("d!t")
        inr = And(n >= 0, n < U(c))
        lo_, up_ = nd(c, n, "lowerChild"), nd(c, n, "upperChild")
        x, a, t, b = xq(c, n), nd(c, n, "lowerBound"), nd(c, n, "splitThreshold"), nd(c, n, "upperBound")
        leaf = lo_ < 0
        return [("nodes", z3.ForAll([n], Implies(inr, And(nd(c, n, "splitDimension") >= 0, nd(c, n, "splitDimension") < f(c, "dimension"), lo_ > -2 ** 40, up_ > -2 ** 40,
                                                          If(leaf, And(up_ < 0, -up_ - 1 <= NDATA), And(lo_ > n, lo_ < U(c), up_ > n, up_ < U(c), a <= t, t <= b)))), patterns=[lo_, up_])),
                ("points", forall(lambda i: And(c.at("X", i, "index") >= 0, c.at("X", i, "index") < NDATA), 0, NDATA, pat=lambda i: c.at("X", i, "index")))]

    def cells(c):
        """what the cell distances and the points below a node are"""
        n, d = c.nodeIndex, z3.Int("d!c")
        lo_, up_ = nd(c, n, "lowerChild"), nd(c, n, "upperChild")
        x, a, t, b = xq(c, n), nd(c, n, "lowerBound"), nd(c, n, "splitThreshold"), nd(c, n, "upperBound")
        i = z3.Int("i!c")
        neg = lambda e, g: product(e, e) == product(g, g)
        return [Implies(lo_ >= 0, And(CELL(lo_) == CELL(n) - gap(c, x, a, b) + gap(c, x, a, t), CELL(up_) == CELL(n) - gap(c, x, a, b) + gap(c, x, t, b))),
                Implies(lo_ >= 0, z3.ForAll([d], UNDER(n, d) == Or(UNDER(lo_, d), UNDER(up_, d)), patterns=[UNDER(n, d)])),
                product(z3.RealVal(0), z3.RealVal(0)) == 0, neg(x - t, t - x), neg(x - a, a - x), neg(x - b, b - x),
                z3.ForAll([d], Implies(And(lo_ < 0, UNDER(n, d)), And(WHERE(d) >= -lo_ - 1, WHERE(d) < -up_ - 1, c.at("X", WHERE(d), "index") == d)), patterns=[UNDER(n, d)]),
                z3.ForAll([d], Implies(And(d >= 0, d < NDATA, UNDER(n, d)), DQ(d) >= CELL(n)), patterns=[UNDER(n, d)]), Implies(lo_ >= 0, And(*[z3.ForAll([d], Implies(And(d >= 0, d < NDATA, UNDER(k, d)), DQ(d) >= CELL(k)), patterns=[UNDER(k, d)]) for k in (lo_, up_)]))] + among(c) + stores()
    WHERE = z3.Function("position_in_leaf", INT, INT)

    # the state of the search
    book = lambda c, d: c.at("BK", d) == s(c, "searchId")
    added = lambda c: c.at("CNT")

    def nb(c, x, r="NB"):
        c.at(r, I(0), x)                                  # gives the memory a name
        v = c.arr(r, x)
        return named(c, v)
    full = lambda c: added(c) == c.numNeighbors
    good = lambda c, d: Or(HAS(nb(c, "index"), added(c), d), And(full(c), nb(c, "distance")[0] <= DQ(d)))

    def state(c):
        return [("neighbours found", And(added(c) >= 0, added(c) <= c.numNeighbors, HEAP(nb(c, "distance"), added(c)))),
                ("their distances", forall(lambda j: And(nb(c, "index")[j] >= 0, nb(c, "index")[j] < NDATA, nb(c, "distance")[j] == DQ(nb(c, "index")[j])), 0, added(c), pat=lambda j: nb(c, "distance")[j])),
                ("every point seen is a neighbour or farther than all of them", forall(lambda d: Implies(book(c, d), good(c, d)), 0, NDATA, pat=lambda d: c.at("BK", d))),
                ("pending nodes carry the distance of their cell", forall(lambda j: c.at("H", j, "distanceLowerBound") == CELL(c.at("H", j, "nodeIndex")), 0, s(c, "searchHeapNumNodes"), pat=lambda j: c.at("H", j, "distanceLowerBound")))]

    def kept(c):
        d = z3.Int("d!s")
        a, n, a0, n0 = nb(c, "nodeIndex", "H"), s(c, "searchHeapNumNodes"), nb(c.pre, "nodeIndex", "H"), s(c.pre, "searchHeapNumNodes")
        n, n0 = named(c, n), named(c, n0)
        return [("pending nodes stay pending", And(n >= n0, z3.ForAll([d], Implies(PEND(a0, n0, d), PEND(a, n, d)), patterns=[PEND(a, n, d), PEND(a0, n0, d)])))]

    def result(c):
        unl = f(c, "searchMaxNumComparisons") == 0
        n = c.eng.fresh("length", INT)
        c.eng.fact(n == s(c, "searchHeapNumNodes"))
        m = here(c)
        return state(c) + kept(c) + [("every point below the node was seen, is pending, or is farther than all neighbours", Implies(unl, forall(lambda d: Implies(UNDER(m, d), Or(book(c, d), PEND(nb(c, "nodeIndex", "H"), n, d), And(full(c), nb(c, "distance")[0] <= DQ(d)))), 0, NDATA, pat=lambda d: UNDER(m, d)))),
                            ("points seen stay seen", forall(lambda d: Implies(book(c.pre, d), book(c, d)), 0, NDATA, pat=lambda d: c.at("BK", d))),
                            ("settled stays settled", Implies(full(c.pre), And(full(c), nb(c, "distance")[0] <= nb(c.pre, "distance")[0])))]

    def measure(e, pv, args, i):
        """the distance of the query to the point at this position"""
        e.oblige("call", "compares vectors of the given dimension", e.guard, args[0].e == f(e.prectx, "dimension"))
        return DQ(POINT(e.single(args[2]).idx))
    POINT = z3.Function("point_at", INT, INT)
    it = lambda c: c.v("iter")
    leafrange = lambda c: (-nd(c, c.nodeIndex, "lowerChild") - 1, -nd(c, c.nodeIndex, "upperChild") - 1)
    di = lambda c: c.at("X", leafrange(c)[0] + c.it, "index")
    L = {"0": Loop(inv=lambda c: [("range", And(c.it >= 0, Or(c.it == 0, leafrange(c)[0] + c.it <= leafrange(c)[1])))] + state(c) + [("points of the leaf so far", forall(lambda p: book(c, c.at("X", p, "index")), leafrange(c)[0], leafrange(c)[0] + c.it, pat=lambda p: c.at("X", p, "index"))),
                                 ("points seen stay seen", forall(lambda d: Implies(book(c.pre, d), book(c, d)), 0, NDATA, pat=lambda d: c.at("BK", d))),
                                 ("settled stays settled", Implies(full(c.pre), And(full(c), nb(c, "distance")[0] <= nb(c.pre, "distance")[0])))],
                   hints=lambda c: [POINT(di(c) * f(c, "dimension")) == di(c)],
                   dec=lambda c: leafrange(c)[1] - leafrange(c)[0] - c.it)}
    return Contract("vl_kdforest_query_recursively", args=["searcher", "tree", "nodeIndex", "neighbors", "numNeighbors", "numAddedNeighbors", "dist", "query"], params=dict(searcher="SR", tree="T", neighbors="NB", numAddedNeighbors="CNT", query="Q"), indirect=measure,
                    regions={"SR": dict(ty="VlKDForestSearcher", links={"forest": "F", "searchIdBook": "BK", "searchHeapArray": "H"}), "F": dict(ty="VlKDForest", links={"data": "DT"}), "DT": dict(ty=ty, count=lambda c: NDATA * f(c, "dimension")), "BK": dict(ty="i64", signed=False, count=lambda c: NDATA),
                             "H": dict(ty="VlKDForestSearchState", count=lambda c: HCAP), "T": dict(ty="VlKDTree", links={"nodes": "N", "dataIndex": "X"}), "N": dict(ty="VlKDTreeNode", count=U), "X": dict(ty="VlKDTreeDataIndexEntry", count=lambda c: NDATA),
                             "NB": dict(ty="VlKDForestNeighbor", count=lambda c: c.numNeighbors), "CNT": dict(ty="i64", signed=False), "Q": dict(ty=ty, count=lambda c: f(c, "dimension"))},
                    known=lambda c: f(c, "dataType") == FT,
                    requires=lambda c: [("norm", Or(f(c, "distance") == 0, f(c, "distance") == 1)), ("sizes", And(f(c, "dimension") >= 1, f(c, "dimension") < 2 ** 20, NDATA >= 1, NDATA < 2 ** 31, U(c) < 2 ** 40, c.nodeIndex >= 0, c.nodeIndex < U(c), c.numNeighbors >= 1, c.numNeighbors == NCAP, NCAP < 2 ** 31,
                                                                                              s(c, "searchHeapNumNodes") >= 0, s(c, "searchHeapNumNodes") + U(c) - c.nodeIndex <= HCAP, HCAP < 2 ** 41)),
                                        ("the bound is the distance of the cell", c.dist == CELL(c.nodeIndex))] + tree(c) + state(c),
                    hints=lambda c: cells(c) if c.frame else [], decreases=lambda c: U(c) - c.nodeIndex, modifies=lambda c: [("SR", ("searchNumRecursions",), None, None), ("SR", ("searchNumComparisons",), None, None), ("SR", ("searchHeapNumNodes",), None, None), ("BK", None, None, None), ("H", None, None, None), ("NB", None, None, None), ("CNT", None, None, None)],
                    ensures=result, loops=L)


UNITS = [Unit("vl/kdtree.c", [calc_bounds()])] + [Unit("vl/kdtree.c", [query(t)], uses=heap_ops(), fp="real", axioms=("absmul",)) for t in ("float", "double")]
PROP = Prop("P14", units=UNITS, oracles=[Oracle("kdtree.c", what="random forests of 1 to 4 trees, both norms, types and thresholds: tree structure, exact and limited searches against brute force", always=True, iters=(6000, 60000))], bounded=["vl_kdtree_build_recursively, vl_kdforestsearcher_query (the loop around the recursive search), vl_kdforest_query_with_array: random small forests against brute force"])
