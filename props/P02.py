from vcg.heaps import *


def mk(prefix, ty, leaves, leaf, rev=False, **k):
    rk = lambda c, i: c.eng.fp.rk(c.at("A", i, *leaf))
    le = (lambda c, i, j: rk(c, j) <= rk(c, i)) if rev else (lambda c, i, j: rk(c, i) <= rk(c, j))
    return heap_contracts(prefix, ty, leaves, le, **k)


KD = "vl/kdtree.c"
PROP = Prop("P02", units=[
    Unit("inst/heap.c", mk("vh", "double", [()], ()), axioms=("subsign",)),
    Unit(KD, mk("vl_kdforest_search_heap", "VlKDForestSearchState", [("tree",), ("nodeIndex",), ("distanceLowerBound",)], ("distanceLowerBound",), emitted=("up", "down", "push", "pop")) +
         mk("vl_kdtree_split_heap", "VlKDTreeSplitDimension", [("dimension",), ("mean",), ("variance",)], ("variance",), emitted=("up", "down", "push", "update")) +
         mk("vl_kdforest_neighbor_heap", "VlKDForestNeighbor", [("index",), ("distance",)], ("distance",), rev=True, emitted=("up", "down", "push", "pop", "update")), axioms=("subsign",))],
    lemmas=lambda: [root_lemma()], oracles=[Oracle("heap.c", exclude=["vl/kdtree.c"], what="random operation sequences on all four heaps, heap order and multiset checked after each")])
