import sys
from vcg.spec import *

LOG = z3.Function("log", REAL, REAL)
PROD, QUO = z3.Function("product", REAL, REAL, REAL), z3.Function("quotient", REAL, REAL, REAL)
MAX = z3.RealVal(str(int(sys.float_info.max)))
E_ = lambda c: c.pre.at("A", 0, "nentries")
NL = lambda c: c.pre.at("A", 0, "nlabels")
rowf = Row("labels", lambda c: NL(c))
cellf = z3.Function("table_cell", INT, INT, INT)
cells = lambda: z3.ForAll([z3.Int("r!c"), z3.Int("l!c")], cellf(z3.Int("r!c"), z3.Int("l!c")) == rowf(z3.Int("r!c")) + z3.Int("l!c"), patterns=[cellf(z3.Int("r!c"), z3.Int("l!c"))])
SIZES = lambda c: ("sizes", And(E_(c) >= 1, E_(c) < 2 ** 31, NL(c) >= 0, NL(c) < 2 ** 31, rowf(E_(c)) < 2 ** 32))
LINKS = {"nodes": "nodes", "beta": "beta", "bidx": "bidx", "which": "which", "Pcx": "Pcx", "Px": "Px", "Pc": "Pc", "parents": "parents", "costs": "costs"}
plogp = lambda x: PROD(x, LOG(x))


def regions(*names, **more):
    d = {"A": dict(ty="_VlAIB", links={k: k for k in names})}
    for k in names:
        d[k] = dict(ty="i32", signed=False, count=E_) if k in ("nodes", "bidx", "which") else dict(ty="double", count=(lambda c: rowf(E_(c))) if k == "Pcx" else NL if k == "Pc" else E_)
    d.update(more)
    return d


def min_beta():
    out = lambda r: dict(ty="i32", signed=False)
    bt = lambda c, i: c.pre.at("beta", i)
    i = lambda c: c.v("i")
    def best(c, hi):
        return [("index", And(c.at("BI") >= 0, c.at("BI") < E_(c))), ("its distance", c.at("MB") == bt(c, c.at("BI"))), ("its closest entry", c.at("BJ") == c.pre.at("bidx", c.at("BI"))), ("no entry has a smaller distance", forall(lambda j: c.at("MB") <= bt(c, j), 0, hi, pat=lambda j: bt(c, j)))]
    return Contract("vl_aib_min_beta", args=["aib", "besti", "bestj", "minbeta"], params=dict(aib="A", besti="BI", bestj="BJ", minbeta="MB"), regions=regions("beta", "bidx", BI=out(0), BJ=out(0), MB=dict(ty="double")), requires=lambda c: [And(E_(c) >= 1, E_(c) < 2 ** 32)],
                    modifies=lambda c: [("BI", None, None, None), ("BJ", None, None, None), ("MB", None, None, None)], loops={"0": Loop(inv=lambda c: [("range", And(i(c) >= 0, i(c) <= E_(c)))] + best(c, i(c)), dec=lambda c: E_(c) - i(c))}, ensures=lambda c: best(c, E_(c)))


def information():
    px, pcx, pc = (lambda c, r: c.pre.at("Px", r)), (lambda c, r, l: c.pre.at("Pcx", cellf(r, l))), (lambda c, l: c.pre.at("Pc", l))
    HS, IS, IR = z3.Function("entropy_of_first", INT, REAL), z3.Function("information_of_first", INT, REAL), z3.Function("information_in_row", INT, INT, REAL)
    r0 = lambda c: c.itof("0")
    def defs(c, r):
        return [HS(I(0)) == 0, IS(I(0)) == 0, HS(r + 1) == HS(r) + If(px(c, r) == 0, 0, PROD(-LOG(px(c, r)), px(c, r))), IR(r, I(0)) == IS(r), IS(r + 1) == If(px(c, r) == 0, IS(r), IR(r, NL(c)))]
    def term(c, r, l):
        p = pcx(c, r, l)
        return [cellf(r, l) == rowf(r) + l, IR(r, l + 1) == IR(r, l) + If(p == 0, 0, PROD(p, LOG(QUO(p, PROD(px(c, r), pc(c, l))))))]
    L = {"0": Loop(inv=lambda c: [("range", c.it <= E_(c)), ("entropy", c.at("H") == HS(c.it)), ("information", c.at("I") == IS(c.it))], hints=lambda c: defs(c, c.it) + rowf.at(c, c.it), dec=lambda c: E_(c) - c.it),
         "0.0": Loop(inv=lambda c: [("range", c.it <= NL(c)), ("information", c.at("I") == IR(r0(c), c.it)), ("entropy", c.at("H") == HS(r0(c) + 1))], hints=lambda c: term(c, r0(c), c.it), dec=lambda c: NL(c) - c.it)}
    return Contract("vl_aib_calculate_information", args=["aib", "I", "H"], params=dict(aib="A", I="I", H="H"), regions=regions("Px", "Pcx", "Pc", I=dict(ty="double"), H=dict(ty="double")), requires=lambda c: [SIZES(c)], hints=lambda c: rowf.axioms(c, E_(c)), modifies=lambda c: [("I", None, None, None), ("H", None, None, None)], loops=L,
                    ensures=lambda c: [("entropy: minus the sum of p log p", c.at("H") == HS(E_(c))), ("mutual information of entries and labels", c.at("I") == IS(E_(c)))])


def merge():
    lo, hi = (lambda c: If(c.i > c.j, c.j, c.i)), (lambda c: If(c.i > c.j, c.i, c.j))
    last = lambda c: E_(c) - 1
    N1 = lambda c: E_(c) - 1
    CNT = z3.Function("stale_entries_below", INT, INT)
    P0 = lambda c, x: c.pre.at("Px", x)
    T0 = lambda c, r, l: c.pre.at("Pcx", cellf(r, l))
    T = lambda c, r, l: c.at("Pcx", cellf(r, l))
    b1 = lambda c, x: If(x == hi(c), c.pre.at("bidx", last(c)), c.pre.at("bidx", x))
    e1 = lambda c, x: If(x == lo(c), MAX, If(x == hi(c), c.pre.at("beta", last(c)), c.pre.at("beta", x)))
    stale = lambda c, x: Or(b1(c, x) == lo(c), b1(c, x) == hi(c))
    b2 = lambda c, x: If(stale(c, x), 0, If(b1(c, x) == last(c), hi(c), b1(c, x)))
    e2 = lambda c, x: If(stale(c, x), MAX, e1(c, x))
    n = lambda c: c.v("n")
    k = lambda c: c.v("c")
    r, l = z3.Ints("r!m l!m")
    def table(c, f, what):
        """f: row, label -> value, one clause per kind of row"""
        return [("%s: %s" % (what, nm), z3.ForAll([r, l], Implies(And(r >= 0, r < E_(c), l >= 0, l < NL(c), g(r, l)), T(c, r, l) == f(r, l)), patterns=[cellf(r, l)])) for nm, g, f in f]
    merged = lambda c, l: T0(c, lo(c), l) + T0(c, hi(c), l)
    def tab(c, kl, kh, what="table"):
        """the first kl labels of the merged row and the first kh of the moved row are done"""
        return table(c, [("merged row", lambda r, l: And(r == lo(c), l < kl), lambda r, l: merged(c, l)), ("moved row", lambda r, l: And(r == hi(c), l < kh), lambda r, l: T0(c, last(c), l)),
                         ("other rows", lambda r, l: And(Or(r != lo(c), l >= kl), Or(r != hi(c), l >= kh)), lambda r, l: T0(c, r, l))], what)
    def entries(c, hi_):
        return [("closest entries, done", forall(lambda x: c.at("bidx", x) == b2(c, x), 0, hi_, pat=lambda x: c.at("bidx", x))), ("distances, done", forall(lambda x: c.at("beta", x) == e2(c, x), 0, hi_, pat=lambda x: c.at("beta", x))),
                ("closest entries, rest", forall(lambda x: c.at("bidx", x) == b1(c, x), hi_, N1(c), pat=lambda x: c.at("bidx", x))), ("distances, rest", forall(lambda x: c.at("beta", x) == e1(c, x), hi_, N1(c), pat=lambda x: c.at("beta", x))),
                ("number of entries to update", And(c.at("A", 0, "nwhich") == CNT(hi_), CNT(hi_) >= 0, CNT(hi_) <= hi_)), ("counts", forall(lambda x: And(CNT(x) >= 0, CNT(x) <= x, Implies(stale(c, x), CNT(x) < CNT(hi_))), 0, hi_, pat=lambda x: CNT(x))),
                ("entries to update", forall(lambda x: Implies(stale(c, x), c.at("which", CNT(x)) == x), 0, hi_, pat=lambda x: CNT(x)))]
    def entry_data(c):
        pts = [("merged", lo(c), None), ]
        return [("probabilities: merged", c.at("Px", lo(c)) == P0(c, lo(c)) + P0(c, hi(c))), ("probabilities: moved", c.at("Px", hi(c)) == P0(c, last(c))), ("probabilities: others", forall(lambda x: Implies(And(x != lo(c), x != hi(c)), c.at("Px", x) == P0(c, x)), 0, E_(c), pat=lambda x: c.at("Px", x))),
                ("nodes: merged", c.at("nodes", lo(c)) == c.new), ("nodes: moved", Implies(hi(c) != lo(c), c.at("nodes", hi(c)) == c.pre.at("nodes", last(c)))), ("nodes: others", forall(lambda x: Implies(And(x != lo(c), x != hi(c)), c.at("nodes", x) == c.pre.at("nodes", x)), 0, E_(c), pat=lambda x: c.at("nodes", x)))]
    at = lambda c, x: rowf.at(c, lo(c), hi(c), last(c)) + [cellf(lo(c), x) == rowf(lo(c)) + x, cellf(hi(c), x) == rowf(hi(c)) + x, cellf(last(c), x) == rowf(last(c)) + x]
    kstep = lambda c: [CNT(I(0)) == 0, CNT(n(c) + 1) == CNT(n(c)) + If(stale(c, n(c)), 1, 0)]
    krange = lambda c: ("range", And(k(c) >= 0, k(c) <= NL(c)))
    L = {"0": Loop(inv=lambda c: [krange(c)] + tab(c, k(c), I(0)), hints=lambda c: at(c, k(c)), dec=lambda c: NL(c) - k(c)),
         "1": Loop(inv=lambda c: [krange(c)] + tab(c, NL(c), k(c)), hints=lambda c: at(c, k(c)), dec=lambda c: NL(c) - k(c)),
         "2": Loop(inv=lambda c: [("range", And(n(c) >= 0, n(c) <= N1(c))), ("one entry less", c.at("A", 0, "nentries") == N1(c))] + entries(c, n(c)), hints=lambda c: kstep(c), dec=lambda c: N1(c) - n(c))}
    mod = lambda c: [("A", ("nwhich",), None, None), ("A", ("nentries",), None, None)] + [(x, None, None, None) for x in ("Px", "beta", "nodes", "bidx", "Pcx", "which")]
    return Contract("vl_aib_merge_nodes", args=["aib", "i", "j", "new"], params=dict(aib="A"), regions=regions("nodes", "beta", "bidx", "which", "Pcx", "Px"), requires=lambda c: [SIZES(c), ("two entries", And(c.i >= 0, c.j >= 0, c.i != c.j, c.i < E_(c), c.j < E_(c)))], hints=lambda c: rowf.axioms(c, E_(c)) + rowf.at(c, lo(c), hi(c), last(c)) + [cells(), CNT(I(0)) == 0],
                    modifies=mod, loops=L, ensures=lambda c: [("one entry less", c.at("A", 0, "nentries") == N1(c))] + entry_data(c) + tab(c, NL(c), NL(c), "joint probabilities") + entries(c, N1(c)))


def update():
    px, pcx = (lambda c, a: c.pre.at("Px", a)), (lambda c, a, l: c.pre.at("Pcx", cellf(a, l)))
    AS, JS = z3.Function("label_terms", INT, INT, REAL), z3.Function("pair_terms", INT, INT, INT, REAL)
    A = lambda c, a: AS(a, NL(c))
    B = lambda c, a, b: JS(a, b, NL(c))
    W = lambda c: c.pre.at("A", 0, "nwhich")
    w = lambda c, i: c.pre.at("which", i)
    bt, bi = (lambda c, x: c.at("beta", x)), (lambda c, x: c.at("bidx", x))
    bt0, bi0 = (lambda c, x: c.pre.at("beta", x)), (lambda c, x: c.pre.at("bidx", x))
    ok = lambda c, a, b: And(a != b, px(c, a) != 0, px(c, b) != 0)
    a0 = lambda c: w(c, c.itof("1"))
    def adef(c, a, l):
        p = pcx(c, a, l)
        return [cellf(a, l) == rowf(a) + l, AS(a, I(0)) == 0, AS(a, l + 1) == AS(a, l) + If(p != 0, PROD(p, LOG(QUO(p, px(c, a)))), 0)]
    def jdef(c, a, b, l):
        pa, pb = pcx(c, a, l), pcx(c, b, l)
        return [cellf(a, l) == rowf(a) + l, cellf(b, l) == rowf(b) + l, JS(a, b, I(0)) == plogp(px(c, a) + px(c, b)) + A(c, a) + A(c, b), JS(a, b, l + 1) == JS(a, b, l) - If(And(pa == 0, pb == 0), 0, plogp(pa + pb))]
    tmp = lambda c, hi: [("label terms", forall(lambda a: c.heap(0, a) == A(c, a), 0, hi, pat=lambda a: c.heap(0, a)))]
    x, y, z = z3.Ints("x!u y!u z!u")
    def state(c):
        return [("distances only shrink", forall(lambda x: bt(c, x) <= bt0(c, x), 0, E_(c), pat=lambda x: bt(c, x))),
                ("distance of the recorded pair", forall(lambda x: Or(And(bt(c, x) == bt0(c, x), bi(c, x) == bi0(c, x)), And(bi(c, x) >= 0, bi(c, x) < E_(c), ok(c, x, bi(c, x)), bt(c, x) == B(c, x, bi(c, x)))), 0, E_(c), pat=lambda x: bt(c, x)))]
    def done(c, hi):
        return [("least over the pairs seen", z3.ForAll([x, y], Implies(And(x >= 0, x < hi, y >= 0, y < E_(c), ok(c, w(c, x), y)), And(bt(c, w(c, x)) <= B(c, w(c, x), y), bt(c, y) <= B(c, w(c, x), y))), patterns=[z3.MultiPattern(w(c, x), B(c, w(c, x), y)), z3.MultiPattern(w(c, x), px(c, y))]))]
    def part(c, hi):
        return [("least over the pairs of this entry", forall(lambda y: Implies(ok(c, a0(c), y), And(bt(c, a0(c)) <= B(c, a0(c), y), bt(c, y) <= B(c, a0(c), y))), 0, hi, pat=lambda y: B(c, a0(c), y)))]
    sym = lambda c: [z3.ForAll([x, y], B(c, x, y) == B(c, y, x), patterns=[B(c, x, y)])]          # lemma: both are the same sum
    i, b, cc = (lambda c: c.v("i")), (lambda c: c.v("b")), (lambda c: c.v("c"))
    rr = lambda v, hi: ("range", And(v >= 0, v <= hi))
    L = {"0": Loop(inv=lambda c: [rr(c.v("a"), E_(c))] + tmp(c, c.v("a")), hints=lambda c: rowf.at(c, c.v("a")) + adef(c, c.v("a"), I(0)), dec=lambda c: E_(c) - c.v("a")),
         "0.0": Loop(inv=lambda c: [rr(cc(c), NL(c)), ("label terms so far", c.heap(0, c.v("a")) == AS(c.v("a"), cc(c)))] + tmp(c, c.v("a")), hints=lambda c: adef(c, c.v("a"), cc(c)), dec=lambda c: NL(c) - cc(c)),
         "1": Loop(inv=lambda c: [rr(i(c), W(c))] + state(c) + done(c, i(c)), hints=lambda c: sym(c) + rowf.at(c, w(c, i(c))), dec=lambda c: W(c) - i(c)),
         "1.0": Loop(inv=lambda c: [rr(b(c), E_(c))] + state(c) + done(c, c.itof("1")) + part(c, b(c)), hints=lambda c: rowf.at(c, b(c)) + jdef(c, a0(c), b(c), I(0)), dec=lambda c: E_(c) - b(c)),
         "1.0.0": Loop(inv=lambda c: [rr(cc(c), NL(c)), ("pair terms so far", c.v("T1") == JS(a0(c), b(c), cc(c)))], hints=lambda c: jdef(c, a0(c), b(c), cc(c)), dec=lambda c: NL(c) - cc(c))}
    return Contract("vl_aib_update_beta", args=["aib"], params=dict(aib="A"), regions=regions("beta", "bidx", "which", "Pcx", "Px"), heap_types=("double",), requires=lambda c: [SIZES(c), ("entries to update", And(W(c) >= 0, W(c) <= E_(c), forall(lambda j: And(w(c, j) >= 0, w(c, j) < E_(c)), 0, W(c), pat=lambda j: w(c, j))))],
                    hints=lambda c: rowf.axioms(c, E_(c)), loops=L, modifies=lambda c: [("beta", None, None, None), ("bidx", None, None, None)], ensures=lambda c: state(c) + done(c, W(c)))


UNITS = [Unit("vl/aib.c", [min_beta()], fp="real"), Unit("vl/aib.c", [information()], fp="real", axioms=("absmul", "absdiv")), Unit("vl/aib.c", [merge()], fp="real"), Unit("vl/aib.c", [update()], fp="real", axioms=("absmul", "absdiv"))]
PROP = Prop("P30", units=UNITS, oracles=[Oracle("aib.c", what="random small joint tables: every merge, cost and parent against the definition", always=True, iters=(40000, 600000))], bounded=["vl_aib_process (the sequence of merges), vl_aib_new: random small tables against the definition"])
