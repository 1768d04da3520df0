from vcg.spec import *

ROOT, DEP, PATH = z3.Function("root_of", INT, INT), z3.Function("steps_to_root", INT, INT), z3.Function("path_node", INT, INT)
sc = lambda c, j: c.at("R", j, "shortcut")
sc0 = lambda c, j: c.pre.at("R", j, "shortcut")
U = 2 ** 32


def climb():
    n = G("nodes")
    start = lambda c: c.idx
    D0 = lambda c: DEP(start(c))
    # the forest: following shortcuts from any node of the path reaches ROOT in DEP steps
    ok = lambda c, j: And(j >= 0, j < n, DEP(j) >= 0, (sc0(c, j) == j) == (DEP(j) == 0), Implies(DEP(j) == 0, ROOT(j) == j), Implies(DEP(j) > 0, And(DEP(sc0(c, j)) == DEP(j) - 1, ROOT(sc0(c, j)) == ROOT(j), sc0(c, j) >= 0, sc0(c, j) < n)))
    on = lambda c, j: And(DEP(j) <= D0(c), PATH(D0(c) - DEP(j)) == j)
    path = lambda c, k: And(PATH(I(0)) == start(c), PATH(k + 1) == sc0(c, PATH(k)))
    idx, prev = (lambda c: c.v("idx")), (lambda c: c.v("prev_idx"))
    req = lambda c: [("nodes", And(start(c) >= 0, start(c) < n, n < U)), ("a forest", forall(lambda j: ok(c, j), 0, n, pat=lambda j: sc0(c, j)))]
    at = lambda c: D0(c) - DEP(idx(c))        # nodes left behind
    here = lambda c: And(idx(c) >= 0, idx(c) < n, DEP(idx(c)) >= 0, DEP(idx(c)) <= D0(c), ROOT(idx(c)) == ROOT(start(c)), PATH(at(c)) == idx(c))
    back = lambda c, j: If(DEP(j) == D0(c), j, PATH(D0(c) - DEP(j) - 1))          # where a node visited on the way up points
    nodes = lambda c, hi: ("nodes of the path", forall(lambda k: And(PATH(k) >= 0, PATH(k) < n, DEP(PATH(k)) == D0(c) - k, ROOT(PATH(k)) == ROOT(start(c))), 0, hi, pat=lambda k: PATH(k)))
    first = Loop(inv=lambda c: [nodes(c, at(c) + 1), ("on the path", here(c)), ("previous node", And(prev(c) >= 0, prev(c) < n, If(at(c) == 0, prev(c) == idx(c), And(prev(c) == PATH(at(c) - 1), DEP(prev(c)) == DEP(idx(c)) + 1)))),
                                ("visited nodes point back", forall(lambda j: sc(c, j) == If(And(on(c, j), DEP(j) > DEP(idx(c))), back(c, j), sc0(c, j)), 0, n, pat=lambda j: sc(c, j)))],
                 hints=lambda c: [path(c, at(c)), ok(c, idx(c)), ok(c, sc0(c, idx(c)))], dec=lambda c: DEP(idx(c)) + 1)
    second = Loop(inv=lambda c: [nodes(c, D0(c) + 1), ("on the path", here(c)),
                                 ("the rest", forall(lambda j: sc(c, j) == If(on(c, j), If(DEP(j) < DEP(idx(c)), ROOT(start(c)), back(c, j)), sc0(c, j)), 0, n, pat=lambda j: sc(c, j)))],
                  hints=lambda c: [path(c, at(c) - 1), ok(c, idx(c)), ok(c, PATH(at(c) - 1))], dec=lambda c: D0(c) - DEP(idx(c)))
    return Contract("climb", args=["r", "idx"], params=dict(r="R"), regions={"R": dict(ty="_VlMserReg", count=lambda c: n)}, requires=req, hints=lambda c: [ok(c, start(c)), PATH(I(0)) == start(c)], modifies=lambda c: [("R", ("shortcut",), None, None)], loops={"0": first, "1": second},
                    ensures=lambda c: [("returns the root", c.ret == ROOT(start(c))), ("nodes of the path point to the root, the others as before", forall(lambda j: sc(c, j) == If(on(c, j), ROOT(start(c)), sc0(c, j)), 0, n, pat=lambda j: sc(c, j)))])


def adv():
    """the odometer: the digits below the first one that is not full become 0, that one is incremented, the rest is kept"""
    n, d = (lambda c: c.ndims), (lambda c: c.v("d"))
    s, s0, dims = (lambda c, j: c.at("S", j)), (lambda c, j: c.pre.at("S", j)), (lambda c, j: c.pre.at("D", j))
    K = G("first_digit_that_is_not_full")
    full = lambda c, j: s0(c, j) + 1 >= dims(c, j)
    first = lambda c: [And(K >= 0, K <= n(c), Implies(K < n(c), Not(full(c, K)))), forall(lambda j: full(c, j), 0, K, pat=lambda j: s0(c, j))]
    L = {"0": Loop(inv=lambda c: [("range", And(d(c) >= 0, d(c) <= K)), ("carried", forall(lambda j: s(c, j) == 0, 0, d(c), pat=lambda j: s(c, j))), ("rest", forall(lambda j: s(c, j) == s0(c, j), d(c), n(c), pat=lambda j: s(c, j)))], dec=lambda c: n(c) - d(c))}
    return Contract("adv", args=["ndims", "dims", "subs"], params=dict(dims="D", subs="S"), regions={"D": dict(ty="i32", signed=True, count=n), "S": dict(ty="i32", signed=True, count=n)}, loops=L, hints=first,
                    requires=lambda c: [("dimensions", And(n(c) >= 0, n(c) < 2 ** 30)), ("digits", forall(lambda j: And(s0(c, j) >= 0, s0(c, j) < dims(c, j), dims(c, j) < 2 ** 31), 0, n(c), pat=lambda j: s0(c, j)))], modifies=lambda c: [("S", None, I(0), n(c))],
                    ensures=lambda c: [("next subscript", forall(lambda j: s(c, j) == If(j < K, 0, If(j == K, s0(c, j) + 1, s0(c, j))), 0, n(c), pat=lambda j: s(c, j)))])


UNITS = [Unit("vl/mser.c", [climb(), adv()])]
PROP = Prop("P27", units=UNITS, oracles=[Oracle("mser.c", exclude=["vl/mser.c"], what="random images of 1 to 3 dimensions: the regions, their areas and ellipses against connected components of every level set", always=True, iters=(3000, 40000))], bounded=["vl_mser_new, vl_mser_process, vl_mser_ell_fit: random small images against connected components of every level set"])
