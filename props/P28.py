from vcg.spec import *

PART = z3.Function("partial", INT, REAL)


def point(fn, inner):
    """(i1, i2) against (j1, j2): the position part plus one term per channel"""
    N1, N2, K = (lambda c: c.N1), (lambda c: c.N2), (lambda c: c.K)
    P = lambda c: N1(c) * N2(c)
    px = lambda c, a, b, k: c.pre.at("I", a + N1(c) * b + P(c) * k)
    p = lambda c, k: px(c, c.i1, c.i2, k)
    q = lambda c, k: px(c, c.j1, c.j2, k)
    term = lambda c, k: p(c, k) * q(c, k) if inner else (p(c, k) - q(c, k)) * (p(c, k) - q(c, k))
    first = lambda c: z3.ToReal(c.i1 * c.j1 + c.i2 * c.j2 if inner else (c.j1 - c.i1) * (c.j1 - c.i1) + (c.j2 - c.i2) * (c.j2 - c.i2))
    M = 2 ** 14
    inside = lambda c, a, b: [a >= 0, a < N1(c), b >= 0, b < N2(c)]
    req = lambda c: [("sizes", And(N1(c) > 0, N1(c) < M, N2(c) > 0, N2(c) < M, K(c) >= 0, P(c) >= 0, P(c) * K(c) >= 0, P(c) * K(c) < 2 ** 31)), ("positions", And(*inside(c, c.i1, c.i2), *inside(c, c.j1, c.j2)))]
    at = lambda c, a, b: [And(N1(c) * b >= 0, N1(c) * b <= P(c) - N1(c))]
    small = lambda c, a, b: [And(a * b >= 0, a * b < M * M)]
    hints = lambda c: [PART(I(0)) == first(c)] + at(c, c.i1, c.i2) + at(c, c.j1, c.j2) + (small(c, c.i1, c.j1) + small(c, c.i2, c.j2) if inner else [And((c.j1 - c.i1) * (c.j1 - c.i1) >= 0, (c.j1 - c.i1) * (c.j1 - c.i1) < M * M), And((c.j2 - c.i2) * (c.j2 - c.i2) >= 0, (c.j2 - c.i2) * (c.j2 - c.i2) < M * M)])
    k, acc = (lambda c: c.v("k")), (lambda c: c.v("ker" if inner else "dist"))
    L = {"0": Loop(inv=lambda c: [("range", And(k(c) >= 0, k(c) <= K(c))), ("partial sum", acc(c) == PART(k(c)))], hints=lambda c: [PART(k(c) + 1) == PART(k(c)) + term(c, k(c)), Implies(k(c) < K(c), And(P(c) * k(c) >= 0, P(c) * k(c) <= P(c) * K(c) - P(c)))], dec=lambda c: K(c) - k(c))}
    return Contract(fn, args=["I", "N1", "N2", "K", "i1", "i2", "j1", "j2"], params=dict(I="I"), regions={"I": dict(ty="double", count=lambda c: P(c) * K(c))}, requires=req, hints=hints, loops=L, ensures=lambda c: [("sum over position and channels", c.ret == PART(K(c)))])


UNITS = [Unit("vl/quickshift.c", [point("vl_quickshift_distance", False), point("vl_quickshift_inner", True)], fp="real")]
PROP = Prop("P28", units=UNITS, oracles=[Oracle("quickshift.c", exclude=["vl/quickshift.c"], what="random small images: densities, parents and distances against the definition", always=True, iters=(2000, 30000))], bounded=["vl_quickshift_process: random small images against the definition"])
