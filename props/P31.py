from vcg.spec import *

R_ = z3.RealVal
sn, cs, sq, ac = [z3.Function(n, REAL, REAL) for n in ("sin", "cos", "sqrt", "acos")]
SMALL = z3.Q(*(1e-6).as_integer_ratio())
om = lambda c, i: c.pre.at("W", i)
TH = lambda c: sq(om(c, 0) * om(c, 0) + om(c, 1) * om(c, 1) + om(c, 2) * om(c, 2))
POS = [(i, j) for j in range(3) for i in range(3)]


def rot(n, s, m):
    """Rodrigues' formula I + s [n]x + m [n]x^2, entry (i, j)"""
    x, y, z = n
    return {(0, 0): 1 - m * (y * y + z * z), (1, 0): s * z + m * (x * y), (2, 0): -s * y + m * (x * z), (0, 1): -s * z + m * (x * y), (1, 1): 1 - m * (z * z + x * x), (2, 1): s * x + m * (y * z), (0, 2): s * y + m * (x * z), (1, 2): -s * x + m * (y * z), (2, 2): 1 - m * (x * x + y * y)}


def drot(n, s, m, c, a, b, k):
    """the derivative of the formula along component k of the vector: the chain rule with th' = n_k, s' = c n_k, m' = s n_k, n_l' = ([l = k] - n_l n_k) / th; a = s / th, b = m / th"""
    e = [(1 if l == k else 0) - n[l] * n[k] for l in range(3)]         # th n_l'
    d = lambda p, q: b * (e[p] * n[q] + n[p] * e[q]) + s * n[k] * (n[p] * n[q])       # (m n_p n_q)'
    t = lambda l: a * e[l] + c * n[k] * n[l]                              # (s n_l)'
    return {(0, 0): -d(1, 1) - d(2, 2), (1, 0): t(2) + d(0, 1), (2, 0): -t(1) + d(0, 2), (0, 1): -t(2) + d(0, 1), (1, 1): -d(2, 2) - d(0, 0), (2, 1): t(0) + d(1, 2), (0, 2): t(1) + d(0, 2), (1, 2): -t(0) + d(1, 2), (2, 2): -d(0, 0) - d(1, 1)}


CROSS = {0: {(2, 1): 1, (1, 2): -1}, 1: {(2, 0): -1, (0, 2): 1}, 2: {(1, 0): 1, (0, 1): -1}}


def forward(deriv):
    R, D = (lambda c, i, j: c.at("R", i + 3 * j)), (lambda c, i, j, k: c.at("D", i + 3 * j + 9 * k))

    def ens(c):
        th = TH(c)
        n = [om(c, i) / th for i in range(3)]
        s, m = sn(th), 1 - cs(th)
        F = rot(n, s, m)
        big = Not(th < SMALL)
        o = [("entry (%d,%d)" % (i, j), Implies(big, R(c, i, j) == F[i, j])) for i, j in POS] + [("identity near zero", Implies(Not(big), And(*[R(c, i, j) == (1 if i == j else 0) for i, j in POS])))]
        if deriv:
            for k in range(3):
                dF = drot(n, s, m, cs(th), s / th, m / th, k)
                o += [("derivative of (%d,%d) along %d" % (i, j, k), Implies(big, D(c, i, j, k) == dF[i, j])) for i, j in POS]
                o += [("derivative at zero along %d" % k, Implies(Not(big), And(*[D(c, i, j, k) == CROSS[k].get((i, j), 0) for i, j in POS])))]
        return o
    reg = {"R": dict(ty="double", count=lambda c: 9), "W": dict(ty="double", count=lambda c: 3)}
    par = dict(R_pt="R", om_pt="W")
    par["dR_pt"] = "D"
    reg["D"] = dict(ty="double", count=lambda c: 27)
    return Contract("vl_rodrigues", args=["R_pt", "dR_pt", "om_pt"], params=par, nullable=("dR_pt",), regions=reg, known=lambda c: c.dR_pt_null if not deriv else Not(c.dR_pt_null), modifies=lambda c: [("R", None, None, None)] + ([("D", None, None, None)] if deriv else []), ensures=ens)


N = [z3.Const("axis_%d" % k, REAL) for k in range(3)]
T = z3.Const("angle", REAL)


def inverse(pi):
    """on the rotation of unit axis N and angle T, with 0 <= T <= pi"""
    R = lambda c, i, j: c.pre.at("R", i + 3 * j)
    F = rot(N, sn(T), 1 - cs(T))
    W, D = (lambda c, i: c.at("W", i)), (lambda c, k, i, j: c.at("D", k + 3 * (i + 3 * j)))
    x, y, z = N
    s, co = sn(T), cs(T)
    tiny = And(s < SMALL, -s < SMALL)
    half = z3.And(tiny, co < 0)
    m = 1 - co

    def req(c):
        return [("a rotation", And(x * x + y * y + z * z == 1, s * s + co * co == 1, s >= 0, co >= -1, co <= 1, *[R(c, i, j) == F[i, j] for i, j in POS])), ("angle", And(ac(co) == T, Implies(s > 0, T > 0)))]

    def hints(c):
        """ground instances of the lemmas below for the square roots of the half-turn branch"""
        tr = R(c, 0, 0) + R(c, 1, 1) + R(c, 2, 2)
        w = [R(c, i, i) - 1 for i in range(3)]
        q = [sq(z3.Q(1, 2) * If(e > 0, e, R_(0))) for e in (w[0] - w[1] - w[2], w[1] - w[2] - w[0], w[2] - w[0] - w[1])]
        r = sq(m)
        ab = [If(N[k] >= 0, N[k], -N[k]) for k in range(3)]
        h = [tr == 1 + 2 * co]
        for k in range(3):
            h += [q[k] * (T / r) == If(N[k] >= 0, T * N[k], -(T * N[k]))]
            for l in range(3):
                h += [(q[k] >= q[l]) == (ab[k] >= ab[l])]
            for l in range(k):
                g = m * (N[l] * N[k])
                h += [(g >= 0) == Or(N[l] == 0, N[k] == 0, (N[l] > 0) == (N[k] > 0)), R(c, l, k) + R(c, k, l) == 2 * g]
        if pi:
            return h
        v = [R(c, 2, 1) - R(c, 1, 2), R(c, 0, 2) - R(c, 2, 0), R(c, 1, 0) - R(c, 0, 1)]
        h = [h[0]] + [v[k] == 2 * (s * N[k]) for k in range(3)]
        return h + [Implies(s != 0, (T / s) * v[k] == 2 * (T * N[k])) for k in range(3)]

    def ens(c):
        if not pi:
            o = [("vector %d" % k, W(c, k) == If(tiny, s, T) * N[k]) for k in range(3)]
            d = lambda k, i, j: R_(sum((1 if (i, j) == (l, q) else 0) * sg for (l, q), sg in CROSS[k].items()))
            for k in range(3):      # om_k = a(th) v_k with a = th / (2 sin th), v_k the antisymmetric part, th = acos((trace - 1) / 2)
                o += [("derivative of %d along (%d,%d)" % (k, i, j), Implies(Not(c.dom_pt_null), D(c, k, i, j) == If(tiny, d(k, i, j) / 2, T / (2 * s) * d(k, i, j)))) for i, j in POS if i != j]
            return o
        return [("vector, up to sign", Or(And(*[W(c, k) == T * N[k] for k in range(3)]), And(*[W(c, k) == -(T * N[k]) for k in range(3)])))]
    reg = {"W": dict(ty="double", count=lambda c: 3), "R": dict(ty="double", count=lambda c: 9), "D": dict(ty="double", count=lambda c: 27)}
    L = {"0": Loop(inv=lambda c: [("range", And(c.v("k") >= 0, c.v("k") <= 27))], dec=lambda c: 27 - c.v("k"))}
    return Contract("vl_irodrigues", args=["om_pt", "dom_pt", "R_pt"], params=dict(om_pt="W", dom_pt="D", R_pt="R"), nullable=("dom_pt",), regions=reg, loops=L, known=lambda c: half if pi else Not(half), cover=pi, requires=req, hints=hints, modifies=lambda c: [("W", None, None, None)] + [("D", None, None, None)], ensures=ens)

def diagonal():
    """derivative of the inverse along the diagonal entries: the factor (th cos th - sin th) / (2 sin^2 th) / th times the vector, with products and quotients as such (the chain rule is a lemma)"""
    mul, div = z3.Function("product", REAL, REAL, REAL), z3.Function("quotient", REAL, REAL, REAL)
    R = lambda c, i, j: c.pre.at("R", i + 3 * j)

    def th(c):
        tr = R(c, 0, 0) + R(c, 1, 1) + R(c, 2, 2)
        lo = If(tr > -1, tr, R_(-1))
        return ac(z3.Q(1, 2) * (If(lo < 3, lo, R_(3)) - 1))

    def tiny(c):
        return And(sn(th(c)) < SMALL, -sn(th(c)) < SMALL)

    def ens(c):
        t = th(c)
        s, co = sn(t), cs(t)
        b = div(div(mul(t, co) - s, mul(2 * s, s)), t)
        return [("derivative of %d along (%d,%d)" % (k, i, i), Implies(Not(c.dom_pt_null), c.at("D", k + 12 * i) == If(tiny(c), mul(R_(0), c.at("W", k)), mul(b, c.at("W", k))))) for k in range(3) for i in range(3)]
    reg = {"W": dict(ty="double", count=lambda c: 3), "R": dict(ty="double", count=lambda c: 9), "D": dict(ty="double", count=lambda c: 27)}
    return Contract("vl_irodrigues", args=["om_pt", "dom_pt", "R_pt"], params=dict(om_pt="W", dom_pt="D", R_pt="R"), nullable=("dom_pt",), regions=reg, known=lambda c: Not(And(tiny(c), cs(th(c)) < 0)), cover=False, modifies=lambda c: [("W", None, None, None), ("D", None, None, None)], ensures=ens)


def lemmas():
    x, y, z, s, m, c, r, q, p, t = z3.Reals("x y z s m c r q p t")
    unit, circle = x * x + y * y + z * z == 1, s * s + c * c == 1
    F = rot((x, y, z), s, 1 - c)
    col = [[F[i, j] for i in range(3)] for j in range(3)]
    o = []
    ab = lambda v: If(v >= 0, v, -v)
    root = [m > 0, r >= 0, r * r == m]
    o += [Lemma("root of m x^2", root + [q >= 0, q * q == m * (x * x)], q == r * ab(x)), Lemma("comparison of roots", root + [q == r * ab(x), p == r * ab(y)], (q >= p) == (ab(x) >= ab(y))), Lemma("scaled root", root + [q == r * ab(x)], q * (t / r) == If(x >= 0, t * x, -(t * x))), Lemma("sign of the product", [m > 0], (m * (x * y) >= 0) == Or(x == 0, y == 0, (x > 0) == (y > 0)))]
    o += [Lemma("half trace of the formula", [unit], F[0, 0] + F[1, 1] + F[2, 2] == 1 + 2 * c), Lemma("diagonal difference", [unit], (F[0, 0] - 1) - (F[1, 1] - 1) - (F[2, 2] - 1) == 2 * ((1 - c) * (x * x))), Lemma("derivative through the trace", [s != 0, t != 0], (t * c - s) / (2 * s * s) / t * (t * x) == 2 * s * x * ((s - t * c) / (2 * s * s)) * (-1 / (2 * s)))]
    # columns of the formula are orthonormal: n.n = 1 and s^2 + c^2 = 1, with m = 1 - c, so s^2 + m^2 = 2 m
    u = z3.Real("u")
    for a in range(3):
        for b in range(a, 3):
            o.append(Lemma("columns %d and %d are orthonormal" % (a, b), [z * z == 1 - x * x - y * y, s * s == 2 * m - m * m], sum(rot((x, y, z), s, m)[i, a] * rot((x, y, z), s, m)[i, b] for i in range(3)) == (1 if a == b else 0)))
    return o


UNITS = [Unit("vl/rodrigues.c", [forward(False)], fp="real", axioms=("sqrt",)), Unit("vl/rodrigues.c", [forward(True)], fp="real", axioms=("sqrt",)), Unit("vl/rodrigues.c", [inverse(False)], fp="real", axioms=("sqrt",)), Unit("vl/rodrigues.c", [diagonal()], fp="real", axioms=("absmul", "absdiv")), Unit("vl/rodrigues.c", [inverse(True)], fp="real", axioms=("sqrt",))]
PROP = Prop("P31", units=UNITS, lemmas=lemmas, oracles=[Oracle("rodrigues.c", what="random vectors and rotations, near 0 and pi included, against the formula and finite differences", always=True, iters=(20000, 400000))])
