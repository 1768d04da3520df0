from vcg.spec import *

ARR = z3.ArraySort(INT, REAL)
SOL = z3.Function("solution", INT, REAL)                  # ghost: the vector left in column Q
Q = z3.Int("ghost_q")                                     # any column right of the matrix
PS = z3.Function("dot_from", ARR, INT, INT, REAL)         # (A, r, k): sum over k <= c < n of A[r,c] * solution[c]
FC = z3.Int("ghost_column")                              # the column elimination gave up on
TINY = z3.Q(*(1e-10).as_integer_ratio())
RES = z3.Function("residual", ARR, INT, REAL)             # (A, r): sum over c < n of A[r,c] * solution[c], minus A[r,Q]


def elimination():
    n, m = (lambda c: c.numRows), (lambda c: c.numColumns)
    g = Grid("A", n, n)                                   # g(column, row)
    mul = lambda c, a, b: c.fp.bin("fmul", a, b)
    div = lambda c, a, b: c.fp.bin("fdiv", a, b)
    cs, rs = z3.Ints("col!q row!q")
    A = lambda c: c.arr("A")

    def all_zero(c, a):
        return z3.ForAll([rs], Implies(And(rs >= 0, rs < n(c)), RES(a, rs) == 0), patterns=[RES(a, rs)])
    kept = lambda c: ("a solution of the current system solves the given one", Implies(all_zero(c, A(c)), all_zero(c, A(c.pre))))

    def cells(c, f):
        return z3.ForAll([cs, rs], Implies(And(cs >= 0, cs < m(c), rs >= 0, rs < n(c)), f(cs, rs)), patterns=[g(cs, rs)])

    def column(c, f):
        return z3.ForAll([cs], Implies(And(cs >= 0, cs < m(c)), f(cs)))

    def triangular(c, a, j):
        """the first j columns have ones on the diagonal and zeros below"""
        return [("zeros below the diagonal", cells(c, lambda k, r: Implies(And(k < j, r > k), a[g(k, r)] == 0))), ("ones on the diagonal", z3.ForAll([cs], Implies(And(cs >= 0, cs < j), a[g(cs, cs)] == 1), patterns=[g(cs, cs)]))]

    # facts of linear algebra about rows (each is linearity of the residual)
    def others(c, a, b, *rows):
        out = And(rs >= 0, rs < n(c), *[rs != r for r in rows])
        return [Implies(z3.ForAll([cs, rs], Implies(And(cs >= 0, cs < m(c), out), a[g(cs, rs)] == b[g(cs, rs)])), z3.ForAll([rs], Implies(out, RES(a, rs) == RES(b, rs)), patterns=[RES(a, rs), RES(b, rs)]))]

    def moved(c, a, r, b, s):
        return [Implies(column(c, lambda k: a[g(k, r)] == b[g(k, s)]), RES(a, r) == RES(b, s))]

    def scaled(c, a, r, b, s, f):
        return [Implies(column(c, lambda k: a[g(k, r)] == div(c, b[g(k, s)], f)), RES(a, r) == div(c, RES(b, s), f)), Implies(And(f != 0, div(c, RES(b, s), f) == 0), RES(b, s) == 0)]

    def reduced(c, a, r, b, s, f):
        return [Implies(column(c, lambda k: a[g(k, r)] == b[g(k, r)] - mul(c, f, b[g(k, s)])), RES(a, r) == RES(b, r) - mul(c, f, RES(b, s))), Implies(RES(b, s) == 0, mul(c, f, RES(b, s)) == 0)]

    def zero_mul(c, f):
        p = c.fp.fn("product", REAL, REAL, REAL)
        return [p(f, z3.RealVal(0)) == 0, p(f, z3.RealVal(1)) == f]
    L = {}
    J = lambda c: c.itof("0")
    at = lambda c, *ks: [z for k in ks for z in g.row.at(c, k)]
    L["0"] = Loop(inv=lambda c: [("range", c.it <= n(c)), kept(c)] + triangular(c, A(c), c.it), hints=lambda c: at(c, c.it), dec=lambda c: n(c) - c.it)
    cell2 = lambda c, k, r: [g(k, r) == g.row(k) + r]
    mabs = lambda v: If(v >= 0, v, -v)
    L["0.0"] = Loop(inv=lambda c: [("range", And(c.v("i") >= J(c), c.v("i") <= n(c))), ("pivot", And(c.v("maxabsa") >= 0, c.v("maxabsa") == mabs(c.v("maxa")), Implies(c.v("maxabsa") > 0, And(c.v("maxi") >= J(c), c.v("maxi") < n(c), c.v("maxa") == c.at("A", g(J(c), c.v("maxi"))))))),
                                    ("largest so far", z3.ForAll([rs], Implies(And(rs >= J(c), rs < c.v("i")), mabs(A(c)[g(J(c), rs)]) <= c.v("maxabsa")), patterns=[g(J(c), rs)]))], hints=lambda c: at(c, J(c)) + cell2(c, J(c), c.v("i")) + cell2(c, J(c), J(c)) + [Implies(And(c.v("i") >= n(c), c.v("maxabsa") < TINY), FC == J(c))], dec=lambda c: n(c) - c.v("i"))
    pi, pa = (lambda c: c.outv("0.0", "maxi")), (lambda c: c.outv("0.0", "maxa"))

    def swapped(c, jj):
        a, e, i, j = A(c), A(c.ent), pi(c), J(c)
        return cells(c, lambda k, r: a[g(k, r)] == If(And(k >= j, k < jj), If(r == j, div(c, e[g(k, i)], pa(c)), If(r == i, e[g(k, j)], e[g(k, r)])), e[g(k, r)]))
    L["0.1"] = Loop(inv=lambda c: [("range", And(c.v("jj") >= J(c), c.v("jj") <= m(c))), ("rows exchanged and normalised so far", swapped(c, c.v("jj")))],
                    hints=lambda c: at(c, c.v("jj")) + cell2(c, c.v("jj"), pi(c)) + cell2(c, c.v("jj"), J(c)) + others(c, A(c), A(c.ent), pi(c), J(c)) + scaled(c, A(c), J(c), A(c.ent), pi(c), pa(c)) + moved(c, A(c), pi(c), A(c.ent), J(c)) + [Implies(pa(c) != 0, And(div(c, z3.RealVal(0), pa(c)) == 0, div(c, pa(c), pa(c)) == 1))],
                    dec=lambda c: m(c) - c.v("jj"))
    L["0.2"] = Loop(inv=lambda c: [("range", And(c.v("ii") > J(c), c.v("ii") <= n(c))), kept(c)] + triangular(c, A(c), J(c)) + [("pivot is one", A(c)[g(J(c), J(c))] == 1), ("column cleared so far", z3.ForAll([rs], Implies(And(rs > J(c), rs < c.v("ii")), A(c)[g(J(c), rs)] == 0), patterns=[g(J(c), rs)]))],
                    hints=lambda c: at(c, J(c)) + cell2(c, J(c), c.v("ii")) + cell2(c, J(c), J(c)) + zero_mul(c, A(c)[g(J(c), c.v("ii"))]), dec=lambda c: n(c) - c.v("ii"))
    ii = lambda c: c.itof("0.2") + J(c) + 1
    fac = lambda c: A(c.ent)[g(J(c), ii(c))]
    L["0.2.0"] = Loop(inv=lambda c: [("range", And(c.v("jj") >= J(c), c.v("jj") <= m(c))), ("row reduced so far", cells(c, lambda k, r: A(c)[g(k, r)] == If(And(r == ii(c), k >= J(c), k < c.v("jj")), A(c.ent)[g(k, r)] - mul(c, fac(c), A(c.ent)[g(k, J(c))]), A(c.ent)[g(k, r)])))],
                      hints=lambda c: at(c, c.v("jj")) + cell2(c, c.v("jj"), ii(c)) + cell2(c, c.v("jj"), J(c)) + others(c, A(c), A(c.ent), ii(c)) + reduced(c, A(c), ii(c), A(c.ent), J(c), fac(c)) + zero_mul(c, fac(c)) + cell2(c, J(c), ii(c)) + cell2(c, J(c), J(c)), dec=lambda c: m(c) - c.v("jj"))
    # back substitution
    U = lambda c: A(c.ent)
    i1 = lambda c: n(c) - 1 - c.itof("1")
    UU = z3.Const("upper", ARR)                           # ghost: the matrix when elimination ends

    def back(c, i, lo, hi):
        """rows below i are final, rows lo <= r < hi have column i substituted as well"""
        a = A(c)
        return [("matrix part unchanged", cells(c, lambda k, r: Implies(k < n(c), a[g(k, r)] == UU[g(k, r)]))),
                ("substituted so far", z3.ForAll([rs], Implies(And(rs >= 0, rs < n(c)), a[g(Q, rs)] == UU[g(Q, rs)] - PS(UU, rs, If(rs >= i, rs + 1, If(And(rs >= lo, rs < hi), i, i + 1)))), patterns=[g(Q, rs)])),
                ("rows below are final", z3.ForAll([rs], Implies(And(rs > i, rs < n(c)), SOL(rs) == a[g(Q, rs)]), patterns=[g(Q, rs), SOL(rs)]))]

    def dots(c):
        r = z3.Int("r!d")
        return [z3.ForAll([r], PS(UU, r, n(c)) == 0, patterns=[PS(UU, r, n(c))])]

    def resid(c):
        return [Implies(And(*[f for _, f in triangular(c, UU, n(c))]), z3.ForAll([rs], Implies(And(rs >= 0, rs < n(c)), RES(UU, rs) == SOL(rs) + PS(UU, rs, rs + 1) - UU[g(Q, rs)]), patterns=[RES(UU, rs)]))]
    L["1"] = Loop(inv=lambda c: [("range", Or(c.v("i") >= 0, And(n(c) == 0, c.v("i") == -1)))] + back(c, c.v("i"), I(0), I(0)), hints=lambda c: [UU == A(c.ent), SOL(c.v("i")) == A(c)[g(Q, c.v("i"))]] + dots(c) + resid(c) + at(c, Q), dec=lambda c: c.v("i") + 1)
    L["1.0"] = Loop(inv=lambda c: [("range", And(c.v("ii") >= -1, c.v("ii") < i1(c)))] + back(c, i1(c), c.v("ii") + 1, i1(c)), hints=lambda c: [PS(UU, c.v("ii"), i1(c)) == PS(UU, c.v("ii"), i1(c) + 1) + mul(c, UU[g(i1(c), c.v("ii"))], SOL(i1(c)))] + cell2(c, Q, c.v("ii")) + cell2(c, Q, i1(c)) + at(c, Q, i1(c)), dec=lambda c: c.v("ii") + 1)
    ii1 = lambda c: i1(c) - 1 - c.itof("1.0")
    fb = lambda c: A(c.ent)[g(i1(c), ii1(c))]
    L["1.0.0"] = Loop(inv=lambda c: [("range", And(c.v("j") >= n(c), c.v("j") <= m(c))), ("row substituted so far", cells(c, lambda k, r: A(c)[g(k, r)] == If(And(r == ii1(c), k >= n(c), k < c.v("j")), A(c.ent)[g(k, r)] - mul(c, fb(c), A(c.ent)[g(k, i1(c))]), A(c.ent)[g(k, r)])))],
                      hints=lambda c: at(c, c.v("j"), i1(c)) + cell2(c, c.v("j"), ii1(c)) + cell2(c, c.v("j"), i1(c)) + cell2(c, i1(c), ii1(c)), dec=lambda c: m(c) - c.v("j"))

    def singular(c):
        return And(FC >= 0, FC < n(c), z3.ForAll([rs], Implies(And(rs >= FC, rs < n(c)), mabs(A(c)[g(FC, rs)]) < TINY), patterns=[g(FC, rs)]))
    return Contract("vl_gaussian_elimination", args=["A", "numRows", "numColumns"], params={"A": "A"}, regions={"A": dict(ty="double", count=lambda c: n(c) * m(c))},
                    requires=lambda c: [("sizes", And(n(c) >= 0, n(c) < 2 ** 20, m(c) >= n(c), m(c) < 2 ** 20)), ("a right hand side", And(Q >= n(c), Q < m(c)))],
                    hints=lambda c: g.axioms(c, I(0), m(c) - 1), modifies=lambda c: [("A", None, None, None)],
                    ensures=lambda c: [("status", Or(c.ret == 0, c.ret == 1)), ("success leaves a solution of the given system", Implies(c.ret == 0, And(all_zero(c, A(c.pre)), z3.ForAll([rs], Implies(And(rs >= 0, rs < n(c)), SOL(rs) == A(c)[g(Q, rs)]), patterns=[SOL(rs)])))),
                                       ("failure means a vanishing column", Implies(c.ret != 0, singular(c)))], loops=L)


def solve(n):
    fn = "vl_solve_linear_system_%d" % n
    a = z3.Const("A!s", ARR)
    k, r = z3.Ints("k!s r!s")
    cell = z3.Function("cell_A", INT, INT, INT)
    mul = lambda c, x, y: c.fp.bin("fmul", x, y)

    def defs(c):
        """what the residual and the cells are for this size, with the right hand side in column n"""
        return [Q == n, z3.ForAll([k, r], cell(k, r) == n * k + r, patterns=[cell(k, r)]),
                z3.ForAll([a, r], RES(a, r) == z3.Sum([mul(c, a[r + n * j], SOL(I(j))) for j in range(n)]) - a[r + n * n], patterns=[RES(a, r)])]

    def sat(c):
        A, b, x = (lambda i, j: c.pre.at("A", I(i + n * j))), (lambda i: c.pre.at("b", I(i))), (lambda i: c.at("x", I(i)))
        return And(*[z3.Sum([mul(c, A(i, j), x(j)) for j in range(n)]) == b(i) for i in range(n)])
    return Contract(fn, args=["x", "A", "b"], params={"x": "x", "A": "A", "b": "b"}, regions={"x": dict(ty="double", count=lambda c: I(n)), "A": dict(ty="double", count=lambda c: I(n * n)), "b": dict(ty="double", count=lambda c: I(n))},
                    hints=defs, modifies=lambda c: [("x", None, None, None)], ensures=lambda c: [("success means the equations hold", Implies(c.ret == 0, sat(c))), ("status", Or(c.ret == 0, c.ret == 1))])


UNITS = [Unit("vl/mathop.c", [elimination(), solve(2), solve(3)], fp="real", axioms=("absmul", "absdiv"))]
PROP = Prop("P11", units=UNITS, oracles=[Oracle("linsolve.c", what="random and singular small systems; 2x2 singular value decompositions", always=True)], bounded=["vl_svd2, vl_lapack_dlasv2: random 2x2 matrices (zero, tiny and huge entries) against the defining product"])
