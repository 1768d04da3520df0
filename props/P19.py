from vcg.spec import *

FACT = z3.Function("factorial", INT, INT)
FALL = z3.Function("falling", INT, INT)                 # size * (size-1) * ... : number of index prefixes
P = z3.Function("after_steps", INT, INT, INT)           # (steps, position): what is left of the permutation
IDX = z3.Function("index_prefix", INT, INT)


def table(x, f):
    r = f(12)
    for k in range(11, -1, -1):
        r = If(x == k, f(k), r)
    return r


def factorial():
    import math
    n = lambda c: c.pre.num if False else c.num
    F = lambda x: table(x, lambda k: I(math.factorial(k)))
    step = lambda c: [FACT(k) == math.factorial(k) for k in range(13)]
    return Contract("factorial", args=["num"], requires=lambda c: [("at most twelve", And(c.num >= 0, c.num <= 12))], hints=step,
                    loops={"0": Loop(inv=lambda c: [("partial product", And(c.v("num") >= 0, c.v("num") <= c.num, c.v("result") >= 1, Implies(c.v("num") >= 1, c.v("result") * FACT(c.v("num")) == FACT(c.num)), Implies(c.v("num") == 0, And(c.num == 0, c.v("result") == 1)))), ("it is a table entry", Or(*[And(c.v("num") == k, c.num == m, c.v("result") == math.factorial(m) // math.factorial(k)) for m in range(13) for k in range(m + 1)]))], hints=step, dec=lambda c: c.v("num"))},
                    ensures=lambda c: [("factorial", c.ret == FACT(c.num))])


def permutation_index():
    s = lambda c: c.size
    at = lambda c, j: c.at("P", j)
    i0, j0 = (lambda c: c.v("i")), (lambda c: c.v("j"))
    ij = z3.Ints("i!p j!p")

    def distinct(f, lo, hi):
        a, b = ij
        return z3.ForAll([a, b], Implies(And(a >= lo, a < hi, b >= lo, b < hi, a != b), f(a) != f(b)), patterns=[z3.MultiPattern(f(a), f(b))])

    def defs(c, i):
        j = z3.Int("j!d")
        return [z3.ForAll([j], P(I(0), j) == c.pre.at("P", j), patterns=[P(I(0), j)]), z3.ForAll([j], P(i + 1, j) == P(i, j) - If(And(j > i, P(i, j) > P(i, i)), 1, 0), patterns=[P(i + 1, j)]),
                IDX(I(0)) == 0, IDX(i + 1) == IDX(i) * (s(c) - i) + P(i, i), FALL(I(0)) == 1, FALL(i + 1) == FALL(i) * (s(c) - i)]
    B = lambda i: table(i, lambda k: I(12 ** k))

    def rem(c, i):
        return [("what is left is in range", forall(lambda j: And(P(i, j) >= 0, P(i, j) < s(c) - i), i, s(c), pat=lambda j: P(i, j))), ("what is left is distinct", distinct(lambda j: P(i, j), i, s(c)))]

    def num(c, i):
        return [("index", And(c.v("index") == IDX(i), IDX(i) >= 0, IDX(i) < FALL(i), FALL(i) <= B(i)))]

    def prod(c, i):
        a, m, f, p = IDX(i), s(c) - i, FALL(i), P(i, i)
        return [Implies(And(a >= 0, a + 1 <= f, m >= 0, m <= 12), And(a * m + m <= f * m, a * m >= 0, f * m <= 12 * f))]      # instance of monotonicity of the product by m >= 0
    mem = lambda c, f, lo, hi: forall(lambda j: at(c, j) == f(j), lo, hi, pat=lambda j: at(c, j))
    L = {"0": Loop(inv=lambda c: [("range", And(i0(c) >= 0, i0(c) <= s(c))), ("permutation", mem(c, lambda j: P(i0(c), j), i0(c), s(c)))] + rem(c, i0(c)) + num(c, i0(c)), hints=lambda c: defs(c, i0(c)) + prod(c, i0(c)), dec=lambda c: s(c) - i0(c)),
         "0.0": Loop(inv=lambda c: [("range", And(j0(c) >= i0(c) + 1, j0(c) <= s(c))), ("current", at(c, i0(c)) == P(i0(c), i0(c))), ("adjusted", mem(c, lambda j: P(i0(c) + 1, j), i0(c) + 1, j0(c))), ("rest", mem(c, lambda j: P(i0(c), j), j0(c), s(c)))], hints=lambda c: defs(c, i0(c)), dec=lambda c: s(c) - j0(c))}
    return Contract("get_permutation_index", args=["permutation", "size"], params={"permutation": "P"}, regions={"P": dict(ty="i64", signed=False, count=lambda c: s(c))},
                    requires=lambda c: [("size", And(s(c) >= 0, s(c) <= 12)), ("in range", forall(lambda j: And(at(c, j) >= 0, at(c, j) < s(c)), 0, s(c), pat=lambda j: at(c, j))), ("distinct", distinct(lambda j: at(c, j), I(0), s(c)))],
                    modifies=lambda c: [("P", None, None, None)], hints=lambda c: defs(c, I(0)),
                    ensures=lambda c: [("Lehmer index", c.ret == IDX(s(c))), ("below the number of permutations", And(c.ret >= 0, c.ret < FALL(s(c))))], loops=L)


def lemmas():
    a, b, x, y, m, n, p, q, r, f, g = z3.Ints("a b x y m n p q r f g")
    dec = lambda v, w: v - If(v > w, 1, 0)
    return [Lemma("equal indexes have equal digits", [m > 0, x >= 0, x < m, y >= 0, y < m, a * m + x == b * m + y], And(a == b, x == y)),
            Lemma("equal remainders after removing the same value were equal", [p != r, q != r, dec(p, r) == dec(q, r)], p == q),
            Lemma("falling product times the remaining factorial is the factorial", [f * g == n, g == m * a], (f * m) * a == n)]


UNITS = [Unit("vl/liop.c", [factorial(), permutation_index()])]
PROP = Prop("P19", units=UNITS, lemmas=lemmas, oracles=[Oracle("liop.c", what="random small patches, 1-6 neighbours, 1-6 bins, absolute and relative thresholds", always=True, iters=(40000, 300000))], bounded=["vl_liopdesc_new, vl_liopdesc_process: random patches against the definition"])
