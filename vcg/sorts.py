"""contracts of an instance of /repo/vl/qsort-def.h"""
from .spec import *

CAP = G("capacity")


def qsort_contracts(prefix, regions, A, key, ok, extra=lambda c: [], swap_name=None, arr_region=None, axioms2=lambda c, AF: []):
    """A: region permuted. key(c, i): rank of the element at i. ok(c, x): what is required of every stored element x.
    arr_region: region of the `array` parameter (default A)"""
    arr_region = arr_region or A
    swap_name = swap_name or prefix + "_swap"
    arr = lambda c: c.arr(A)
    cache = {}

    def perm(a, b):
        return z3.Function("permuted_" + prefix, a.sort(), b.sort(), BOOL)(a, b)

    def AF(a):
        """every element of the array is admissible"""
        return z3.Function("admissible_" + prefix, a.sort(), BOOL)(a)

    def axioms(c):
        so = arr(c).sort()
        X, Y, Z = [z3.Const(n + "!p", so) for n in "XYZ"]
        i = z3.Int("i!p")
        return [z3.ForAll([X, Y, Z], Implies(And(perm(X, Y), perm(Y, Z)), perm(X, Z)), patterns=[z3.MultiPattern(perm(X, Y), perm(Y, Z))]),
                z3.ForAll([X, Y], Implies(And(perm(X, Y), AF(X)), AF(Y)), patterns=[z3.MultiPattern(perm(X, Y), AF(X))]),
                z3.ForAll([X, i], Implies(And(AF(X), i >= 0, i < CAP), ok(c, X[i])), patterns=[z3.MultiPattern(AF(X), X[i])])]

    def permuted(c):
        return ("only rearranges the elements", perm(arr(c.pre), arr(c)))

    def swapped(a, i, j):
        return z3.Store(z3.Store(a, i, a[j]), j, a[i])
    el = lambda c, i: c.at(A, i)
    base = lambda c: [("admissible elements", AF(arr(c)))] + extra(c)
    hints = lambda c: axioms(c) + [perm(arr(c), arr(c))]

    def within(c, lo, hi):
        """every element of [lo,hi] was an element of [lo,hi]"""
        return ("stays within the range", forall(lambda i: Implies(i <= hi, exists(lambda j: And(j <= hi, el(c, i) == el(c.pre, j)), lo)), lo, pat=lambda i: el(c, i)))
    swap = Contract(swap_name, args=["array", "indexA", "indexB"], params={"array": arr_region}, regions=regions,
                    requires=lambda c: base(c) + [("indexes", And(c.indexA >= 0, c.indexA < CAP, c.indexB >= 0, c.indexB < CAP))],
                    hints=lambda c: axioms(c) + [perm(arr(c), swapped(arr(c), c.indexA, c.indexB))],
                    modifies=lambda c: [(A, None, c.indexA, c.indexA + 1), (A, None, c.indexB, c.indexB + 1)],
                    ensures=lambda c: [("exchanges the two elements", arr(c) == swapped(arr(c.pre), c.indexA, c.indexB)), permuted(c), ("admissible", AF(arr(c)))])
    rec = Contract(prefix + "_sort_recursive", args=["array", "begin", "end"], params={"array": arr_region}, regions=regions,
                   requires=lambda c: base(c) + [("range", And(c.begin >= 0, c.begin <= c.end, c.end < CAP, CAP < 2 ** 60))],
                   hints=hints, decreases=lambda c: c.end - c.begin,
                   modifies=lambda c: [(A, None, c.begin, c.end + 1)],
                   ensures=lambda c: [("sorted", z3.ForAll([z3.Int("i!s"), z3.Int("j!s")], (lambda i, j: Implies(And(c.begin <= i, i <= j, j <= c.end), key(c, i) <= key(c, j)))(z3.Int("i!s"), z3.Int("j!s")),
                                                           patterns=[z3.MultiPattern(el(c, z3.Int("i!s")), el(c, z3.Int("j!s")))])),
                                      within(c, c.begin, c.end), permuted(c), ("admissible", AF(arr(c)))],
                   loops={"0": Loop(inv=lambda c: [("range", And(c.v("lowPart") >= c.begin, c.v("lowPart") <= c.v("i"), c.v("i") <= c.end)),
                                                   ("low part", forall(lambda j: key(c, j) <= key(c, c.end), c.begin, c.v("lowPart"), pat=lambda j: el(c, j))),
                                                   ("high part", forall(lambda j: key(c, j) >= key(c, c.end), c.v("lowPart"), c.v("i"), pat=lambda j: el(c, j))),
                                                   within(c, c.begin, c.end), permuted(c), ("admissible", AF(arr(c)))], dec=lambda c: c.end - c.v("i"))})
    srt = Contract(prefix + "_sort", args=["array", "size"], params={"array": arr_region}, regions=regions,
                   requires=lambda c: base(c) + [("not empty", And(c.size >= 1, c.size <= CAP, CAP < 2 ** 60))], hints=hints,
                   modifies=lambda c: [(A, None, I(0), c.size)],
                   ensures=lambda c: [("sorted", z3.ForAll([z3.Int("i!s"), z3.Int("j!s")], (lambda i, j: Implies(And(0 <= i, i <= j, j < c.size), key(c, i) <= key(c, j)))(z3.Int("i!s"), z3.Int("j!s")),
                                                           patterns=[z3.MultiPattern(el(c, z3.Int("i!s")), el(c, z3.Int("j!s")))])),
                                      permuted(c), ("admissible", AF(arr(c)))])
    return [swap, rec, srt]
