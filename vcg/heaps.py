"""contracts of an instance of /repo/vl/heap-def.h: order `le(c, i, j)` over the elements of array A"""
from .spec import *

CAP = G("capacity")
HN = G("heapLength")


def eqv(c, x, y):
    return c.eng.ptr_id(x) == c.eng.ptr_id(y) if isinstance(x, PV) else x == y


def heap_contracts(prefix, ty, leaves, le, emitted=("up", "down", "push", "pop", "update"), names=None, links=None):
    """le(c,i,j): element i is ordered no later than j. the key is the last leaf"""
    nm = dict(cmp="_cmp", swap="_swap", up="_up", down="_down", push="_push", pop="_pop", update="_update")
    fn = lambda k: prefix + nm[k]
    arrs = lambda c: [c.arr("A", *l) for l in leaves]
    A0 = z3.Array("x", INT, INT)
    cache = {}

    def AF(a):
        """every key of the array is finite"""
        return z3.Function("all_finite_" + prefix, a.sort(), BOOL)(a)

    def finite(c):
        return AF(c.arr("A", *leaves[-1]))

    def perm(a, b):
        k = tuple(str(x.sort()) for x in a)
        if k not in cache:
            cache[k] = z3.Function("permuted_" + prefix, *([x.sort() for x in a] * 2 + [BOOL]))
        return cache[k](*(a + b))

    def axioms(c):
        s = [x.sort() for x in arrs(c)]
        X, Y, Z = [[z3.Const("%s%d!p" % (n, i), so) for i, so in enumerate(s)] for n in "XYZ"]
        i = z3.Int("i!p")
        return [z3.ForAll(X + Y + Z, Implies(And(perm(X, Y), perm(Y, Z)), perm(X, Z)), patterns=[z3.MultiPattern(perm(X, Y), perm(Y, Z))]),
                z3.ForAll(X + Y, Implies(And(perm(X, Y), AF(X[-1])), AF(Y[-1])), patterns=[z3.MultiPattern(perm(X, Y), AF(X[-1]))]),
                z3.ForAll([X[-1], i], Implies(And(AF(X[-1]), i >= 0, i < CAP), c.eng.fp.finite(X[-1][i])), patterns=[z3.MultiPattern(AF(X[-1]), X[-1][i])])]

    def permuted(c):
        return ("only rearranges the elements", perm([c.pre.arr("A", *l) for l in leaves], arrs(c)))

    def swapped(a, i, j):
        return z3.Store(z3.Store(a, i, a[j]), j, a[i])

    def base(c):
        return [("finite keys", finite(c))]

    reg = {"A": dict(ty=ty, count=lambda c: CAP)}
    if links:
        reg["A"]["links"] = links
    pair = lambda c, n, ex=None, exj=None: z3.ForAll([z3.Int("i!h"), z3.Int("j!h")], (lambda i, j: Implies(And(
        i >= 0, j < n, z3.Or(j == 2 * i + 1, j == 2 * i + 2), True if ex is None else i != ex, True if exj is None else j != exj), le(c, i, j)))(z3.Int("i!h"), z3.Int("j!h")),
        patterns=[z3.MultiPattern(pt(c, z3.Int("i!h")), pt(c, z3.Int("j!h")))])
    pt = lambda c, i: c.at("A", i, *keyleaf)
    keyleaf = leaves[-1] if isinstance(leaves[-1], tuple) else (leaves[-1],)

    def child(i, j):
        return z3.Or(j == 2 * i + 1, j == 2 * i + 2)

    def grand(c, x, n):
        p = (x - 1) / 2
        return Implies(x > 0, forall(lambda j: Implies(child(x, j), le(c, p, j)), 0, n, pat=lambda j: pt(c, j)))
    fin_after = lambda c: ("keys stay finite", finite(c))
    hints = lambda c: axioms(c) + [perm(arrs(c), arrs(c))]
    swap = Contract(fn("swap"), args=["array", "indexA", "indexB"], params={"array": "A"}, regions=reg,
                    requires=lambda c: base(c) + [("indexes", And(c.indexA >= 0, c.indexA < CAP, c.indexB >= 0, c.indexB < CAP))],
                    hints=lambda c: axioms(c) + [perm(arrs(c), [swapped(a, c.indexA, c.indexB) for a in arrs(c)])],
                    modifies=lambda c: [("A", None, c.indexA, c.indexA + 1), ("A", None, c.indexB, c.indexB + 1)],
                    ensures=lambda c: [("exchanges the two elements", And(*[c.arr("A", *l) == swapped(c.pre.arr("A", *l), c.indexA, c.indexB) for l in leaves])), permuted(c), fin_after(c)])
    up = Contract(fn("up"), args=["array", "heapSize", "index"], params={"array": "A"}, regions=reg,
                  requires=lambda c: base(c) + [("range", And(c.index >= 0, c.index < 2 ** 60, c.heapSize >= 0, c.heapSize <= CAP, CAP < 2 ** 60, z3.Or(c.index < c.heapSize))),
                                                ("ordered except around the index", pair(c, c.heapSize, c.index, c.index)), ("grandparent", grand(c, c.index, c.heapSize))],
                  hints=hints, decreases=lambda c: Max(c.heapSize - c.index, 0),
                  modifies=lambda c: [("A", None, c.index, c.heapSize)],
                  ensures=lambda c: [("ordered except with the parent", pair(c, c.heapSize, None, c.index)), ("grandparent", grand(c, c.index, c.heapSize)),
                                     ("parent order kept", Implies(And(c.index > 0, le(c.pre, (c.index - 1) / 2, c.index)), le(c, (c.index - 1) / 2, c.index))), permuted(c), fin_after(c)])
    down = Contract(fn("down"), args=["array", "index"], params={"array": "A"}, regions=reg,
                    requires=lambda c: base(c) + [("range", And(c.index >= 0, c.index < HN, HN <= CAP, CAP < 2 ** 60)), ("ordered except with the parent", pair(c, HN, None, c.index)), ("grandparent", grand(c, c.index, HN))],
                    hints=hints, decreases=lambda c: c.index, modifies=lambda c: [("A", None, I(0), c.index + 1)],
                    ensures=lambda c: [("heap order", pair(c, HN)), permuted(c), fin_after(c)])
    sreg = dict(reg, S=dict(ty="i64"))
    size = lambda c: c.at("S")
    push = Contract(fn("push"), args=["array", "heapSize"], params={"array": "A", "heapSize": "S"}, regions=sreg,
                    requires=lambda c: base(c) + [("room for one", And(size(c) >= 0, size(c) < CAP, HN == size(c) + 1, CAP < 2 ** 60)), ("heap order", pair(c, size(c)))],
                    hints=hints, modifies=lambda c: [("A", None, I(0), size(c) + 1), ("S", None, I(0), I(1))],
                    ensures=lambda c: [("length grows by one", size(c) == size(c.pre) + 1), ("heap order", pair(c, size(c))), permuted(c), fin_after(c)])
    pop = Contract(fn("pop"), args=["array", "heapSize"], params={"array": "A", "heapSize": "S"}, regions=sreg,
                   requires=lambda c: base(c) + [("not empty", And(size(c) > 0, size(c) <= CAP, CAP < 2 ** 60)), ("heap order", pair(c, size(c)))],
                   hints=lambda c: hints(c) + [Implies(pair(c, size(c)), forall(lambda i: le(c, I(0), i), 0, size(c), pat=lambda i: pt(c, i)))],
                   modifies=lambda c: [("A", None, I(0), size(c)), ("S", None, I(0), I(1))],
                   ensures=lambda c: [("length shrinks by one", size(c) == size(c.pre) - 1), ("returns the position of the popped element", c.ret == size(c)),
                                      ("the popped element is the old root", And(*[eqv(c, c.at("A", c.ret, *l), c.pre.at("A", 0, *l)) for l in leaves])),
                                      ("the popped element was least", forall(lambda i: le(c.pre, I(0), i), 0, size(c.pre), pat=lambda i: pt(c.pre, i))),
                                      ("heap order", pair(c, size(c))), permuted(c), fin_after(c)])
    update = Contract(fn("update"), args=["array", "heapSize", "index"], params={"array": "A"}, regions=reg,
                      requires=lambda c: base(c) + [("range", And(c.index >= 0, c.index < c.heapSize, c.heapSize <= CAP, HN == c.heapSize, CAP < 2 ** 60)),
                                                    ("ordered except around the index", pair(c, c.heapSize, c.index, c.index)), ("grandparent", grand(c, c.index, c.heapSize))],
                      hints=hints, modifies=lambda c: [("A", None, I(0), c.heapSize)],
                      ensures=lambda c: [("heap order", pair(c, c.heapSize)), permuted(c), fin_after(c)])
    all_ = dict(up=up, down=down, push=push, pop=pop, update=update)
    return [swap] + [all_[k] for k in emitted]


def root_lemma():
    """strong induction step: heap order and the claim below i give the claim at i"""
    k = z3.Function("key", INT, REAL)
    n, i, p = z3.Ints("n i p")
    a, b = z3.Ints("a b")
    order = z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, b < n, z3.Or(b == 2 * a + 1, b == 2 * a + 2)), k(a) <= k(b)), patterns=[z3.MultiPattern(k(a), k(b))])
    ih = z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < i), k(0) <= k(a)), patterns=[k(a)])
    return Lemma("the root of a heap is least (induction step; base is i = 0)", [order, ih, i >= 0, i < n, p >= 0, z3.Or(i == 0, i == 2 * p + 1, i == 2 * p + 2)], z3.Or(k(0) <= k(i), z3.Not(k(p) <= k(p))))
