"""helpers for writing contracts"""
import z3
from .engine import (Contract, Loop, forall, exists, And, Or, Not, Implies, If, PV, Ptr, NULL, IV, I, TRUE, FALSE, Unsupported, ShapeError, ivc, Ctx)
from .driver import Unit, Lemma, Cbmc, Oracle, Prop
from . import llvmir as L

INT = z3.IntSort()
REAL = z3.RealSort()
BOOL = z3.BoolSort()


def Min(a, b):
    return z3.If(a <= b, a, b)


def Max(a, b):
    return z3.If(a >= b, a, b)


def G(name):
    """ghost integer"""
    return z3.Int("ghost_" + name)


class RecFn:
    """a specification function given by its defining equation; `unfold` yields one (definitional, hence sound) instance"""

    def __init__(self, name, *sorts, body):
        self.f = z3.Function(name, *sorts)
        self.body = body

    def __call__(self, *a):
        return self.f(*[I(x) if isinstance(x, int) else x for x in a])

    def unfold(self, *a):
        a = [I(x) if isinstance(x, int) else x for x in a]
        return self.f(*a) == self.body(*a)


def ret_null(c):
    return Or(*[g for g, p in c.ret.alts if p.kind == "null"])


def ret_idx(c):
    return c.eng.single(c.ret).idx


def ptr_null(pv):
    return Or(*[g if p.kind == "null" else And(g, p.x == 0) for g, p in pv.alts if p.kind in ("null", "opaque")])


def pos(e):
    """sub-term in z3 as Int"""
    return e


class Rearr:
    """`b is a rearrangement of a` as an uninterpreted reflexive, transitive relation containing element exchanges
    (so everything proved holds of multiset equality); optionally a predicate on elements that rearranging keeps"""

    def __init__(self, name, region, path=(), ok=None, n=None):
        self.name, self.region, self.path, self.ok, self.n = name, region, path, ok, n

    def arr(self, c):
        return c.arr(self.region, *self.path)

    def perm(self, a, b):
        return z3.Function("permuted_" + self.name, a.sort(), b.sort(), BOOL)(a, b)

    def AF(self, a):
        return z3.Function("admissible_" + self.name, a.sort(), BOOL)(a)

    @staticmethod
    def swapped(a, i, j):
        return z3.Store(z3.Store(a, i, a[j]), j, a[i])

    def axioms(self, c):
        so = self.arr(c).sort()
        X, Y, Z = [z3.Const(n + "!p", so) for n in "XYZ"]
        i, j = z3.Ints("i!p j!p")
        r = [z3.ForAll([X, Y, Z], Implies(And(self.perm(X, Y), self.perm(Y, Z)), self.perm(X, Z)), patterns=[z3.MultiPattern(self.perm(X, Y), self.perm(Y, Z))]),
             self.perm(self.arr(c), self.arr(c)),
             z3.ForAll([X, i, j], self.perm(X, self.swapped(X, i, j)), patterns=[self.swapped(X, i, j)])]
        if self.ok:
            r += [z3.ForAll([X, Y], Implies(And(self.perm(X, Y), self.AF(X)), self.AF(Y)), patterns=[z3.MultiPattern(self.perm(X, Y), self.AF(X))]),
                  z3.ForAll([X, i], Implies(And(self.AF(X), i >= 0, i < self.n), self.ok(c, X[i])), patterns=[z3.MultiPattern(self.AF(X), X[i])])]
        return r

    def step(self, c, i, j):
        """exchanging i and j is a rearrangement"""
        return self.perm(self.arr(c), self.swapped(self.arr(c), i, j))

    def kept(self, c):
        return ("only rearranges the elements", self.perm(self.arr(c.pre), self.arr(c)))


class Row:
    """b -> stride*b as a function the solver does not have to multiply for (every fact is true of stride*b, stride >= 0)"""

    def __init__(self, name, stride):
        self.f, self.stride = z3.Function("row_" + name, INT, INT), stride

    def __call__(self, b):
        return self.f(I(b) if isinstance(b, int) else b)

    def axioms(self, c, *ground):
        b, d = z3.Ints("b!r d!r")
        s = self.stride(c)
        return [z3.ForAll([b, d], Implies(b < d, self.f(b) + s <= self.f(d)), patterns=[z3.MultiPattern(self.f(b), self.f(d))]), self.f(I(0)) == 0] + self.at(c, *ground)

    def at(self, c, *bs):
        """ground instances of the definition"""
        r = []
        for b in bs:
            r += [self.f(b) == self.stride(c) * b, self.f(b + 1) == self.f(b) + self.stride(c)]
        return r


class Cell:
    """(b, a) -> row(b) + a"""

    def __init__(self, name, row):
        self.f, self.row = z3.Function("cell_" + name, INT, INT, INT), row

    def __call__(self, b, a):
        return self.f(*[I(x) if isinstance(x, int) else x for x in (b, a)])

    def axioms(self):
        b, a = z3.Ints("b!c a!c")
        return [z3.ForAll([b, a], self.f(b, a) == self.row(b) + a, patterns=[self.f(b, a)])]


def forall2(fn, pat):
    a, b = z3.Ints("a!2 b!2")
    return z3.ForAll([a, b], fn(a, b), patterns=[pat(a, b)])


def is_fn(pv, name):
    """the function pointer is `name`"""
    return Or(*[And(g, p.x == name) if not isinstance(p.x, str) else (g if p.x == name else FALSE) for g, p in pv.alts if p.kind == "func"])


class Grid:
    """(y, x) -> rs*y + cs*x as functions with the (true) monotonicity facts, for 0 <= x < width and cs*(width-1) < rs"""

    def __init__(self, name, rs, width, cs=None):
        self.name = name
        self.row = Row(name, rs)
        self.rs, self.width, self.cs = rs, width, cs
        self.col = Row("col_" + name, cs) if cs else None
        self.f = z3.Function("cell_" + name, INT, INT, INT)

    def __call__(self, y, x):
        return self.f(*[I(v) if isinstance(v, int) else v for v in (y, x)])

    def x(self, x):
        return self.col(x) if self.col else (I(x) if isinstance(x, int) else x)

    def axioms(self, c, *ground):
        """assumes (a precondition must say so) that a row fits the row stride"""
        y, x = z3.Ints("y!g x!g")
        r = self.row.axioms(c, *ground) + [z3.ForAll([y, x], self.f(y, x) == self.row(y) + self.x(x), patterns=[self.f(y, x)])]
        w, s = self.width(c), self.rs(c)
        if self.col:
            r += self.col.axioms(c, I(0), w - 1) + [z3.ForAll([x], Implies(And(x >= 0, x < w), And(self.col(x) >= 0, self.col(x) <= self.col(w - 1))), patterns=[self.col(x)])]
        return r

    def fits(self, c):
        return And(self.rs(c) >= (self.cs(c) if self.cs else 1) * (self.width(c) - 1) + 1, *([self.cs(c) >= 1] if self.cs else []))

    def size(self, c, h):
        """cells used by h rows"""
        return If(Or(h <= 0, self.width(c) <= 0), 0, self.rs(c) * (h - 1) + (self.cs(c) if self.cs else 1) * (self.width(c) - 1) + 1)
