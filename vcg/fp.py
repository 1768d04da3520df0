"""Floating-point theories used by the verifier.

'uf'   : IEEE values are elements of an uninterpreted sort; every operation is an uninterpreted function of its
         operands (so equalities proved are bit-exact for any rounding mode) plus a few axioms true of IEEE-754.
         Comparisons are exact: nan(x) and a rank rk(x) in the extended reals.
'real' : machine arithmetic treated as mathematical real arithmetic (declared as an assumption in the evidence).
"""
from fractions import Fraction
import math
import z3

REAL = z3.RealSort()
F32 = z3.DeclareSort("F32")
F64 = z3.DeclareSort("F64")
RINF = z3.Real("RINF")


class FP:
    def __init__(self, mode, axioms=()):
        self.mode = mode
        self.consts = {}
        self.want = set(axioms)
        self.fns = {}
        self._ax = None

    def sort(self, ty):
        if self.mode == "real":
            return REAL
        return F32 if ty.k == "float" else F64

    def _w(self, s):
        return "32" if s == F32 else "64"

    def fn(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.fns:
            self.fns[k] = z3.Function(name, *sorts)
        return self.fns[k]

    def rk(self, a):
        return self.fn("rk" + self._w(a.sort()), a.sort(), REAL)(a)

    def isnan(self, a):
        if self.mode == "real":
            return z3.BoolVal(False)
        return self.fn("nan" + self._w(a.sort()), a.sort(), z3.BoolSort())(a)

    def finite(self, a):
        if self.mode == "real":
            return z3.BoolVal(True)
        return z3.And(z3.Not(self.isnan(a)), self.rk(a) < RINF, self.rk(a) > -RINF)

    def const(self, ty, v):
        if self.mode == "real":
            if math.isinf(v) or math.isnan(v):
                key = (ty.k, repr(v))
                if key not in self.consts:
                    c = z3.Real("fpconst_%s" % ("pinf" if v > 0 else "ninf" if v < 0 else "nan"))
                    self.consts[key] = c
                return self.consts[key]
            if v == 0 and math.copysign(1, v) < 0:
                return self.consts.setdefault(("nz", "nz"), z3.Real("fpconst_negzero"))
            fr = Fraction(v)
            return z3.RealVal(fr)
        key = (ty.k, float(v).hex() if not math.isnan(v) else "nan")
        if key not in self.consts:
            nm = "c%s_%s" % ("32" if ty.k == "float" else "64", key[1].replace("-", "m").replace("+", "p").replace(".", "_"))
            c = z3.Const(nm, self.sort(ty))
            self.consts[key] = c
        return self.consts[key]

    def const_facts(self):
        out = []
        if self.mode == "real":
            if ("nz", "nz") in self.consts:
                out.append(self.consts[("nz", "nz")] == 0)
            return out
        out.append(RINF > z3.RealVal(Fraction(10) ** 400))
        for (k, h), c in self.consts.items():
            if h == "nan":
                out.append(self.isnan(c))
                continue
            v = float.fromhex(h)
            out.append(z3.Not(self.isnan(c)))
            if math.isinf(v):
                out.append(self.rk(c) == (RINF if v > 0 else -RINF))
            else:
                out.append(self.rk(c) == z3.RealVal(Fraction(v)))
        return out

    # ---- arithmetic
    def bin(self, op, a, b):
        if self.mode == "real":
            if op == "fadd":
                return a + b
            if op == "fsub":
                return a - b
            if op == "fmul":
                if "absmul" in self.want and not (z3.is_rational_value(a) or z3.is_rational_value(b)):
                    return self.fn("product", REAL, REAL, REAL)(a, b)
                return a * b
            if op == "fdiv":
                if z3.is_rational_value(b) and b.as_fraction() != 0:
                    return a / b
                if "absdiv" in self.want:
                    return self.fn("quotient", REAL, REAL, REAL)(a, b)
                return a / b
            raise NotImplementedError(op)
        s = a.sort()
        return self.fn(op + self._w(s), s, s, s)(a, b)

    def neg(self, a):
        if self.mode == "real":
            return -a
        s = a.sort()
        return self.fn("fneg" + self._w(s), s, s)(a)

    def un(self, name, a):
        s = a.sort()
        if self.mode == "real":
            if name == "fabs":
                return z3.If(a >= 0, a, -a)
            return self.fn(name, REAL, REAL)(a)
        return self.fn(name + self._w(s), s, s)(a)

    def call(self, name, *args):
        s = args[0].sort()
        n = name if self.mode == "real" else name + self._w(s)
        return self.fn(n, *([a.sort() for a in args] + [s]))(*args)

    def cmp(self, pred, a, b):
        if pred == "true":
            return z3.BoolVal(True)
        if pred == "false":
            return z3.BoolVal(False)
        if self.mode == "real":
            base = pred[1:]
            if pred == "ord":
                return z3.BoolVal(True)
            if pred == "uno":
                return z3.BoolVal(False)
            return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[base]
        uno = z3.simplify(z3.Or(self.isnan(a), self.isnan(b)))
        if pred == "ord":
            return z3.Not(uno)
        if pred == "uno":
            return uno
        ra, rb = self.rk(a), self.rk(b)
        base = pred[1:]
        c = {"eq": ra == rb, "ne": ra != rb, "gt": ra > rb, "ge": ra >= rb, "lt": ra < rb, "le": ra <= rb}[base]
        return z3.And(z3.Not(uno), c) if pred[0] == "o" else z3.Or(uno, c)

    def lt(self, a, b):
        return self.cmp("olt", a, b)

    def le(self, a, b):
        return self.cmp("ole", a, b)

    def conv(self, a, ty):
        """fpext / fptrunc"""
        if self.mode == "real":
            return a
        s, d = a.sort(), self.sort(ty)
        if s == d:
            return a
        return self.fn("fpext" if d == F64 else "fptrunc", s, d)(a)

    def from_int(self, e, ty):
        """rounding of the mathematical integer e"""
        if self.mode == "real":
            if z3.is_int_value(e):
                return z3.RealVal(e.as_long())
            return z3.ToReal(e)
        if z3.is_int_value(e) and abs(e.as_long()) < 2 ** 24:
            return self.const(ty, float(e.as_long()))
        d = self.sort(ty)
        return self.fn("i2f" + self._w(d), z3.IntSort(), d)(e)

    def to_int(self, a):
        if self.mode == "real":
            return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
        s = a.sort()
        return self.fn("f2i" + self._w(s), s, z3.IntSort())(a)

    # ---- axioms
    def axioms(self):
        """list of (name, formula). Each is a true statement about IEEE-754 binary32/64 arithmetic (any rounding
        to nearest, gradual underflow) or, in real mode, about the reals and the library functions."""
        out = []
        if self.mode == "real":
            x, y = z3.Reals("x!a y!a")
            if "absmul" in self.want:   # products of two unknowns as a commutative uninterpreted function (holds in particular of multiplication)
                m = self.fn("product", REAL, REAL, REAL)
                out.append(("product", z3.ForAll([x, y], m(x, y) == m(y, x), patterns=[m(x, y)])))
            if "sqrt" in self.want:
                for nm in ("sqrt",):
                    s = self.fn(nm, REAL, REAL)
                    out.append((nm, z3.ForAll([x], z3.Implies(x >= 0, z3.And(s(x) >= 0, s(x) * s(x) == x)), patterns=[s(x)])))
            if "exp" in self.want:
                s = self.fn("exp", REAL, REAL)
                out.append(("exp>0", z3.ForAll([x], s(x) > 0, patterns=[s(x)])))
                out.append(("exp0", s(z3.RealVal(0)) == 1))
            return out
        for s in (F32, F64):
            w = self._w(s)
            a, b, c = z3.Consts("a!%s b!%s c!%s" % (w, w, w), s)
            add, sub, mul, neg = [self.fn(o + w, *([s, s, s])) for o in ("fadd", "fsub", "fmul")] + [self.fn("fneg" + w, s, s)]
            div = self.fn("fdiv" + w, s, s, s)
            fab = self.fn("fabs" + w, s, s)
            sq = self.fn("sqrt" + w, s, s)
            zero = self.const(type("T", (), {"k": "float" if s == F32 else "double"})(), 0.0)
            rk, nan = self.rk, self.isnan
            out.append(("comm", z3.ForAll([a, b], add(a, b) == add(b, a), patterns=[add(a, b)])))
            out.append(("comm", z3.ForAll([a, b], mul(a, b) == mul(b, a), patterns=[mul(a, b)])))
            out.append(("rank", z3.ForAll([a], z3.Implies(z3.Not(nan(a)), z3.And(rk(a) <= RINF, rk(a) >= -RINF)), patterns=[rk(a)])))
            if "subsign" in self.want:
                out.append(("subsign", z3.ForAll([a, b], z3.Implies(z3.And(self.finite(a), self.finite(b)), z3.And(
                    z3.Not(nan(sub(a, b))), (rk(sub(a, b)) > 0) == (rk(a) > rk(b)), (rk(sub(a, b)) < 0) == (rk(a) < rk(b)))),
                    patterns=[sub(a, b)])))
            if "subeq" in self.want:
                # a - b and b - a are exact negations (up to the sign of zero / NaN payload): ranks negate
                out.append(("subneg", z3.ForAll([a, b], z3.And(nan(sub(a, b)) == nan(sub(b, a)), z3.Implies(
                    z3.Not(nan(sub(a, b))), rk(sub(a, b)) == -rk(sub(b, a)))), patterns=[sub(a, b)])))
            if "sqnonneg" in self.want:
                out.append(("sqnonneg", z3.ForAll([a], z3.Implies(z3.Not(nan(a)), z3.And(z3.Not(nan(mul(a, a))), rk(mul(a, a)) >= 0)),
                                                  patterns=[mul(a, a)])))
            if "addmono" in self.want:
                out.append(("addmono", z3.ForAll([a, b], z3.Implies(z3.And(z3.Not(nan(a)), z3.Not(nan(b)), rk(a) >= 0, rk(b) >= 0),
                    z3.And(z3.Not(nan(add(a, b))), rk(add(a, b)) >= rk(a), rk(add(a, b)) >= rk(b))), patterns=[add(a, b)])))
            if "fabs" in self.want:
                out.append(("fabs", z3.ForAll([a], z3.And(nan(fab(a)) == nan(a), z3.Implies(z3.Not(nan(a)), rk(fab(a)) == z3.If(rk(a) >= 0, rk(a), -rk(a)))),
                                              patterns=[fab(a)])))
            if "neg" in self.want:
                out.append(("neg", z3.ForAll([a], z3.And(nan(neg(a)) == nan(a), z3.Implies(z3.Not(nan(a)), rk(neg(a)) == -rk(a))), patterns=[neg(a)])))
        if "i2f" in self.want:
            for s in (F32, F64):
                w = self._w(s)
                i, j = z3.Ints("i!i j!i")
                f = self.fn("i2f" + w, z3.IntSort(), s)
                # rounding is monotone, never NaN, exact on |i| <= 2^24 / 2^53
                lim = 2 ** 24 if s == F32 else 2 ** 53
                out.append(("i2f", z3.ForAll([i], z3.And(z3.Not(self.isnan(f(i))), z3.Implies(z3.And(i <= lim, i >= -lim), self.rk(f(i)) == z3.ToReal(i))), patterns=[f(i)])))
        return out
