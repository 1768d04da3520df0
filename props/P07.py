import math
import struct
from fractions import Fraction
from vcg.spec import *


def isqrt(bits):
    """digit by digit: after `it` steps x0 = rest + y^2 * 4^(n-it), rest < (2y+1) * 4^(n-it)"""
    n = bits // 2

    def W(c, it):
        w = I(1)
        for k in range(0, n):
            w = If(it == k, I(4 ** (n - k)), w)
        return w

    def inv(c):
        x0, w = c.pre.v("x"), W(c, c.it)
        return [("at most %d digits" % n, c.it <= n), ("position", c.v("twice_k") == bits - 2 - 2 * c.it), ("digits and rest make up the argument", c.v("x") + c.v("y") * c.v("y") * w == x0),
                ("rest is less than one more unit", And(c.v("x") >= 0, c.v("x") < (2 * c.v("y") + 1) * w)), ("digits", And(c.v("y") >= 0, *[Implies(c.it == k, c.v("y") < 2 ** k) for k in range(n + 1)]))]
    return Contract("vl_fast_sqrt_ui%d" % bits, args=["x"], ensures=lambda c: [("the integer square root", And(c.ret >= 0, c.ret * c.ret <= c.x, c.x < (c.ret + 1) * (c.ret + 1)))],
                    loops={"0": Loop(inv=inv, dec=lambda c: n - c.it)})


UNITS = [Unit("inst/mathop_inst.c", [isqrt(b) for b in (8, 16, 32, 64)])]
PROP = Prop("P07", units=UNITS)
PI2 = {"f": z3.RealVal("6.283185482025146484375"), "d": z3.RealVal("6.28318530717958623199592693708837032318115234375")}


def mod2pi(s):
    P = PI2[s]
    # any set of reals containing 0 and closed under adding and subtracting the period: in particular the multiples
    M = z3.Function("multiple_of_the_period", REAL, BOOL)
    closed = lambda c: [M(z3.RealVal(0))] + [M(c.pre.v("x") - c.v("x") + d) == M(c.pre.v("x") - c.v("x")) for d in (P, -P)]
    lo = lambda c: [("differs by a multiple of the period", M(c.pre.v("x") - c.v("x")))]
    return Contract("vl_mod_2pi_" + s, args=["x"], ensures=lambda c: [("in the interval", And(c.ret >= 0, c.ret <= P)), ("differs by a multiple of the period", M(c.x - c.ret))], hints=lambda c: [M(z3.RealVal(0))],
                    loops={"0": Loop(inv=lambda c: lo(c) + [("does not pass zero", Or(c.v("x") == c.pre.v("x"), c.v("x") >= 0))], hints=closed, dec=lambda c: z3.ToInt(c.v("x") / P)),
                           "1": Loop(inv=lambda c: lo(c) + [("does not pass the period", c.v("x") <= P)], hints=closed, dec=lambda c: z3.ToInt(-c.v("x") / P) + 1)})


def floor(s):
    return Contract("vl_floor_" + s, args=["x"], requires=lambda c: [("fits the integer", And(c.x > -2 ** 62, c.x < 2 ** 62))], ensures=lambda c: [("largest integer not above", And(z3.ToReal(c.ret) <= c.x, c.x < z3.ToReal(c.ret) + 1))])


def num(s, x):
    """the literal as the code's type stores it"""
    return z3.RealVal(str(Fraction(struct.unpack("f", struct.pack("f", x))[0] if s == "f" else x)))


def atan2(s, eps):
    """pi/4 or 3pi/4 plus the documented cubic in the documented ratio, odd in y"""
    def ens(c):
        ay = If(c.y >= 0, c.y, -c.y) + num(s, eps)
        r = If(c.x >= 0, (c.x - ay) / (c.x + ay), (c.x + ay) / (ay - c.x))
        q = If(c.x >= 0, num(s, math.pi / 4), num(s, 3 * math.pi / 4)) + (num(s, .1821) * r * r - num(s, .9675)) * r
        return [("the documented approximation", c.ret == If(c.y < 0, -q, q))]
    return Contract("vl_fast_atan2_" + s, args=["y", "x"], ensures=ens)


UNITS.append(Unit("inst/mathop_inst.c", [mod2pi("f"), mod2pi("d"), floor("f"), floor("d"), atan2("f", 1.19209290E-07), atan2("d", 2.220446049250313e-16)], fp="real"))
PROP = Prop("P07", units=UNITS, cbmc=[Cbmc(n, "cbmc_mathop.c", flags=["-DWHICH=%d" % w]) for w, n in ((1, "vl_floor_f"), (2, "vl_floor_d"), (3, "vl_abs_f, vl_is_nan_f, vl_is_inf_f"), (4, "vl_abs_d, vl_is_nan_d, vl_is_inf_d"), (5, "vl_swap_host_big_endianness_*"), (6, "VL_MIN, VL_MAX, VL_SHIFT_LEFT, constants"))],
            oracles=[Oracle("mathop.c", what="integer roots, roundings, fast approximations against libm", always=True)],
            bounded=["vl_fast_resqrt_f: every mantissa at two exponents (the computation scales exactly by powers of four) executed; vl_fast_resqrt_d, vl_fast_sqrt_*, vl_fast_atan2_*: sampled; vl_ceil_*, vl_round_*: compiler built-ins, sampled"])
