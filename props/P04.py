from vcg.spec import *

RND = {"R": dict(ty="VlRand")}
OPQ = {"R": dict(ty="i32", count=lambda c: I(625))}   # units that never look inside the generator


def draws(RND, hi):
    u32 = Contract("vl_rand_uint32", args=["self"], params={"self": "R"}, regions=RND, modifies=lambda c: [("R", None, I(0), I(hi))],
                   ensures=lambda c: [("32 bits", And(c.ret >= 0, c.ret < 2 ** 32))])
    u32.assumed = True   # proved on the real code with CBMC below (state recurrence, tempering, frame)
    u64 = Contract("vl_rand_uint64", args=["self"], params={"self": "R"}, regions=RND, modifies=lambda c: [("R", None, I(0), I(hi))],
                   ensures=lambda c: [("64 bits", And(c.ret >= 0, c.ret < 2 ** 64))])
    uindex = Contract("vl_rand_uindex", args=["self", "range"], params={"self": "R"}, regions=RND, requires=lambda c: [("range", c.range > 0)],
                      modifies=lambda c: [("R", None, I(0), I(hi))], ensures=lambda c: [("below the limit", And(c.ret >= 0, c.ret < c.range))])
    i63 = Contract("vl_rand_int63", args=["self"], params={"self": "R"}, regions=RND, modifies=lambda c: [("R", None, I(0), I(hi))], ensures=lambda c: [("63 bits", And(c.ret >= 0, c.ret < 2 ** 63))])
    i31 = Contract("vl_rand_int31", args=["self"], params={"self": "R"}, regions=RND, modifies=lambda c: [("R", None, I(0), I(hi))], ensures=lambda c: [("31 bits", And(c.ret >= 0, c.ret < 2 ** 31))])
    return u32, u64, uindex, i63, i31


u32, u64, uindex, i63, i31 = draws(RND, 1)
DRAWS = list(draws(OPQ, 625))
pi = Rearr("idx", "A")
permute = Contract("vl_rand_permute_indexes", args=["self", "array", "size"], params={"self": "R", "array": "A"}, regions=dict(RND, A=dict(ty="i64", signed=True, count=lambda c: c.size)),
                   requires=lambda c: [("size", c.size < 2 ** 60)], hints=pi.axioms, modifies=lambda c: [("R", None, I(0), I(1)), ("A", None, I(0), c.size)], ensures=lambda c: [pi.kept(c)],
                   loops={"0": Loop(inv=lambda c: [("range", And(c.v("i") >= -1, c.v("i") < c.size)), pi.kept(c)], dec=lambda c: c.v("i") + 1)})


def shuffle(prefix, ty):
    p = Rearr(prefix, "A")
    return Contract(prefix + "_shuffle", args=["array", "size", "rand"], params={"rand": "R", "array": "A"}, regions=dict(OPQ, A=dict(ty=ty, count=lambda c: c.size)),
                    requires=lambda c: [("size", c.size < 2 ** 60)], hints=p.axioms, modifies=lambda c: [("R", None, I(0), I(625)), ("A", None, I(0), c.size)], ensures=lambda c: [p.kept(c)],
                    loops={"0": Loop(inv=lambda c: [("range", And(c.v("n") >= 0, c.v("n") <= c.size)), p.kept(c)], dec=lambda c: c.v("n"))})


U32 = 2 ** 32
bxor = z3.Function("bvxor32", INT, INT, INT)
mix = lambda x: bxor(x, x / (1 << 30))


def bx(x, y):   # the engine normalises nothing about xor: both orders are admitted
    return bxor(x, y)


def mt(c, i):
    return c.at("R", None, "mt", i)


def xc(c):
    a, b = z3.Ints("a!x b!x")
    return [z3.ForAll([a, b], bxor(a, b) == bxor(b, a), patterns=[bxor(a, b)])]


def seeded(c, n):
    return ("Knuth recurrence", forall(lambda j: mt(c, j) == (1812433253 * mix(mt(c, j - 1)) + j) % U32, 1, n, pat=lambda j: mt(c, j)))


seed = Contract("vl_rand_seed", args=["self", "s"], params={"self": "R"}, regions=RND, hints=xc, modifies=lambda c: [("R", None, I(0), I(1))],
                ensures=lambda c: [("first word", mt(c, I(0)) == c.s), ("stream restarts", c.at("R", None, "mti") == 624), seeded(c, 624)],
                loops={"0": Loop(inv=lambda c: [("position", And(c.at("R", None, "mti") >= 1, c.at("R", None, "mti") <= 624)), ("first word", mt(c, I(0)) == c.s), seeded(c, c.at("R", None, "mti"))],
                                 dec=lambda c: 624 - c.at("R", None, "mti"))})

# init_by_array as published: word A1(t), A2(t): state after t steps of the first / second loop
AR = z3.ArraySort(INT, INT)
A1, A2 = z3.Function("afterFirst", INT, AR), z3.Function("afterSecond", INT, AR)
I1, I2, J1 = [z3.Function(n, INT, INT) for n in ("pos1", "pos2", "keyPos")]


def nxt(a, i):
    return If(i + 1 >= 624, z3.Store(a, 0, a[623]), a), If(i + 1 >= 624, I(1), i + 1)


def step1(c, t):
    a, i, j = A1(t), I1(t), J1(t)
    b = z3.Store(a, i, (bxor(a[i], (mix(a[i - 1]) * 1664525) % U32) + c.at("K", j) + j) % U32)
    b, i2 = nxt(b, i)
    return And(A1(t + 1) == b, I1(t + 1) == i2, J1(t + 1) == If(j + 1 >= c.keySize, 0, j + 1))


def step2(c, t):
    a, i = A2(t), I2(t)
    b = z3.Store(a, i, (bxor(a[i], (mix(a[i - 1]) * 1566083941) % U32) - i) % U32)
    b, i2 = nxt(b, i)
    return And(A2(t + 1) == b, I2(t + 1) == i2)


def seeded_arr(a, s):
    return And(a[0] == s, forall(lambda j: a[j] == (1812433253 * mix(a[j - 1]) + j) % U32, 1, 624, pat=lambda j: a[j]))


marr = lambda c: c.arr("R", "mt")
T1 = lambda c: Max(624, c.keySize)
agree = lambda c, a: forall(lambda j: mt(c, j) == a[j], 0, 624, pat=lambda j: mt(c, j))
byarr = Contract("vl_rand_seed_by_array", args=["self", "key", "keySize"], params={"self": "R", "key": "K"}, regions=dict(RND, K=dict(ty="i32", signed=False, count=lambda c: c.keySize)),
                 requires=lambda c: [("size", And(c.keySize >= 1, c.keySize < 2 ** 31))], hints=lambda c: xc(c) + [I1(0) == 1, J1(0) == 0, I2(0) == I1(T1(c))],
                 modifies=lambda c: [("R", None, I(0), I(1))],
                 ensures=lambda c: [("starts from the state seeded with 19650218", seeded_arr(A1(0), 19650218)), ("published initialisation", And(mt(c, I(0)) == 2 ** 31, forall(lambda j: mt(c, j) == A2(623)[j], 1, 624, pat=lambda j: mt(c, j)))), ("stream restarts", c.at("R", None, "mti") == 624)],
                 loops={"0": Loop(inv=lambda c: [("count", And(c.v("k") >= 0, c.v("k") <= T1(c))), ("positions", And(c.v("i") == I1(T1(c) - c.v("k")), c.v("i") >= 1, c.v("i") < 624, c.v("j") == J1(T1(c) - c.v("k")), c.v("j") >= 0, c.v("j") < c.keySize)),
                                                 ("first pass", agree(c, A1(T1(c) - c.v("k")))), ("stream position", c.at("R", None, "mti") == 624)],
                                  hints=lambda c: [step1(c, T1(c) - c.v("k"))] + ([forall(lambda j: A1(0)[j] == mt(c, j), 0, 624, pat=lambda j: A1(0)[j])] if c is c.ent else []), dec=lambda c: c.v("k")),
                        "1": Loop(inv=lambda c: [("count", And(c.v("k") >= 0, c.v("k") <= 623)), ("positions", And(c.v("i") == I2(623 - c.v("k")), c.v("i") >= 1, c.v("i") < 624)), ("second pass", agree(c, A2(623 - c.v("k")))),
                                                 ("stream position", c.at("R", None, "mti") == 624)],
                                  hints=lambda c: [step2(c, 623 - c.v("k")), A2(0) == A1(T1(c))], dec=lambda c: c.v("k"))})

PROP = Prop("P04", units=[Unit("vl/random.c", [u32, u64, uindex, permute, seed, byarr]), Unit("inst/shuffle.c", DRAWS + [shuffle("vs", "double")]),
                          Unit("vl/kmeans.c", DRAWS[:3] + [shuffle("_vl_kmeans", "i64")])],
            cbmc=[Cbmc("vl_rand_uint32(draw)", "cbmc_mt.c", sources=["vl/random.c"], flags=["-DDRAW"], unwind=625), Cbmc("vl_rand_uint32(refill)", "cbmc_mt.c", sources=["vl/random.c"], unwind=625),
                  Cbmc("vl_rand_uint32(unseeded)", "cbmc_mt.c", sources=["vl/random.c"], flags=["-DUNSEEDED"], unwind=625)] +
            [Cbmc(n, "cbmc_real.c", flags=["-DWHICH=%d" % w]) for n, w in (("vl_rand_real1", 1), ("vl_rand_real2", 2), ("vl_rand_real3", 3), ("vl_rand_res53", 4), ("vl_rand_uint64", 5), ("vl_rand_int63", 6), ("vl_rand_int31", 7))],
            oracles=[Oracle("random.c", exclude=["vl/kmeans.c"], what="reference MT19937 streams, ranges and permutations")])
