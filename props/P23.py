from vcg.spec import *

# the stream: bytes of the file, and one cell for the position
LEN, B = G("stream_length"), z3.Function("stream_byte", INT, INT)
EOL, BL = z3.Function("after_line", INT, INT), z3.Function("after_blanks", INT, INT)
NUMOK, NUM, NEXT = z3.Function("number_at", INT, z3.BoolSort()), z3.Function("number_value", INT, INT), z3.Function("after_number", INT, INT)
FILE = dict(ty="i64", signed=True)
HEAD, META, DATA, IO = 101, 102, 103, 104
NL, TAB, CR, SP, HASH = 10, 9, 13, 32, 35
pos = lambda c: c.at("F")
okpos = lambda c: [("position", And(pos(c) >= 0, pos(c) <= LEN, LEN < 2 ** 30))]
blank = lambda p: Or(B(p) == TAB, B(p) == NL, B(p) == CR, B(p) == SP)


def byte(p):
    return [B(p) >= 0, B(p) <= 255]


def lines(p):
    return byte(p) + [EOL(p) == If(p >= LEN, p, If(B(p) == NL, p + 1, EOL(p + 1)))]


def blanks(p):
    return byte(p) + [BL(p) == If(p >= LEN, p, If(blank(p), BL(p + 1), If(B(p) == HASH, BL(EOL(p + 1)), p)))]


def assumed(c):
    c.assumed = True
    return c


def stdio(signed, nm="__isoc23_fscanf"):
    fgetc = Contract("fgetc", args=["stream"], params=dict(stream="F"), regions={"F": FILE}, modifies=lambda c: [("F", None, None, None)], ensures=lambda c: byte(pos(c.pre)) + [If(pos(c.pre) < LEN, And(c.ret == B(pos(c.pre)), pos(c) == pos(c.pre) + 1), And(c.ret == -1, pos(c) == pos(c.pre)))])
    ungetc = Contract("ungetc", args=["c", "stream"], params=dict(stream="F"), regions={"F": FILE}, modifies=lambda c: [("F", None, None, None)], requires=lambda c: [("pushes back the last character", And(pos(c) >= 1, c.c == B(pos(c) - 1)))], ensures=lambda c: [pos(c) == pos(c.pre) - 1])
    nb = lambda c: If(c.size == 1, c.nmemb, 2 * c.nmemb)
    fread = Contract("fread", args=["ptr", "size", "nmemb", "stream"], params=dict(ptr="P", stream="F"), regions={"F": FILE, "P": dict(ty="i8", signed=signed, count=nb)}, modifies=lambda c: [("F", None, None, None), ("P", None, I(0), nb(c))], requires=lambda c: [("one or two bytes each", Or(c.size == 1, c.size == 2))],
                     ensures=lambda c: (lambda p, n: [And(c.ret >= 0, c.ret <= c.nmemb, pos(c) >= p), (c.ret == c.nmemb) == (LEN - p >= n), Implies(LEN - p >= n, pos(c) == p + n), Implies(LEN - p >= n, And(forall(lambda j: c.at("P", j) == (If(B(p + j) >= 128, B(p + j) - 256, B(p + j)) if signed else B(p + j)), 0, n, pat=lambda j: c.at("P", j)))), pos(c) <= LEN])(pos(c.pre), nb(c)))
    fscanf = Contract(nm, args=["stream", "format", "value"], params=dict(stream="F", value="V"), regions={"F": FILE, "V": dict(ty="i32")}, modifies=lambda c: [("F", None, None, None), ("V", None, None, None)],
                      ensures=lambda c: (lambda p: [(c.ret == 1) == NUMOK(p), pos(c) >= p, pos(c) <= LEN, Implies(NUMOK(p), And(c.at("V") == NUM(p), pos(c) == NEXT(p))), NEXT(p) >= p, NEXT(p) <= LEN])(pos(c.pre)))
    err = Contract("vl_set_last_error", args=["error", "message"], ensures=lambda c: [c.ret == c.error])
    return [assumed(x) for x in (fgetc, ungetc, fread, fscanf, err)]


def skip():
    L = {"0": Loop(inv=lambda c: [("range", And(pos(c) >= pos(c.pre), pos(c) <= LEN)), ("characters removed", c.v("count") == pos(c) - pos(c.pre)), ("same line end", EOL(pos(c)) == EOL(pos(c.pre)))], hints=lambda c: lines(pos(c)), dec=lambda c: LEN - pos(c) + 1)}
    rl = Contract("remove_line", args=["f"], params=dict(f="F"), regions={"F": FILE}, requires=okpos, hints=lambda c: lines(pos(c)), modifies=lambda c: [("F", None, None, None)], loops=L,
                  ensures=lambda c: [("stops after the line", pos(c) == EOL(pos(c.pre))), ("range", And(pos(c) >= pos(c.pre), pos(c) <= LEN)), ("characters removed", c.ret == pos(c) - pos(c.pre))])
    L = {"0": Loop(inv=lambda c: [("range", And(pos(c) >= pos(c.pre), pos(c) <= LEN)), ("characters removed", c.v("count") == pos(c) - pos(c.pre)), ("same first character after the blanks", BL(pos(c)) == BL(pos(c.pre)))], hints=lambda c: blanks(pos(c)) + blanks(pos(c) + 1), dec=lambda c: LEN - pos(c) + 1)}
    rb = Contract("remove_blanks", args=["f"], params=dict(f="F"), regions={"F": FILE}, requires=okpos, hints=lambda c: blanks(pos(c)), modifies=lambda c: [("F", None, None, None)], loops=L,
                  ensures=lambda c: [("stops after blanks and comments", pos(c) == BL(pos(c.pre))), ("range", And(pos(c) >= pos(c.pre), pos(c) <= LEN)), ("characters removed", c.ret == pos(c) - pos(c.pre))])
    return [rl, rb]


im = lambda c, n: c.at("I", None, n)
imp = lambda c, n: c.pre.at("I", None, n)
IM = dict(ty="VlPgmImage")


def meta():
    npix = Contract("vl_pgm_get_npixels", args=["im"], params=dict(im="I"), regions={"I": IM}, requires=lambda c: [("sizes", And(im(c, "width") >= 0, im(c, "height") >= 0, im(c, "width") < 2 ** 31, im(c, "height") < 2 ** 31))], ensures=lambda c: [("pixels", c.ret == imp(c, "width") * imp(c, "height"))])
    bpp = Contract("vl_pgm_get_bpp", args=["im"], params=dict(im="I"), regions={"I": IM}, ensures=lambda c: [("bytes per pixel", c.ret == If(imp(c, "max_value") >= 256, 2, 1))])
    p0 = lambda c: pos(c.pre)

    def grammar(c):
        p = p0(c)
        q1 = BL(p + 2)
        n1 = NEXT(q1)
        q2 = BL(n1)
        n2 = NEXT(q2)
        q3 = BL(n2)
        n3 = NEXT(q3)
        return p, q1, n1, q2, n2, q3, n3

    def valid(c):
        p, q1, n1, q2, n2, q3, n3 = grammar(c)
        w, h, m = NUM(q1), NUM(q2), NUM(q3)
        return And(magic(c), q1 > p + 2, NUMOK(q1), q2 > n1, NUMOK(q2), q3 > n2, NUMOK(q3), n3 < LEN, blank(n3), w >= 0, h >= 0, m > 0, m < 65536)
    magic = lambda c: And(LEN - p0(c) >= 2, B(p0(c)) == 80, Or(B(p0(c) + 1) == 50, B(p0(c) + 1) == 53))

    def ens(c):
        p, q1, n1, q2, n2, q3, n3 = grammar(c)
        ok = c.ret == 0
        return [("accepts exactly the valid headers", ok == valid(c)), ("kind of error", Implies(Not(ok), c.ret == If(magic(c), META, HEAD))),
                ("fields", Implies(ok, And(im(c, "width") == NUM(q1), im(c, "height") == NUM(q2), im(c, "max_value") == NUM(q3), (im(c, "is_raw") != 0) == (B(p + 1) == 53)))), ("position after the header", Implies(ok, pos(c) == n3 + 1)), ("range", And(pos(c) >= 0, pos(c) <= LEN))]
    head = Contract("vl_pgm_extract_head", args=["f", "im"], params=dict(f="F", im="I"), regions={"F": FILE, "I": IM}, requires=okpos, modifies=lambda c: [("F", None, None, None), ("I", None, None, None)], hints=lambda c: byte(p0(c)) + byte(p0(c) + 1), ensures=ens)
    return [npix, bpp, head]


W2 = 2 ** 20
N = lambda c: imp(c, "width") * imp(c, "height")
two = lambda c: imp(c, "max_value") >= 256
sizes = lambda c: [("sizes", And(imp(c, "width") >= 0, imp(c, "height") >= 0, imp(c, "width") < W2, imp(c, "height") < W2, N(c) >= 0, N(c) < 2 ** 40))]
nbytes = lambda c: If(two(c), 2 * N(c), N(c))


def raw():
    """binary pixels: read whole, two-byte pixels swapped to the machine's order"""
    d = lambda c, j: c.at("D", j)
    f = lambda c, j: B(pos(c.pre) + j)
    i = lambda c: c.v("i")
    enough = lambda c: LEN - pos(c.pre) >= nbytes(c)
    k = z3.Function("half", INT, INT)
    L = {"0": Loop(inv=lambda c: [("range", And(i(c) >= 0, i(c) <= 2 * N(c), i(c) == 2 * k(i(c)))), ("swapped", Implies(enough(c), forall(lambda j: And(d(c, 2 * j) == f(c, 2 * j + 1), d(c, 2 * j + 1) == f(c, 2 * j)), 0, k(i(c)), pat=lambda j: B(pos(c.pre) + (2 * j))))), ("rest", Implies(enough(c), forall(lambda j: d(c, j) == f(c, j), i(c), 2 * N(c), pat=lambda j: d(c, j))))],
                   hints=lambda c: [k(I(0)) == 0, k(i(c) + 2) == k(i(c)) + 1, f(c, 2 * k(i(c))) == f(c, i(c)), f(c, 2 * k(i(c)) + 1) == f(c, i(c) + 1)], dec=lambda c: 2 * N(c) - i(c))}
    return Contract("vl_pgm_extract_data", args=["f", "im", "data"], params=dict(f="F", im="I", data="D"), regions={"F": FILE, "I": IM, "D": dict(ty="i8", signed=False, count=nbytes)}, known=lambda c: imp(c, "is_raw") != 0, requires=lambda c: okpos(c) + sizes(c), loops=L,
                    modifies=lambda c: [("F", None, None, None), ("D", None, None, None)], ensures=lambda c: [("succeeds if there are enough bytes", (c.ret == 0) == enough(c)), ("kind of error", Or(c.ret == 0, c.ret == DATA)), ("one-byte pixels", Implies(And(c.ret == 0, Not(two(c))), forall(lambda j: d(c, j) == f(c, j), 0, N(c), pat=lambda j: d(c, j)))),
                                       ("two-byte pixels", Implies(And(c.ret == 0, two(c)), forall(lambda j: And(d(c, 2 * j) == f(c, 2 * j + 1), d(c, 2 * j + 1) == f(c, 2 * j)), 0, N(c), pat=lambda j: B(pos(c.pre) + (2 * j)))))])


MISS = z3.Function("some_number_missing", INT, z3.BoolSort())
PX = z3.Function("position_of_number", INT, INT)


def ascii(wide):
    """decimal pixels"""
    d = lambda c, j: c.at("D", j)
    wrap = lambda v: v % (65536 if wide else 256)
    st = lambda c, j: [PX(I(0)) == pos(c.pre), PX(j + 1) == NEXT(PX(j)), Not(MISS(I(0))), MISS(j + 1) == Or(MISS(j), Not(NUMOK(PX(j)))), Implies(And(MISS(j + 1), j + 1 <= N(c)), MISS(N(c)))]
    good = lambda c: c.v("good") != 0
    it = lambda c: c.it
    pre = lambda c, hi: forall(lambda j: And(NUMOK(PX(j)), d(c, j) == wrap(NUM(PX(j)))), 0, hi, pat=lambda j: d(c, j))
    L = {"1": Loop(inv=lambda c: [("range", And(it(c) >= 0, it(c) <= N(c))), ("flag", Or(c.v("good") == 0, c.v("good") == 1)), ("position", And(pos(c) >= 0, pos(c) <= LEN)), ("numbers so far", Implies(good(c), And(pos(c) == PX(it(c)), pre(c, it(c))))), ("or one is missing", Implies(Not(good(c)), MISS(it(c))))], hints=lambda c: st(c, it(c)), dec=lambda c: N(c) - it(c))}
    return Contract("vl_pgm_extract_data", args=["f", "im", "data"], params=dict(f="F", im="I", data="D"), regions={"F": FILE, "I": IM, "D": dict(ty="i16" if wide else "i8", signed=False, count=N)}, known=lambda c: And(imp(c, "is_raw") == 0, two(c) if wide else Not(two(c))), requires=lambda c: okpos(c) + sizes(c), loops=L,
                    modifies=lambda c: [("F", None, None, None), ("D", None, None, None)], ensures=lambda c: [("kind of error", Or(c.ret == 0, c.ret == DATA)), ("the declared number of pixels", Implies(c.ret == 0, pre(c, N(c)))), ("fails only when one is missing", Implies(c.ret != 0, MISS(N(c))))])


OUT = z3.Function("byte_to_write", INT, INT)
OW, OH, OM, OL = G("width_to_write"), G("height_to_write"), G("maximum_to_write"), G("bytes_to_write")


def insert():
    nb = lambda c: If(c.size == 1, c.nmemb, 2 * c.nmemb)
    fwrite = Contract("fwrite", args=["ptr", "size", "nmemb", "stream"], params=dict(ptr="P"), regions={"P": dict(ty="i8", count=nb)}, requires=lambda c: [("writes the pixels", And(Or(c.size == 1, c.size == 2), nb(c) == OL)), ("pixels in file order", forall(lambda j: c.at("P", j) == OUT(j), 0, nb(c), pat=lambda j: c.at("P", j)))], ensures=lambda c: [And(c.ret >= 0, c.ret <= c.nmemb)])
    fprintf = Contract("fprintf", args=["stream", "format", "width", "height", "max_value"], requires=lambda c: [("header fields in order", And(c.width == OW, c.height == OH, c.max_value == OM))])
    d = lambda c, j: c.pre.at("D", j)
    i = lambda c: c.v("i")
    k = z3.Function("half", INT, INT)

    def defs(c):
        j = z3.Int("j!o")
        return [OW == imp(c, "width"), OH == imp(c, "height"), OM == imp(c, "max_value"), OL == nbytes(c), z3.ForAll([j], Implies(And(j >= 0, Not(two(c))), OUT(j) == d(c, j)), patterns=[OUT(j)]), Implies(two(c), z3.ForAll([j], OUT(j) == If(j % 2 == 0, d(c, j + 1), d(c, j - 1)), patterns=[OUT(j)]))]
    t = lambda c, j: c.heap(0, j)
    L = {"0": Loop(inv=lambda c: [("range", And(i(c) >= 0, i(c) <= 2 * N(c), i(c) == 2 * k(i(c)))), ("swapped", forall(lambda j: t(c, j) == OUT(j), 0, i(c), pat=lambda j: t(c, j))), ("rest", forall(lambda j: t(c, j) == d(c, j), i(c), 2 * N(c), pat=lambda j: t(c, j)))],
                   hints=lambda c: [k(I(0)) == 0, k(i(c) + 2) == k(i(c)) + 1, OUT(i(c)) == OUT(i(c)), OUT(i(c) + 1) == OUT(i(c) + 1)], dec=lambda c: 2 * N(c) - i(c))}
    ins = Contract("vl_pgm_insert", args=["f", "im", "data"], params=dict(im="I", data="D"), regions={"I": IM, "D": dict(ty="i8", signed=True, count=nbytes)}, heap_types=("i8",), requires=lambda c: sizes(c) + [("depth", And(imp(c, "max_value") >= 0, imp(c, "max_value") < 65536))], hints=defs, loops=L, ensures=lambda c: [("result", Or(c.ret == 0, c.ret == IO))])
    return [assumed(fwrite), assumed(fprintf), ins]


S, SS = stdio(False), stdio(True)
UNITS = [Unit("vl/pgm.c", SS + skip() + meta()), Unit("vl/pgm.c", S + [raw()]), Unit("vl/pgm.c", S + [ascii(False)]), Unit("vl/pgm.c", S + [ascii(True)]), Unit("vl/pgm.c", [S[-1]] + insert())]
PROP = Prop("P23", units=UNITS, oracles=[Oracle("pgm.c", what="random and malformed files against a reference reader; images written and read back", always=True, iters=(3000, 60000))], bounded=["vl_pgm_read_new, vl_pgm_read_new_f, vl_pgm_write, vl_pgm_write_f: random files against a reference reader and round trips"])
