from vcg.spec import *

SLASH, BSL, DOT = 47, 92, 46


def slash(x):
    return z3.Or(x == SLASH, x == BSL)


N = G("srclen")


def cstr(c, r, n):
    """r[0..n) is non-zero and r[n] is the terminator"""
    return [("%s length" % r, n >= 0), ("%s terminated" % r, c.at(r, n) == 0),
            ("%s no early terminator" % r, forall(lambda i: c.at(r, i) != 0, 0, n, pat=lambda i: c.at(r, i)))]


def null0(c):
    return ("null destination has size 0", Implies(c.destination_null, c.destinationSize == 0))


def copied(c, k, off=0):
    return Implies(Not(c.destination_null), forall(lambda i: c.at("dst", i) == c.pre.at("src", i + off), 0, Min(k, c.destinationSize - 1), pat=lambda i: c.at("dst", i)))


def term(c):
    return ("destination is terminated at min(length, size-1)", Implies(c.destinationSize > 0, c.at("dst", Min(c.ret, c.destinationSize - 1)) == 0))


copy = Contract(
    "vl_string_copy", args=["destination", "destinationSize", "source"], params={"destination": "dst", "source": "src"}, nullable=("destination",),
    regions={"dst": dict(ty="i8", count=lambda c: c.destinationSize), "src": dict(ty="i8", count=lambda c: N + 1)},
    requires=lambda c: cstr(c, "src", N) + [null0(c)],
    modifies=lambda c: [("dst", None, I(0), c.destinationSize)],
    ensures=lambda c: [("returns the untruncated length", c.ret == N), term(c), ("copies min(length,size-1) characters", copied(c, c.ret))],
    loops={"0": Loop(inv=lambda c: [("range", And(c.v("k") >= 0, c.v("k") <= N)), ("cursor", c.v("source") == c.v("k")), ("copied", copied(c, c.v("k")))],
                     dec=lambda c: N - c.v("k"))})

copy_sub = Contract(
    "vl_string_copy_sub", args=["destination", "destinationSize", "beginning", "end"],
    params={"destination": "dst", "beginning": "src", "end": "src"}, nullable=("destination",), offsets={"end": "endoff"},
    regions={"dst": dict(ty="i8", count=lambda c: c.destinationSize), "src": dict(ty="i8", count=lambda c: Max(c.endoff, 0))},
    requires=lambda c: [null0(c), ("size", c.endoff <= 2 ** 47)],
    modifies=lambda c: [("dst", None, I(0), c.destinationSize)],
    ensures=lambda c: [("length is up to end or NUL", And(c.ret >= 0, c.ret <= Max(c.endoff, 0), Implies(c.ret < c.endoff, c.pre.at("src", c.ret) == 0))),
                       ("no NUL before the end", forall(lambda i: c.pre.at("src", i) != 0, 0, c.ret, pat=lambda i: c.pre.at("src", i))),
                       term(c), ("copies min(length,size-1) characters", copied(c, c.ret))],
    loops={"0": Loop(inv=lambda c: [("range", And(c.v("k") >= 0, c.v("k") <= Max(c.endoff, 0))), ("cursor", c.v("beginning") == c.v("k")), ("copied", copied(c, c.v("k"))),
                                    ("nonzero", forall(lambda i: c.pre.at("src", i) != 0, 0, c.v("k"), pat=lambda i: c.pre.at("src", i)))],
                     dec=lambda c: Max(c.endoff, 0) - c.v("k"))})

length = Contract(
    "vl_string_length", args=["string"], params={"string": "src"}, regions={"src": dict(ty="i8", count=lambda c: N + 1)},
    requires=lambda c: cstr(c, "src", N), ensures=lambda c: [("is the number of characters before the terminator", c.ret == N)],
    loops={"0": Loop(inv=lambda c: [("range", And(c.v("i") >= 0, c.v("i") <= N))], dec=lambda c: N - c.v("i"))})

find_rev = Contract(
    "vl_string_find_char_rev", args=["beginning", "end", "c"], params={"beginning": "src", "end": "src"}, offsets={"end": "endoff"},
    regions={"src": dict(ty="i8", count=lambda c: c.endoff)}, requires=lambda c: [("order", And(c.endoff >= 0, c.endoff <= 2 ** 47))],
    ensures=lambda c: [("NULL iff absent", Implies(ret_null(c), forall(lambda i: c.at("src", i) != c.c, 0, c.endoff))),
                       ("last occurrence", Implies(Not(ret_null(c)), And(ret_idx(c) >= 0, ret_idx(c) < c.endoff, c.at("src", ret_idx(c)) == c.c,
                                                                        forall(lambda i: c.at("src", i) != c.c, ret_idx(c) + 1, c.endoff, pat=lambda i: c.at("src", i)))))],
    loops={"0": Loop(inv=lambda c: [("range", And(c.v("end") >= 0, c.v("end") <= c.endoff)),
                                    ("none behind", forall(lambda i: c.at("src", i) != c.c, c.v("end"), c.endoff, pat=lambda i: c.at("src", i)))],
                     dec=lambda c: c.v("end"))})

dots = z3.Function("dots", INT, INT)   # number of '.' in src[i..srclen)


def dots_def(c, k):
    return dots(k) == z3.If(k >= N, 0, dots(k + 1) + z3.If(c.pre.at("src", k) == DOT, 1, 0))


def base_ok(c, b):
    return And(b >= 0, b <= N, z3.Or(b == 0, slash(c.pre.at("src", b - 1))), forall(lambda i: Not(slash(c.pre.at("src", i))), b, N, pat=lambda i: c.pre.at("src", i)))


basename = Contract(
    "vl_string_basename", args=["destination", "destinationSize", "source", "maxNumStrippedExtensions"],
    params={"destination": "dst", "source": "src"}, nullable=("destination",),
    regions={"dst": dict(ty="i8", count=lambda c: c.destinationSize), "src": dict(ty="i8", count=lambda c: N + 1)},
    requires=lambda c: cstr(c, "src", N) + [null0(c)],
    hints=lambda c: [dots_def(c, N)],
    modifies=lambda c: [("dst", None, I(0), c.destinationSize)],
    ensures=lambda c: [
        ("result is source[b,e): b follows the last slash, e drops min(max, #dots) extensions", z3.Exists([z3.Int("b"), z3.Int("e")], (lambda b, e: And(
            base_ok(c, b), e >= b, e <= N, z3.Or(e == N, c.pre.at("src", e) == DOT),
            dots(e) == Min(c.maxNumStrippedExtensions, dots(b)), c.ret == e - b, copied(c, c.ret, b)))(z3.Int("b"), z3.Int("e")))), term(c)],
    loops={"0": Loop(inv=lambda c: [("range", And(c.v("k") >= 0, c.v("k") <= N)), ("beg", And(c.v("beg") >= 0, c.v("beg") <= c.v("k"), z3.Or(c.v("beg") == 0, slash(c.at("src", c.v("beg") - 1))))),
                                    ("no slash after beg", forall(lambda i: Not(slash(c.at("src", i))), c.v("beg"), c.v("k"), pat=lambda i: c.at("src", i)))],
                     dec=lambda c: N - c.v("k")),
           "1": Loop(inv=lambda c: [("range", And(c.v("k") >= c.v("beg"), c.v("k") <= N)), ("end", And(c.v("end") >= c.v("k"), c.v("end") <= N, z3.Or(c.v("end") == N, c.at("src", c.v("end")) == DOT))),
                                    ("budget", And(c.v("maxNumStrippedExtensions") >= 0, dots(c.v("end")) + c.v("maxNumStrippedExtensions") == c.maxNumStrippedExtensions)),
                                    ("count", And(dots(c.v("k")) >= dots(c.v("end")), Implies(c.v("maxNumStrippedExtensions") > 0, dots(c.v("k")) == dots(c.v("end")))))],
                     hints=lambda c: [dots_def(c, c.v("k") - 1), dots_def(c, c.v("k"))], dec=lambda c: c.v("k") - c.v("beg"))})

# wildcard replacement: transducer reading src[i]; OL(i), OE(i): output length and escape flag before character i
R = G("repllen")
OL = z3.Function("outlen", INT, INT)
OE = z3.Function("escaped", INT, BOOL)


def is_esc(c, i):
    return And(Not(OE(i)), c.pre.at("src", i) == c.escapeChar)


def is_wild(c, i):
    return And(Not(OE(i)), c.pre.at("src", i) != c.escapeChar, c.pre.at("src", i) == c.wildcardChar)


def emitted(c, i):
    return z3.If(is_esc(c, i), 0, z3.If(is_wild(c, i), R, 1))


def tr_def(c, i):
    return And(OL(i + 1) == OL(i) + emitted(c, i), OE(i + 1) == is_esc(c, i))


def wild_content(c, i, upto, k):
    """output of characters before i is in place, all of it below k"""
    room = c.destinationSize - 1
    return [("content", Implies(Not(c.destination_null), forall(lambda j: And(
        Implies(And(Not(is_esc(c, j)), Not(is_wild(c, j)), OL(j) < room), c.at("dst", OL(j)) == c.pre.at("src", j)),
        Implies(is_wild(c, j), forall(lambda t: Implies(OL(j) + t < room, c.at("dst", OL(j) + t) == c.pre.at("repl", t)), 0, R, pat=lambda t: c.pre.at("repl", t)))), 0, i, pat=lambda j: OL(j))))]


def wild_below(c, i, k):
    return ("ordered", forall(lambda j: And(OL(j) >= 0, OL(j) + emitted(c, j) <= k), 0, i, pat=lambda j: OL(j)))


def wild_cur(c):
    return c.v("source")


wildcard = Contract(
    "vl_string_replace_wildcard", args=["destination", "destinationSize", "source", "wildcardChar", "escapeChar", "replacement"],
    params={"destination": "dst", "source": "src", "replacement": "repl"}, nullable=("destination",),
    regions={"dst": dict(ty="i8", count=lambda c: c.destinationSize), "src": dict(ty="i8", count=lambda c: N + 1), "repl": dict(ty="i8", count=lambda c: R + 1)},
    requires=lambda c: cstr(c, "src", N) + cstr(c, "repl", R) + [null0(c), ("output length representable", forall(lambda i: And(OL(i) >= 0, OL(i) <= 2 ** 60), 0, N + 1, pat=lambda i: OL(i)))],
    hints=lambda c: [OL(0) == 0, Not(OE(0))],
    modifies=lambda c: [("dst", None, I(0), c.destinationSize)],
    ensures=lambda c: [("returns the untruncated length", c.ret == OL(N)), term(c)] + wild_content(c, N, None, c.ret),
    loops={"0": Loop(inv=lambda c: [("cursor", And(c.v("source") >= 0, c.v("source") <= N)), ("length", And(c.v("k") == OL(c.v("source")), c.v("k") >= 0)),
                                    ("escape", And(z3.Or(c.v("escape") == 0, c.v("escape") == 1), (c.v("escape") != 0) == OE(c.v("source")))),
                                    wild_below(c, c.v("source"), c.v("k"))] + wild_content(c, c.v("source"), None, c.v("k")),
                     hints=lambda c: [tr_def(c, c.v("source"))], dec=lambda c: N - c.v("source")),
           "0.0": Loop(inv=lambda c: [("cursor", And(c.v("repl") >= 0, c.v("repl") <= R)), ("length", c.v("k") == OL(wild_out(c)) + c.v("repl"))] +
                       [("inner content", Implies(Not(c.destination_null), forall(lambda t: Implies(OL(wild_out(c)) + t < c.destinationSize - 1, c.at("dst", OL(wild_out(c)) + t) == c.pre.at("repl", t)),
                                                                                   0, c.v("repl"), pat=lambda t: c.pre.at("repl", t))))] + wild_content(c, wild_out(c), None, c.v("k")),
                       dec=lambda c: R - c.v("repl"))})


def wild_out(c):
    return c.v("source")


N2 = G("len2")


def lower(x):
    u = z3.If(x < 0, x + 256, x)
    return z3.If(And(u >= 65, u <= 90), u + 32, u)


casei = Contract(
    "vl_string_casei_cmp", args=["string1", "string2"], params={"string1": "s1", "string2": "s2"},
    regions={"s1": dict(ty="i8", count=lambda c: N + 1), "s2": dict(ty="i8", count=lambda c: N2 + 1)},
    requires=lambda c: cstr(c, "s1", N) + cstr(c, "s2", N2),
    ensures=lambda c: [("difference at the first case-insensitive mismatch (0: equal)", exists(lambda k: And(
        forall(lambda i: And(lower(c.at("s1", i)) == lower(c.at("s2", i)), c.at("s1", i) != 0), 0, k),
        c.ret == lower(c.at("s1", k)) - lower(c.at("s2", k)), z3.Or(c.ret != 0, c.at("s1", k) == 0)), 0, N + 1))],
    loops={"0": Loop(inv=lambda c: [("cursors", And(c.v("string1") == c.v("string2"), c.v("string1") >= 0, c.v("string1") <= N, c.v("string1") <= N2)),
                                    ("equal so far", forall(lambda i: And(lower(c.at("s1", i)) == lower(c.at("s2", i)), c.at("s1", i) != 0), 0, c.v("string1")))],
                     dec=lambda c: N - c.v("string1"))})

NE = G("numEnum")
streq = z3.Function("names_equal", INT, INT, INT)


def h_cmp(e, args, i):
    e.assumed.add("strcmp/vl_string_casei_cmp in enumeration lookups: a function of its arguments")
    r = streq(e.ptr_id(args[0]), e.ptr_id(args[1]))
    e.range_fact(r, -(1 << 31), (1 << 31) - 1)
    return IV(32, r, -(1 << 31), (1 << 31) - 1)


def name_id(c, i):
    return c.eng.ptr_id(c.at("en", i, "name"))


def enum_contract(fn, args, match):
    return Contract(
        fn, args=args, params={"enumeration": "en"}, regions={"en": dict(ty="VlEnumerator", count=lambda c: NE + 1)}, calls={"strcmp": h_cmp, "vl_string_casei_cmp": h_cmp},
        requires=lambda c: [("terminated table", And(NE >= 0, name_id(c, NE) == 0, forall(lambda i: name_id(c, i) != 0, 0, NE, pat=lambda i: name_id(c, i))))],
        ensures=lambda c: [("NULL iff no entry matches", Implies(ret_null(c), forall(lambda i: Not(match(c, i)), 0, NE))),
                           ("first matching entry", Implies(Not(ret_null(c)), And(ret_idx(c) >= 0, ret_idx(c) < NE, match(c, ret_idx(c)), forall(lambda i: Not(match(c, i)), 0, ret_idx(c)))))],
        loops={"0": Loop(inv=lambda c: [("range", And(c.v("enumeration") >= 0, c.v("enumeration") <= NE)), ("none before", forall(lambda i: Not(match(c, i)), 0, c.v("enumeration")))],
                         dec=lambda c: NE - c.v("enumeration"))})


def named(c, i):
    return streq(c.eng.ptr_id(c.arg("name")), name_id(c, i)) == 0


PROP = Prop("P01", units=[Unit("vl/stringop.c", [
    copy, copy_sub, length, find_rev, basename, wildcard, casei,
    enum_contract("vl_enumeration_get", ["enumeration", "name"], named), enum_contract("vl_enumeration_get_casei", ["enumeration", "name"], named),
    enum_contract("vl_enumeration_get_by_value", ["enumeration", "value"], lambda c, i: c.at("en", i, "value") == c.value)])],
    oracles=[Oracle("stringop.c", sources=["vl/stringop.c"], what="reference string functions on short strings over a small alphabet")])
