from vcg.sorts import *

plain = qsort_contracts("vq", {"A": dict(ty="float", count=lambda c: CAP)}, "A", lambda c, i: c.eng.fp.rk(c.at("A", i)), lambda c, x: c.eng.fp.finite(x))

M = G("numIntensities")


def liop(prefix, P, V):
    reg = {"L": dict(ty="VlLiopDesc", links={P: "P", V: "V"}), "P": dict(ty="i64", count=lambda c: CAP, signed=False), "V": dict(ty="float", count=lambda c: M)}
    return qsort_contracts(prefix, reg, "P", lambda c, i: c.eng.fp.rk(c.at("V", c.at("P", i))), lambda c, x: And(x >= 0, x < M, M < 2 ** 60), arr_region="L",
                           extra=lambda c: [("finite intensities", forall(lambda i: c.eng.fp.finite(c.at("V", i)), 0, M, pat=lambda i: c.at("V", i)))])


ND = G("numCoordinates")


def kmeans(sfx, ty):
    reg = {"W": dict(ty="VlKMeansSortWrapper", links={"permutation": "P", "data": "D"}), "P": dict(ty="i32", count=lambda c: CAP, signed=False), "D": dict(ty=ty, count=lambda c: ND)}
    KV = z3.Function("coordinate_" + sfx, INT, REAL)   # names the coordinate of point x (definition in `ok`)
    pos = lambda c, x: x * c.at("W", None, "stride")
    return qsort_contracts("_vl_kmeans_%s_qsort" % sfx, reg, "P", lambda c, i: KV(c.at("P", i)), lambda c, x: And(pos(c, x) >= 0, pos(c, x) < ND, KV(x) == c.eng.fp.rk(c.at("D", pos(c, x)))), arr_region="W",
                           extra=lambda c: [("finite coordinates", forall(lambda i: c.eng.fp.finite(c.at("D", i)), 0, ND, pat=lambda i: c.at("D", i)))])


PROP = Prop("P03", units=[Unit("inst/qsort.c", plain, axioms=("subsign",)), Unit("vl/liop.c", liop("patch", "patchPermutation", "patchIntensities") + liop("neigh", "neighPermutation", "neighIntensities"), axioms=("subsign",)),
                          Unit("vl/kmeans.c", kmeans("f", "float") + kmeans("d", "double"), axioms=("subsign",))],
    oracles=[Oracle("qsort.c", exclude=["vl/liop.c", "vl/kmeans.c"], what="random arrays with ties; order and multiset checked")])
