from vcg.spec import *

PINF = z3.Real("fpconst_pinf")
LOG, EXP = z3.Function("log", REAL, REAL), z3.Function("exp", REAL, REAL)
HALF = z3.Q(1, 2)
mx = lambda a, b: If(a >= b, a, b)
mn = lambda a, b: If(a <= b, a, b)
sgn = lambda c: Or(c.label == 1, c.label == -1)
SIGN = lambda c: [("label is 1 or -1", sgn(c))]
R0 = z3.RealVal(0)


def scalar_losses():
    """every loss, its derivative, its conjugate and its dual coordinate update"""
    out = []
    z = z3.Real("z!s")
    loss = dict(hinge=lambda z, y: mx(1 - y * z, R0), hinge2=lambda z, y: mx(1 - y * z, R0) * mx(1 - y * z, R0), l1=lambda z, y: mx(y - z, z - y), l2=lambda z, y: (y - z) * (y - z))
    # conjugate: value where it is finite
    dom = dict(hinge=lambda u, y: And(y * u >= -1, y * u <= 0), hinge2=lambda u, y: y * u <= 0, l1=lambda u, y: And(u >= -1, u <= 1), l2=lambda u, y: z3.BoolVal(True))
    val = dict(hinge=lambda u, y: y * u, hinge2=lambda u, y: y * u + u * u / 4, l1=lambda u, y: y * u, l2=lambda u, y: y * u + u * u / 4)
    # a point at which the supremum of u z - loss(z) is attained
    arg = dict(hinge=lambda u, y: y, hinge2=lambda u, y: y + u / 2, l1=lambda u, y: y, l2=lambda u, y: y + u / 2)
    for n in loss:
        l, D, V, A = loss[n], dom[n], val[n], arg[n]
        req = SIGN if n.startswith("hinge") else (lambda c: [])
        w = z3.Real("w!s")
        out.append(Contract("vl_svm_%s_loss" % n, args=["inner", "label"], requires=req, ensures=lambda c, l=l: [("loss", c.ret == l(c.inner, c.label))]))
        out.append(Contract("vl_svm_%s_loss_derivative" % n, args=["inner", "label"], requires=req, ensures=lambda c, l=l: [("slope of a supporting line", z3.ForAll([w], l(w, c.label) >= l(c.inner, c.label) + c.ret * (w - c.inner)))]))
        out.append(Contract("vl_svm_%s_conjugate_loss" % n, args=["u", "label"], requires=req,
                            ensures=lambda c, l=l, D=D, V=V, A=A: [("infinite outside its domain", Implies(Not(D(c.u, c.label)), c.ret == PINF)), ("formula", Implies(D(c.u, c.label), c.ret == V(c.u, c.label))),
                                                                  ("upper bound of u z - loss(z)", Implies(D(c.u, c.label), z3.ForAll([w], c.u * w - l(w, c.label) <= c.ret))), ("attained", Implies(D(c.u, c.label), c.u * A(c.u, c.label) - l(A(c.u, c.label), c.label) == c.ret))]))
        dual = lambda c, d, V=V: -c.norm2 * d * d / 2 - c.inner * d - V(-c.alpha - d, c.label)
        out.append(Contract("vl_svm_%s_dca_update" % n, args=["alpha", "inner", "norm2", "label"],
                            requires=lambda c, req=req, D=D, n=n: req(c) + [("squared norm", c.norm2 > 0)] + ([("dual variable in its domain", D(-c.alpha, c.label))] if n == "l1" else []),
                            ensures=lambda c, D=D, dual=dual: [("dual variable stays in the domain", D(-c.alpha - c.ret, c.label)), ("maximises the dual along the coordinate", z3.ForAll([w], Implies(D(-c.alpha - w, c.label), dual(c, w) <= dual(c, c.ret))))]))
    return out


def logistic():
    Z = lambda c: c.label * c.inner
    laws = lambda *zs: sum([[EXP(z) > 0, EXP(-z) > 0, EXP(z) * EXP(-z) == 1] for z in zs], []) + [LOG(z3.RealVal(1)) == 0]
    # log(e^z + 1) = z + log(1 + e^-z)
    shift = lambda z: [LOG(EXP(z) + 1) == z + LOG(1 + EXP(-z))]
    xlx = lambda x: If(x <= z3.Q(*(1e-10).as_integer_ratio()), R0, x * LOG(x))
    eps = z3.Q(1, 2 ** 52)
    DER = lambda c, b: c.norm2 * b + c.label * (c.inner - c.norm2 * c.alpha) + (LOG(b) - LOG(1 - b))
    b, b1, b2 = (lambda c: c.v("beta")), (lambda c: c.v("beta1")), (lambda c: c.v("beta2"))
    P2 = z3.Function("halvings", INT, REAL)
    L = {"0": Loop(inv=lambda c: [("range", And(c.it >= 0, c.it <= 5)), ("bracket", And(b1(c) >= 0, b2(c) <= 1, b2(c) - b1(c) == P2(c.it), b(c) == (b1(c) + b2(c)) / 2)), ("the derivative changes sign in the bracket", And(Or(b1(c) == 0, And(b1(c) < 1, DER(c, b1(c)) < 0)), Or(b2(c) == 1, And(b2(c) > 0, DER(c, b2(c)) >= 0))))],
                   hints=lambda c: [P2(k) == z3.Q(1, 2 ** k) for k in range(7)] + [P2(c.it + 1) == P2(c.it) / 2, P2(c.it) > 0], dec=lambda c: 5 - c.it),
         "1": Loop(inv=lambda c: [("range", And(c.it >= 0, c.it <= 2)), ("in the domain", And(b(c) >= 0, b(c) <= 1))], dec=lambda c: 2 - c.it)}
    return [Contract("vl_svm_logistic_loss", args=["inner", "label"], hints=lambda c: laws(Z(c)) + shift(Z(c)), ensures=lambda c: [("loss", c.ret == LOG(1 + EXP(-Z(c))))]),
            Contract("vl_svm_logistic_loss_derivative", args=["inner", "label"], hints=lambda c: laws(Z(c)), ensures=lambda c: [("derivative", c.ret * (1 + EXP(-Z(c))) == -c.label * EXP(-Z(c)))]),
            Contract("vl_svm_logistic_conjugate_loss", args=["u", "label"], requires=SIGN, ensures=lambda c: [("infinite outside its domain", Implies(Or(c.label * c.u < -1, c.label * c.u > 0), c.ret == PINF)), ("entropy inside", Implies(And(c.label * c.u >= -1, c.label * c.u <= 0), c.ret == xlx(-c.label * c.u) + xlx(1 + c.label * c.u)))]),
            Contract("vl_svm_logistic_dca_update", args=["alpha", "inner", "norm2", "label"], requires=lambda c: SIGN(c) + [("squared norm", c.norm2 > 0)], loops=L, ensures=lambda c: [("dual variable stays in the domain", And(c.label * (c.alpha + c.ret) >= 0, c.label * (c.alpha + c.ret) <= 1))])]


APP, INN = z3.Function("apply", INT, REAL, REAL, REAL), z3.Function("inner_product_with_model", INT, REAL)
REGS, LOSSES, DUALS = (z3.Function(n, INT, REAL) for n in ("squared_norm_partial", "loss_partial", "dual_partial"))
NOW = z3.Bool("no_weights")
SDCA = 2


def statistics():
    f = lambda c, *n: c.pre.at("S", None, *n)
    fn = lambda c, n: f(c, n).alts[0][1].x
    now = lambda c, n: c.at("S", None, "statistics", n)
    p = lambda c, k: If(NOW, z3.RealVal(1), c.pre.at("W", k))
    sc = lambda c, k: INN(k) + f(c, "bias") * f(c, "biasMultiplier")
    y = lambda c, k: c.pre.at("Y", k)
    sdca = lambda c: f(c, "solver") == SDCA

    def call(e, pv, args, i):
        x = pv.alts[0][1].x
        c = e.prectx
        if len(args) == 3:
            e.oblige("call", "calls the inner product of the data", e.guard, And(len(pv.alts) == 1, x == fn(c, "innerProductFn")))
            m = e.single(args[2])
            e.oblige("call", "with the model", e.guard, And(m.region.name == "M", m.idx == 0))
            return INN(args[1].e)
        return APP(x, args[0], args[1])

    def steps(c, k):
        l = p(c, k) * APP(fn(c, "lossFn"), sc(c, k), y(c, k))
        d = p(c, k) * APP(fn(c, "conjugateLossFn"), -c.pre.at("A", k) / p(c, k), y(c, k))
        return [LOSSES(I(0)) == 0, DUALS(I(0)) == 0, LOSSES(k + 1) == If(p(c, k) <= 0, LOSSES(k), LOSSES(k) + l), DUALS(k + 1) == If(p(c, k) <= 0, DUALS(k), DUALS(k) - d)]
    regs = lambda c, i: [REGS(I(0)) == f(c, "bias") * f(c, "bias"), REGS(i + 1) == REGS(i) + c.pre.at("M", i) * c.pre.at("M", i)]
    N, D = (lambda c: f(c, "numData")), (lambda c: f(c, "dimension"))
    reg = lambda c: f(c, "lambda") * HALF * REGS(D(c))
    scores = lambda c, hi: ("scores", forall(lambda k: Implies(p(c, k) > 0, c.at("SC", k) == sc(c, k)), 0, hi, pat=lambda k: c.at("SC", k)))
    L = {"0": Loop(inv=lambda c: [("range", c.it <= D(c)), ("partial squared norm", now(c, "regularizer") == REGS(c.it))], hints=lambda c: regs(c, c.it), dec=lambda c: D(c) - c.it),
         "1": Loop(inv=lambda c: [("range", c.it <= N(c)), ("partial loss", now(c, "loss") == LOSSES(c.it)), ("partial dual loss", now(c, "dualLoss") == If(sdca(c), DUALS(c.it), R0)), ("regularizer", now(c, "regularizer") == reg(c)), scores(c, c.it)], hints=lambda c: steps(c, c.it), dec=lambda c: N(c) - c.it)}
    nn = lambda c: z3.ToReal(N(c))
    return Contract("_vl_svm_update_statistics", args=["self"], params=dict(self="S"), indirect=call,
                    regions={"S": dict(ty="VlSvm_", links={"model": "M", "labels": "Y", "weights": ("W", NOW), "scores": "SC", "alpha": "A"}), "M": dict(ty="double", count=D), "Y": dict(ty="double", count=N), "W": dict(ty="double", count=N), "SC": dict(ty="double", count=N), "A": dict(ty="double", count=N)},
                    requires=lambda c: [("sizes", And(N(c) >= 1, N(c) < 2 ** 40, D(c) >= 0, D(c) < 2 ** 40))], modifies=lambda c: [("S", ("statistics",), None, None), ("SC", None, None, None)],
                    ensures=lambda c: [("regularizer", now(c, "regularizer") == reg(c)), ("loss", now(c, "loss") * nn(c) == LOSSES(N(c))), ("objective", now(c, "objective") == now(c, "regularizer") + now(c, "loss")), ("dual loss", Implies(sdca(c), now(c, "dualLoss") * nn(c) == DUALS(N(c)))),
                                       ("dual objective", Implies(sdca(c), now(c, "dualObjective") == now(c, "dualLoss") - reg(c))), ("duality gap", Implies(sdca(c), now(c, "dualityGap") == now(c, "objective") - now(c, "dualObjective"))), scores(c, N(c))], loops=L)


LOSSES_ = ["hinge", "hinge2", "l1", "l2", "logistic"]


def setters():
    f = lambda c, n: c.at("S", None, n)
    g = lambda c, n: c.pre.at("S", None, n)
    FIELDS = dict(lossFn="loss", lossDerivativeFn="loss_derivative", conjugateLossFn="conjugate_loss", dcaUpdateFn="dca_update")
    reg = {"S": dict(ty="VlSvm_", links={"model": "M"}), "M": dict(ty="double", count=lambda c: g(c, "dimension"))}
    sl = Contract("vl_svm_set_loss", args=["self", "loss"], params=dict(self="S"), regions={"S": dict(ty="VlSvm_")}, requires=lambda c: [("a known loss", And(c.loss >= 0, c.loss <= 4))], modifies=lambda c: [("S", (n,), None, None) for n in FIELDS],
                  ensures=lambda c: [("%s of %s" % (FIELDS[n], l), Implies(c.loss == k, is_fn(f(c, n), "vl_svm_%s_%s" % (l, FIELDS[n])))) for k, l in enumerate(LOSSES_) for n in FIELDS])
    sb = Contract("vl_svm_set_bias", args=["self", "b"], params=dict(self="S"), regions={"S": dict(ty="VlSvm_")}, modifies=lambda c: [("S", ("bias",), None, None)],
                  ensures=lambda c: [("bias", If(g(c, "biasMultiplier") == 0, f(c, "bias") == g(c, "bias"), f(c, "bias") * g(c, "biasMultiplier") == c.b))])
    gb = Contract("vl_svm_get_bias", args=["self"], params=dict(self="S"), regions={"S": dict(ty="VlSvm_")}, ensures=lambda c: [("bias", c.ret == g(c, "bias") * g(c, "biasMultiplier"))])
    return [sl, sb, gb]


DOT = z3.Function("dot_product_partial", INT, REAL)
PROD = z3.Function("product", REAL, REAL, REAL)


def dataset(sfx, ty):
    f = lambda c, n: c.pre.at("S", None, n)
    D = lambda c: f(c, "dimension")
    row = Row("elements", D)
    el = lambda c: row(c.element)
    x = lambda c, j: c.pre.at("X", el(c) + j)
    k = lambda c: c.v("data") - el(c)
    reg = {"S": dict(ty="VlSvmDataset_", links={"data": "X"}), "X": dict(ty=ty, count=lambda c: row(f(c, "numData"))), "M": dict(ty="double", count=D)}
    req = lambda c: [("sizes", And(D(c) >= 0, D(c) < 2 ** 31, f(c, "numData") >= 0, f(c, "numData") < 2 ** 28, c.element >= 0, c.element < f(c, "numData")))]
    hint = lambda c: row.axioms(c, c.element, f(c, "numData")) + row.at(c, c.element)
    step = lambda c, j: [DOT(I(0)) == 0, DOT(j + 1) == DOT(j) + PROD(x(c, j), c.pre.at("M", j))]
    rng = lambda c: ("range", And(k(c) >= 0, k(c) <= D(c), c.v("model") == k(c)))
    inner = Contract("_vl_svmdataset_inner_product_" + sfx, args=["self", "element", "model"], params=dict(self="S", model="M"), regions=reg, requires=req, hints=hint, ensures=lambda c: [("inner product", c.ret == DOT(D(c)))],
                     loops={"0": Loop(inv=lambda c: [rng(c), ("partial sum", c.v("product") == DOT(k(c)))], hints=lambda c: step(c, k(c)), dec=lambda c: D(c) - k(c))})
    upd = lambda c, lo, hi: ("scaled element added", forall(lambda j: c.at("M", j) == c.pre.at("M", j) + PROD(x(c, j), c.multiplier), lo, hi, pat=lambda j: c.at("M", j)))
    same = lambda c, lo, hi: ("rest unchanged", forall(lambda j: c.at("M", j) == c.pre.at("M", j), lo, hi, pat=lambda j: c.at("M", j)))
    acc = Contract("vl_svmdataset_accumulate_" + sfx, args=["self", "element", "model", "multiplier"], params=dict(self="S", model="M"), regions=reg, requires=req, hints=hint, modifies=lambda c: [("M", None, None, None)], ensures=lambda c: [upd(c, 0, D(c))],
                   loops={"0": Loop(inv=lambda c: [rng(c), upd(c, 0, k(c)), same(c, k(c), D(c))], dec=lambda c: D(c) - k(c))})
    return [inner, acc]


UNITS = [Unit("vl/svm.c", scalar_losses() + logistic() + [statistics()] + setters(), fp="real"), Unit("vl/svmdataset.c", dataset("f", "float") + dataset("d", "double"), fp="real", axioms=("absmul",))]
PROP = Prop("P21", units=UNITS, oracles=[Oracle("svm.c", exclude=["vl/svm.c"], what="random losses and updates against the formulas; small problems trained by both solvers against a dense reference", always=True, iters=(60000, 600000))], bounded=["vl_svm_train (both solvers), vl_svmdataset with a homogeneous kernel map: random small problems against a dense reference"])
