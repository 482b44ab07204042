"""M01-M07: models (pysgmcmc/models/*.py)."""
import z3
from pyvc import alg
from pyvc.values import *
from pyvc.core import PyExc, Unsupported, PathEnd
from pyvc.spec import Case, pure
from pyvc import lib_np as N
from contracts.data import find_apps, app_args, free_names

BASE = "pysgmcmc.models.base_model"
BNN = "pysgmcmc.models.bayesian_neural_network"
CASES = {}


# ------------------------------------------------------------------ M05
def cellv(ip, a, *idx):
    """an element of an array, or the number itself"""
    if isinstance(a, N.Arr):
        if not a.shape:
            return alg.to_real(a.cell(ip))
        return alg.to_real(a.cell(ip, *idx[-len(a.shape):]))
    if is_num(a):
        return rterm(a)
    raise Unsupported("not an array: %r" % (a,))


def shape_is(c, name, a, shape):
    if not isinstance(a, N.Arr):
        return c.check(name, shape == () and is_num(a), repr(a))
    if len(a.shape) != len(shape):
        return c.check(name, False, "rank %d" % len(a.shape))
    return c.prove(name, z3.And([N.zi(x) == N.zi(y) for x, y in zip(a.shape, shape)] or [z3.BoolVal(True)]))


def triple(c, ip, v):
    items = ip.to_seq(v).concrete() if isinstance(v, (PyList, tuple)) else None
    if not c.check("normalisation returns the data and the two statistics", items is not None and len(items) == 3, repr(v)):
        raise PathEnd()
    return items


def m05(which, nd, given):
    norm = which + "_normalization"
    unnorm = which + "_unnormalization"

    def case(c, ip):
        n, d = z3.Int("N"), z3.Int("D")
        c.assume(z3.And(n >= 1, d >= 1))
        shape = (n, d) if nd == 2 else (n,)
        sshape = shape[1:]
        i, j = z3.Int("i"), z3.Int("j")
        c.assume(z3.And(i >= 0, i < n, j >= 0, j < d))
        idx = (i, j)[:nd]
        x = N.named(ip, "x", shape)
        xij = x.cell(ip, *idx)
        col = lambda k: x.cell(ip, k, *idx[1:])

        def stat(name):
            if nd == 1:
                return Sym(z3.Real(name), True)
            return N.named(ip, name, sshape)
        pos = "zero_one" == which
        s1, s2 = (stat("s1") if given in ("both", "first") else None), (stat("s2") if given in ("both", "second") else None)
        args = [x, s1, s2]
        while args and args[-1] is None:
            args.pop()
        out, r1, r2 = triple(c, ip, pure(c, ip, ip.get(BASE, norm), args, {}))
        shape_is(c, "normalised data have the shape of the data", out, shape)
        shape_is(c, "first statistic has one value for each column", r1, sshape)
        shape_is(c, "second statistic has one value for each column", r2, sshape)
        v1, v2 = cellv(ip, r1, j), cellv(ip, r2, j)
        if pos:
            w1 = N.MINF(n, N.lam(n, col)) if s1 is None else cellv(ip, s1, j)
            w2 = N.MAXF(n, N.lam(n, col)) if s2 is None else cellv(ip, s2, j)
            want = (xij - w1) / (w2 - w1)
            nz = w2 - w1
        else:
            mean = alg.mk_sum(n, col) / z3.ToReal(n)
            w1 = mean if s1 is None else cellv(ip, s1, j)
            # the standard deviation is that of the data, whatever mean is given
            w2 = alg.SQRT(alg.mk_sum(n, lambda k: (col(k) - mean) * (col(k) - mean)) / z3.ToReal(n)) if s2 is None else cellv(ip, s2, j)
            want = (xij - w1) / w2
            nz = w2
        c.prove_eq("the first statistic is the %s" % ("given one" if s1 is not None else "minimum" if pos else "mean"), v1, w1)
        c.prove_eq("the second statistic is the %s" % ("given one" if s2 is not None else "maximum" if pos else "standard deviation"), v2, w2)
        c.prove_eq("normalised values", cellv(ip, out, *idx), want)
        back = pure(c, ip, ip.get(BASE, unnorm), [out, r1, r2], {})
        shape_is(c, "restored data have the shape of the data", back, shape)
        c.prove_eq("unnormalising restores the data", cellv(ip, back, *idx), xij, [nz != 0])
        if pos and s1 is None and s2 is None:
            mm = [w1 <= xij, xij <= w2]       # definition of minimum and maximum
            v = cellv(ip, out, *idx)
            c.prove("zero-one normalised data lie in [0, 1]", z3.And(v >= 0, v <= 1), mm + [w1 < w2])
        # the inverse on its own: for any data and statistics
        z, a, b = N.named(ip, "z", shape), stat("t1"), stat("t2")
        back = pure(c, ip, ip.get(BASE, unnorm), [z, a, b], {})
        zij, av, bv = z.cell(ip, *idx), cellv(ip, a, j), cellv(ip, b, j)
        c.prove_eq("the inverse map", cellv(ip, back, *idx), (av + (bv - av) * zij) if pos else (zij * bv + av))
    return case


T5 = [BASE + "." + f for f in ("zero_one_normalization", "zero_one_unnormalization", "zero_mean_unit_var_normalization",
                               "zero_mean_unit_var_unnormalization")]
CASES["M05"] = [Case("%s, %d-dimensional data, %s statistics given" % (w, nd, g), m05(w, nd, g), T5[:2] if w == "zero_one" else T5[2:])
                for w in ("zero_one", "zero_mean_unit_var") for nd in (1, 2) for g in ("no", "both", "first", "second")]


# ------------------------------------------------------------------ M06
def base_model(c, ip):
    n, d = z3.Int("N"), z3.Int("D")
    c.assume(z3.And(n >= 1, d >= 1))
    m = ip.call(ip.get(BASE, "BaseModel"), [], {})
    x, y = N.named(ip, "X", (n, d)), N.named(ip, "Y", (n,))
    return n, d, m, x, y


def m06_update(c, ip):
    n, d, m, x, y = base_model(c, ip)
    ip.setattr_(m, "X", x)
    ip.setattr_(m, "y", y)
    k = z3.Int("K")
    c.assume(k >= 0)
    x2, y2 = N.named(ip, "X2", (k, d)), N.named(ip, "Y2", (k,))
    calls = []

    def train(ip, a, kw):
        calls.append((list(a), dict(kw)))
        return None
    ip.setattr_(m, "train", Builtin("train", train))
    ip.call(ip.getattr_(m, "update"), [x2, y2], {})
    if not c.check("updating trains exactly once", len(calls) == 1, "%d times" % len(calls)):
        return
    a, kw = calls[0]
    vals = dict(zip(("X", "y"), a))
    vals.update(kw)
    if not c.check("training gets the inputs and the labels", set(vals) == {"X", "y"}, repr(sorted(vals))):
        return
    xa, ya = vals["X"], vals["y"]
    shape_is(c, "all inputs", xa, (n + k, d))
    shape_is(c, "all labels", ya, (n + k,))
    i, j = z3.Int("i"), z3.Int("j")
    c.assume(z3.And(i >= 0, i < n + k, j >= 0, j < d))
    cx = z3.If(i < n, x.cell(ip, i, j), x2.cell(ip, i - n, j))
    cy = z3.If(i < n, y.cell(ip, i), y2.cell(ip, i - n))
    c.prove_eq("old inputs, then new inputs, in order", cellv(ip, xa, i, j), cx)
    c.prove_eq("old labels, then new labels, in order", cellv(ip, ya, i), cy)


def m06_incumbent(c, ip):
    n, d, m, x, y = base_model(c, ip)
    ip.setattr_(m, "X", x)
    ip.setattr_(m, "y", y)
    r = pure(c, ip, ip.getattr_(m, "get_incumbent"), [], {})
    items = ip.to_seq(r).concrete()
    if not c.check("the incumbent is a point and its label", items is not None and len(items) == 2, repr(r)):
        return
    px, py = items
    shape_is(c, "the incumbent is one point", px, (d,))
    i, j = z3.Int("i"), z3.Int("j")
    c.assume(z3.And(i >= 0, i < n, j >= 0, j < d))
    t = c.simp(cellv(ip, px, j))
    ax = app_args(t, "X")
    if ax is None:
        return c.undecided("the incumbent is an observed point", "cell is %s" % t)
    idx = ax[0]
    facts = []
    lbl = y.cell(ip, idx)
    v = cellv(ip, py)
    for a in find_apps(idx, "ArgMin") + find_apps(v, "ArgMin"):
        facts += [z3.Select(a.arg(1), a) <= z3.Select(a.arg(1), i), a >= 0, a < a.arg(0)]
    for a in find_apps(idx, "ArgMax") + find_apps(v, "ArgMax"):
        facts += [z3.Select(a.arg(1), a) >= z3.Select(a.arg(1), i), a >= 0, a < a.arg(0)]
    for a in find_apps(idx, "ArgSort") + find_apps(v, "ArgSort"):
        facts += [z3.Implies(a.arg(2) == 0, z3.Select(a.arg(1), a) <= z3.Select(a.arg(1), i)),
                  z3.Implies(a.arg(2) == a.arg(0) - 1, z3.Select(a.arg(1), a) >= z3.Select(a.arg(1), i))]
    for a in find_apps(v, "Min"):
        q = z3.Int("q")
        facts += [a <= z3.Select(a.arg(1), i)]
    c.prove("the incumbent is an observed point", z3.And(idx >= 0, idx < n, ax[1] == j), facts)
    c.prove_eq("the incumbent comes with its own label", v, lbl, facts)
    c.prove("no observed label is smaller", lbl <= y.cell(ip, i), facts)


def m06_json(has_data):
    def case(c, ip):
        n, d, m, x, y = base_model(c, ip)
        if has_data:
            ip.setattr_(m, "X", x)
            ip.setattr_(m, "y", y)
        r = pure(c, ip, ip.getattr_(m, "get_json_data"), [], {})
        if not c.check("the serialised form is a dict", isinstance(r, PyDict), repr(r)):
            return
        vx, vy = ip.dict_get(r, "X", MISSING), ip.dict_get(r, "y", MISSING)
        if not c.check("it has inputs and labels", vx is not MISSING and vy is not MISSING, ""):
            return
        if not has_data:
            c.check("nothing before any data", vx is None and vy is None, "%r %r" % (vx, vy))
            return
        i, j = z3.Int("i"), z3.Int("j")
        c.assume(z3.And(i >= 0, i < n, j >= 0, j < d))
        if not c.check("plain lists", isinstance(vx, PyList) and isinstance(vy, PyList), "%r %r" % (vx, vy)):
            return
        sx, sy = ip.to_seq(vx), ip.to_seq(vy)
        c.prove("as many rows as data", z3.And(N.zi(sx.n) == n, N.zi(sy.n) == n))
        row = ip.to_seq(ip.seq_elem(sx, Sym(i)))
        c.prove("as many columns as data", N.zi(row.n) == d)
        c.prove_eq("exactly the current inputs", rterm(ip.seq_elem(row, Sym(j))), x.cell(ip, i, j))
        c.prove_eq("exactly the current labels", rterm(ip.seq_elem(sy, Sym(i))), y.cell(ip, i))
    return case


def shaped(ip, name, rank, dims):
    """an object with a shape of symbolic rank"""
    shp = PyList(SymSeq(rank, lambda t: Sym(z3.Function(name + "_dim", alg.I, alg.I)(t))), kind="tuple")
    return Opaque(name, attrs={"shape": shp})


def m06_shapes(which):
    def case(c, ip):
        r1, r2 = z3.Int("rank_X"), z3.Int("rank_y")
        c.assume(z3.And(r1 >= 1, r2 >= 1))
        x, y = shaped(ip, "X", r1, None), shaped(ip, "y", r2, None)
        dx, dy = z3.Function("X_dim", alg.I, alg.I), z3.Function("y_dim", alg.I, alg.I)
        deco = ip.getattr_(ip.get(BASE, "BaseModel"), "_check_shapes_" + which)
        calls = []
        res = Opaque("result")

        def f(ip, a, k):
            calls.append((a, k))
            return res
        w = ip.call(deco, [Builtin("f", f)], {})
        me = Opaque("model")
        if which == "train":
            args = [me, x, y]
            good = z3.And(r1 == 2, r2 == 1, dx(0) == dy(0))
        else:
            args = [me, x]
            good = r1 == 2
        extra = Opaque("extra")
        try:
            r = ip.call(w, args, {"extra": extra})
        except PyExc as e:
            c.check("a rejected call does not reach the function", not calls, "")
            c.check("rejection is an assertion error", e.cls is AssertionError, str(e))
            c.prove("only inputs of the wrong shape are rejected", z3.Not(good))
            return
        c.prove("inputs of the wrong shape are rejected", good)
        ok = len(calls) == 1 and len(calls[0][0]) == len(args) and all(p is q for p, q in zip(calls[0][0], args)) \
            and set(calls[0][1]) == {"extra"} and calls[0][1]["extra"] is extra
        c.check("the function is called once with the same arguments", ok, repr(calls))
        c.check("its result is returned", r is res, repr(r))
    return case


def m06_bnn(which):
    """the network's own train and predict reject inputs that are not two-dimensional, before doing anything"""
    def case(c, ip):
        r1 = z3.Int("rank_X")
        c.assume(z3.And(r1 >= 1, r1 != 2))
        x, y = shaped(ip, "X", r1, None), Opaque("y")
        cls = ip.get(BNN, "BayesianNeuralNetwork")
        me = PyInstance(cls, {})
        try:
            ip.call(ip.getattr_(me, which), [x] + ([y] if which == "train" else []), {})
        except PyExc as e:
            c.check("inputs that are not two-dimensional raise an assertion error", e.cls is AssertionError, str(e))
            c.check("nothing was changed", not me.d, repr(sorted(me.d)))
            return
        c.check("inputs that are not two-dimensional are rejected", False, "accepted")
    return case


BM = BASE + ".BaseModel."
CASES["M06"] = [
    Case("update", m06_update, [BM + "update"]), Case("incumbent", m06_incumbent, [BM + "get_incumbent"]),
    Case("serialised data", m06_json(True), [BM + "get_json_data"]),
    Case("serialised data, no data", m06_json(False), [BM + "get_json_data", BM + "__init__"]),
    Case("shape check of training", m06_shapes("train"), [BM + "_check_shapes_train"]),
    Case("shape check of prediction", m06_shapes("predict"), [BM + "_check_shapes_predict"]),
    Case("network training rejects wrong ranks", m06_bnn("train"), [BNN + ".BayesianNeuralNetwork.train"]),
    Case("network prediction rejects wrong ranks", m06_bnn("predict"), [BNN + ".BayesianNeuralNetwork.predict"]),
]


# ------------------------------------------------------------------ M01
SAMPLING = "pysgmcmc.sampling"
SUPPORTED = ("SGHMC", "SGLD")




def any_int(name):

    return Dyn(name, [("int", lambda ip: Sym(z3.Int(name))), ("float", lambda ip: Sym(z3.Real(name + "_f"), True)),
                      ("None", lambda ip: None), ("str", lambda ip: AbsStr()), ("object", lambda ip: Opaque("thing"))])


def settings():
    """every constructor argument, of any type, and the condition under which it is valid"""
    d, ok = {}, {}
    for n in ("n_nets", "n_iters", "sample_steps", "batch_size"):
        d[n] = any_int(n)
        ok[n] = z3.And(d[n].tag == 0, z3.Int(n) >= 1)
    d["burn_in_steps"] = any_int("burn_in_steps")
    ok["burn_in_steps"] = z3.And(d["burn_in_steps"].tag == 0, z3.Int("burn_in_steps") >= 0)
    d["dtype"] = Dyn("dtype", [("DType", lambda ip: Opaque("a dtype", types=("DType",))), ("None", lambda ip: None), ("object", lambda ip: Opaque("thing"))])
    ok["dtype"] = d["dtype"].tag == 0

    def func(ip):
        return Builtin("f", lambda ip, a, k: None)
    for n in ("get_net", "batch_generator"):
        d[n] = Dyn(n, [("function", func), ("None", lambda ip: None), ("object", lambda ip: Opaque("thing"))])
        ok[n] = d[n].tag == 0
    nx, up = Builtin("next", lambda ip, a, k: None), Builtin("update", lambda ip, a, k: None)
    d["stepsize_schedule"] = Dyn("stepsize_schedule", [
        ("both", lambda ip: Opaque("schedule", attrs={"__next__": nx, "update": up, "initial_value": Sym(z3.Real("iv"))})),
        ("no update", lambda ip: Opaque("iterator", attrs={"__next__": nx, "initial_value": Sym(z3.Real("iv"))})),
        ("no next", lambda ip: Opaque("updater", attrs={"update": up})), ("None", lambda ip: None),
        ("number", lambda ip: Sym(z3.Real("stepsize_number"), True))])
    ok["stepsize_schedule"] = d["stepsize_schedule"].tag == 0
    ms = ["SGHMC", "SGLD", "RelativisticSGHMC", "SVGD"]
    d["sampling_method"] = Dyn("sampling_method", [(m, lambda ip, m=m: ip.getattr_(ip.get(SAMPLING, "Sampler"), m)) for m in ms]
                               + [("str", lambda ip: "SGHMC"), ("None", lambda ip: None), ("object", lambda ip: Opaque("thing"))])
    ok["sampling_method"] = z3.And(d["sampling_method"].tag >= 0, d["sampling_method"].tag <= 1)
    return d, ok


def m01(c, ip):
    d, ok = settings()
    rest = {n: Opaque("value of " + n) for n in ("session", "normalize_input", "normalize_output", "seed")}
    extra = {n: Opaque("value of " + n) for n in ("mdecay", "another_option")}
    for x in d.values():
        c.assume(z3.And(x.tag >= 0, x.tag < len(x.kinds)))
    args = dict(rest)
    args.update(d)
    args.update(extra)
    cls = ip.get(BNN, "BayesianNeuralNetwork")
    try:
        net = ip.call(cls, [], args)
    except PyExc as e:
        c.check("invalid settings raise an assertion or value error", e.cls in (AssertionError, ValueError), "raises %s" % e)
        c.prove("only invalid settings are rejected", z3.Not(z3.And(list(ok.values()))))
        return
    for n in sorted(d):
        c.prove("an accepted network has a valid %s" % n, ok[n])
    for n in sorted(d):
        v = ip.getattr_(net, n)
        x = d[n]
        same = v is x or any(v is y for y in x.cache.values())
        if not same and isinstance(v, Sym) and isinstance(x.resolve(ip), Sym):
            c.prove("the network remembers %s" % n, v.t == x.resolve(ip).t)
        else:
            c.check("the network remembers %s" % n, same, repr(v))
    for n in sorted(rest):
        c.check("the network remembers %s" % n, ip.getattr_(net, n) is rest[n], repr(ip.getattr_(net, n)))
    kw = ip.getattr_(net, "sampler_kwargs")
    c.check("the network remembers the sampler options", isinstance(kw, PyDict) and ip.dict_keys_seq(kw).concrete() is not None
            and set(ip.dict_keys_seq(kw).concrete()) == set(extra) and all(ip.dict_get(kw, n, MISSING) is v for n, v in extra.items()), repr(kw))
    t = ip.getattr_(net, "is_trained")
    c.check("a new network is not trained", t is False, repr(t))


def m01_defaults(c, ip):
    """without any optional argument"""
    s = Opaque("session")
    ip.call(ip.get(BNN, "BayesianNeuralNetwork"), [s], {})
    c.check("the defaults are valid", True, "")


NN_ = BNN + ".BayesianNeuralNetwork."
CASES["M01"] = [Case("all settings of any type", m01, [NN_ + "__init__", SAMPLING + ".Sampler.is_supported"]),
                Case("default settings", m01_defaults, [NN_ + "__init__"])]


# ------------------------------------------------------------------ a network being trained (M02, M03, M04, M07)
NOSEED = object()


class NetWorld(object):
    """a network with arbitrary settings, an arbitrary number of weights of arbitrary shapes, arbitrary data"""

    def __init__(self, c, ip, method="SGHMC", norm_in=True, norm_out=True, n_weights=None, extra=None, seed=None):
        self.c, self.ip, self.method = c, ip, method
        self.N, self.D, self.B = z3.Int("N"), z3.Int("D"), z3.Int("rows")
        self.b = z3.Int("batch_size")
        c.assume(z3.And(self.N >= 1, self.D >= 1, self.B >= 1, self.b >= 1))
        self.X, self.Y = N.named(ip, "X", (self.N, self.D)), N.named(ip, "Y", (self.N,))
        self.dtype = Opaque("a dtype", types=("DType",))
        self.seed = Opaque("seed", uid="seed") if seed is None else None if seed is NOSEED else seed
        self.session = Opaque("session", types=("Session",), attrs={"run": Builtin("run", self.run)})
        self.schedule = Opaque("schedule", attrs={"initial_value": Sym(z3.Real("stepsize_initial")), "__next__": Builtin("next", None),
                                                  "update": Builtin("update", None)}, truth=ARB)
        self.nets, self.gens, self.made, self.early, self.chains = [], [], [], [], []
        self.trainable_before = []
        self.P = z3.Int("P") if n_weights is None else z3.IntVal(n_weights)
        c.assume(self.P >= (1 if n_weights else 2))
        self.numel = z3.Function("numel_w", alg.I, alg.I)
        self.wuid = new_uid()
        self.weights = PyList(SymSeq(self.P, self.weight)) if n_weights is None else PyList([self.weight(z3.IntVal(j)) for j in range(n_weights)])
        ip.lib_state["tf_trainable"] = self.trainable
        ip.lib_state["placeholder_dim"] = lambda: self.B
        ip.lib_state["placeholder_shape"] = lambda: TF.TShape((self.B, 1))
        c.note("a batch of labels has one column and as many rows as the batch of inputs (D01, D02)")
        self.extra = dict(extra or {})
        self.set = {"n_nets": Sym(z3.Int("n_nets")), "n_iters": Sym(z3.Int("n_iters")), "burn_in_steps": Sym(z3.Int("burn_in_steps")),
                    "sample_steps": Sym(z3.Int("sample_steps")), "batch_size": Sym(self.b)}
        c.assume(z3.And(z3.Int("n_nets") >= 1, z3.Int("n_iters") >= 1, z3.Int("burn_in_steps") >= 0, z3.Int("sample_steps") >= 1))
        self.norm_in, self.norm_out = norm_in, norm_out
        kw = dict(self.set, session=self.session, sampling_method=ip.getattr_(ip.get(SAMPLING, "Sampler"), method), get_net=Builtin("get_net", self.get_net),
                  batch_generator=Builtin("batch_generator", self.batches), stepsize_schedule=self.schedule, normalize_input=norm_in,
                  normalize_output=norm_out, seed=self.seed, dtype=self.dtype, **self.extra)
        self.kw = kw
        for m, (mod, name) in SAMPLERS.items():
            ip.class_hooks[ip.get(mod, name)] = lambda ip, cl, a, k, m=m: self.make(m, cl, a, k)
        self.net = ip.call(ip.get(BNN, "BayesianNeuralNetwork"), [], kw)

    def weight(self, j):
        self.c.assume(self.numel(j) >= 1)
        return TF.make_var(self.ip, "w", TF.TShape(None, self.numel(j), ("w", j)), idx=(j,), dtype=self.dtype, uid=self.wuid)

    def trainable(self):
        self.trainable_before.append(len(self.nets))
        return PyList(self.ip.to_seq(self.weights)) if self.nets else PyList([])

    def get_net(self, ip, a, k):
        names = ["inputs", "seed", "dtype"]
        d = dict(zip(names, a))
        d.update(k)
        rows = zi_dim(ip, d.get("inputs"))
        out = TF.TNode("placeholder", [], {"pname": "OUT"}, TF.TShape((rows, 2)), self.dtype)
        self.nets.append((d, out))
        return out

    def batches(self, ip, a, k):
        names = ["x", "y", "x_placeholder", "y_placeholder", "batch_size", "seed"]
        d = dict(zip(names, a))
        d.update(k)
        g = Opaque("batches", uid=("batches", len(self.gens)), attrs={"__next__": Builtin("next", None)})
        self.gens.append((d, g))
        return g

    def make(self, m, cl, a, k):
        ip = self.ip
        f, _ = cl.lookup("__init__")
        names = [x.arg for x in f.node.args.args][1:]
        d = dict(zip(names, a))
        d.update(k)
        self.made.append((m, d, new_uid()))
        n = len(self.made)
        self.chains.append(PyIter(SymSeq(None, lambda k: self.sample(n, k))))
        return self.chains[-1]

    def sample(self, n, k):
        """step k of sampler n: sample and cost"""
        if not any(e[0] == "run_init_all" and e[2] > self.made[n - 1][2] for e in self.ip.events):
            self.ip.events.append(("early", k))
            self.early.append(k)
        value = lambda j: Opaque("value", idx=(z3.IntVal(n), k, j), uid="sampled")
        if z3.is_int_value(self.P) and self.P.as_long() == 1:
            s = value(z3.IntVal(0))
        else:
            s = PyList(SymSeq(self.P, value))
        return (s, Opaque("cost", idx=(z3.IntVal(n), k), uid="cost"))

    def run(self, ip, a, k):
        fetches = a[0] if a else k.get("fetches")
        fd = a[1] if len(a) > 1 else k.get("feed_dict")
        if isinstance(fetches, TF.TNode) and fetches.op in ("init", "init_all", "stack", "stack_seq", "isinit"):
            return TF.run(ip, fetches)
        if isinstance(fetches, TF.TNode) and any(fetches is o for _, o in self.nets):
            return self.output(fetches, fd)
        if isinstance(fetches, (PyList, tuple)):
            n = len(ip.to_seq(fetches).concrete())
            return PyList([Sym(alg.fresh("reported", alg.R), True) for _ in range(n)])
        if isinstance(fetches, TF.TNode):
            return Sym(alg.fresh("reported", alg.R), True)
        raise Unsupported("session.run of %r" % (fetches,))

    def output(self, node, fd):
        return self.fed(self, node, fd)

    def train(self, x=None, y=None, forget=True):
        m = len(self.nets), len(self.gens), len(self.made)
        self.early = []
        self.ip.call(self.ip.getattr_(self.net, "train"), [self.X if x is None else x, self.Y if y is None else y], {})
        if len(self.made) != m[2] + 1:
            self.c.check("training builds one sampler", False, "%d samplers" % (len(self.made) - m[2]))
            raise PathEnd()
        if len(self.nets) != m[0] + 1 or len(self.gens) != m[1] + 1:
            raise Unsupported("training builds %d networks and %d batch generators" % (len(self.nets) - m[0], len(self.gens) - m[1]))
        if forget:
            # which iteration was the last one plays no role in what follows: fewer hypotheses
            self.c.pc = [t for t in self.c.pc if not alg.has_quantifier(t)]
        return self.nets[-1], self.gens[-1], self.made[-1]


TENTH16 = z3.RealVal("1/10000000000000000")
SAMPLERS = {"SGHMC": ("pysgmcmc.samplers.sghmc", "SGHMCSampler"), "SGLD": ("pysgmcmc.samplers.sgld", "SGLDSampler"),
            "RelativisticSGHMC": ("pysgmcmc.samplers.relativistic_sghmc", "RelativisticSGHMCSampler"), "SVGD": ("pysgmcmc.samplers.svgd", "SVGDSampler")}


def zi_dim(ip, x):
    if isinstance(x, TF.TNode) and x.shape.dims is not None and len(x.shape.dims) == 2:
        return zi(x.shape.dims[0])
    raise Unsupported("the input of the network is %r" % (x,))


zi = N.zi


def m04(nw):
    def case(c, ip):
        use_contracts(c, ip)
        w = NetWorld(c, ip, n_weights=nw)
        ip.setattr_(w.net, "X", w.X)
        xp = TF.TNode("placeholder", [], {"pname": "XP"}, TF.TShape((w.B, w.D)), w.dtype)
        yp = TF.TNode("placeholder", [], {"pname": "YP"}, TF.TShape((w.B, 1)), w.dtype)
        r = pure(c, ip, ip.getattr_(w.net, "negative_log_likelihood"), [], {"X": xp, "Y": yp}, None, [w.net])
        items = ip.to_seq(r).concrete() if isinstance(r, (PyList, tuple)) else None
        if not c.check("the objective comes with an error", items is not None and len(items) == 2 and all(isinstance(x, TF.TNode) for x in items), repr(r)):
            return
        check_net(c, w, xp)
        objective(c, ip, w, items[0], yp, w.nets[0][1])
        G = TF.Graph(ip, [items[1]])
        y = lambda i: G.val(yp, (i, z3.IntVal(0)))
        f = lambda i: G.val(w.nets[0][1], (i, z3.IntVal(0)))
        c.prove_eq("the reported error is the mean squared error", G.val(items[1], ()), alg.mk_sum(w.B, lambda i: (y(i) - f(i)) * (y(i) - f(i))) / z3.ToReal(w.B))
    return case


def seed_is(c, w, what, v):
    if isinstance(w.seed, Sym) and is_num(v) and not isinstance(v, bool):
        c.prove_eq(what, rterm(v), rterm(w.seed))
    else:
        c.check(what, v is w.seed, repr(v))


def check_net(c, w, xp):
    d, _ = w.nets[-1]
    c.check("the network is built on the batch of inputs", d.get("inputs") is xp, repr(d.get("inputs")))
    seed_is(c, w, "the network is built with the own seed", d.get("seed", MISSING))
    c.check("the network is built with the own precision", d.get("dtype") is w.dtype, repr(d.get("dtype")))


def objective(c, ip, w, cost, yp, out):
    """the value of the cost node is the stated objective"""
    c.check("the objective is a number", cost.shape.dims == (), repr(cost.shape))
    G = TF.Graph(ip, [cost])
    got = G.val(cost, ())
    z = z3.IntVal(0)
    y = lambda i: G.val(yp, (i, z))
    f = lambda i: G.val(out, (i, z))
    l = lambda i: G.val(out, (i, z3.IntVal(1)))
    q = lambda x: x * x
    n = z3.ToReal(w.N)
    like = alg.mk_sum(w.B, lambda i: -q(y(i) - f(i)) / (2 * (alg.EXP(l(i)) + TENTH16)) - l(i) / 2) / z3.ToReal(w.b)
    var = z3.RealVal("1/100")
    P = alg.mk_sum(w.B, lambda i: sdiv(-q(l(i) - alg.LOG(z3.RealVal("1/1000000"))), 2 * var) - alg.LOG(var) / 2) / z3.ToReal(w.B)
    over = (lambda fn: sum(fn(z3.IntVal(j)) for j in range(w.P.as_long()))) if z3.is_int_value(w.P) else (lambda fn: alg.mk_sum(w.P, fn))
    sq = over(lambda j: alg.mk_sum(w.numel(j), lambda e: q(TF.state(w.weight(j))((e,)))))
    cnt = over(lambda j: z3.ToReal(w.numel(j)))
    W = sdiv(-sq / 2, cnt)
    c.prove_eq("the objective", got, -(like + P / n + W / n))




def normed(x, n, i, *j):
    """element of the zero-mean unit-variance form of x (function of the index) and its statistics"""
    col = lambda k: x(k, *j)
    mean = alg.mk_sum(n, col) / z3.ToReal(n)
    std = alg.SQRT(alg.mk_sum(n, lambda k: (col(k) - mean) * (col(k) - mean)) / z3.ToReal(n))
    return (x(i, *j) - mean) / std, mean, std


def seq_parts(seq):
    if isinstance(seq, CatSeq):
        return [q for p in seq.parts for q in seq_parts(p)]
    return [] if seq.concrete() == [] else [seq]


def m02(nw, again, method="SGHMC"):
    def case(c, ip):
        use_contracts(c, ip)
        w = NetWorld(c, ip, method, n_weights=nw)
        if again:
            n0 = z3.Int("N_before")
            c.assume(n0 >= 1)
            w.train(N.named(ip, "X_before", (n0, w.D)), N.named(ip, "Y_before", (n0,)))
        n_iters, burn, step, nets = z3.Int("n_iters"), z3.Int("burn_in_steps"), z3.Int("sample_steps"), z3.Int("n_nets")
        w.train(forget=False)
        c.check("a trained network is marked as trained", ip.getattr_(w.net, "is_trained") is True, repr(ip.getattr_(w.net, "is_trained")))
        run = len(w.made)
        chain = w.chains[-1]
        steps = iterm(ip.rd(chain, "pos"))
        want = lambda k: z3.And(k > burn, k % step == 0)
        parts = seq_parts(ip.to_seq(ip.getattr_(w.net, "samples")))
        last = None
        if parts and parts[-1].concrete() is not None:
            items = parts.pop().concrete()
            if len(items) != 1:
                return c.undecided("the collected samples", "%d samples at the end" % len(items))
            last = items[0]
        if len(parts) > 1 or parts and not isinstance(parts[0], FilterSeq):
            return c.undecided("the collected samples", "samples are %r" % (parts,))
        k, j = z3.Int("k"), z3.Int("j")

        def is_sample(name, v, at, hyps):
            seq = ip.to_seq(v) if isinstance(v, (PyList, tuple)) else None
            if not c.check(name + ": one value for each weight", seq is not None, repr(v)):
                return
            c.prove(name + ": one value for each weight", iterm(seq.n) == w.P, hyps)
            e = seq.concrete()[0] if seq.concrete() else ip.seq_elem(seq, Sym(j)) if nw is None else seq.elem(z3.IntVal(0))
            if not c.check(name + ": values of the sampler", isinstance(e, Opaque) and e.uid == "sampled", repr(e)):
                return
            jj = j if nw is None else z3.IntVal(0)
            c.prove(name + ": values of the sampler of this training, of the right step, in order",
                    z3.And(e.idx[0] == run, e.idx[1] == at, e.idx[2] == jj), list(hyps) + [j >= 0, j < w.P])
        if not parts:
            # at most one network: nothing is collected before the last one
            m = n_iters if last is None else None
            if last is not None:
                e = ip.seq_elem(ip.to_seq(last), 0)
                if not isinstance(e, Opaque) or e.uid != "sampled":
                    return c.check("last: values of the sampler", False, repr(e))
                m = e.idx[1]
            c.prove("no earlier iteration is to be collected", z3.Not(want(k)), [k >= 0, k < m])
            count, same = z3.IntVal(0), []
        if parts:
            f = parts[0]
            m = iterm(f.m)
            hyps = [k >= 0, k < m]
            ok = c.prove("exactly the iterations after burn-in on the sample interval are collected", f.cond(k) == want(k), hyps)
            is_sample("collected", f.fn(k), k, hyps + [want(k)])
            count = ISUM(m, want)
            # the two conditions are the same for every index below m, and so are their counts
            same = [count == ISUM(m, f.cond)] if ok else []
        if last is None:
            c.prove("all iterations are used", z3.And(m == n_iters, steps == n_iters), same)
            c.prove("no more networks than requested", count <= nets, same)
        else:
            is_sample("last", last, m, [])
            c.prove("the last network is one to collect", z3.And(m >= 0, m < n_iters, want(m)))
            c.prove("sampling stops at the last network", steps == m + 1)
            c.prove("as many networks as requested", count + 1 == nets, same)
    return case


def predicted(c, ip, w, xin, m):
    """hook: evaluating the network output with parameters of sample k and inputs xin(i, j)"""
    def fed(w, node, fd):
        if node is not w.nets[-1][1]:
            c.check("the network of the last training is evaluated", False, "an older network")
            raise PathEnd()
        if not isinstance(fd, PyDict):
            raise Unsupported("feed dict %r" % (fd,))
        ent = list(ip.rd(fd, "ent"))
        ph = w.nets[-1][0]["inputs"]
        j, i, q = z3.Int("wj"), z3.Int("row"), z3.Int("col")
        ks, pars = [], []
        inputs = []
        for e in ent:
            if isinstance(e, tuple):
                key, val = e
                if key is ph:
                    inputs.append(val)
                else:
                    pars.append((key, val, [], 1, None))
            elif type(e).__name__ == "Bulk":
                pars.append((e.key(j), e.val(j), [j >= 0, j < iterm(e.n)], iterm(e.n), j))
            else:
                raise Unsupported("feed dict entry %r" % (e,))
        if not c.check("the inputs are fed once", len(inputs) == 1, "%d times" % len(inputs)):
            raise PathEnd()
        x = inputs[0]
        shape_is(c, "all inputs are fed", x, (m, w.D))
        if isinstance(x, N.Arr) and len(x.shape) == 2:
            c.prove_eq("the inputs are fed as in training", cellv(ip, x, i, q), xin(i, q), [i >= 0, i < m, q >= 0, q < w.D])
        total = z3.IntVal(0)
        for key, val, hyps, n, at in pars:
            total = total + n
            ok = isinstance(key, TF.TVar) and key.uid == w.wuid
            c.check("only weights and inputs are fed", ok, repr(key))
            ok2 = isinstance(val, Opaque) and val.uid == "collected"
            c.check("the weights get collected values", ok2, repr(val))
            if not (ok and ok2):
                raise PathEnd()
            c.prove("each weight gets its own value", key.idx[0] == val.idx[1], hyps)
            if at is not None:
                c.prove("all weights are fed, in order", key.idx[0] == at, hyps)
            ks.append(val.idx[0])
        c.prove("every weight is fed", total == w.P)
        k = ks[0]
        for k2 in ks[1:]:
            c.prove("all weights get values of the same sample", k == k2)
        return N.fresh_arr(lambda r, s: w.OUT(k, r, s), (m, 2))
    w.OUT = z3.Function("OUTPUT", alg.I, alg.I, alg.I, alg.R)
    w.fed = fed


def m03(norm_in, norm_out, individual, nw=None, again=False):
    def case(c, ip):
        use_contracts(c, ip)
        w = NetWorld(c, ip, "SGHMC", norm_in, norm_out, nw)
        K, m = z3.Int("K"), z3.Int("M")
        c.assume(z3.And(K >= 1, m >= 1))
        xt = N.named(ip, "XT", (m, w.D))
        if again:
            n0 = z3.Int("N_before")
            c.assume(n0 >= 1)
            w.train(N.named(ip, "X_before", (n0, w.D)), N.named(ip, "Y_before", (n0,)))
        w.train()
        value = lambda k, j: Opaque("value", idx=(k, j), uid="collected")
        one = (lambda k: PyList(SymSeq(w.P, lambda j: value(k, j)))) if nw is None else (lambda k: PyList([value(k, z3.IntVal(j)) for j in range(nw)]))
        c.assume(z3.Int("n_nets") >= K)
        ip.setattr_(w.net, "samples", PyList(SymSeq(K, one), kind="deque", maxlen=Sym(z3.Int("n_nets"))))
        x, y = (lambda a, b: w.X.cell(ip, a, b)), (lambda a: w.Y.cell(ip, a))
        i0, q0 = z3.Int("i0"), z3.Int("q0")

        def xin(i, q):
            v = xt.cell(ip, i, q)
            if not norm_in:
                return v
            _, mean, std = normed(x, w.N, i0, q)
            return (v - mean) / std
        predicted(c, ip, w, xin, m)
        _, ym, ys = normed(y, w.N, i0)
        if not norm_out:
            ym, ys = z3.RealVal(0), z3.RealVal(1)
        r = pure(c, ip, ip.getattr_(w.net, "predict"), [xt] + ([True] if individual else []), {})
        items = ip.to_seq(r).concrete() if isinstance(r, (PyList, tuple)) else None
        if not c.check("prediction gives two arrays", items is not None and len(items) == 2, repr(r)):
            return
        a, b = items
        i, k = z3.Int("i"), z3.Int("k")
        c.assume(z3.And(i >= 0, i < m, k >= 0, k < K))
        f = lambda t: w.OUT(t, i, z3.IntVal(0))
        l = lambda t: w.OUT(t, i, z3.IntVal(1))
        if individual:
            shape_is(c, "one prediction per network and input", a, (K, m))
            shape_is(c, "one noise variance per network and input", b, (K, m))
            c.prove_eq("individual predictions", cellv(ip, a, k, i), f(k) * ys + ym)
            c.prove_eq("individual noise variances", cellv(ip, b, k, i), alg.EXP(l(k)) * ys * ys)
            return
        shape_is(c, "one mean per input", a, (m,))
        shape_is(c, "one variance per input", b, (m,))
        avg = alg.mk_sum(K, f) / z3.ToReal(K)
        c.prove_eq("the mean of the predictions", cellv(ip, a, i), avg * ys + ym)
        c.prove_eq("the variance of the predictions", cellv(ip, b, i), alg.mk_sum(K, lambda t: (f(t) - avg) * (f(t) - avg)) / z3.ToReal(K) * ys * ys)
    return case


def m03_untrained(c, ip):
    use_contracts(c, ip)
    w = NetWorld(c, ip)
    m = z3.Int("M")
    c.assume(m >= 1)
    try:
        ip.call(ip.getattr_(w.net, "predict"), [N.named(ip, "XT", (m, w.D))], {})
    except PyExc as e:
        c.check("predicting before training raises a value error", e.cls is ValueError, str(e))
        return
    c.check("predicting before training raises a value error", False, "no error")


def m07(method, norm_in, norm_out, nw=None, again=False):
    def case(c, ip):
        use_contracts(c, ip)
        extra = {"mdecay": Opaque("mdecay given")} if method == "SGHMC" else {"noise": Opaque("noise given")}
        sig = ip.get(*SAMPLERS[method]).lookup("__init__")[0].node.args
        names = [a.arg for a in sig.args + sig.kwonlyargs]
        extra = {n: Opaque(n + " given") for n in names[1:] if n not in (
            "params", "cost_fun", "batch_generator", "session", "seed", "dtype", "stepsize_schedule", "scale_grad", "burn_in_steps")}
        # no seed, or any number (zero counts as false)
        w = NetWorld(c, ip, method, norm_in, norm_out, nw, extra, None if again else NOSEED if not c.branch(z3.Bool("seeded")) else Sym(z3.Int("seed")))
        x, y, n = w.X, w.Y, w.N
        if again:
            n0 = z3.Int("N_before")
            c.assume(n0 >= 1)
            w.train(N.named(ip, "X_before", (n0, w.D)), N.named(ip, "Y_before", (n0,)))
        (nd, out), (gd, gen), (m, d, at) = w.train()
        c.check("the configured sampler is used", m == method, m)
        check_net(c, w, gd.get("x_placeholder"))
        c.check("the sampler is fed by the batch generator", d.get("batch_generator") is gen, repr(d.get("batch_generator")))
        seed_is(c, w, "the sampler gets the seed of the network", d.get("seed", MISSING))
        for k, v in (("session", w.session), ("dtype", w.dtype), ("stepsize_schedule", w.schedule)):
            c.check("the sampler gets the %s of the network" % k, d.get(k) is v, repr(d.get(k)))
        for k, v in extra.items():
            c.check("option %s reaches the sampler unchanged" % k, d.get(k) is v, repr(d.get(k)))
        left = sorted(set(d) - set(extra) - {"params", "cost_fun", "batch_generator", "session", "seed", "dtype", "stepsize_schedule", "scale_grad", "burn_in_steps"})
        c.check("nothing else is set", not left, repr(left))
        num = lambda k: rterm(d[k]) if is_num(d.get(k)) else None
        for k, v in (("scale_grad", n), ("burn_in_steps", z3.Int("burn_in_steps"))):
            if num(k) is None:
                c.check("the sampler gets %s" % k, False, repr(d.get(k)))
            else:
                c.prove_eq("the sampler gets %s" % k, num(k), z3.ToReal(v))
        # parameters
        ps = ip.to_seq(d.get("params"))
        c.prove("all trainable variables are sampled", iterm(ps.n) == w.P)
        j = z3.Int("j")
        c.assume(z3.And(j >= 0, j < w.P))
        pj = ip.seq_elem(ps, Sym(j)) if nw is None else ps.concrete()[0]
        if not c.check("parameters are variables", isinstance(pj, TF.TVar), repr(pj)):
            return
        wj = w.weight(j if nw is None else z3.IntVal(0))
        c.check("the parameters are the trainable variables", pj.uid == wj.uid, repr(pj))
        c.prove("the parameters are the trainable variables, in order", z3.And([a == b for a, b in zip(pj.idx, wj.idx)]))
        # minibatches
        seed_is(c, w, "the batch generator gets the seed of the network", gd.get("seed", MISSING))
        bs = gd.get("batch_size")
        if c.check("the batch size is a number", is_num(bs), repr(bs)):
            c.prove_eq("batches have the configured size", rterm(bs), z3.ToReal(w.b))
        i, q = z3.Int("i"), z3.Int("q")
        c.assume(z3.And(i >= 0, i < n, q >= 0, q < w.D))
        gx, gy = gd.get("x"), gd.get("y")
        shape_is(c, "all inputs are used", gx, (n, w.D))
        shape_is(c, "all labels are used", gy, (n,))
        fx, fy = (lambda a, b: x.cell(ip, a, b)), (lambda a: y.cell(ip, a))
        c.prove_eq("batches of the %s inputs" % ("normalised" if norm_in else "given"), cellv(ip, gx, i, q), normed(fx, n, i, q)[0] if norm_in else fx(i, q))
        c.prove_eq("batches of the %s labels" % ("normalised" if norm_out else "given"), cellv(ip, gy, i), normed(fy, n, i)[0] if norm_out else fy(i))
        # cost
        xp, yp = gd.get("x_placeholder"), gd.get("y_placeholder")
        if not c.check("batches go into two placeholders", all(isinstance(p, TF.TNode) and p.op == "placeholder" for p in (xp, yp)) and xp is not yp, "%r %r" % (xp, yp)):
            return
        cost = ip.call(d.get("cost_fun"), [d.get("params")], {})
        if c.check("the cost is a tensor", isinstance(cost, TF.TNode), repr(cost)):
            objective(c, ip, w, cost, yp, out)
        c.check("all variables are initialised before the first step", not w.early and any(
            e[0] == "run_init_all" and e[2] > at for e in ip.events), "initialised: %s, steps before: %s" % (
            [e for e in ip.events if e[0] == "run_init_all"], w.early))
    return case


from pyvc import lib_tf as TF
from contracts.samplers import use_contracts, sdiv
CASES["M04"] = [Case("any number of weights", m04(None), [NN_ + "negative_log_likelihood", BNN + ".log_variance_prior_log_like", BNN + ".weight_prior_log_like"]),
                Case("one weight", m04(1), [NN_ + "negative_log_likelihood", BNN + ".log_variance_prior_log_like", BNN + ".weight_prior_log_like"])]

T7 = [NN_ + "train", NN_ + "__init__", SAMPLING + ".Sampler.get_sampler", SAMPLING + ".Sampler.is_burn_in_mcmc"]
CASES["M07"] = [Case("%s, %s" % (m, what), m07(m, *a), T7) for m in ("SGHMC", "SGLD") for what, a in (
    ("normalised data", (True, True)), ("data as given", (False, False)), ("normalised inputs", (True, False)), ("normalised labels", (False, True)),
    ("one weight", (True, True, 1)), ("trained before", (True, True, None, True)))]
CASES["M02"] = [Case(what, m02(*a), T7) for what, a in (
    ("any number of weights", (None, False)), ("one weight", (1, False)), ("trained before", (None, True)), ("one weight, trained before", (1, True)),
    ("any number of weights, SGLD", (None, False, "SGLD")))]
T3 = [NN_ + "predict", NN_ + "compute_network_output", NN_ + "train", NN_ + "__init__"]
CASES["M03"] = [Case("%s, %s" % ("individual predictions" if ind else "mean and variance", what), m03(a[0], a[1], ind, *a[2:]), T3)
                for ind in (False, True) for what, a in (
    ("normalised data", (True, True)), ("data as given", (False, False)), ("normalised inputs", (True, False)), ("normalised labels", (False, True)))] + [
    Case("one weight", m03(True, True, False, 1), T3), Case("trained before", m03(True, True, False, None, True), T3), Case("untrained", m03_untrained, T3[:1])]
