"""S01-S05, S09, S10 and the constructor parts of S08, S11: the four samplers (pysgmcmc/samplers/*.py).

Every contract constructs the sampler by the real constructor, for an arbitrary number of parameters of arbitrary
shapes, runs the real __next__ once from an arbitrary state, captures what it hands to session.run, and states
what that one evaluation of the graph computes."""
from fractions import Fraction
import itertools
import z3
from pyvc import alg
from pyvc.values import *
from pyvc.core import PyExc, Unsupported, PathEnd
from pyvc.spec import Case
from pyvc import lib_np as N, lib_tf as TF

S = "pysgmcmc.samplers."
CLS = {"SGHMC": (S + "sghmc", "SGHMCSampler"), "SGLD": (S + "sgld", "SGLDSampler"),
       "Rel": (S + "relativistic_sghmc", "RelativisticSGHMCSampler"), "SVGD": (S + "svgd", "SVGDSampler")}
BASEM = S + "base_classes"
TU = "pysgmcmc.tensor_utils"
CASES = {}
R, I = alg.R, alg.I


# ------------------------------------------------------------------ contracts of the tensor utilities (proved by T01, T02)
CONDENSED = alg.uf("CONDENSED", I, I, I)      # position of the pair i < j in the condensed form
MEDIAN = alg.uf("MEDIAN", I, z3.ArraySort(I, R), R)
DEN = alg.uf("DEN", R, R, R)          # the effective denominator of the guarded division


def sdiv(x, y, c=None):
    return x / DEN(y, z3.RealVal(Fraction(1, 10 ** 16)) if c is None else c)


def ssqrt(x):
    return alg.SQRT(TF.rmax(x, z3.RealVal(0)))


def use_contracts(c, ip):
    c.note("safe_divide, safe_sqrt, median, pdist and squareform are used by their contracts (T01-T04)")

    def arg(a, k, i, n, d=None):
        return a[i] if len(a) > i else k.get(n, d)

    def safe_divide(ip, f, a, k):
        x, y, sc = arg(a, k, 0, "x"), arg(a, k, 1, "y"), arg(a, k, 2, "small_constant", Fraction(1, 10 ** 16))
        if not is_num(sc):
            raise Unsupported("guarded division with constant %r" % (sc,))
        y = TF.tensor(ip, y)
        den = TF.node(ip, "guard", [y], {"fn": lambda v: DEN(v, rterm(sc))}, y.shape, y.dtype)
        return TF.ew(ip, "div", x, den)

    def safe_sqrt(ip, f, a, k):
        lo, hi = arg(a, k, 1, "clip_value_min", 0), arg(a, k, 2, "clip_value_max", float("inf"))
        x = TF.tensor(ip, arg(a, k, 0, "x"))
        x = TF.f_clip(ip, [x, lo, hi], {})
        return TF.ew(ip, "sqrt", x)
    def pdist(ip, f, a, k):
        x, metric = TF.tensor(ip, arg(a, k, 0, "tensor")), arg(a, k, 1, "metric", "euclidean")
        if metric != "euclidean" or x.shape.dims is None or len(x.shape.dims) != 2:
            raise Unsupported("pairwise distances of %r with metric %r" % (x, metric))
        m, d = zi(x.shape.dims[0]), zi(x.shape.dims[1])
        size = z3.simplify(m * (m - 1) / 2)
        ip.lib_state.setdefault("condensed", {})[size.get_id()] = (size, m)

        def val(G, n, idx):
            p = idx[0]
            if not (z3.is_app(p) and p.decl().name() == "CONDENSED"):
                raise Unsupported("element %s of the condensed distances" % p)
            i, j = p.arg(0), p.arg(1)
            return alg.SQRT(alg.mk_sum(d, lambda t: (lambda v: v * v)(G.arg(n, n.ins[0], (i, t)) - G.arg(n, n.ins[0], (j, t)))))
        return TF.node(ip, "contract", [x], {"fn": val}, TF.TShape((size,)), x.dtype)

    def squareform(ip, f, a, k):
        x = TF.tensor(ip, arg(a, k, 0, "tensor"))
        dims = x.shape.dims
        hit = ip.lib_state.get("condensed", {}).get(z3.simplify(zi(dims[0])).get_id()) if dims is not None and len(dims) == 1 else None
        if hit is None:
            raise Unsupported("square form of %r" % (x,))

        def val(G, n, idx):
            i, j = idx
            return z3.If(i == j, z3.RealVal(0), G.arg(n, n.ins[0], (CONDENSED(z3.If(i <= j, i, j), z3.If(i <= j, j, i)),)))
        return TF.node(ip, "contract", [x], {"fn": val}, TF.TShape((hit[1], hit[1])), x.dtype)

    def median(ip, f, a, k):
        x = TF.tensor(ip, arg(a, k, 0, "tensor"))

        def val(G, n, idx):
            q = alg.fresh("m")
            return MEDIAN(x.shape.numel(), alg.lam(q, G.arg(n, n.ins[0], TF.unflat(n.ins[0].shape, q))))
        return TF.node(ip, "contract", [x], {"fn": val}, TF.TShape(()), x.dtype)
    ip.summaries[TU + ".pdist"] = pdist
    ip.summaries[TU + ".squareform"] = squareform
    ip.summaries[TU + ".median"] = median
    ip.summaries[TU + ".safe_divide"] = safe_divide
    ip.summaries[TU + ".safe_sqrt"] = safe_sqrt


zi = N.zi


def iterm_(v):
    return v if isinstance(v, int) else v.t


# ------------------------------------------------------------------ the world a sampler lives in
ANY = object()


class World(object):
    """an arbitrary number of parameters of arbitrary shapes, cost, schedule, session and data type"""

    def __init__(self, c, ip, which, seed=ANY, batches=False, n_params=None, opts=None):
        self.c, self.ip, self.which = c, ip, which
        use_contracts(c, ip)
        tf = ip.libs["tensorflow"].d
        self.dtype = Opaque("a dtype", types=("DType",))
        self.burn = which in ("SGHMC", "SGLD")
        self.P = z3.Int("P") if n_params is None else z3.IntVal(n_params)
        c.assume(self.P >= 1)
        self.runs = []
        self.inits = []
        self.numel = z3.Function("numel_theta", I, I)
        self.vuid = new_uid()
        if which == "SVGD":
            self.d = z3.Int("d")
            c.assume(z3.And(self.P >= 2, self.d >= 1))
        self.params = PyList(SymSeq(self.P, self.param)) if n_params is None else PyList([self.param(z3.IntVal(j)) for j in range(n_params)])
        self.cost_args = []
        self.cost_fun = Builtin("cost_fun", self.cost)
        ip.lib_state.setdefault("attrs_cost_fun", {"__name__": "cost_fun"})
        self.e0 = z3.Real("stepsize_initial")
        self.eps = z3.Real("stepsize")
        self.sched_log = []
        self.schedule = Opaque("schedule", attrs={"initial_value": Sym(self.e0), "__next__": Builtin("next", self.sched_next),
                                                  "update": Builtin("update", self.sched_update)}, truth=ARB)
        self.session = Opaque("session", types=("Session",))
        self.session.attrs["run"] = Builtin("run", self.run)
        self.fed_log = []
        self.ars_calls = []
        self.minv_uid = new_uid()
        ip.lib_state["hook_ars"] = self.ars
        self.batch_key = TF.TNode("placeholder", [], {"pname": "X"}, TF.TShape(), None)
        self.batch_key2 = TF.TNode("placeholder", [], {"pname": "Y"}, TF.TShape(), None)
        self.gen = Opaque("batches", attrs={"__next__": Builtin("next", self.next_batch)}) if batches else None
        if seed is ANY:
            seed = z3.Int("seed") if c.branch(z3.Bool("seeded")) else None
        self.seed = seed
        self.opts = opts or {}
        self.kw = {"cost_fun": self.cost_fun, "stepsize_schedule": self.schedule, "session": self.session, "dtype": self.dtype,
                   "seed": None if seed is None else Sym(seed)}
        if batches:
            self.kw["batch_generator"] = self.gen
        self.kw["particles" if which == "SVGD" else "params"] = self.params
        if self.burn:
            self.B = z3.Int("B")
            c.assume(self.B >= 0)
            self.kw["burn_in_steps"] = Sym(self.B)
        self.kw.update(self.opts)

    def ars(self, ip, a, k):
        names = ["logpdf", "a", "b", "domain", "n_samples", "seed"]
        d = dict(zip(names, a))
        d.update(k)
        self.ars_calls.append(d)
        n = d.get("n_samples")
        if not is_num(n):
            raise Unsupported("number of momentum samples %r" % (n,))
        f = z3.Function("ARS", I, R)
        return PyList(SymSeq(zi(iterm_(n)), lambda t: Sym(f(t), True)))

    def pshape(self, k):
        return TF.TShape((self.d,)) if self.which == "SVGD" else TF.TShape(None, self.numel(k), ("theta", k))

    def param(self, k):
        self.c.assume(self.numel(k) >= 1)
        return TF.make_var(self.ip, "theta", self.pshape(k), idx=(k,), dtype=self.dtype, uid=self.vuid,
                           init=TF.TNode("placeholder", [], {"pname": "theta0"}, self.pshape(k), self.dtype, idx=(k,)))

    def cost(self, ip, a, k):
        self.cost_args.append(a[0])
        if self.which == "SVGD":
            if not isinstance(a[0], TF.TNode):
                raise Unsupported("the cost of several particles at once")
            return TF.node(ip, "cost", [a[0]], {"gname": "U"}, TF.TShape(()), self.dtype)
        return TF.node(ip, "cost", TF.edges(ip, a[0]), {"gname": "U"}, TF.TShape(()), self.dtype)

    def sched_next(self, ip, a, k):
        self.sched_log.append("next")
        return Sym(self.eps)

    def sched_update(self, ip, a, k):
        self.sched_log.append(("update", a, k))
        return None

    def next_batch(self, ip, a, k):
        self.fed_log.append("batch")
        i = len(self.fed_log)
        self.batch = [(self.batch_key, Opaque("inputs of batch %d" % i)), (self.batch_key2, Opaque("labels of batch %d" % i))]
        return PyDict(list(self.batch))

    def run(self, ip, a, k):
        fetches = a[0] if a else k.get("fetches")
        fd = a[1] if len(a) > 1 else k.get("feed_dict")
        if isinstance(fetches, TF.TNode) and fetches.op in ("init", "init_all", "stack", "stack_seq", "isinit"):
            return TF.run(ip, fetches)
        if isinstance(fetches, (PyList, tuple)) and only_flags(ip, fetches):
            return TF.run(ip, fetches)
        leaves = []
        res = self.result(ip, fetches, leaves)
        self.runs.append((fetches, fd, leaves, res))
        return res

    def result(self, ip, f, leaves):
        if isinstance(f, TF.TNode):
            leaves.append(f)
            o = Opaque("result", idx=f.idx, uid=("result", f.uid), attrs={"node": f})
            o.attrs["copy"] = Builtin("copy", lambda ip, a, k: o)
            for m in ("squeeze", "ravel", "flatten", "tolist"):
                # not the array of the parameter any more: its shape is arbitrary
                o.attrs[m] = Builtin(m, lambda ip, a, k, m=m: Opaque("%s() of a fetched array" % m))
            return o
        if isinstance(f, (PyList, tuple)):
            seq = ip.to_seq(f)
            items = seq.concrete()
            if items is not None:
                r = [self.result(ip, x, leaves) for x in items]
                return PyList(r)
            if not isinstance(seq, SymSeq):
                raise Unsupported("fetching %s" % type(seq).__name__)
            leaves.append(TF.Fam(seq.n, seq.elem))
            return PyList(SymSeq(seq.n, lambda t: self.result(ip, seq.elem(t), [])))
        raise PyExc(TypeError, ("Fetch argument has invalid type",))

    def construct(self):
        ip = self.ip
        n0 = len(ip.events)
        self.sampler = ip.call(ip.get(*CLS[self.which]), [], self.kw)
        self.init_events = ip.events[n0:]
        if self.runs:
            raise Unsupported("the constructor evaluates the graph")
        return self.sampler

    # ---- one step
    def step(self, burning=True, **feed):
        """run __next__ from an arbitrary state; -> the evaluated graph"""
        c, ip = self.c, self.ip
        it = z3.Int("iteration")
        c.assume(it >= 0)
        ip.setattr_(self.sampler, "n_iterations", Sym(it))
        if self.burn:
            c.assume(it < self.B if burning else it >= self.B)
            if burning is None:
                c.assume(self.B == 0)
            elif not burning:
                c.assume(self.B >= 1)
                mf = z3.Function("MINV", I, I, R)
                self.minv = PyList(SymSeq(self.P, lambda t: Opaque("minv", idx=(t,), attrs={"cell": mf}, uid=self.minv_uid)))
                ip.setattr_(self.sampler, "minv", self.minv)
        self.fed = None
        self.iteration = it
        self.state_before = dict(self.sampler.d)
        watch = ip.watch()
        self.ret = ip.call(ip.getattr_(self.sampler, "__next__"), [], feed)
        self.frame(watch.stop(), feed)
        if len(self.runs) != 1:
            raise Unsupported("a step that evaluates the graph %d times" % len(self.runs))
        self.fetches, self.fd, self.leaves, self.res = self.runs[0]
        return self.graph()

    def frame(self, changed, feed):
        """a step changes the step counter, the mass estimates and the dictionary it was passed; nothing else survives it, so the
        state this contract starts from (arbitrary counter and estimates, all else as constructed) is every state a history reaches"""
        other = []
        for o, key in changed:
            if o is self.sampler and key in ("n_iterations", "minv") or any(o is x for x in feed.values()):
                continue
            other.append("%s of %r" % (key, o))
        if other:
            self.c.undecided("a step leaves no state behind but the counter and the estimates", "a step also changes " + "; ".join(other)[:300])
        else:
            self.c.check("a step leaves no state behind but the counter and the estimates", True)

    def graph(self):
        return TF.Graph(self.ip, self.leaves, fed=self.feeder())

    def feeder(self):
        ip = self.ip
        ents = ip.rd(self.fd, "ent") if isinstance(self.fd, PyDict) else []
        memo = {}
        rint = lambda x: z3.IntVal(x) if isinstance(x, int) else x

        def cell(v):
            if is_num(v):
                return lambda idx: rterm(v)
            if isinstance(v, Opaque) and "cell" in v.attrs:
                f = v.attrs["cell"]
                return lambda idx: f(*(tuple(v.idx) + (idx[0],)))
            return lambda idx: z3.Function("FED_%s" % (v.uid if hasattr(v, "uid") else id(v)), *([I] * len(idx) + [R]))(*idx) \
                if idx else z3.Real("FED_%s" % (v.uid if hasattr(v, "uid") else id(v)))

        def fed(n):
            for e in reversed(ents):
                if isinstance(e, tuple):
                    if isinstance(e[0], TF.TNode) and e[0].uid == n.uid:
                        s = ip.same(e[0], n)
                        if s is True or (s is not False and self.c.valid(s)):
                            return cell(e[1])
                        if s is not False and self.c.feasible(s):
                            raise Unsupported("fed under a condition")
                else:
                    if id(e) not in memo:
                        j = alg.fresh("j")
                        self.c.assume(z3.Implies(rint(e.n) >= 1, z3.And(j >= 0, j < rint(e.n))))
                        memo[id(e)] = (j, e.key(j))
                    j, kn = memo[id(e)]
                    if isinstance(kn, TF.TNode) and kn.uid == n.uid:
                        if len(kn.idx) == 1 and kn.idx[0].eq(j):
                            t = z3.simplify(n.idx[0])
                            if ("v", t.get_id()) not in memo:
                                memo[("v", t.get_id())] = (cell(e.val(t)), t)
                            return memo[("v", t.get_id())][0]
                        raise Unsupported("family of fed tensors")
            return None
        return fed

    def thetas(self):
        """the fetched new parameter values, by parameter"""
        ip = self.ip
        if not isinstance(self.fetches, (PyList, tuple)):
            raise Unsupported("fetches %r" % (self.fetches,))
        return ip.to_seq(ip.seq_elem(ip.to_seq(self.fetches), 0))


# ------------------------------------------------------------------ what one step does
def at_index(node, k):
    """the member k of the family the node belongs to"""
    if not node.idx:
        return node
    if len(node.idx) != 1:
        raise Unsupported("a family with several indices")
    return TF.Subst([(node.idx[0], k)])(node)


def element(var, e):
    """index of element number e (row-major) of the variable"""
    if var.shape.dims is None:
        return (e,)
    return TF.unflat(var.shape, e)


class StepView(object):
    """one step, for an arbitrary parameter k and an arbitrary element e of it"""

    def __init__(self, w, G):
        self.w, self.G, self.c = w, G, w.c
        self.k, self.e = z3.Int("k"), z3.Int("e")
        c = self.c
        c.assume(z3.And(self.k >= 0, self.k < w.P, self.e >= 0, self.e < (w.d if w.which == "SVGD" else w.numel(self.k))))
        self.theta = at_index(w.param(self.k), self.k)
        self.vars = {}
        for uid, ws in G.writes.items():
            v = ws[0].attrs["var"]
            if v.idx and not any(v.idx[0].eq(i) for i in ws[0].idx):
                continue
            self.vars[uid] = at_index(v, self.k) if v.idx else v

    def at(self, v):
        """index of the element of v that belongs to element e of parameter k"""
        if not v.idx and v.shape.dims is not None and len(v.shape.dims) == 2 and self.w.which == "SVGD":
            return (self.k, self.e)
        return element(v, self.e)

    def old(self, v):
        return TF.state(v)(self.at(v))

    def new(self, v):
        return self.G.after(v, self.at(v))

    def grad(self):
        return z3.Function("G_U", I, I, R)(self.k, self.e)

    def initial(self, v):
        """the value the initializer gives the variable, or None"""
        init = v.attrs.get("init")
        if init is None:
            return None
        return TF.Graph(self.w.ip, [], pure=True).val(TF.tensor(self.w.ip, init), self.at(v))


def noises(t):
    """the noise values in a term"""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().name().startswith("NOISE_"):
                out.append(x)
            todo.extend(x.children())
    return out


def mentions(t, s):
    return alg.contains(t, s)


ONE = z3.RealVal(1)


def mass_spec(tau, g, v, G):
    r = 1 / (tau + 1)
    return {"tau": tau + sdiv(-(g * g * tau), v) + 1, "g": g - r * g + r * G, "v": v - r * v + r * G * G,
            "M": sdiv(ONE, ssqrt(v))}


def step_spec(which, st, G, N, eps, o, M):
    """new state by role; st: old state by role"""
    out = mass_spec(st["tau"], st["g"], st["v"], G)
    M = out.pop("M") if M is None else M
    out.pop("M", None)
    s = o["scale_grad"]
    if which == "SGHMC":
        es, m = eps / alg.SQRT(s), o["mdecay"]
        var = TF.rmax(2 * es * es * m * M - es * es * es * es, z3.RealVal(Fraction(1, 10 ** 16)))
        out["V"] = st["V"] - eps * eps * M * G - m * st["V"] + alg.SQRT(var) * N
        out["theta"] = st["theta"] + out["V"]
    else:
        A = o["A"]
        out["theta"] = st["theta"] - eps * M * A * G + ssqrt(2 * eps * sdiv(M * A, s)) * N
    return out


INITIAL = {"tau": 1, "g": 1, "v": 1, "V": 0}
ROLE_NAMES = {"tau": "the window size tau", "g": "the gradient average g", "v": "the squared gradient average v", "V": "the momentum V", "theta": "the parameter"}


def find_roles(c, view, which, spec_of):
    """which variable holds which part of the state: the assignment under which most update formulas hold"""
    roles = ["tau", "g", "v"] + (["V"] if which == "SGHMC" else [])
    news = {u: c.simp(view.new(v)) for u, v in view.vars.items()}
    olds = {u: view.old(v) for u, v in view.vars.items()}
    tid = view.theta.uid
    if tid not in news:
        c.check("the parameter is updated by a step", False, "no assignment to it runs")
        raise PathEnd()
    ns = {x.get_id(): x for x in noises(news[tid])}
    N = list(ns.values())[0] if len(ns) == 1 else z3.Real("no_single_noise")
    used = [u for u in olds if any(mentions(x, olds[u]) for x in news.values())]
    # a copy of the parameter: the variable whose new value is the new value of the parameter. It need not equal the
    # parameter before the step (the caller may have assigned the parameter or initialised it again)
    clones = [u for u in news if u != tid and c.eq_quick(news[u], news[tid])]
    rest = [u for u in used if u != tid and u not in clones]
    best = None
    for perm in itertools.permutations(rest, min(len(roles), len(rest))):
        m = dict(zip(roles, perm))
        for r in roles:
            m.setdefault(r, None)
        st = {r: (olds[u] if u is not None else z3.Real("missing_" + r)) for r, u in m.items()}
        st["theta"] = olds[tid]
        want = spec_of(st, N)
        score = 0
        for r in roles + ["theta"]:
            u = tid if r == "theta" else m[r]
            if u is not None and c.eq_quick(news[u], want[r]):
                score += 1
        if best is None or score > best[0]:
            best = (score, m, want)
        if score == len(roles) + 1:
            break
    if best is None:
        best = (0, {r: None for r in roles}, spec_of(dict({r: z3.Real("missing_" + r) for r in roles}, theta=olds[tid]), N))
    return best[1], best[2], news, N


MODES = {"burn": "during burn-in", "frozen": "after burn-in, with an arbitrary mass estimate", "noburn": "without burn-in"}


def symbolic_opts(c, which):
    s = z3.Real("scale_grad")
    o = {"scale_grad": s}
    if which == "SGHMC":
        o["mdecay"] = z3.Real("mdecay")
    else:
        o["A"] = z3.Real("A")
    return o


def guarded(fn):
    """an order the runtime may choose is S05's business; here the result is then not determined"""
    def case(c, ip):
        try:
            fn(c, ip)
        except TF.Race as e:
            c.undecided("the step has a determined result", str(e))
    return case


def mass_case(which, mode):
    @guarded
    def case(c, ip):
        o = symbolic_opts(c, which)
        w = World(c, ip, which, opts={k: Sym(v) for k, v in o.items()})
        w.construct()
        G = w.step(mode == "burn") if mode != "noburn" else w.step(None)
        view = StepView(w, G)
        M = z3.Function("MINV", I, I, R)(view.k, view.e) if mode == "frozen" else None
        roles, want, news, N = find_roles(c, view, which, lambda st, N: step_spec(which, st, view.grad(), N, w.eps, o, M))
        for r in sorted(roles):
            if roles[r] is None:
                c.check("%s is kept from step to step" % ROLE_NAMES[r], False, "no variable plays this role")
                continue
            c.prove_eq("%s is updated as documented" % ROLE_NAMES[r], news[roles[r]], want[r])
        c.prove_eq("the parameter is updated as documented", news[view.theta.uid], want["theta"])
        for r in sorted(roles):
            if roles[r] is not None:
                iv = view.initial(view.vars[roles[r]])
                if iv is None:
                    c.undecided("%s starts at %d" % (ROLE_NAMES[r], INITIAL[r]), "no initial value known")
                else:
                    c.prove_eq("%s starts at %d" % (ROLE_NAMES[r], INITIAL[r]), iv, z3.RealVal(INITIAL[r]))
    return Case("%s step %s" % (which, MODES[mode]), case, [".".join(CLS[which]) + ".__init__", BASEM + ".BurnInMCMCSampler.__next__", BASEM + ".MCMCSampler.__init__"])


CASES["S01"] = [mass_case("SGHMC", m) for m in MODES]
CASES["S02"] = [mass_case("SGLD", m) for m in MODES]


# ------------------------------------------------------------------ S03
def rel_opts(c):
    return {"mass": z3.Real("mass"), "speed_of_light": z3.Real("light"), "D": z3.Real("D"), "Bhat": z3.Real("Bhat")}


def rel_world(c, ip, **kw):
    o = rel_opts(c)
    return o, World(c, ip, "Rel", opts={k: Sym(v) for k, v in o.items()}, **kw)


@guarded
def rel_step(c, ip):
    o, w = rel_world(c, ip)
    c.assume(z3.And(o["mass"] > 0, o["speed_of_light"] > 0))
    w.construct()
    view = StepView(w, w.step())
    tid = view.theta.uid
    news = {u: c.simp(view.new(v)) for u, v in view.vars.items()}
    if not c.check("the parameter is updated by a step", tid in news, "no assignment to it runs"):
        raise PathEnd()
    olds = {u: view.old(v) for u, v in view.vars.items()}
    ns = {x.get_id(): x for x in noises(news[tid])}
    n = list(ns.values())[0] if len(ns) == 1 else z3.Real("no_single_noise")
    clones = [u for u in news if u != tid and c.eq_quick(news[u], news[tid])]
    rest = [u for u in olds if u != tid and u not in clones and any(mentions(x, olds[u]) for x in news.values())]
    if not c.check("one momentum is kept for each parameter", len(rest) == 1, "%d state variables" % len(rest)):
        raise PathEnd()
    p, e, m, l, G = olds[rest[0]], w.eps, o["mass"], o["speed_of_light"], -view.grad()
    vel = lambda p: e * p / (m * alg.SQRT(p * p / (m * m * l * l) + 1))
    p2 = p + e * G - o["D"] * vel(p) + alg.SQRT(e * (2 * o["D"] - e * o["Bhat"])) * n
    c.prove_eq("the momentum is updated as published", news[rest[0]], p2)
    c.prove_eq("the parameter is updated as published", news[tid], olds[tid] + vel(p2))


@guarded
def rel_momenta(c, ip):
    seed = z3.Int("seed")
    o, w = rel_world(c, ip, seed=seed)
    c.assume(z3.And(o["mass"] > 0, o["speed_of_light"] > 0))
    w.construct()
    if len(w.ars_calls) != 1:
        c.undecided("initial momenta are drawn by one call of the rejection sampler", "%d calls" % len(w.ars_calls))
        raise PathEnd()
    d = w.ars_calls[0]
    x = z3.Real("p")
    m, l = o["mass"], o["speed_of_light"]
    got = ip.call(d["logpdf"], [Sym(x)], {})
    if not c.check("the log density is a number", is_num(got), repr(got)):
        raise PathEnd()
    c.prove_eq("momenta follow the relativistic log density", rterm(got), -(m * l * l * alg.SQRT(x * x / (m * m * l * l) + 1)))
    dom = d.get("domain")
    it = ip.to_seq(dom).concrete() if isinstance(dom, (tuple, PyList)) else None
    c.check("momenta range over all reals", it is not None and list(it) == [float("-inf"), float("inf")], repr(dom))
    if is_num(d.get("a")) and is_num(d.get("b")):
        c.prove("the hull starts between two different points", rterm(d["a"]) < rterm(d["b"]))
    else:
        c.undecided("the hull starts between two different points", repr((d.get("a"), d.get("b"))))
    total = ISUM(w.P, lambda t: w.numel(t))
    c.prove("one momentum is drawn for every element", zi(iterm_(d["n_samples"])) == total)
    c.check("momenta are drawn with the sampler's seed", isinstance(d.get("seed"), Sym) and c.valid(d["seed"].t == seed), repr(d.get("seed")))
    view = StepView(w, w.step())
    olds = {u: view.old(v) for u, v in view.vars.items()}
    news = {u: view.new(v) for u, v in view.vars.items()}
    found = []
    for u, v in view.vars.items():
        iv = view.initial(v)
        if iv is not None and any(True for _ in find_uf(iv, "ARS")) and any(mentions(t, olds[u]) for t in news.values()):
            found.append((v, iv))
    if not c.check("the drawn values initialise the momenta", len(found) == 1, "%d variables" % len(found)):
        raise PathEnd()
    v, iv = found[0]
    # element e of parameter k gets value number (elements of the parameters before k) + e: no value is used twice
    pos = ISUM(view.k, lambda t: w.numel(t)) + view.e
    iv = c.simp(iv)
    idx = [a.arg(0) for a in find_uf(iv, "ARS")]
    if len(idx) != 1:
        c.undecided("every element has a momentum of its own", "initial value %s" % iv)
        raise PathEnd()
    c.prove_eq("initial momenta are the drawn values", iv, z3.Function("ARS", I, R)(idx[0]))
    ax = [ISUM(z3.simplify(view.k + 1), lambda t: w.numel(t)) <= total]
    c.note("prefix sums of positive numbers are increasing (induction, not discharged by the solver)")
    c.prove("every element has a momentum of its own", idx[0] == pos, ax)


def find_uf(t, name):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().name() == name:
                out.append(x)
            todo.extend(x.children())
    return out


CASES["S03"] = [Case("relativistic step", rel_step, [".".join(CLS["Rel"]) + ".__init__", BASEM + ".MCMCSampler.__next__"]),
                Case("initial momenta", rel_momenta, [".".join(CLS["Rel"]) + ".__init__", CLS["Rel"][0] + "._sample_relativistic_momentum"])]


# ------------------------------------------------------------------ S04
def svgd_world(c, ip, **kw):
    o = {"alpha": z3.Real("alpha"), "fudge_factor": z3.Real("fudge")}
    return o, World(c, ip, "SVGD", opts={k: Sym(v) for k, v in o.items()}, **kw)


def svgd_step(seed):
    @guarded
    def case(c, ip):
        o, w = svgd_world(c, ip, seed=seed)
        w.construct()
        c.check("the cost is evaluated for one particle at a time", bool(w.cost_args) and all(
            isinstance(x, TF.TNode) and x.shape.dims is not None and len(x.shape.dims) == 1 for x in w.cost_args), repr(w.cost_args))
        view = StepView(w, w.step())
        k, e, n, d = view.k, view.e, w.P, w.d
        X = z3.Function("theta", I, I, R)
        Gf = z3.Function("G_U", I, I, R)

        def D2(i, j):
            a, b = z3.If(i <= j, i, j), z3.If(i <= j, j, i)
            dist = alg.SQRT(alg.mk_sum(d, lambda t: (X(a, t) - X(b, t)) * (X(a, t) - X(b, t))))
            return z3.If(i == j, z3.RealVal(0), dist) * z3.If(i == j, z3.RealVal(0), dist)
        q = alg.fresh("m")
        size = z3.simplify(n * n)
        med = MEDIAN(size, alg.lam(q, D2(*TF.unflat(TF.TShape((n, n)), q))))
        logn = alg.LOG(z3.ToReal(n) + 1)
        c.note("the median of squared distances is not negative (T03: it is an element or the mean of two)")
        c.assume(med >= 0)
        c.assume(logn > 0)
        h2 = med / (2 * logn)
        K = lambda j: alg.EXP(-D2(k, j) / (2 * h2))
        stein = (alg.mk_sum(n, lambda j: K(j) * Gf(j, e)) - alg.mk_sum(n, lambda j: K(j) * (X(k, e) - X(j, e))) / h2) / z3.ToReal(n)
        tid = view.theta.uid
        if not c.check("the particles are updated by a step", tid in view.vars, "no assignment to them runs"):
            raise PathEnd()
        news = {u: c.simp(view.new(v)) for u, v in view.vars.items()}
        olds = {u: view.old(v) for u, v in view.vars.items()}
        rest = [u for u in olds if u != tid and any(mentions(x, olds[u]) for x in news.values())]
        if not c.check("one accumulator of squared directions is kept", len(rest) == 1, "%d state variables" % len(rest)):
            raise PathEnd()
        H = olds[rest[0]]
        H2 = o["alpha"] * H + (1 - o["alpha"]) * stein * stein
        c.prove_eq("squared directions are accumulated", news[rest[0]], H2)
        c.prove_eq("particles move along the Stein direction", news[tid], X(k, e) - w.eps * stein / (o["fudge_factor"] + alg.SQRT(H2)))
        iv = view.initial(view.vars[rest[0]])
        if iv is None:
            c.undecided("the accumulator starts at 0", "no initial value known")
        else:
            c.prove_eq("the accumulator starts at 0", iv, z3.RealVal(0))
        inits = [x for x in w.init_events if x[0] in ("run_init", "run_init_all")]
        c.check("the accumulator is initialised by the constructor", any(initialises(ip, x, view.vars[rest[0]]) for x in inits), repr(inits))
    return case


def initialises(ip, event, var):
    """does the initializer run surely include the variable (family)?"""
    if event[0] == "run_init_all":
        return var.uid < event[2]
    seq = ip.to_seq(event[1])
    parts = seq.parts if isinstance(seq, CatSeq) else [seq]
    for p in parts:
        items = p.concrete()
        if items is not None and any(isinstance(x, TF.TNode) and x.uid == var.uid for x in items):
            return True
    return False


CASES["S04"] = [Case("SVGD step, " + n, svgd_step(s), [".".join(CLS["SVGD"]) + ".__init__", ".".join(CLS["SVGD"]) + ".svgd_kernel"])
                for n, s in (("seeded", z3.Int("seed")), ("unseeded", None))]


# ------------------------------------------------------------------ worlds for the properties of all samplers
def make_world(c, ip, which, mode=None, **kw):
    if which == "Rel":
        o, w = rel_world(c, ip, **kw)
        c.assume(z3.And(o["mass"] > 0, o["speed_of_light"] > 0))
    elif which == "SVGD":
        o, w = svgd_world(c, ip, **kw)
    else:
        o = symbolic_opts(c, which)
        w = World(c, ip, which, opts={k: Sym(v) for k, v in o.items()}, **kw)
    return o, w


def do_step(w, mode):
    if mode is None:
        return w.step()
    return w.step({"burn": True, "frozen": False, "noburn": None}[mode])


VARIANTS = [("SGHMC", "burn"), ("SGHMC", "frozen"), ("SGHMC", "noburn"), ("SGLD", "burn"), ("SGLD", "frozen"), ("SGLD", "noburn"), ("Rel", None), ("SVGD", None)]


def vname(which, mode):
    return {"Rel": "relativistic SGHMC"}.get(which, which) + (" " + MODES[mode] if mode else "")


def vtargets(which):
    t = [".".join(CLS[which]) + ".__init__", BASEM + ".MCMCSampler.__init__", BASEM + ".MCMCSampler.__next__"]
    return t + ([BASEM + ".BurnInMCMCSampler.__next__"] if which in ("SGHMC", "SGLD") else [])


# ------------------------------------------------------------------ S05
def ref_var(n):
    """the variable whose buffer the tensor refers to, and the operation that hands it out"""
    while isinstance(n, TF.TNode) and not isinstance(n, TF.TVar) and n.op in ("identity", "reshape"):
        n = n.ins[0]
    if isinstance(n, TF.TVar):
        return n, n
    if isinstance(n, TF.TNode) and n.op in ("assign", "assign_add", "assign_sub"):
        return n.attrs["var"], n
    return None, None


def fetched(G, n):
    """a fetched reference is read when the step returns it: all updates must have happened by then, or be its own"""
    v, op = ref_var(n)
    if v is None or G.fed(n) is not None:
        return
    for x in G.writers(v):
        if x.uid == op.uid and all(z3.simplify(a).eq(z3.simplify(b)) for a, b in zip(x.idx, op.idx)):
            continue
        if not G.before(x, n):
            raise TF.Race("the fetched %r is unordered with an update of its variable" % (n,))


def order_case(which, mode):
    def case(c, ip):
        o, w = make_world(c, ip, which)
        w.construct()
        G = do_step(w, mode)
        view = StepView(w, G)

        def ordered(name, fn):
            try:
                fn()
                c.check(name, True)
            except TF.Race as e:
                c.check(name, False, str(e))

        for i, l in enumerate(w.leaves):
            n = l.fn(view.k) if isinstance(l, TF.Fam) else l
            ordered("result %d of the step does not depend on the order of execution" % i, lambda: (
                fetched(G, n), G.val(n, element(n, view.e) if n.shape.dims is None or n.shape.dims else ())))
        c.check("the step updates variables", bool(view.vars), "no variable is written")
        for u, v in sorted(view.vars.items()):
            ordered("the new state does not depend on the order of execution", lambda: view.new(v))
    return Case("order of execution: " + vname(which, mode), case, vtargets(which))


CASES["S05"] = [order_case(*v) for v in VARIANTS]


# ------------------------------------------------------------------ S09
def format_case(which, mode):
    @guarded
    def case(c, ip):
        o, w = make_world(c, ip, which)
        w.construct()
        G = do_step(w, mode)
        view = StepView(w, G)
        k = view.k
        if not c.check("a step returns a pair", isinstance(w.ret, tuple) and len(w.ret) == 2, repr(w.ret)):
            raise PathEnd()
        sample, cost = w.ret
        c.check("the second part is the cost", isinstance(cost, Opaque) and cost.attrs.get("node") is not None and same_node(c, cost.attrs["node"], ip.getattr_(w.sampler, "cost")), repr(cost))
        if c.branch(w.P == 1):
            n = getattr(sample, "attrs", {}).get("node") if isinstance(sample, Opaque) else None
            if not c.check("the sample of a single parameter is the bare array", n is not None, repr(sample)):
                raise PathEnd()
        else:
            if not c.check("samples of several parameters are a list", isinstance(sample, PyList) and ip.rd(sample, "seq") is not None, repr(sample)):
                raise PathEnd()
            seq = ip.to_seq(sample)
            c.prove("there is one array for every parameter", zi(seq.n) == w.P)
            r = ip.seq_elem(seq, Sym(k))
            n = r.attrs.get("node") if isinstance(r, Opaque) else None
            if not c.check("every array is a fetched value", n is not None, repr(r)):
                raise PathEnd()
        eq = TF.shape_eq(ip, n.shape, view.theta.shape)
        if eq is None:
            c.undecided("arrays have the shape of the parameter", repr((n.shape, view.theta.shape)))
            raise PathEnd()
        c.prove("arrays have the shape of the parameter", z3.BoolVal(eq) if isinstance(eq, bool) else eq)
        fetched(G, n)
        c.prove_eq("arrays are the value of the parameter after the step", G.val(n, element(n, view.e)), view.new(view.theta))
    return Case("format of samples: " + vname(which, mode), case, vtargets(which))


def same_node(c, a, b):
    return isinstance(a, TF.TNode) and isinstance(b, TF.TNode) and a.uid == b.uid and len(a.idx) == len(b.idx) and all(c.valid(x == y) for x, y in zip(a.idx, b.idx))


CASES["S09"] = [format_case(*v) for v in VARIANTS]


# ------------------------------------------------------------------ S10
def noise_case(which, mode, seeded):
    @guarded
    def case(c, ip):
        seed = z3.Int("seed") if seeded else None
        o, w = make_world(c, ip, which, seed=seed)
        w.construct()
        G = do_step(w, mode)
        view = StepView(w, G)
        k, e = view.k, view.e
        ns = {x.get_id(): x for x in noises(c.simp(view.new(view.theta)))}
        if not c.check("the update uses one noise value for each element", len(ns) == 1, "%d noise values" % len(ns)):
            raise PathEnd()
        x = list(ns.values())[0]
        uid = int(x.decl().name()[6:])
        nodes = [n for n in G.nodes.get(uid, ())]
        if not c.check("the noise is drawn afresh in every step", bool(nodes), "the random operation does not run"):
            raise PathEnd()
        n = nodes[0]
        if not c.check("every parameter has a random operation of its own", len(n.idx) == 1 and x.num_args() == 2, "noise %s" % x):
            raise PathEnd()
        n = at_index(n, k)
        c.prove("the noise of a parameter comes from its own random operation", x.arg(0) == k)
        c.prove("every element has a noise value of its own", x.arg(1) == e)
        c.prove("one value is drawn for each element", zi(n.shape.numel()) == w.numel(k))
        c.check("the noise has the sampler's precision", n.dtype is w.dtype, repr(n.dtype))
        s = n.attrs.get("seed")
        if not seeded:
            c.check("without a seed the random operations are unseeded", s is None, repr(s))
            return
        if not c.check("with a seed the random operations are seeded", s is not None and is_num(s), repr(s)):
            raise PathEnd()
        st = zi(iterm_(s))
        c.check("the streams are a function of the seed", free(st) <= {"seed", "k"}, str(st))
        k2 = z3.Int("k2")
        c.prove("different parameters have different random streams", z3.Implies(z3.And(k2 >= 0, k2 < w.P, k2 != k), z3.substitute(st, (k, k2)) != st))
        s2 = z3.Int("seed2")
        c.prove("different seeds give different random streams", z3.Implies(s2 != seed, z3.substitute(st, (seed, s2)) != st))
    return Case("noise, %s: %s" % ("seeded" if seeded else "unseeded", vname(which, mode)), case, vtargets(which) + [BASEM + ".MCMCSampler._draw_noise_sample"])


def free(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo.extend(x.children())
    return out


CASES["S10"] = [noise_case(w, m, s) for w, m in VARIANTS if w != "SVGD" and m != "noburn" for s in (False, True)]


# ------------------------------------------------------------------ S08 (construction), S11
def schedule_case(which, mode):
    @guarded
    def case(c, ip):
        o, w = make_world(c, ip, which)
        w.construct()
        c.check("the constructor does not advance the schedule", w.sched_log == [], repr(w.sched_log))
        G = do_step(w, mode)
        view = StepView(w, G)
        c.check("a step advances the given schedule once and then informs it", [x if isinstance(x, str) else x[0] for x in w.sched_log] == ["next", "update"], repr(w.sched_log))
        new = c.simp(view.new(view.theta))
        c.check("the update uses the value of the schedule", mentions(new, w.eps), str(new)[:300])
        other = z3.Real("stepsize_initial_other")
        for v in view.vars.values():
            t = c.simp(view.new(v))
            c.prove_eq("after construction the initial value of the schedule has no influence on a step", t, z3.substitute(t, (w.e0, other)))
        fedvars = [e[0] for e in ip.rd(w.fd, "ent") if isinstance(e, tuple) and isinstance(e[0], TF.TVar)] if isinstance(w.fd, PyDict) else []
        mine = [v for v in fedvars if v.shape.dims == ()]
        if not c.check("the stepsize is fed into a scalar variable", len(mine) >= 1, repr(fedvars)):
            raise PathEnd()
        c.check("the update uses no other stepsize", not any(mentions(new, TF.state(v)(())) for v in all_scalars(G)), str(new)[:300])
        for v in mine:
            iv = v.attrs.get("init")
            if iv is None:
                c.undecided("the stepsize variable starts at the schedule's initial value", "no initial value known")
                continue
            c.prove_eq("the stepsize variable starts at the schedule's initial value", TF.Graph(ip, [], pure=True).val(TF.tensor(ip, iv), ()), w.e0)
            c.check("the stepsize variable is initialised by the constructor", any(
                initialises(ip, x, v) for x in w.init_events if x[0] in ("run_init", "run_init_all")), repr(w.init_events))
    return Case("stepsize schedule: " + vname(which, mode), case, vtargets(which) + [BASEM + ".MCMCSampler._next_stepsize"])


def all_scalars(G):
    return [n for ns in G.nodes.values() for n in ns if isinstance(n, TF.TVar) and not n.idx and n.shape.dims == ()]


CASES["S08"] = [schedule_case(*v) for v in VARIANTS]


def init_members(c, ip, w, events):
    """for an arbitrary parameter k: the condition under which the initializers that ran include it"""
    k = z3.Int("k")
    theta = w.param(k)
    conds = []
    for ev in events:
        if ev[0] == "run_init_all":
            conds.append(z3.BoolVal(theta.uid < ev[2]))
            continue
        if ev[0] != "run_init":
            raise Unsupported("constructor event %s" % ev[0])
        seq = ip.to_seq(ev[1])
        for p in (seq.parts if isinstance(seq, CatSeq) else [seq]):
            items = p.concrete()
            if items is not None:
                conds.extend(same_var(c, x, theta) for x in items)
            elif isinstance(p, FilterSeq):
                q = alg.fresh("q")
                x = p.fn(q)
                s = same_var(c, x, theta)
                if s is not False:
                    conds.append(exists_index(s, q, z3.And(q >= 0, q < zi(p.m), p.cond(q))))
            elif isinstance(p, SymSeq):
                q = alg.fresh("q")
                s = same_var(c, p.elem(q), theta)
                if s is not False:
                    conds.append(exists_index(s, q, z3.And(q >= 0, q < zi(p.n))))
            else:
                raise Unsupported("initialised variables %s" % type(p).__name__)
    conds = [z3.BoolVal(x) if isinstance(x, bool) else x for x in conds]
    return k, z3.simplify(z3.Or(*conds)) if conds else z3.BoolVal(False)


def same_var(c, x, theta):
    if not isinstance(x, TF.TVar):
        raise Unsupported("initialised %r" % (x,))
    if x.uid != theta.uid:
        return False
    return z3.And([a == b for a, b in zip(x.idx, theta.idx)])


def exists_index(same, q, cond):
    """exists q: same(q) and cond(q), where same fixes q"""
    for eq in ([same] if z3.is_eq(same) else same.children()):
        if z3.is_eq(eq) and eq.arg(0).eq(q):
            return z3.substitute(z3.And(same, cond), (q, eq.arg(1)))
    return z3.Exists([q], z3.And(same, cond))


def only_flags(ip, fetches):
    """a list of tests whether variables are initialised"""
    seq = ip.to_seq(fetches)
    for p in (seq.parts if isinstance(seq, CatSeq) else [seq]):
        items = p.concrete()
        if items is None:
            if not isinstance(p, SymSeq):
                return False
            items = [p.elem(alg.fresh("i"))]
        if not all(isinstance(x, TF.TNode) and x.op == "isinit" for x in items):
            return False
    return True


def init_case(which):
    @guarded
    def case(c, ip):
        o, w = make_world(c, ip, which)
        w.construct()
        k, cond = init_members(c, ip, w, w.init_events)
        c.assume(z3.And(k >= 0, k < w.P))
        c.prove("parameters that are initialised keep their values", z3.Implies(TF.INIT(w.param(k)), z3.Not(cond)))
        c.prove("parameters that are not initialised get initialised", z3.Implies(z3.Not(TF.INIT(w.param(k))), cond))
        view = StepView(w, do_step(w, "burn" if which in ("SGHMC", "SGLD") else None))
        news = {u: view.new(v) for u, v in view.vars.items()}
        tid = view.theta.uid
        if tid not in news:
            c.undecided("the update starts from the assigned values", "no update of the parameter runs")
            raise PathEnd()
        olds = {u: view.old(v) for u, v in view.vars.items()}
        copies = [v for u, v in view.vars.items() if u != tid and u in news and mentions(news[tid], olds[u]) and c.eq_quick(news[u], news[tid])]
        c.check("the update starts from the parameter itself, not from a copy", not copies,
                "%r holds a copy: values assigned to the parameter after construction are lost" % copies)
        c.check("the update starts from the value of the parameter", mentions(c.simp(news[tid]), olds[tid]), "its old value does not enter")
    return Case("initialisation: " + vname(which, None), case, vtargets(which) + [TU + ".uninitialized_params"])


def uninit_case(c, ip):
    use_contracts(c, ip)
    n = z3.Int("n")
    c.assume(n >= 1)
    uid = new_uid()
    vs = PyList(SymSeq(n, lambda t: TF.make_var(ip, "v", TF.any_shape("v", (t,)), idx=(t,), uid=uid)))
    session = Opaque("session", types=("Session",))
    session.attrs["run"] = Builtin("run", lambda ip, a, k: TF.run(ip, a[0] if a else k["fetches"]))
    out = ip.call(ip.get(TU, "uninitialized_params"), [], {"params": vs, "session": session})
    seq = ip.to_seq(out)
    q = z3.Int("q")
    c.assume(z3.And(q >= 0, q < n))
    if isinstance(seq, CatSeq) and all(p.concrete() == [] for p in seq.parts[:-1]):
        seq = seq.parts[-1]
    if not isinstance(seq, FilterSeq):
        c.undecided("the helper returns the uninitialised variables in order", type(seq).__name__)
        return
    x = seq.fn(q)
    c.prove("the helper looks at every variable", zi(seq.m) == n)
    c.prove("the helper selects exactly the uninitialised variables", seq.cond(q) == z3.Not(TF.INIT(ip.seq_elem(ip.to_seq(vs), Sym(q)))))
    if c.check("the helper returns the variables themselves", isinstance(x, TF.TVar) and x.uid == uid, repr(x)):
        c.prove("the helper keeps their order", x.idx[0] == q)


CASES["S11"] = [init_case(w) for w in CLS] + [Case("uninitialised variables", uninit_case, [TU + ".uninitialized_params"])]
