"""G01-G03: diagnostics (pysgmcmc/diagnostics/*.py)."""
import z3
from pyvc import alg
from pyvc.values import *
from pyvc.core import PyExc, Unsupported, PathEnd
from pyvc.spec import Case, pure
from pyvc.interp import SliceV, StarBulk
from pyvc import lib_np as N
from contracts.models import cellv, shape_is

CHAINS = "pysgmcmc.diagnostics.sample_chains"
TR = CHAINS + ".PYSGMCMCTrace."
CASES = {}
I, R = alg.I, alg.R


def varname(j):
    """the j-th variable name; different positions have different names"""
    return Opaque("name", idx=(j if z3.is_expr(j) else z3.IntVal(j),), uid="varname", types=("str",))


FLOATS = ("float", "numpy float")


class TraceWorld(object):
    def __init__(self, c, ip, kind="list", named=True):
        self.c, self.ip, self.kind = c, ip, kind
        self.S, self.V = z3.Int("S"), z3.Int("V") if kind not in FLOATS else z3.IntVal(1)
        c.assume(z3.And(self.S >= 1, self.V >= 1))
        self.VAL = z3.Function("VAL", I, I, R)
        if kind == "list":
            one = lambda s: PyList(SymSeq(self.V, lambda v: Sym(self.VAL(s, v), True)))
        elif kind == "tuple":
            one = lambda s: PyList(SymSeq(self.V, lambda v: Sym(self.VAL(s, v), True)), kind="tuple")
        elif kind == "array":
            one = lambda s: N.fresh_arr(lambda v: self.VAL(s, v), (self.V,))
        else:
            one = lambda s: Sym(self.VAL(s, z3.IntVal(0)), kind == "numpy float")
        self.samples = PyList(SymSeq(self.S, one))
        self.names = PyList(SymSeq(self.V, varname)) if kind not in FLOATS else PyList([varname(0)])
        self.named = named
        self.cls = ip.get(CHAINS, "PYSGMCMCTrace")
        self.chain = Opaque("chain id")
        args = [self.chain, self.samples] + ([self.names] if named else [])
        self.t = ip.call(self.cls, args, {})

    def name(self, j):
        if self.named:
            return varname(j)
        return self.ip.seq_elem(self.ip.to_seq(self.ip.getattr_(self.t, "varnames")), Sym(j))


def values_are(c, ip, w, name, r, j, n, at):
    """r is the array of the values of variable j at the iterations at(t), 0 <= t < n"""
    t = z3.Int("t")
    if not shape_is(c, name + ": one value for each iteration", r, (n,)):
        return
    c.prove_eq(name + ": the recorded values in order", cellv(ip, r, t), w.VAL(at(t), j), [t >= 0, t < N.zi(n)])


def g01_values(kind, named):
    def case(c, ip):
        w = TraceWorld(c, ip, kind, named)
        j = z3.Int("j")
        c.assume(z3.And(j >= 0, j < w.V))
        burn, thin = z3.Int("burn"), z3.Int("thin")
        c.assume(z3.And(burn >= 0, thin >= 1))
        get = ip.getattr_(w.t, "get_values")
        n = ip.call(ip.builtins["len"], [w.t], {})
        c.prove("the length of a trace is the number of samples", iterm(n) == w.S)
        nm = w.name(j)
        c.check("the chain id is kept", ip.getattr_(w.t, "chain") is w.chain, "")
        c.prove("as many names as variables", iterm(ip.to_seq(ip.getattr_(w.t, "varnames")).n) == w.V)
        values_are(c, ip, w, "values by name", pure(c, ip, get, [nm], {}), j, w.S, lambda t: t)
        values_are(c, ip, w, "values by position", pure(c, ip, ip.getattr_(w.t, "__getitem__"), [Sym(j)], {}), j, w.S, lambda t: t)
        left = z3.If(burn >= w.S, 0, (w.S - burn + thin - 1) / thin)
        values_are(c, ip, w, "values after burn-in, thinned", pure(c, ip, get, [nm], {"burn": Sym(burn), "thin": Sym(thin)}), j, left, lambda t: burn + t * thin)
        values_are(c, ip, w, "values after burn-in", pure(c, ip, get, [nm, Sym(burn)], {}), j, z3.If(burn >= w.S, 0, w.S - burn), lambda t: burn + t)
    return case


def g01_point(kind, named, end=False):
    def case(c, ip):
        w = TraceWorld(c, ip, kind, named)
        s, v = z3.Int("s"), z3.Int("v")
        c.assume(z3.And(s >= 0, s < w.S, v >= 0, v < w.V))
        # positions count from the end of the trace when negative
        p = pure(c, ip, ip.getattr_(w.t, "point"), [Sym(s - w.S if end else s)], {})
        if not c.check("a point is a dict", isinstance(p, PyDict), repr(p)):
            return
        nk = ip.to_seq(ip.dict_keys_seq(p)).n
        c.prove("a point has each variable once", iterm(nk) == w.V)
        x = ip.dict_get(p, w.name(v), MISSING)
        if c.check("a point has every variable", x is not MISSING, repr(x)):
            c.prove_eq("a point has the value of the variable in that iteration", cellv(ip, x), w.VAL(s, v))
    return case


def g01_slice(kind, named, form):
    def case(c, ip):
        w = TraceWorld(c, ip, kind, named)
        lo, hi, st = z3.Int("lo"), z3.Int("hi"), z3.Int("step")
        c.assume(z3.And(lo >= 0, lo < (hi - 1 if form == "step down" else hi), hi <= w.V, st >= 1))
        sl, n, at = {
            "all": (SliceV(None, None, None), w.V, lambda q: q), "from": (SliceV(Sym(lo), None, None), w.V - lo, lambda q: lo + q),
            "to": (SliceV(None, Sym(hi), None), hi, lambda q: q), "range": (SliceV(Sym(lo), Sym(hi), None), hi - lo, lambda q: lo + q),
            "step": (SliceV(Sym(lo), Sym(hi), Sym(st)), (hi - lo + st - 1) / st, lambda q: lo + q * st),
            "reversed": (SliceV(None, None, -1), w.V, lambda q: w.V - 1 - q), "step down": (SliceV(Sym(hi - 1), Sym(lo), Sym(-st)), (hi - 1 - lo + st - 1) / st, lambda q: hi - 1 - q * st),
            "last": (SliceV(Sym(lo - w.V), None, None), w.V - lo, lambda q: lo + q)}[form]
        t = pure(c, ip, ip.getattr_(w.t, "_slice"), [sl], {})
        q, k = z3.Int("q"), z3.Int("k")
        c.assume(z3.And(q >= 0, q < n, k >= 0, k < w.S))
        # there is a variable at this position of the whole trace
        c.assume(z3.And(at(q) >= 0, at(q) < w.V))
        if not c.check("a slice is a trace", isinstance(t, PyInstance) and t.cls is w.cls, repr(t)):
            return
        names = ip.to_seq(ip.getattr_(t, "varnames"))
        c.prove("a slice has the sliced variables", iterm(names.n) == n)
        nm = names.concrete()[0] if names.concrete() else ip.seq_elem(names, Sym(q))
        want = w.name(at(q))
        r = ip.same(nm, want)
        c.prove("the names of a slice are those of its variables", r if not isinstance(r, bool) else z3.BoolVal(r))
        c.prove("a slice has all iterations", iterm(ip.call(ip.builtins["len"], [t], {})) == w.S)
        c.check("a slice keeps the chain id", ip.getattr_(t, "chain") is w.chain, "")
        try:
            r = pure(c, ip, ip.getattr_(t, "get_values"), [want], {})
        except PyExc as e:
            # the path assumes that no position of the slice has this name; position q has it
            absent = [z3.substitute_vars(f.body(), q) for f in c.pc if z3.is_quantifier(f) and f.num_vars() == 1]
            c.prove("the names of a slice are known", z3.Not(z3.And(absent)) if absent else z3.BoolVal(False))
            return
        values_are(c, ip, w, "values of a slice", r, at(q), w.S, lambda x: x)
    return case


def g01_unknown(c, ip):
    w = TraceWorld(c, ip)
    burn, thin = z3.Int("burn"), z3.Int("thin")
    c.assume(z3.And(burn >= 0, thin >= 1))
    other = Opaque("another name", types=("str",))
    for args, kw in (([other], {}), ([other, Sym(burn), Sym(thin)], {})):
        try:
            pure(c, ip, ip.getattr_(w.t, "get_values"), args, kw)
        except PyExc as e:
            c.check("unknown names raise a value error", e.cls is ValueError, str(e))
            continue
        c.check("unknown names raise a value error", False, "no error")


def g01_reject(what):
    def case(c, ip):
        S, V, n = z3.Int("S"), z3.Int("V"), z3.Int("n_names")
        c.assume(z3.And(S >= 0, V >= 0, n >= 0))
        c.assume({"no samples": z3.And(S == 0, V == n, V >= 1), "no variables": z3.And(S >= 1, V == 0, n == 0),
                  "wrong number of names": z3.And(S >= 1, V >= 1, n != V)}[what])
        VAL = z3.Function("VAL", I, I, R)
        samples = PyList([]) if what == "no samples" else PyList(SymSeq(S, lambda s: PyList(SymSeq(V, lambda v: Sym(VAL(s, v), True)))))
        for names in ([], [PyList(SymSeq(n, varname))]):
            if what == "wrong number of names" and not names:
                continue
            try:
                ip.call(ip.get(CHAINS, "PYSGMCMCTrace"), [Opaque("chain id"), samples] + names, {})
            except PyExc as e:
                c.check("rejected: " + what, e.cls in (AssertionError, ValueError, IndexError, TypeError), str(e))
                continue
            c.prove("rejected: " + what, z3.BoolVal(False))
    return case


def g01_arrays(c, ip):
    """the values of the variables are vectors"""
    S, V, L = z3.Int("S"), z3.Int("V"), z3.Int("L")
    c.assume(z3.And(S >= 1, V >= 1, L >= 1))
    VAL = z3.Function("VAL3", I, I, I, R)
    samples = PyList(SymSeq(S, lambda s: PyList(SymSeq(V, lambda v: N.fresh_arr(lambda e: VAL(s, v, e), (L,))))))
    t = ip.call(ip.get(CHAINS, "PYSGMCMCTrace"), [Opaque("chain id"), samples, PyList(SymSeq(V, varname))], {})
    j, k, e = z3.Int("j"), z3.Int("k"), z3.Int("e")
    c.assume(z3.And(j >= 0, j < V, k >= 0, k < S, e >= 0, e < L))
    r = pure(c, ip, ip.getattr_(t, "get_values"), [varname(j)], {})
    if shape_is(c, "one vector for each iteration", r, (S, L)):
        c.prove_eq("the recorded vectors in order", cellv(ip, r, k, e), VAL(k, j, e))
    r = pure(c, ip, ip.getattr_(t, "__getitem__"), [Sym(j)], {})
    if shape_is(c, "one vector for each iteration, by position", r, (S, L)):
        c.prove_eq("the recorded vectors in order, by position", cellv(ip, r, k, e), VAL(k, j, e))


CASES["G01"] = [Case("values: samples are %ss%s" % (k, "" if nm else ", no names given"), g01_values(k, nm), [TR + "__init__", TR + "get_values", TR + "__getitem__", TR + "__len__"])
                for k in ("list", "tuple", "array", "float", "numpy float") for nm in (True, False)] + [
    Case("points: samples are %ss%s" % (k, "" if nm else ", no names given"), g01_point(k, nm), [TR + "__init__", TR + "point"])
    for k in ("list", "array", "float") for nm in (True, False)] + [
    Case("points from the end: samples are %ss" % k, g01_point(k, True, True), [TR + "__init__", TR + "point"]) for k in ("list", "array", "float")] + [
    Case("slices: samples are %ss, %s" % (k, f), g01_slice(k, True, f), [TR + "__init__", TR + "_slice", TR + "get_values"])
    for k in ("list", "array") for f in ("all", "from", "to", "range", "step", "reversed", "step down", "last")] + [
    Case("slices of an unnamed trace", g01_slice("list", False, "range"), [TR + "_slice"]), Case("slices of a trace of numbers", g01_slice("float", True, "all"), [TR + "_slice"]),
    Case("unknown names", g01_unknown, [TR + "get_values"]), Case("vector values", g01_arrays, [TR + "__init__", TR + "get_values", TR + "__getitem__"])] + [
    Case("rejects: " + x, g01_reject(x), [TR + "__init__"]) for x in ("no samples", "no variables", "wrong number of names")]


# ------------------------------------------------------------------ G02
class FakeSampler(object):
    """a sampler: an endless chain of samples of P parameters, standing at step `pos`"""

    def __init__(self, ip, idx, P, value, pos=0, single=False, names=varname):
        self.ip, self.idx, self.P, self.single = ip, tuple(idx), P, single

        def sample(k):
            if single:
                s = value(self.idx, k, z3.IntVal(0))
            else:
                s = PyList(SymSeq(P, lambda j: value(self.idx, k, j)))
            return (s, Opaque("cost", idx=self.idx + (k,), uid="cost"))
        param = lambda j: Opaque("parameter", idx=(j,), uid="parameter", attrs={"name": names(j)})
        self.params = PyList([param(z3.IntVal(0))]) if single else PyList(SymSeq(P, param))
        self.it = PyIter(SymSeq(None, sample), pos)
        self.uid = new_uid()

    def getattr(self, ip, name):
        if name in ("params", "particles"):
            return self.params
        if name == "__next__":
            return Builtin("__next__", lambda ip, a, k: self.next_value(ip))
        if name == "__iter__":
            return Builtin("__iter__", lambda ip, a, k: self)
        return MISSING

    def draw(self, ip):
        ip.events.append(("draw", self.uid))

    def next_value(self, ip, default=MISSING):
        self.draw(ip)
        return ip.next_(self.it)

    def stream(self, ip):
        from pyvc.lib_py import lazy_src
        seq, use = lazy_src(ip, self.it)

        def used(n):
            self.draw(ip)
            use(n)
        return seq, used

    def remaining(self, ip):
        self.draw(ip)
        return ip.remaining(self.it)

    def advance(self, ip, n):
        ip._advance_total(self.it, n, self.it.seq)


def flat_events(events):
    """the events with those of one round of an inner loop that only draws in the loop's place"""
    out = []
    for e in events:
        e = tuple(e)
        if e and e[0] == "loop":
            inner = flat_events(e[2](alg.fresh("round")))
            out.extend(inner if all(x[0] == "draw" for x in inner) else [e])
        else:
            out.append(e)
    return out


def trace_is(c, ip, what, t, P, n, at, value, names, single, vector=None):
    """t is the trace of n samples of P parameters, sample k taken at step at(k)"""
    cls = ip.get(CHAINS, "PYSGMCMCTrace")
    if not c.check(what + ": a trace", isinstance(t, PyInstance) and t.cls is cls, repr(t)):
        return
    c.prove(what + ": the requested number of samples", iterm(ip.call(ip.builtins["len"], [t], {})) == n)
    j, k = z3.Int("j"), z3.Int("k")
    vn = ip.to_seq(ip.getattr_(t, "varnames"))
    c.prove(what + ": one name for each parameter", iterm(vn.n) == P)
    hyp = [j >= 0, j < P, k >= 0, k < n]
    c.assume(z3.And(hyp))
    jj = z3.IntVal(0) if single else j
    nm = vn.concrete()[0] if vn.concrete() else ip.seq_elem(vn, Sym(j))
    r = ip.same(nm, names(jj))
    c.prove(what + ": the names", r if not isinstance(r, bool) else z3.BoolVal(r))
    r = pure(c, ip, ip.getattr_(t, "get_values"), [names(jj)], {})
    if vector is None:
        if shape_is(c, what + ": one value per sample", r, (n,)):
            c.prove_eq(what + ": exactly the samples one thinning interval apart, in order", cellv(ip, r, k), value(at(k), jj))
    else:
        e = z3.Int("e")
        c.assume(z3.And(e >= 0, e < vector))
        if shape_is(c, what + ": one vector per sample", r, (n, vector)):
            c.prove_eq(what + ": exactly the samples one thinning interval apart, in order", cellv(ip, r, k, e), value(at(k), jj, e))


def given(j):
    return Opaque("name", idx=(j if z3.is_expr(j) else z3.IntVal(j),), uid="givenname", types=("str",))


def g02_single(single, named, vector=False, default_thin=False):
    def case(c, ip):
        P = z3.IntVal(1) if single else z3.Int("P")
        n, h, p0, L = z3.Int("n_samples"), z3.Int("keep_every"), z3.Int("position"), z3.Int("L")
        c.assume(z3.And(P >= (1 if single else 2), n >= 1, h >= 1, p0 >= 0, L >= 1))
        V = z3.Function("VAL", I, I, R)
        W = z3.Function("VALV", I, I, I, R)
        value = (lambda k, j, e: W(k, j, e)) if vector else (lambda k, j: V(k, j))
        mkv = (lambda idx, k, j: N.fresh_arr(lambda e: W(k, j, e), (L,))) if vector else (lambda idx, k, j: Sym(V(k, j), True))
        s = FakeSampler(ip, (), P, mkv, Sym(p0), single)
        names = given if named else varname
        kw = {"chain_id": Opaque("chain id"), "sampler": s, "n_samples": Sym(n)}
        if not default_thin:
            kw["keep_every"] = Sym(h)
        if named:
            kw["varnames"] = PyList([names(0)]) if single else PyList(SymSeq(P, names))
        t = ip.call(ip.getattr_(ip.get(CHAINS, "PYSGMCMCTrace"), "from_sampler"), [], kw)
        trace_is(c, ip, "trace", t, P, n, (lambda k: p0 + k) if default_thin else (lambda k: p0 + k * h), value, names, single, L if vector else None)
        if isinstance(t, PyInstance):
            c.check("trace: the given chain id", ip.getattr_(t, "chain") is kw["chain_id"], "")
    return case


CASES["G02"] = [Case("one chain: %s, %s" % (w, "names given" if nm else "no names given"), g02_single(sg, nm, vec, dt), [TR + "from_sampler", TR + "__init__"])
                for w, sg, vec, dt in (("any number of parameters", False, False, False), ("one parameter", True, False, False),
                                       ("vector parameters", False, True, False), ("one vector parameter", True, True, False), ("no thinning", False, False, True))
                for nm in (True, False)]


class Chains(object):
    """graphs, sessions and samplers of a multi-chain trace"""

    def __init__(self, c, ip, single):
        self.c, self.ip, self.single = c, ip, single
        self.P = z3.IntVal(1) if single else z3.Int("P")
        c.assume(self.P >= (1 if single else 2))
        self.V = z3.Function("VAL", I, I, I, R)
        self.multi = []
        self.result = {}
        ip.lib_state["hook_Session"] = self.session
        ip.lib_state["hook_Graph"] = self.graph
        ip.lib_state["hook_MultiTrace"] = self.multitrace
        for n in ("effective_n", "gelman_rubin"):
            ip.lib_state["hook_" + n] = lambda ip, a, k, n=n: self.diagnostic(n, a, k)
        self.get_sampler = Builtin("get_sampler", self.make)

    def graph(self, ip):
        u = new_uid()
        ev = lambda what: Builtin(what, lambda ip, a, k: ip.events.append((what + " graph", u)))
        g = Opaque("graph", idx=tuple(ip.idx_stack), uid=u, types=("Graph",))
        cm = Opaque("default graph", idx=tuple(ip.idx_stack), attrs={"__enter__": ev("enter"), "__exit__": ev("exit")})
        g.attrs["as_default"] = Builtin("as_default", lambda ip, a, k: cm)
        ip.events.append(("graph", u))
        return g

    def session(self, ip, kind, k):
        u = new_uid()
        g = k.get("graph")
        s = Opaque("session", idx=tuple(ip.idx_stack), uid=u, types=(kind,))

        def enter(ip, a, k):
            ip.events.append(("enter session", u))
            return s

        def run(ip, a, k):
            f = a[0] if a else k.get("fetches")
            ip.events.append(("run", u, f))
            return None
        s.attrs.update({"__enter__": Builtin("enter", enter), "__exit__": Builtin("exit", lambda ip, a, k: ip.events.append(("exit session", u))),
                        "run": Builtin("run", run), "graph": g, "close": Builtin("close", lambda ip, a, k: ip.events.append(("close session", u)))})
        ip.events.append(("session", u, g.uid if isinstance(g, Opaque) else 0))
        return s

    def make(self, ip, a, k):
        d = dict(zip(["session"], a))
        d.update(k)
        idx = tuple(ip.idx_stack)[-1:] or (z3.IntVal(-1),)
        s = FakeSampler(ip, idx, self.P, lambda idx, k, j: Sym(self.V(idx[0], k, j), True), 0, self.single)
        v = d.get("session")
        ip.events.append(("sampler", s.uid, v.uid if isinstance(v, Opaque) else 0, len(idx), tuple(sorted(d))))
        return s

    def multitrace(self, ip, a, k):
        d = dict(zip(["straces"], a))
        d.update(k)
        m = Opaque("multitrace")
        self.multi.append((m, d.get("straces")))
        return m

    def diagnostic(self, n, a, k):
        m = a[0] if a else k.get("mtrace")
        r = Opaque("result of " + n)
        self.result[n] = (r, m, a[1:], k)
        return r

    def protocol(self, n):
        """the events of every chain"""
        c, ip = self.c, self.ip
        loops = [e for e in ip.events if e[0] == "loop"]
        rest = [e for e in ip.events if e[0] != "loop"]
        t = z3.Int("chain")
        if len(loops) != 1 or rest:
            return c.undecided("a graph, session and sampler for each chain", "events %s beside %d loops" % ([e[0] for e in rest], len(loops)))
        c.prove("one round for each chain", iterm(loops[0][1]) == n)
        ev = flat_events(loops[0][2](t))
        if any(e[0] == "loop" for e in ev):
            return c.undecided("a graph, session and sampler for each chain", "inner loops that do more than draw samples")
        kinds = [e[0] for e in ev]
        sm = [e for e in ev if e[0] == "sampler"]
        if not c.check("each chain builds one sampler", len(sm) == 1, repr(kinds)):
            return
        sm = sm[0]
        at = ev.index(sm)
        ses = [e for e in ev if e[0] == "session"]
        own = [e for e in ses if e[1] == sm[2]]
        if not c.check("each chain's sampler gets the chain's own session", len(own) == 1 and sm[4] == ("session",), repr((kinds, sm))):
            return
        s = own[0]
        graphs = [e[1] for e in ev if e[0] == "graph"]
        # the graph that is current when something is built: the innermost one entered
        stack = []
        g_at_session, g_at_sampler = None, None
        entered = False
        for i, e in enumerate(ev):
            if e[0] == "enter graph":
                stack.append(e[1])
            elif e[0] == "exit graph":
                stack.pop()
            elif e[0] == "session" and e is s:
                g_at_session = e[2] or (stack[-1] if stack else None)
            elif e[0] == "enter session" and e[1] == s[1]:
                stack.append(g_at_session)
            elif e[0] == "exit session" and e[1] == s[1]:
                stack.pop()
            elif e is sm:
                g_at_sampler = stack[-1] if stack else None
        c.check("each chain has a graph of its own", g_at_session in graphs, repr(ev))
        c.check("each chain's sampler is built in the chain's graph", g_at_sampler is not None and g_at_sampler == g_at_session, repr(ev))
        inits = [i for i, e in enumerate(ev) if e[0] == "run" and e[1] == s[1] and isinstance(e[2], TF.TNode) and e[2].op == "init_all" and e[2].uid > sm[1]]
        draws = [i for i, e in enumerate(ev) if e[0] == "draw"]
        closed = [i for i, e in enumerate(ev) if e[0] in ("exit session", "close session") and e[1] == s[1]]
        if not draws:
            return c.undecided("variables are initialised before the first sample", "no samples seen")
        c.check("variables are initialised before the first sample", bool(inits) and min(inits) < min(draws), repr(ev))
        c.check("samples are taken while the session is open", not closed or max(draws) < min(closed), repr(ev))
        c.check("samples come from the chain's own sampler", all(ev[i][1] == sm[1] for i in draws), repr(ev))

    def check(self, n, per, every, names):
        c, ip = self.c, self.ip
        if not c.check("one multi-chain trace", len(self.multi) == 1, len(self.multi)):
            return
        seq = ip.to_seq(self.multi[0][1])
        c.prove("the requested number of chains", iterm(seq.n) == n)
        a, b = z3.Int("chain"), z3.Int("other_chain")
        c.assume(z3.And(a >= 0, a < n, b >= 0, b < n))
        t, u = ip.seq_elem(seq, Sym(a)), ip.seq_elem(seq, Sym(b))
        trace_is(c, ip, "chain", t, self.P, per, lambda k: k * every, lambda k, j: self.V(a, k, j), names, self.single)
        if isinstance(t, PyInstance) and isinstance(u, PyInstance):
            x, y = ip.getattr_(t, "chain"), ip.getattr_(u, "chain")
            r = ip.same(x, y)
            c.prove("chain ids are distinct", (r if not isinstance(r, bool) else z3.BoolVal(r)) == (a == b))


def g02_multi(single, named, defaults=False):
    def case(c, ip):
        w = Chains(c, ip, single)
        n, per, every = z3.Int("n_chains"), z3.Int("samples_per_chain"), z3.Int("keep_every")
        c.assume(z3.And(n >= 1, per >= 1, every >= 1))
        names = given if named else varname
        kw = {"get_sampler": w.get_sampler, "n_chains": Sym(n), "samples_per_chain": Sym(per), "keep_every": Sym(every)}
        if named:
            kw["parameter_names"] = PyList([names(0)]) if single else PyList(SymSeq(w.P, names))
        r = ip.call(ip.get(CHAINS, "pymc3_multitrace"), [], kw)
        c.check("the multi-chain trace is returned", len(w.multi) == 1 and r is w.multi[0][0], repr(r))
        w.protocol(n)
        w.check(n, per, every, names)
    return case


DIAG = "pysgmcmc.diagnostics.sampler_diagnostics"


def g02_diagnostic(fun, lib):
    def case(c, ip):
        w = Chains(c, ip, False)
        n, per = z3.Int("n_chains"), z3.Int("samples_per_chain")
        c.assume(z3.And(n >= 1, per >= 1))
        d = dict(zip(*(lambda a: ([x.arg for x in a.args[len(a.args) - len(a.defaults):]], a.defaults))(ip.get(CHAINS, "pymc3_multitrace").node.args)))
        import ast
        try:
            every = ast.literal_eval(d["keep_every"])
        except (KeyError, ValueError):
            return c.undecided("thinning of the diagnostics", "no literal default")
        r = ip.call(ip.get(DIAG, fun), [], {"get_sampler": w.get_sampler, "n_chains": Sym(n), "samples_per_chain": Sym(per)})
        if not c.check("the diagnostic of the library is computed", set(w.result) == {lib}, repr(sorted(w.result))):
            return
        res, m, a, k = w.result[lib]
        c.check("its result is returned", r is res, repr(r))
        c.check("it is computed on the multi-chain trace", len(w.multi) == 1 and m is w.multi[0][0] and not a and not (set(k) - {"mtrace"}), repr(m))
        w.protocol(n)
        w.check(n, per, z3.IntVal(every), varname)
    return case


from pyvc import lib_tf as TF
MT = [CHAINS + ".pymc3_multitrace", TR + "from_sampler", TR + "__init__"]
CASES["G02"] += [Case("chains: %s, %s" % ("one parameter" if sg else "any number of parameters", "names given" if nm else "no names given"), g02_multi(sg, nm), MT)
                 for sg in (False, True) for nm in (True, False)] + [
    Case("diagnostic " + f, g02_diagnostic(f, l), MT + [DIAG + "." + f]) for f, l in (("effective_sample_sizes", "effective_n"), ("gelman_rubin", "gelman_rubin"))]


# ------------------------------------------------------------------ G03
OBJ = "pysgmcmc.diagnostics.objective_functions"
CASES["G03"] = []
F = lambda x: z3.RealVal(str(x))
sin, cos, exp, pi = alg.SIN, alg.COS, alg.EXP, alg.PI


def hartmann(x, a, p):
    alpha = ("1.0", "1.2", "3.0", "3.2")
    r = z3.RealVal(0)
    for i in range(4):
        s = z3.RealVal(0)
        for j in range(len(x)):
            d = x[j] - F(p[i][j]) / 10000
            s = s + F(a[i][j]) * d * d
        r = r + F(alpha[i]) * exp(-s)
    return -r


H3A = ((3, 10, 30), ("0.1", 10, 35), (3, 10, 30), ("0.1", 10, 35))
H3P = ((3689, 1170, 2673), (4699, 4387, 7470), (1090, 8732, 5547), (381, 5743, 8828))
H6A = ((10, 3, 17, "3.5", "1.7", 8), ("0.05", 10, 17, "0.1", 8, 14), (3, "3.5", "1.7", 10, 17, 8), (17, 8, "0.05", 10, "0.1", 14))
H6P = ((1312, 1696, 5569, 124, 8283, 5886), (2329, 4135, 8307, 3736, 1004, 9991), (2348, 1451, 3522, 2883, 3047, 6650), (4047, 8828, 8732, 5743, 1091, 381))


def branin(x):
    q = x[1] - F("5.1") / (4 * pi * pi) * x[0] * x[0] + 5 / pi * x[0] - 6
    return q * q + 10 * (1 - 1 / (8 * pi)) * cos(x[0]) + 10


def goldstein(x):
    a, b = x
    s, d = a + b + 1, 2 * a - 3 * b
    return (1 + s * s * (19 - 14 * a + 3 * a * a - 14 * b + 6 * a * b + 3 * b * b)) * (
        30 + d * d * (18 - 32 * a + 12 * a * a + 48 * b - 36 * a * b + 27 * b * b))


def levy(x):
    w = 1 + (x[0] - 1) / 4
    s, t = sin(pi * w), sin(2 * pi * w)
    return s * s + (w - 1) * (w - 1) * (1 + t * t)


def banana(x):
    q = x[1] + F("0.1") * x[0] * x[0] - 10
    return -(F("0.01") * x[0] * x[0] + q * q) / 2


wave = lambda u: F("0.5") * sin(13 * u) * sin(27 * u) + F("0.5")
FORMULAS = {
    "banana_log_likelihood": (2, banana),
    "bohachevski": (2, lambda x: x[0] * x[0] + 2 * x[1] * x[1] - F("0.3") * cos(3 * pi * x[0]) - F("0.4") * cos(4 * pi * x[1]) + F("0.7")),
    "branin": (2, branin),
    "camelback": (2, lambda x: (4 - F("2.1") * x[0] * x[0] + x[0] * x[0] * x[0] * x[0] / 3) * x[0] * x[0] + x[0] * x[1] + (4 * x[1] * x[1] - 4) * x[1] * x[1]),
    "goldstein_price": (2, goldstein),
    "hartmann3": (3, lambda x: hartmann(x, H3A, H3P)),
    "hartmann6": (6, lambda x: hartmann(x, H6A, H6P)),
    "levy": (1, levy),
    "rosenbrock": (2, lambda x: 100 * (x[1] - x[0] * x[0]) * (x[1] - x[0] * x[0]) + (x[0] - 1) * (x[0] - 1)),
    "sin_one": (1, lambda x: wave(x[0])),
    "sin_two": (2, lambda x: wave(x[0]) * wave(x[1])),
}


def tf_argument(c, ip, kind, d, name):
    """(argument, the real numbers in it)"""
    V = z3.Function(name, I, R)
    if kind in ("list", "tuple"):
        return PyList([Sym(V(j)) for j in range(d)], kind=kind), [V(j) for j in range(d)]
    if kind == "array":
        return N.fresh_arr(lambda v: V(v), (d,)), [V(j) for j in range(d)]
    raise Unsupported(kind)


def number(ip, v):
    """the value of a number or one-element array as a real"""
    return cellv(ip, v)


def g03_formula(fun, kind):
    def case(c, ip):
        d, want = FORMULAS[fun]
        c.assume(z3.And(pi > 3, pi < 4))
        x, v = tf_argument(c, ip, kind, d, "x")
        r = pure(c, ip, ip.get(OBJ, fun), [x], {})
        if not isinstance(r, Sym):
            return c.undecided("value", "not a number: %r" % (r,))
        c.prove_eq("the value of the published formula", alg.to_real(r.t), want(v))
    return case


def tensor_value(ip, r):
    g = TF.Graph(ip, [r])
    if r.shape.need_dims():
        raise Unsupported("tensor of rank %d" % len(r.shape.need_dims()))
    return g.val(r, [])


def g03_banana_tensor(kind):
    def case(c, ip):
        if kind == "vector":
            v = TF.make_var(ip, "x", TF.TShape((2,)))
            x = v
        else:
            v = [TF.make_var(ip, "x%d" % j, TF.TShape(())) for j in range(2)]
            x = PyList(v)
        r = pure(c, ip, ip.get(OBJ, "banana_log_likelihood"), [x], {})
        if not isinstance(r, TF.TNode):
            return c.undecided("value", "not a tensor: %r" % (r,))
        g = TF.Graph(ip, [r])
        if r.shape.need_dims():
            return c.undecided("value", "tensor of rank %d" % len(r.shape.need_dims()))
        xs = [g.val(v, [z3.IntVal(j)]) for j in range(2)] if kind == "vector" else [g.val(u, []) for u in v]
        c.prove_eq("the value of the published formula", g.val(r, []), banana(xs))
    return case


def mixture(x, m, mu, var, wt):
    """log of the sum of weight * normal density, over the m components"""
    term = lambda i: exp(alg.LOG(wt(i)) - alg.LOG(2 * pi * var(i)) / 2 - (x - mu(i)) * (x - mu(i)) / var(i) / 2)
    if isinstance(m, int):
        t = term(z3.IntVal(0))
        for i in range(1, m):
            t = t + term(z3.IntVal(i))
        return alg.LOG(t)
    return alg.LOG(alg.mk_sum(m, term))


XKINDS = ("float", "[float]", "(float,)", "numpy float", "array of one", "variable", "[variable]", "variable of one", "[variable of one]",
          "tensor", "[tensor]", "tensor of one")


def mixture_argument(c, ip, kind):
    """(argument, function returning the number in it)"""
    x = z3.Real("x")
    if kind in ("float", "[float]", "(float,)", "numpy float", "array of one"):
        s = Sym(x, kind == "numpy float")
        return {"float": s, "numpy float": s, "[float]": PyList([s]), "(float,)": PyList([s], kind="tuple"),
                "array of one": N.fresh_arr(lambda i: x, (1,))}[kind], lambda g: x
    shape = TF.TShape((1,)) if kind.endswith("of one") or kind.endswith("of one]") else TF.TShape(())
    d = Opaque("float dtype", types=("DType",))
    if "variable" in kind:
        v = TF.make_var(ip, "x", shape, dtype=d)
    else:
        v = TF.TNode("placeholder", [], {"pname": "x"}, shape, d)
    val = lambda g: g.val(v, [z3.IntVal(0)] * len(shape.need_dims()))
    return (PyList([v]) if kind.startswith("[") else v), val


def mixture_value(c, ip, r, kind, val):
    """(the number computed, the number given); None when undecided"""
    if "variable" in kind or "tensor" in kind:
        if not c.check("tensors give tensors", isinstance(r, TF.TNode), repr(r)):
            return None
        g = TF.Graph(ip, [r])
        if r.shape.need_dims():
            c.undecided("value", "tensor of rank %d" % len(r.shape.need_dims()))
            return None
        return g.val(r, []), val(g)
    if not isinstance(r, Sym):
        c.undecided("value", "not a number: %r" % (r,))
        return None
    return alg.to_real(r.t), val(None)


def g03_mixture(kind, form):
    def case(c, ip):
        m = z3.Int("components")
        c.assume(m >= 1)
        MU, VAR, WT = (z3.Function(q, I, R) for q in ("mu", "var", "weight"))
        j = z3.Int("j")
        c.assume(z3.ForAll([j], z3.And(VAR(j) > 0, WT(j) > 0)))
        seqs = []
        for f in (MU, VAR, WT):
            if form == "array":
                seqs.append(N.fresh_arr(lambda i, f=f: f(i), (m,)))
            else:
                seqs.append(PyList(SymSeq(m, lambda i, f=f: Sym(f(i))), kind=form))
        x, val = mixture_argument(c, ip, kind)
        r = pure(c, ip, ip.get(OBJ, "gaussian_mixture_model_log_likelihood"), [x], {"mu": seqs[0], "var": seqs[1], "weights": seqs[2]})
        got = mixture_value(c, ip, r, kind, val)
        if got:
            c.prove_eq("the log likelihood of the mixture", got[0], mixture(got[1], m, MU, VAR, WT))
    return case


GMM = {"gaussian_mixture_model_log_likelihood": ("1", "1", "1"), "gmm1_log_likelihood": ("1", "1", "1"), "gmm2_log_likelihood": ("2", "1/2", "2"),
       "gmm3_log_likelihood": ("10/3", "3/10", "10/3")}


def g03_gmm(fun, kind):
    def case(c, ip):
        pick = lambda row: lambda i: z3.RealVal(row[i.as_long()])
        x, val = mixture_argument(c, ip, kind)
        r = pure(c, ip, ip.get(OBJ, fun), [x], {})
        got = mixture_value(c, ip, r, kind, val)
        if got:
            c.prove_eq("the log likelihood of the mixture", got[0], mixture(got[1], 3, pick(("-5", "0", "5")), pick(GMM[fun]), pick(("1/3",) * 3)))
    return case


def g03_sinc(c, ip):
    n, d = z3.Int("rows"), z3.Int("columns")
    c.assume(z3.And(n >= 1, d >= 1))
    X = z3.Function("X", I, I, R)
    r = pure(c, ip, ip.get(OBJ, "sinc"), [N.fresh_arr(lambda a, b: X(a, b), (n, d))], {})
    if not shape_is(c, "one value for each row", r, (n,)):
        return
    a = z3.Int("row")

    c.assume(z3.And(pi > 3, pi < 4))

    def one(b):
        u = 10 * X(a, b) - 5
        return z3.If(u == 0, z3.RealVal(1), sin(pi * u) / (pi * u))
    c.prove_eq("the value of the published formula", cellv(ip, r, a), alg.mk_sum(d, one), [a >= 0, a < n])


def g03_negate(args, kw):
    def case(c, ip):
        V = Sym(z3.Real("log_likelihood"))
        seen = []

        def f(ip_, a, k):
            seen.append((list(a), dict(k)))
            return V
        ll = Opaque("log likelihood", attrs={"__name__": "some_log_likelihood"}, call=f)
        nll = pure(c, ip, ip.get(OBJ, "to_negative_log_likelihood"), [ll], {})
        c.check("the log likelihood is not evaluated when it is wrapped", not seen, repr(seen))
        c.check("the name is kept", ip.getattr_(nll, "__name__", None) == "some_log_likelihood", repr(ip.getattr_(nll, "__name__", None)))
        given, named = [Opaque("argument %d" % i) for i in range(args)], {"k%d" % i: Opaque("keyword argument %d" % i) for i in range(kw)}
        for turn in range(2):
            del seen[:]
            r = ip.call(nll, list(given), dict(named))
            if not isinstance(r, Sym):
                return c.undecided("negation", repr(r))
            c.prove_eq("exactly the negative", r.t, -V.t)
            c.check("evaluated once, at the arguments given", len(seen) == 1 and len(seen[0][0]) == args and all(x is y for x, y in zip(seen[0][0], given))
                    and set(seen[0][1]) == set(named) and all(seen[0][1][q] is named[q] for q in named), repr(seen))
    return case


def g03_negate_any(c, ip):
    """any number of positional arguments, any number of keyword arguments"""
    V, n, m = Sym(z3.Real("log_likelihood")), z3.Int("n_args"), z3.Int("n_keywords")
    c.assume(z3.And(n >= 0, m >= 0))
    seen = []
    ll = Opaque("log likelihood", attrs={"__name__": "some_log_likelihood"}, call=lambda ip_, a, k: (seen.append((list(a), dict(k))), V)[1])
    nll = pure(c, ip, ip.get(OBJ, "to_negative_log_likelihood"), [ll], {})
    args = SymSeq(n, lambda t: Opaque("argument", (t,), uid="an argument"))
    key, val = lambda t: Opaque("keyword", (t,), uid="a keyword", types=("str",)), lambda t: Opaque("value", (t,), uid="a value")
    first = Opaque("first argument")
    r = ip.call(nll, [first, StarBulk(args)], {"**": PyDict([Bulk(m, key, val)])})
    if not isinstance(r, Sym):
        return c.undecided("negation", repr(r))
    c.prove_eq("exactly the negative", r.t, -V.t)
    if not c.check("evaluated once", len(seen) == 1, repr(seen)):
        return
    got = CatSeq([x.seq if isinstance(x, StarBulk) else CSeq([x]) for x in seen[0][0]])
    t = z3.Int("t")
    c.prove("evaluated at as many arguments as given", iterm(got.n) == n + 1)
    c.check("the first argument is the one given", ip.seq_elem(got, 0) is first, repr(ip.seq_elem(got, 0)))
    c.assume(z3.And(t >= 0, t < n))
    same_opaque(c, ip, "evaluated at the arguments given, in order", ip.seq_elem(got, Sym(t + 1)), args.elem(t))
    kw = seen[0][1]
    d = PyDict([(x, y) for x, y in kw.items() if x != "**"])
    if "**" in kw:
        ip.dict_update(d, kw["**"])
    c.prove("evaluated at as many keyword arguments as given", iterm(ip.to_seq(ip.dict_keys_seq(d)).n) == m)
    k = z3.Int("k")
    c.assume(z3.And(k >= 0, k < m))
    v = ip.dict_get(d, key(k), MISSING)
    if c.check("every keyword argument is passed on", v is not MISSING, ""):
        same_opaque(c, ip, "under its own name, with its own value", v, val(k))


def same_opaque(c, ip, what, a, b):
    r = ip.same(a, b)
    c.prove(what, z3.BoolVal(r) if isinstance(r, bool) else r)


CASES["G03"] += [Case("%s of a %s" % (f, k), g03_formula(f, k), [OBJ + "." + f]) for f in FORMULAS for k in ("list", "tuple", "array")]
CASES["G03"] += [Case("banana_log_likelihood of a %s of tensors" % k, g03_banana_tensor(k), [OBJ + ".banana_log_likelihood"]) for k in ("list", "vector")]
CASES["G03"] += [Case("mixture of any size given as %ss: %s" % (f, k), g03_mixture(k, f), [OBJ + ".gaussian_mixture_model_log_likelihood"])
                 for k in XKINDS for f in ("list", "tuple", "array") if f == "list" or k in ("float", "variable")]
CASES["G03"] += [Case("%s: %s" % (f, k), g03_gmm(f, k), [OBJ + "." + f]) for f in GMM for k in ("float", "[float]", "array of one", "[variable]", "variable")]
CASES["G03"] += [Case("sinc", g03_sinc, [OBJ + ".sinc"])]
CASES["G03"] += [Case("negation, %d arguments and %d by name" % (a, k), g03_negate(a, k), [OBJ + ".to_negative_log_likelihood"]) for a, k in ((1, 0), (0, 1), (2, 2), (0, 0), (23, 0), (1, 23))]
CASES["G03"] += [Case("negation, any number of arguments", g03_negate_any, [OBJ + ".to_negative_log_likelihood"])]
