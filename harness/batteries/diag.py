"""G01-G03 on the real diagnostics (with a stand-in for pymc3, which is not installed)."""
import itertools
import logging
import math
import numpy as np
import tensorflow as tf
from pysgmcmc.diagnostics import objective_functions as OF
from pysgmcmc.diagnostics import sample_chains as SC
from pysgmcmc.diagnostics import sampler_diagnostics as SD
from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace, pymc3_multitrace
from pysgmcmc.samplers.sgld import SGLDSampler
from pysgmcmc.samplers.sghmc import SGHMCSampler
from harness import fake_pymc3

REJECT = (AssertionError, ValueError, TypeError, IndexError)


def quiet(fn):
    def run(t):
        logging.disable(logging.WARNING)
        try:
            return fn(t)
        finally:
            logging.disable(logging.NOTSET)
    return run


# ------------------------------------------------------------------ G01
VALUE = {
    "float": lambda r: float(r.randn()),
    "float64": lambda r: np.float64(r.randn()),
    "float32": lambda r: np.float32(r.randn()),
    "int": lambda r: int(r.randint(-50, 50)),
    "vector": lambda r: r.randn(3),
    "matrix": lambda r: r.randn(2, 2),
    "zero": lambda r: 0.0,
}
SAMPLE = {"list": list, "tuple": tuple, "array": np.asarray}
SEQ = {"list": list, "tuple": tuple, "array": np.asarray}


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and bool(np.all(a == b))


def trace_data(r, S, V, vkind, skind, flat, seq):
    table = [[VALUE[vkind](r) for _ in range(V)] for _ in range(S)]
    if flat:
        return table, SEQ[seq](row[0] for row in table) if seq != "array" else np.asarray([row[0] for row in table])
    return table, SEQ["list" if seq == "array" else seq](SAMPLE[skind](row) for row in table)


@quiet
def g01(t):
    r = np.random.RandomState(t.seed + 11)
    count = 0
    for vkind, skind, S, V in itertools.product(VALUE, SAMPLE, (1, 2, 3, 6) if t.quick else (1, 2, 3, 4, 7, 12), (1, 2, 3, 5)):
        for flat in ((False, True) if V == 1 and vkind in ("float", "float32", "float64", "zero") else (False,)):
            seq = ("list", "tuple", "array")[count % 3] if flat else ("list", "tuple")[count % 2]
            named = count % 4 != 0
            count += 1
            table, samples = trace_data(r, S, V, vkind, skind, flat, seq)
            names = ["%s:%d" % ("pqxyz"[(i * 3 + count) % 5] + str(i), i) for i in range(V)] if named else None
            if named and count % 3 == 0:
                names = tuple(names)
            inp = {"values": vkind, "sample": skind, "samples": S, "variables": V, "flat": flat, "in": seq, "names": names}
            ok, tr = t.runs("a trace can be built", lambda: PYSGMCMCTrace(3, samples, names) if named else PYSGMCMCTrace(3, samples), inp)
            if not ok:
                continue
            column = lambda v: np.asarray([row[v] for row in table])
            vn = list(tr.varnames)
            t.check("the names are those given", vn == list(names) if named else len(vn) == V and len(set(vn)) == V, inp, vn)
            t.check("the length of a trace is the number of samples", len(tr) == S, inp, len(tr))
            t.check("the chain id is kept", tr.chain == 3, inp)
            for v in range(V):
                want = column(v)
                ok, got = t.runs("values by name", lambda: tr.get_values(vn[v]), inp)
                if ok:
                    t.check("values by name", isinstance(got, np.ndarray) and same(got, want), inp, (v, got, want))
                ok, got = t.runs("values by position", lambda: tr[v], inp)
                if ok:
                    t.check("values by position", same(got, want), inp, (v, got, want))
                for burn, thin in ((0, 2), (1, 1), (S - 1, 1), (S, 1), (2, 3), (1, S + 1), (S + 2, 2), (int(r.randint(0, S + 1)), int(r.randint(1, S + 2)))):
                    for call in (lambda: tr.get_values(vn[v], burn, thin), lambda: tr.get_values(vn[v], burn=burn, thin=thin)):
                        ok, got = t.runs("values after burn-in, thinned", call, dict(inp, burn=burn, thin=thin))
                        if ok:
                            want = [table[k][v] for k in range(S) if k >= burn and (k - burn) % thin == 0]
                            t.check("values after burn-in, thinned", len(got) == len(want) and (not want or same(got, np.asarray(want))),
                                    dict(inp, burn=burn, thin=thin), (got, want))
            for k in range(S):
                ok, p = t.runs("points", lambda: tr.point(k), inp)
                if ok:
                    t.check("a point is the value of each variable in that iteration",
                            set(p) == set(vn) and all(same(p[vn[v]], table[k][v]) for v in range(V)), dict(inp, point=k), p)
                ok, p = t.runs("points from the end", lambda: tr.point(k - S), inp)
                if ok:
                    t.check("a point counted from the end is the value of each variable in that iteration",
                            set(p) == set(vn) and all(same(p[vn[v]], table[k][v]) for v in range(V)), dict(inp, point=k - S), p)
            for sl in (slice(None), slice(0, 1), slice(1, None), slice(None, V - 1), slice(0, None, 2), slice(V - 1, None), slice(-1, None), slice(1, V, 2), slice(None, None, -1), slice(V - 1, 0, -1),
                       slice(-2, None), slice(-1, None, -2), slice(None, -1), slice(0, V + 3), slice(-V - 2, 1)):
                keep = list(range(V))[sl]
                if not keep:
                    continue
                ok, s = t.runs("slicing", lambda: tr._slice(sl), dict(inp, slice=sl))
                if ok:
                    good = [list(s.varnames) == [vn[v] for v in keep], len(s) == S, s.chain == tr.chain]
                    try:
                        good.append(all(same(s.get_values(vn[v]), column(v)) for v in keep))
                        good.append(all(same(s[i], column(v)) for i, v in enumerate(keep)))
                    except Exception as e:
                        good.append(repr(e))
                    t.check("a slice keeps exactly the sliced variables with all iterations", all(x is True for x in good), dict(inp, slice=sl), good)
                    t.check("slicing leaves the trace alone", len(tr) == S and list(tr.varnames) == vn and same(tr.get_values(vn[0]), column(0)), dict(inp, slice=sl))
            for bad in ("", "nope", vn[0] + "x", vn[-1].upper() + "?", None, 99):
                if bad in vn:
                    continue
                t.raises("unknown names raise a value error", lambda: tr.get_values(bad), (ValueError,), dict(inp, name=bad))
            if not flat:
                t.raises("too few names are rejected", lambda: PYSGMCMCTrace(0, samples, vn[:-1]), REJECT, inp)
                t.raises("too many names are rejected", lambda: PYSGMCMCTrace(0, samples, vn + ["one more"]), REJECT, inp)
    for empty in ([], (), np.zeros((0, 2)), [[]], [()], ((),), [np.zeros(0)]):
        for nm in (None, [], ["a"]):
            t.raises("empty traces are rejected", lambda: PYSGMCMCTrace(0, empty, nm), REJECT, {"samples": empty, "names": nm})
    t.raises("two names for flat samples are rejected", lambda: PYSGMCMCTrace(0, [1.0, 2.0], ["a", "b"]), REJECT)
    t.raises("no names for flat samples are rejected", lambda: PYSGMCMCTrace(0, [1.0, 2.0], []), REJECT)
    # more variables and iterations than the grid above
    near = t.near(3, 2000, 6)
    for S, V in (((40, 13), (7, 101)) if t.quick else ((300, 13), (40, 400), (1000, 2))) + tuple((v, 2) for v in near) + tuple((3, v) for v in near if v < 300):
        table = r.randn(S, V)
        names = ["n%d" % i for i in range(V)]
        tr = PYSGMCMCTrace("c", [list(x) for x in table], names)
        for v in range(V):
            t.check("values by name", same(tr.get_values(names[v], burn=5, thin=4), table[5::4, v]), {"samples": S, "variables": V, "variable": v})
        for k in (int(r.randint(S)), S - 1, -1, -S):
            t.check("points", tr.point(k) == dict(zip(names, table[k])), {"samples": S, "variables": V, "point": k})
        a, b = sorted(int(q) for q in r.randint(0, V, 2))
        s = tr._slice(slice(a, b + 1))
        t.check("slices", list(s.varnames) == names[a:b + 1] and len(s) == S and all(same(s[i], table[:, a + i]) for i in range(b + 1 - a)), {"samples": S, "variables": V, "slice": (a, b + 1)})
    t.bound("traces of up to %s" % ("6 samples of 5 variables, and of 40 of 13 and 7 of 101" if t.quick else "12 samples of 5 variables, and of 1000 of 2 and 40 of 400"))


# ------------------------------------------------------------------ G02
class Param(object):
    def __init__(self, name):
        self.name = name


class Fake(object):
    """a sampler whose k-th sample of variable j is 100 * k + j (as numbers, vectors or lists)"""
    def __init__(self, P, vector=False, start=0):
        self.params = [Param(("par_%d:0" if start else "net/layer_%d/w:0" if P % 2 else "%d/w:0") % (7 - j)) for j in range(P)]
        self.k = start
        self.P, self.vector = P, vector

    def __iter__(self):
        return self

    def one(self, k, j):
        return np.asarray([100. * k + j, -1. - k]) if self.vector else np.float64(100. * k + j)

    def __next__(self):
        k, self.k = self.k, self.k + 1
        s = [self.one(k, j) for j in range(self.P)]
        return (s[0] if self.P == 1 else s), np.float64(-k)


def quadratic(params):
    return tf.add_n([tf.reduce_sum(tf.square(p)) for p in params])


def make(which, shapes, seed, session, scale=0.):
    vs = [tf.Variable(np.full(s, 0.5 + i), dtype=tf.float64, name="p%d" % i) for i, s in enumerate(shapes)]
    cls = {"SGLD": SGLDSampler, "SGHMC": SGHMCSampler}[which]
    return cls(params=vs, cost_fun=quadratic, seed=seed, session=session, dtype=tf.float64)


def reference(which, shapes, seed, n):
    """the sampler's own sequence"""
    g = tf.Graph()
    with g.as_default(), tf.Session(graph=g) as s:
        sm = make(which, shapes, seed, s)
        s.run(tf.global_variables_initializer())
        out = [next(sm)[0] for _ in range(n)]
        names = [p.name for p in sm.params]
    return [[x] for x in out] if len(shapes) == 1 else out, names


def trace_values(t, what, tr, want, names, inp):
    try:
        good = len(tr) == len(want) and list(tr.varnames) == list(names)
        detail = (len(tr), list(tr.varnames))
        if good:
            for v, n in enumerate(names):
                got = tr.get_values(n)
                col = np.asarray([row[v] for row in want])
                if got.shape != col.shape or not np.array_equal(got, col):
                    good, detail = False, (n, got, col)
    except Exception as e:
        good, detail = False, repr(e)
    return t.check(what, good, inp, detail)


class Sess(tf.Session):
    log = None

    def __init__(self, **k):
        super().__init__(**k)
        if Sess.log is not None:
            Sess.log.append(self)


@quiet
def g02(t):
    # ---- thinning
    for P, vec, n, every, start in itertools.product((1, 2, 3), (False, True), (1, 2, 3, 5, 9), (None, 1, 2, 3, 7, 10), (0, 4)):
        if t.quick and start and n not in (1, 5):
            continue
        for named in (False, True):
            f = Fake(P, vec, start)
            names = ["given %d" % i for i in range(P)] if named else [p.name for p in f.params]
            kw = {} if every is None else {"keep_every": every}
            if named:
                kw["varnames"] = names
            inp = {"parameters": P, "vector": vec, "n_samples": n, "keep_every": every, "named": named, "start": start}
            ok, tr = t.runs("a trace from a sampler", lambda: PYSGMCMCTrace.from_sampler(2, f, n, **kw), inp)
            if not ok:
                continue
            want = [[f.one(start + i * (every or 1), j) for j in range(P)] for i in range(n)]
            trace_values(t, "the samples asked for, keep_every apart, named", tr, want, names, inp)
            t.check("the chain id is kept", tr.chain == 2, inp)
    for which, shapes in itertools.product(("SGLD", "SGHMC"), ([()], [(2,)], [(), ()], [(2,), (2,)])):
        for n, every in ((3, 1), (3, 4), (1, 6)):
            inp = {"sampler": which, "shapes": shapes, "n_samples": n, "keep_every": every}
            ref, names = reference(which, shapes, 5, (n - 1) * every + 1)
            g = tf.Graph()
            with g.as_default(), tf.Session(graph=g) as s:
                sm = make(which, shapes, 5, s)
                s.run(tf.global_variables_initializer())
                ok, tr = t.runs("a trace from a sampler", lambda: PYSGMCMCTrace.from_sampler(0, sm, n, keep_every=every), inp)
                if ok:
                    trace_values(t, "the samples of the sampler's own sequence", tr, ref[::every], names, inp)
    # ---- chains
    old = tf.Session
    try:
        tf.Session = Sess
        for which, shapes, n, per, every, named in [("SGLD", [()], 2, 3, 2, False), ("SGLD", [(2,)], 3, 2, 1, True), ("SGHMC", [(), ()], 2, 2, 5, True),
                                                    ("SGLD", [(), (), ()], 1, 4, 3, False), ("SGHMC", [()], 4, 1, 1, False)] + (
                                                        [] if t.quick else [("SGHMC", [(3,), (3,)], 5, 6, 10, True), ("SGLD", [()], 8, 20, 4, False)]):
            chains(t, which, shapes, n, per, every, named)
        for defaults in (dict(n_chains=3, samples_per_chain=2), dict(n_chains=2), dict(samples_per_chain=3), {}):
            diagnostics(t, defaults)
        multi_defaults(t)
    finally:
        tf.Session = old
        Sess.log = None
    t.bound("up to %s chains of %s samples, thinning up to 10" % (("4", "4") if t.quick else ("8", "20")))


def multi_defaults(t):
    """defaults of the multi-chain trace, on cheap samplers"""
    for kw in ({}, {"n_chains": 3}, {"samples_per_chain": 4}, {"keep_every": 3}):
        made = []

        def get(session):
            tf.Variable(1.0)
            made.append(Fake(2))
            return made[-1]
        ok, m = t.runs("a multi-chain trace", lambda: pymc3_multitrace(get, **kw), kw)
        if ok:
            n, per, every = kw.get("n_chains", 2), kw.get("samples_per_chain", 100), kw.get("keep_every", 10)
            t.check("a fresh sampler for each chain", len(made) == n == m.nchains, kw, (len(made), m.nchains))
            for ch in m.chains:
                trace_values(t, "thinned as asked", m._straces[ch], [[100. * k * every, 100. * k * every + 1] for k in range(per)], [p.name for p in made[0].params], kw)


def chains(t, which, shapes, n, per, every, named):
    inp = {"sampler": which, "shapes": shapes, "n_chains": n, "samples_per_chain": per, "keep_every": every, "named": named}
    Sess.log = []
    seen = []

    def get(session):
        sm = make(which, shapes, 20 + len(seen), session)
        # a variable the sampler does not know about; initialised together with the others
        extra = tf.Variable(3.0, name="unrelated")
        seen.append({"session": session, "graph": tf.get_default_graph(), "sampler": sm, "extra": extra, "open": Sess.log.count(session)})
        draw = type(sm).__next__

        class Watched(type(sm)):
            def __next__(self):
                e = [x for x in seen if x["sampler"] is self][0]
                if "ready" not in e:
                    with session.graph.as_default():
                        e["ready"] = len(session.run(tf.report_uninitialized_variables())) == 0
                return draw(self)
        sm.__class__ = Watched
        return sm
    outer = tf.Graph()
    names = ["chosen %d" % i for i in range(len(shapes))] if named else None
    kw = {"n_chains": n, "samples_per_chain": per, "keep_every": every}
    if named:
        kw["parameter_names"] = names
    with outer.as_default():
        ok, m = t.runs("a multi-chain trace", lambda: pymc3_multitrace(get, **kw), inp)
    if not ok:
        return
    t.check("a multi-chain trace", isinstance(m, fake_pymc3.MultiTrace), inp, m)
    t.check("the requested number of chains", m.nchains == n == len(seen), inp, (m.nchains, len(seen)))
    t.check("each chain has a fresh sampler", len({id(e["sampler"]) for e in seen}) == n, inp)
    t.check("each chain has a graph of its own", len({id(e["graph"]) for e in seen}) == n and all(e["graph"] is not outer for e in seen)
            and not outer.get_operations(), inp)
    t.check("each chain has a session of its own", len({id(e["session"]) for e in seen}) == n and all(e["session"].graph is e["graph"] for e in seen), inp)
    t.check("variables are initialised before the first sample", all(e.get("ready") for e in seen), inp)
    for i, ch in enumerate(m.chains):
        ref, pn = reference(which, shapes, 20 + i, (per - 1) * every + 1)
        trace_values(t, "each chain has the requested length, thinning and names, from its own sampler", m._straces[ch], ref[::every], names or pn, dict(inp, chain=i))


def diagnostics(t, kw):
    for fun, lib in (("effective_sample_sizes", "effective_n"), ("gelman_rubin", "gelman_rubin")):
        inp = dict(kw, diagnostic=fun)
        made = []

        def get(session):
            tf.Variable(1.0)
            made.append((Fake(2), session, tf.get_default_graph()))
            return made[-1][0]
        del fake_pymc3.calls[:]
        ok, r = t.runs("diagnostics", lambda: getattr(SD, fun)(get, **kw), inp)
        if not ok:
            continue
        n, per = kw.get("n_chains", 2), kw.get("samples_per_chain", 100)
        calls = list(fake_pymc3.calls)
        if not t.check("the diagnostic of the library is computed once", len(calls) == 1 and calls[0][0] == lib, inp, calls):
            continue
        m = calls[0][1]
        t.check("its result is returned", r == {lib: id(m)}, inp, r)
        t.check("on a multi-chain trace of the chains asked for", m.nchains == n == len(made), inp, (m.nchains, len(made)))
        t.check("each chain has a graph and a session of its own", len({id(x[1]) for x in made}) == n == len({id(x[2]) for x in made}), inp)
        for ch in m.chains:
            trace_values(t, "of samples thinned as in any multi-chain trace", m._straces[ch],
                         [[1000. * k, 1000. * k + 1] for k in range(per)], [p.name for p in made[0][0].params], inp)


# ------------------------------------------------------------------ G03
def hartmann(x, A, P):
    return -sum(al * math.exp(-sum(a * (xi - p / 1e4) ** 2 for a, xi, p in zip(ra, x, rp))) for al, ra, rp in zip((1.0, 1.2, 3.0, 3.2), A, P))


H3 = (((3, 10, 30), (.1, 10, 35), (3, 10, 30), (.1, 10, 35)), ((3689, 1170, 2673), (4699, 4387, 7470), (1090, 8732, 5547), (381, 5743, 8828)))
H6 = (((10, 3, 17, 3.5, 1.7, 8), (.05, 10, 17, .1, 8, 14), (3, 3.5, 1.7, 10, 17, 8), (17, 8, .05, 10, .1, 14)),
      ((1312, 1696, 5569, 124, 8283, 5886), (2329, 4135, 8307, 3736, 1004, 9991), (2348, 1451, 3522, 2883, 3047, 6650), (4047, 8828, 8732, 5743, 1091, 381)))


def gold(x):
    a, b = x
    return (1 + (a + b + 1) ** 2 * (19 - 14 * a + 3 * a * a - 14 * b + 6 * a * b + 3 * b * b)) * (
        30 + (2 * a - 3 * b) ** 2 * (18 - 32 * a + 12 * a * a + 48 * b - 36 * a * b + 27 * b * b))


def levy(x):
    w = 1 + (x[0] - 1) / 4
    return math.sin(math.pi * w) ** 2 + (w - 1) ** 2 * (1 + math.sin(2 * math.pi * w) ** 2)


wave = lambda u: .5 * math.sin(13 * u) * math.sin(27 * u) + .5
FUN = {
    "banana_log_likelihood": (2, lambda x: -.5 * (.01 * x[0] ** 2 + (x[1] + .1 * x[0] ** 2 - 10) ** 2)),
    "bohachevski": (2, lambda x: x[0] ** 2 + 2 * x[1] ** 2 - .3 * math.cos(3 * math.pi * x[0]) - .4 * math.cos(4 * math.pi * x[1]) + .7),
    "branin": (2, lambda x: (x[1] - 5.1 * x[0] ** 2 / (4 * math.pi ** 2) + 5 * x[0] / math.pi - 6) ** 2 + 10 * (1 - 1 / (8 * math.pi)) * math.cos(x[0]) + 10),
    "camelback": (2, lambda x: (4 - 2.1 * x[0] ** 2 + x[0] ** 4 / 3) * x[0] ** 2 + x[0] * x[1] + (4 * x[1] ** 2 - 4) * x[1] ** 2),
    "goldstein_price": (2, gold), "hartmann3": (3, lambda x: hartmann(x, *H3)), "hartmann6": (6, lambda x: hartmann(x, *H6)),
    "levy": (1, levy), "rosenbrock": (2, lambda x: 100 * (x[1] - x[0] ** 2) ** 2 + (x[0] - 1) ** 2),
    "sin_one": (1, lambda x: wave(x[0])), "sin_two": (2, lambda x: wave(x[0]) * wave(x[1])),
}
DOMAIN = {"branin": (-5, 15), "hartmann3": (0, 1), "hartmann6": (0, 1), "goldstein_price": (-2, 2), "camelback": (-3, 3), "sin_one": (0, 1), "sin_two": (0, 1)}


def close(a, b, tol=1e-9):
    try:
        return np.ndim(a) == 0 and abs(float(a) - b) <= tol * max(1.0, abs(b))
    except (TypeError, ValueError):
        return False


def log_mixture(x, mu, var, w):
    """logarithm of the density of a mixture of normal distributions"""
    terms = [math.log(q) - .5 * math.log(2 * math.pi * v) - (x - m) ** 2 / (2 * v) for m, v, q in zip(mu, var, w)]
    top = max(terms)
    return top + math.log(sum(math.exp(z - top) for z in terms))


def tensors_of(x):
    """scalars and vectors with one element, as constants, variables and in lists"""
    for dt in (tf.float64, tf.float32):
        yield "constant", dt, tf.constant(x, dtype=dt)
        yield "[constant]", dt, [tf.constant(x, dtype=dt)]
        yield "variable", dt, tf.Variable(x, dtype=dt)
        yield "[variable]", dt, [tf.Variable(x, dtype=dt)]
        yield "variable of one", dt, tf.Variable([x], dtype=dt)
        yield "constant of one", dt, tf.constant([x], dtype=dt)
        yield "(variable,)", dt, (tf.Variable(x, dtype=dt),)


def g03(t):
    r = np.random.RandomState(t.seed + 23)
    for name, (d, want) in FUN.items():
        f = getattr(OF, name)
        lo, hi = DOMAIN.get(name, (-10, 10))
        points = [[lo + (hi - lo) * u for u in r.rand(d)] for _ in range(t.n(60, 2000))] + [list(r.randn(d) * 20) for _ in range(10)] + \
                 [[0.] * d, [1.] * d, [-1.] * d, [1.] + [0.] * (d - 1)]
        for x in points:
            for k in (list, tuple, np.asarray):
                ok, v = t.runs(name, lambda: f(k(x)), {"function": name, "x": x})
                if ok:
                    t.check("%s equals its formula" % name, close(v, want(x), 1e-8), {"function": name, "x": x, "as": k.__name__}, (v, want(x)))
    for x in [r.rand(n, d) * 2 for n in (1, 2, 5) for d in (1, 2, 4)] + [np.asarray([[.5], [.4], [.6]]), np.asarray([[.5, .7]])]:
        w = [sum(1. if z == 0 else math.sin(math.pi * z) / (math.pi * z) for z in 10 * row - 5) for row in x]
        ok, v = t.runs("sinc", lambda: OF.sinc(x), {"x": x})
        if ok:
            t.check("sinc equals its formula", np.shape(v) == (len(x),) and np.allclose(v, w, rtol=1e-9, atol=1e-9), {"x": x}, (v, w))
    # ---- mixtures
    third = (1. / 3,) * 3
    fixed = {"gaussian_mixture_model_log_likelihood": (1., 1., 1.), "gmm1_log_likelihood": (1., 1., 1.), "gmm2_log_likelihood": (2., .5, 2.),
             "gmm3_log_likelihood": (1 / .3, .3, 1 / .3)}
    for far, (name, var) in enumerate(fixed.items()):
        f = getattr(OF, name)
        for x in [-1e3, -61., -30., -5., -2.3, 0., .7, 5., 11., 58., 4e3] + list(r.randn(t.n(20, 500)) * 6):
            w = log_mixture(x, (-5, 0, 5), var, third)
            for k in (float, np.float64, lambda q: [q], lambda q: (q,), lambda q: np.asarray([q]), lambda q: [np.float32(q)]):
                v = k(x)
                ok, got = t.runs(name, lambda: f(v), {"function": name, "x": v})
                if ok:
                    t.check("%s equals its formula" % name, close(got, w, 1e-5 if isinstance(np.asarray(v).dtype.type(0), np.float32) else 1e-9),
                            {"function": name, "x": v}, (got, w))
        with tf.Graph().as_default(), tf.Session() as s:
            for x in (-6.5, 0.25, (-64., 55., 900., -700.)[far]):
                for kind, dt, v in tensors_of(x):
                    inp = {"function": name, "x": x, "as": kind, "dtype": dt.name}
                    ok, node = t.runs(name, lambda: f(v), inp)
                    if ok and t.check("a tensor", isinstance(node, tf.Tensor), inp, node):
                        s.run(tf.global_variables_initializer())
                        got, w = s.run(node), log_mixture(x, (-5, 0, 5), var, third)
                        t.check("%s of a tensor equals its formula" % name, close(got, w, 1e-9 if dt == tf.float64 else 1e-4) and node.dtype == dt, inp, (got, w))
    many = [9, 17, 40, 100, 300] + t.near(2, 300, 8)
    for _ in range(t.n(60, 1500)):
        m = many[_] if _ < len(many) else int(r.randint(1, 8))
        mu, var, wt = list(r.randn(m) * 4), list(np.exp(r.randn(m))), list(r.dirichlet(np.ones(m)))
        if r.rand() < .3:
            wt = list(np.asarray(wt) * 3)
        form = (list, tuple, np.asarray)[int(r.randint(3))]
        x = float(r.randn() * 5) * (100 if _ % 7 == 0 else 1)
        inp = {"x": x, "mu": mu, "var": var, "weights": wt, "as": form.__name__}
        ok, got = t.runs("mixtures", lambda: OF.gaussian_mixture_model_log_likelihood(x, form(mu), form(var), form(wt)), inp)
        if ok:
            t.check("the mixture equals its formula", close(got, log_mixture(x, mu, var, wt), 1e-8), inp, got)
        if _ % 10 == 0:
            with tf.Graph().as_default(), tf.Session() as s:
                for kind, dt, v in tensors_of(x):
                    ok, node = t.runs("mixtures of tensors", lambda: OF.gaussian_mixture_model_log_likelihood(v, mu=form(mu), var=form(var), weights=form(wt)), dict(inp, x_as=kind))
                    if ok:
                        s.run(tf.global_variables_initializer())
                        got = s.run(node)
                        t.check("the mixture of a tensor equals its formula", close(got, log_mixture(x, mu, var, wt), 1e-8 if dt == tf.float64 else 1e-3), dict(inp, x_as=kind), got)
    with tf.Graph().as_default(), tf.Session() as s:
        for x in ([.5, 9.], [-4., 3.], [0., 0.]):
            for v in ([tf.Variable(q, dtype=tf.float64) for q in x], tf.Variable(x, dtype=tf.float64), tf.constant(x, dtype=tf.float64)):
                ok, node = t.runs("banana of tensors", lambda: OF.banana_log_likelihood(v), {"x": x})
                if ok:
                    s.run(tf.global_variables_initializer())
                    t.check("the banana of tensors equals its formula", close(s.run(node), FUN["banana_log_likelihood"][1](x)), {"x": x})
    # ---- negation
    seen = []

    def some_ll(*a, **k):
        seen.append((a, k))
        return some_ll.value

    def two(a, b=3.):
        return a * b - 1.
    for v in (1.5, -2, 0., np.asarray([1., -2.]), np.float32(3.), float("inf")):
        some_ll.value = v
        f = OF.to_negative_log_likelihood(some_ll)
        t.check("the name is kept", f.__name__ == "some_ll", {"value": v}, f.__name__)
        for a, k in (((1,), {}), ((), {"x": 2}), ((1, [2]), {"u": 3, "w": None}), ((), {}), (tuple(range(30)), {}), ((0, None), {"p%d" % q: q for q in range(30)}), ((), {"log_likelihood_function": 1, "self": 2, "args": 3})):
            del seen[:]
            ok, got = t.runs("negation", lambda: f(*a, **k), {"args": a, "kwargs": k})
            if ok:
                t.check("exactly the negative", np.array_equal(got, -np.asarray(v)), {"value": v}, got)
                t.check("evaluated once, at the arguments given", seen == [(a, k)], {"args": a, "kwargs": k}, seen)
    g = OF.to_negative_log_likelihood(two)
    t.check("negation keeps defaults", g(2.) == -5. and g(2., 5.) == -9. and g(b=1., a=4.) == -3. and g.__name__ == "two")
    for name in list(FUN) + list(fixed):
        f = OF.to_negative_log_likelihood(getattr(OF, name))
        x = [.3] * (FUN[name][0] if name in FUN else 1)
        t.check("the negative of a log likelihood", f(x) == -getattr(OF, name)(x) and f.__name__ == name, {"function": name})
    t.bound("%d points for each function" % t.n(74, 2014))


BATTERY = {"G01": g01, "G02": g02, "G03": g03}
