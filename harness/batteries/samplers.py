"""S01-S11 on the real samplers: the update formulas are simulated in numpy from the observable start."""
import itertools
import numpy as np
import tensorflow as tf
from pysgmcmc.samplers.sghmc import SGHMCSampler
from pysgmcmc.samplers.sgld import SGLDSampler
from pysgmcmc.samplers.relativistic_sghmc import RelativisticSGHMCSampler
from pysgmcmc.samplers.svgd import SVGDSampler
from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule, StepsizeSchedule
from pysgmcmc import tensor_utils as TU

CLS = {"SGHMC": SGHMCSampler, "SGLD": SGLDSampler, "Rel": RelativisticSGHMCSampler, "SVGD": SVGDSampler}
ALL = ("SGHMC", "SGLD", "Rel", "SVGD")
SHAPESETS = [[(3,)], [()], [(2, 3)], [(), (4,)], [(1,), (1,)], [(2, 3), (3, 2), ()], [(4, 1), (1, 4), (2, 2), (5,)], [(2, 1, 2), (1,)]]


class Session(tf.Session):
    """records what the sampler asks for; feeds the random operations when told to"""

    def __init__(self, **k):
        super().__init__(**k)
        self.log = []
        self.noise = None          # None | fn(op) -> value
        self.extra = []            # tensors to fetch along
        self.extra_values = None
        self.on = False

    def run(self, fetches, feed_dict=None, options=None, run_metadata=None):
        if not self.on:
            return super().run(fetches, feed_dict=feed_dict)
        fd = dict(feed_dict or {})
        self.log.append((fetches, dict(fd)))
        if self.noise is not None:
            for op in self.graph.get_operations():
                if is_random(op) and op.outputs[0] not in fd:
                    fd[op.outputs[0]] = self.noise(op)
        out, self.extra_values = super().run([fetches, list(self.extra)], feed_dict=fd)
        return out


def is_random(op):
    return op.type in ("RandomStandardNormal", "TruncatedNormal", "StatelessRandomNormal", "StatelessRandomNormalV2", "ParameterizedTruncatedNormal")


def ancestors(tensors, control=False):
    seen, todo = set(), [x.op for x in tensors]
    while todo:
        op = todo.pop()
        if op in seen:
            continue
        seen.add(op)
        todo += [i.op for i in op.inputs]
        if control:
            todo += list(op.control_inputs)
    return seen


class Sched(StepsizeSchedule):
    def __init__(self, values, initial=None):
        super().__init__(values[0] if initial is None else initial)
        self.values, self.k, self.updates = list(values), 0, []

    def __next__(self):
        self.k += 1
        return self.values[min(self.k, len(self.values)) - 1]

    def update(self, *a, **k):
        self.updates.append((a, k))


class FalsySched(Sched):
    """a schedule that counts as false"""
    def __len__(self):
        return 0


class OddSched(Sched):
    """a schedule that equals everything and refuses to be compared or counted as true"""
    __hash__ = object.__hash__

    def __bool__(self):
        return False

    def __eq__(self, o):
        return True


class Batches(object):
    """an endless stream of feeds for the placeholder"""

    def __init__(self, key, seed=0):
        self.key, self.k, self.given = key, 0, []

    def __next__(self):
        self.k += 1
        self.given.append(0.5 + 0.1 * self.k)
        return {self.key: self.given[-1]}

    def __iter__(self):
        return self


class World(object):
    """one sampler on an analytic cost in its own graph"""

    def __init__(self, which, shapes, values=(0.01,), seed=None, rs=0, dtype="float64", batches=False, cost="coupled", start=None, assign=None, initial=None, sched=None, **kw):
        self.which, self.shapes, self.dtype = which, shapes, dtype
        self.g = tf.Graph()
        self.r = np.random.RandomState(rs)
        r = self.r
        with self.g.as_default():
            self.x0 = [np.asarray(r.randn(*s)) for s in shapes] if start is None else [np.asarray(x, float) for x in start]
            self.params = [tf.Variable(x, dtype=dtype, name="par_%d" % i) for i, x in enumerate(self.x0)]
            self.a = [0.5 + r.rand() for _ in shapes]
            self.c = [np.asarray(r.randn(*s)) / (np.prod(s) if np.prod(s) > 100 else 1) for s in shapes]
            if which == "SVGD":
                self.a, self.c = self.a[:1] * len(shapes), self.c[:1] * len(shapes)
            self.kind = cost
            self.X = tf.placeholder(dtype, shape=(), name="X")
            self.gen = Batches(self.X) if batches else None
            self.sched = (sched or Sched)(values, initial)
            self.sess = Session(graph=self.g)
            if assign:
                assign(self)
            k = dict(cost_fun=self.cost_fun, stepsize_schedule=self.sched, session=self.sess, dtype=tf.as_dtype(dtype), seed=seed)
            if batches:
                k["batch_generator"] = self.gen
            k.update(kw)
            self.kw = kw
            if which == "SVGD":
                self.s = SVGDSampler(particles=self.params, **k)
            else:
                self.s = CLS[which](params=self.params, **k)

    def cost_fun(self, params):
        scale = 1.0 if self.gen is None else self.X
        ps = [params] if self.which == "SVGD" else list(params)
        if self.kind == "zero":
            return sum(tf.reduce_sum(0.0 * p) for p in ps)
        if self.kind == "linear":
            return sum(tf.reduce_sum(tf.constant(c, dtype=self.dtype) * p) for c, p in zip(self.c, ps)) * scale
        q = sum(0.5 * a * tf.reduce_sum(p * p) for a, p in zip(self.a, ps))
        z = sum(tf.reduce_sum(tf.constant(c, dtype=self.dtype) * p) for c, p in zip(self.c, ps))
        return scale * (q + tf.sin(z))

    def ucost(self, xs, scale=1.0):
        if self.kind == "zero":
            return 0.0
        z = sum(np.sum(c * x) for c, x in zip(self.c, xs))
        if self.kind == "linear":
            return scale * z
        return scale * (sum(0.5 * a * np.sum(x * x) for a, x in zip(self.a, xs)) + np.sin(z))

    def grads(self, xs, scale=1.0):
        if self.kind == "zero":
            return [0.0 * x for x in xs]
        if self.kind == "linear":
            return [scale * c for c in self.c]
        z = sum(np.sum(c * x) for c, x in zip(self.c, xs))
        return [scale * (a * x + np.cos(z) * c) for a, c, x in zip(self.a, self.c, xs)]

    def ready(self, everything=False):
        with self.g.as_default():
            vs = tf.global_variables()
            if not everything:
                flags = self.sess.run([tf.is_variable_initialized(v) for v in vs])
                vs = [v for v, f in zip(vs, flags) if not f]
            self.sess.run(tf.variables_initializer(vs))
        return self

    def noise_ops(self):
        """for every parameter the random operation its new value depends on directly, None if that is not one operation"""
        ops = []
        for j, th in enumerate(self.s.theta_t):
            an = [op for op in ancestors([th]) if is_random(op)]
            ops.append(an)
        return ops

    def step(self, noise="actual", **k):
        """one step; -> (new parameters as a list, cost, noise by parameter)"""
        ops = self.noise_ops()
        simple = all(len(o) == 1 and o[0].outputs[0].shape.num_elements() == max(1, int(np.prod(s))) for o, s in zip(ops, self.shapes))
        simple = simple and len({o[0] for o in ops}) == len(ops)
        self.simple = simple
        if noise == "actual" and not simple:
            noise = "ones"
        self.sess.noise = None
        self.sess.extra = []
        if noise == "actual":
            self.sess.extra = [o[0].outputs[0] for o in ops]
        elif noise == "zeros":
            self.sess.noise = lambda op: np.zeros(op.outputs[0].shape.as_list())
        elif noise == "ones":
            self.sess.noise = lambda op: np.ones(op.outputs[0].shape.as_list())
        self.sess.on = True
        try:
            with self.g.as_default():
                ret = self.s.__next__(**k) if k else next(self.s)
        finally:
            self.sess.on = False
        self.ret = params, cost = ret
        new = [params] if len(self.params) == 1 else list(params)
        if noise == "actual":
            ns = [np.reshape(v, s) for v, s in zip(self.sess.extra_values, self.shapes)]
        else:
            ns = [np.full(s, 0.0 if noise == "zeros" else 1.0) for s in self.shapes]
        return [np.asarray(x) for x in new], cost, ns

    def values(self):
        return self.sess.run(self.params)

    def close(self):
        self.sess.close()


def close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (np.abs(b) + 1e-3)))


class Sim(object):
    """the state equations of S01 and S02"""

    def __init__(self, which, x0, **kw):
        self.which, self.x, self.kw = which, [np.array(x, float) for x in x0], kw
        one = [np.ones_like(x) for x in self.x]
        self.tau, self.g, self.v = [o.copy() for o in one], [o.copy() for o in one], [o.copy() for o in one]
        self.V = [np.zeros_like(x) for x in self.x]
        self.M = None

    def step(self, G, e, N, adapt):
        if adapt:
            self.M = [1 / np.sqrt(v) for v in self.v]
        s = self.kw.get("scale_grad", 1.0)
        for i, (g_, n) in enumerate(zip(G, N)):
            tau, g, v, M = self.tau[i], self.g[i], self.v[i], self.M[i]
            r = 1 / (tau + 1)
            self.tau[i] = tau + 1 - g * g * tau / v
            self.g[i] = g - r * g + r * g_
            self.v[i] = v - r * v + r * g_ ** 2
            if self.which == "SGHMC":
                m = self.kw.get("mdecay", 0.05)
                es = e / np.sqrt(s)
                sig = np.sqrt(np.maximum(2 * es ** 2 * m * M - es ** 4, 1e-16))
                self.V[i] = self.V[i] - e ** 2 * M * g_ - m * self.V[i] + sig * n
                self.x[i] = self.x[i] + self.V[i]
            else:
                A = self.kw.get("A", 1.0)
                self.x[i] = self.x[i] - e * M * A * g_ + np.sqrt(2 * e * M * A / s) * n
        return [x.copy() for x in self.x]


MANY = [(2,)] * 7


def around(t):
    """shapes and numbers of parameters around the integers the code mentions"""
    return [[(2,)] * m for m in t.near(8, 40, 4)] + [[(m,), (2,)] for m in t.near(4, 3000, 4)]


NOISES = ["zeros", "ones", "actual", "actual", "zeros", "actual", "ones", "actual"]
VALUES = [0.02, 0.05, 0.01, 0.3, 0.07, 0.11, 0.002, 0.2]


def formula(t, which, opts):
    r = np.random.RandomState(t.seed + 5)
    confs = list(itertools.product(SHAPESETS, opts))
    confs = [confs[i] for i in r.permutation(len(confs))][:t.n(14, 60)]
    confs += [(MANY, opts[0]), (MANY, opts[1])] + [(sh, opts[1]) for sh in around(t)]
    seeds = [None, 0, 1, 12345] + [m for m in t.near(2, 2 ** 31 - 1, 8)]
    for j, (shapes, o) in enumerate(confs):
        for dt in (("float64", "float32") if j < 2 else ("float64",)):
            w = World(which, shapes, values=VALUES, rs=t.seed + j, dtype=dt, seed=seeds[j % len(seeds)], batches=j % 2 == 0, burn_in_steps=j % 4, initial=(None, 0.45, 0.001)[(j // 2) % 3], **o).ready(everything=j % 3 == 0)
            info = dict(sampler=which, shapes=shapes, options=o, dtype=dt, burn_in_steps=j % 4)
            sim = Sim(which, w.x0, **o)
            tol = 1e-9 if dt == "float64" else 2e-4
            for k in range(len(VALUES) if dt == "float64" else 3):
                G = w.grads(sim.x, w.gen.k * 0.1 + 0.6 if w.gen else 1.0)
                got, cost, ns = w.step(NOISES[k])
                want = sim.step(G, VALUES[k], ns, k < (j % 4) or (j % 4) == 0)
                good = all([t.check("the new parameter is the one the state equations give", np.all(np.isfinite(g)) and close(g, x, tol),
                                    dict(info, step=k, parameter=i, noise=NOISES[k]), (g, x)) for i, (g, x) in enumerate(zip(got, want))])
                if not good:
                    break
            w.close()
    # many steps, over the end of a long burn-in
    long_runs = [(40, 25), (30, 0)] + [(m + 5, m) for m in t.near(9, 4000, 8)[-2:]] + [(m + 5, 0) for m in t.near(9, 4000, 8)[-2:]]
    for B, o in [(b, opts[k % len(opts)]) for k, (_, b) in enumerate(long_runs)]:
        n = [q for q, b in long_runs if b == B][-1]
        w = World(which, [(2,), ()], values=[0.01 + 0.02 * ((7 * k) % 5) for k in range(n)], rs=t.seed + B, batches=True, burn_in_steps=B, **o).ready()
        sim = Sim(which, w.x0, **o)
        for k in range(n):
            e = w.sched.values[k]
            G = w.grads(sim.x, 0.5 + 0.1 * (w.gen.k + 1))
            got, cost, ns = w.step("zeros" if k % 3 else "actual")
            want = sim.step(G, e, ns, k < B or B == 0)
            if not all([t.check("the new parameter is the one the state equations give", np.all(np.isfinite(g)) and close(g, x, 1e-6), dict(sampler=which, burn_in_steps=B, options=o, step=k, parameter=i), (g, x))
                        for i, (g, x) in enumerate(zip(got, want))]):
                break
            sim.x = [g.copy() for g in got]
        w.close()
    # a gradient that vanishes must not produce invalid numbers
    w = World(which, [(3,), ()], values=[0.1], cost="zero", burn_in_steps=3, **opts[0]).ready()
    for k in range(8):
        got, _, _ = w.step("actual")
        t.check("finite with a vanishing gradient", all(np.all(np.isfinite(g)) for g in got), dict(sampler=which, step=k), got)
    w.close()
    t.bound("%d configurations of shapes, options and burn-in, 8 steps each with changing stepsizes and prescribed or recorded noise, two precisions" % len(confs))


def s01(t):
    formula(t, "SGHMC", [{}, {"mdecay": 0.2, "scale_grad": 7.0}, {"mdecay": 0.9, "scale_grad": 0.3}, {"scale_grad": 1000.0}, {"mdecay": 0.01, "scale_grad": 0.01}])


def s02(t):
    formula(t, "SGLD", [{}, {"A": 0.4, "scale_grad": 7.0}, {"A": 2.5, "scale_grad": 0.3}, {"scale_grad": 1000.0}])


def s03(t):
    r = np.random.RandomState(t.seed + 6)
    opts = [{}, {"mass": 2.0, "speed_of_light": 0.7}, {"mass": 0.5, "speed_of_light": 3.0, "D": 0.3}, {"D": 2.0, "Bhat": 1.5}, {"mass": 1.5, "speed_of_light": 0.4, "D": 0.0}]
    confs = list(itertools.product(SHAPESETS, opts))
    confs = [confs[i] for i in r.permutation(len(confs))][:t.n(12, 40)]
    confs += [(MANY, opts[1])] + [(sh, opts[2]) for sh in around(t)]
    seeds = [None, 0, 1, 12345] + [m for m in t.near(2, 2 ** 31 - 1, 8)]
    vals = [0.02, 0.05, 0.01, 0.1, 0.07, 0.04]
    for j, (shapes, o) in enumerate(confs):
        w = World("Rel", shapes, values=vals, seed=seeds[j % len(seeds)], initial=(None, 0.45, 0.001)[j % 3], rs=t.seed + j, batches=j % 2 == 0, **o).ready(everything=j % 3 == 0)
        info = dict(sampler="Rel", shapes=shapes, options=o)
        m, c, D, B = o.get("mass", 1.0), o.get("speed_of_light", 1.0), o.get("D", 1.0), o.get("Bhat", 0.0)
        x = [np.array(v, float) for v in w.x0]
        p = None
        rel = lambda q: q / (m * np.sqrt(q * q / (m * m * c * c) + 1))
        for k, e in enumerate(vals):
            G = [-g for g in w.grads(x, w.gen.k * 0.1 + 0.6 if w.gen else 1.0)]
            got, cost, ns = w.step(NOISES[k])
            if k == 0:                       # the momenta are not visible: take them from the first displacement
                u = [(g - x_) / e for g, x_ in zip(got, x)]
                sat = [np.abs(v) < c for v in u]
                t.check("no velocity above the speed of light", all(np.all(s) for s in sat), info, u)
                if not all(np.all(s) for s in sat):
                    break
                p = [v * m / np.sqrt(1 - v * v / (c * c)) for v in u]
                x = got
                continue
            p = [q + e * g - D * e * rel(q) + np.sqrt(e * (2 * D - e * B)) * n for q, g, n in zip(p, G, ns)]
            x = [x_ + e * rel(q) for x_, q in zip(x, p)]
            if not all([t.check("momentum and parameter follow the published equations", close(g, x_, 1e-6), dict(info, step=k, parameter=i), (g, x_)) for i, (g, x_) in enumerate(zip(got, x))]):
                break
        w.close()
    # initial momenta: without forces and friction the first displacement shows them
    from scipy import stats, integrate
    for m, c in ((1.0, 1.0), (2.0, 0.7), (0.5, 3.0)):
        n = t.n(400, 1500)
        w = World("Rel", [(n,), (n // 2, 2)], values=[0.01], cost="zero", mass=m, speed_of_light=c, D=0.0, seed=t.seed + 3).ready()
        x0 = w.values()
        got, _, _ = w.step("zeros")
        u = np.concatenate([((g - x) / 0.01).ravel() for g, x in zip(got, x0)])
        info = dict(mass=m, speed_of_light=c, elements=2 * n)
        if t.check("no velocity above the speed of light", np.all(np.abs(u) < c), info):
            q = u * m / np.sqrt(1 - u * u / (c * c))
            dens = lambda z: np.exp(-m * c * c * (np.sqrt(z * z / (m * m * c * c) + 1) - 1))
            zs = np.linspace(-60 * m * c / min(1.0, m * c * c), 60 * m * c / min(1.0, m * c * c), 200001)
            cdf = np.cumsum(dens(zs))
            cdf /= cdf[-1]
            t.check("initial momenta follow the relativistic density", stats.kstest(q, lambda z: np.interp(z, zs, cdf)).pvalue > 1e-5, info, (q.mean(), q.std()))
            t.check("one momentum for each element", len(np.unique(np.round(q, 12))) == len(q), info)
        w.close()
    t.bound("%d configurations of shapes and options, 6 steps each; three momentum distributions with hundreds of elements (Kolmogorov-Smirnov at 1e-5)" % len(confs))


def s04(t):
    r = np.random.RandomState(t.seed + 7)
    confs = [(2, 1), (3, 2), (2, 3), (5, 1), (4, 4), (6, 2), (7, 3)] + ([(9, 5), (12, 1), (12, 3), (3, 10)] if not t.quick else [])
    confs += [(m, 2) for m in t.near(8, 24, 3)] + [(2, m) for m in t.near(4, 200, 3)]
    for j, (n, d) in enumerate(confs):
        o = [{}, {"alpha": 0.5, "fudge_factor": 1e-2}, {"alpha": 0.0}, {"alpha": 0.99, "fudge_factor": 1e-8}][j % 4]
        kind = ["coupled", "linear", "zero"][j % 3]
        w = World("SVGD", [(d,)] * n, values=VALUES, initial=(None, 0.45, 0.001)[j % 3], rs=t.seed + j, batches=j % 2 == 0 and kind != "zero", cost=kind, start=list(r.randn(n, d) * 7) if j % 3 == 0 and j else None, **o).ready(everything=j % 2 == 0)
        w.s.session.on = False
        info = dict(particles=n, dimensions=d, options=o, cost=kind)
        X = np.stack([np.array(x, float) for x in w.x0])
        H = np.zeros_like(X)
        al, ff = o.get("alpha", 0.9), o.get("fudge_factor", 1e-6)
        for k in range(6):
            sc = w.gen.k * 0.1 + 0.6 if w.gen else 1.0
            G = np.stack([one_grad(w, x, sc) for x in X])
            U = np.array([one_cost(w, x, sc) for x in X])
            D2 = ((X[:, None] - X[None]) ** 2).sum(-1)
            h2 = 0.5 * np.median(D2) / np.log(n + 1)
            K = np.exp(-D2 / (2 * h2))
            dK = (K[:, :, None] * (X[:, None] - X[None])).sum(1) / h2
            g = (K.dot(G) - dK) / n
            H = al * H + (1 - al) * g * g
            X = X - VALUES[k] * g / (ff + np.sqrt(H))
            got, cost, _ = w.step("actual")
            a = t.check("all particles move by the kernelised Stein direction", len(got) == n and close(np.stack(got), X, 1e-6), dict(info, step=k), (got, X))
            b = t.check("the cost of every particle by itself", close(np.ravel(cost), U, 1e-7), dict(info, step=k), (cost, U))
            if not (a and b):
                break
        if kind == "zero":
            d0 = ((np.stack(w.x0)[:, None] - np.stack(w.x0)[None]) ** 2).sum()
            d1 = ((X[:, None] - X[None]) ** 2).sum()
            Y = np.stack(w.values())
            t.check("a zero cost gradient makes particles repel each other", ((Y[:, None] - Y[None]) ** 2).sum() > d0, info)
        w.close()
    t.bound("%d numbers of particles and dimensions, 6 steps each, changing stepsizes" % len(confs))


def one_cost(w, x, sc):
    if w.kind == "zero":
        return 0.0
    z = np.sum(w.c[0] * x)
    return sc * z if w.kind == "linear" else sc * (0.5 * w.a[0] * np.sum(x * x) + np.sin(z))


def one_grad(w, x, sc):
    if w.kind == "zero":
        return 0 * x
    if w.kind == "linear":
        return sc * w.c[0]
    return sc * (w.a[0] * x + np.cos(np.sum(w.c[0] * x)) * w.c[0])


KW = {"SGHMC": [{"burn_in_steps": 2}, {"burn_in_steps": 0}], "SGLD": [{"burn_in_steps": 2}, {"burn_in_steps": 0}], "Rel": [{}], "SVGD": [{}]}


def sets(which, quick=True):
    if which == "SVGD":
        return [[(2,)] * 3, [(1,)] * 2] + ([] if quick else [[(3,)] * 5])
    return [[(2, 3), (), (4,)], [(3,)], MANY] if quick else SHAPESETS + [MANY]


# ------------------------------------------------------------------ S05
PASS = {"Identity", "Reshape", "Squeeze", "ExpandDims", "StopGradient", "Snapshot", "RefIdentity", "PlaceholderWithDefault"}
WRITES = {"Assign", "AssignAdd", "AssignSub", "ScatterUpdate", "ScatterAdd", "ScatterSub", "ApplyGradientDescent"}


def inputs_of(nd, nodes):
    for i in nd.input:
        if i.startswith("^"):
            yield i[1:], None
        else:
            a = i.split(":")
            yield a[0], int(a[1]) if len(a) > 1 else 0


def name_of(x):
    return (x.name if hasattr(x, "name") else x).split(":")[0]


def s05(t):
    n_pairs = 0
    for which in ALL:
        for shapes in sets(which, t.quick)[:t.n(2, 8)]:
            for kw in KW[which]:
                for phase in ((0,) if kw.get("burn_in_steps", 0) == 0 else (0, 3)):
                    n_pairs += orders(t, which, shapes, kw, phase)
    t.bound("every pair of unordered accesses of the graphs of %d configurations, executed in both orders (%d pairs on this tree)" % (len(ALL) * 2, n_pairs))


def orders(t, which, shapes, kw, phase):
    w = World(which, shapes, values=VALUES, rs=t.seed + 11, batches=True, **kw).ready()
    for _ in range(phase):
        w.step("actual")
    with w.g.as_default():
        vs = tf.global_variables()
        state = w.sess.run(vs)
        w.sess.log = []
        w.step("actual")
        fetches, feeds = w.sess.log[-1]
        flat = tf.nest.flatten(fetches)
        copies = [tf.identity(f, name="vf_fetch_%d" % i) + tf.zeros((), f.dtype.base_dtype) for i, f in enumerate(flat)]
        copies = [c for c in copies]
        sets_ = []
        for i, v in enumerate(vs):
            ph = tf.placeholder(v.dtype.base_dtype, shape=v.shape, name="vf_value_%d" % i)
            sets_.append((ph.name, tf.assign(v, ph, name="vf_set_%d" % i).op.name))
        gd = w.g.as_graph_def()
    nodes = {n.name: n for n in gd.node}
    copynames = [c.op.name for c in copies]
    fed = {}
    r = np.random.RandomState(1)
    for key, val in feeds.items():
        fed[key.name] = val
    for op in w.g.get_operations():
        if is_random(op):
            fed[op.outputs[0].name] = r.randn(*op.outputs[0].shape.as_list())
    fednodes = {n.split(":")[0] for n in fed}
    w.close()
    # executed operations and what precedes them
    executed, preds, todo = set(), {}, list(copynames)
    while todo:
        n = todo.pop()
        if n in executed:
            continue
        executed.add(n)
        ps = []
        for (m, port) in inputs_of(nodes[n], nodes):
            if port is not None and "%s:%d" % (m, port) in fed:
                continue
            ps.append(m)
        preds[n] = ps
        todo += ps
    before = {}

    def anc(n):
        if n in before:
            return before[n]
        before[n] = set()
        out = set()
        for p in preds[n]:
            if nodes[p].op in ("NextIteration",):
                continue
            out.add(p)
            out |= anc(p)
        before[n] = out
        return out
    import sys
    sys.setrecursionlimit(100000)

    # which variables a tensor may share its buffer with
    alias = {}

    def shares(n):
        if n in alias:
            return alias[n]
        alias[n] = set()
        nd = nodes[n]
        if nd.op in ("VariableV2", "Variable"):
            out = {n}
        elif nd.op in PASS or nd.op in WRITES:
            ins = [m for m, port in inputs_of(nd, nodes) if port is not None and "%s:%d" % (m, port) not in fed]
            out = shares(ins[0]) if ins else set()
        else:
            out = set()
        alias[n] = out
        return out
    reads, writes = {}, {}
    loop_ops = {"Enter", "Exit", "Merge", "Switch", "NextIteration", "LoopCond"}
    for n in executed:
        nd = nodes[n]
        ins = [m for m, port in inputs_of(nd, nodes) if port is not None and "%s:%d" % (m, port) not in fed]
        if nd.op in WRITES:
            for v in shares(ins[0]):
                writes.setdefault(v, set()).add(n)
            ins = ins[1:]
        elif nd.op in ("VariableV2", "Variable") or nd.op in PASS or nd.op in loop_ops:
            continue
        for m in ins:
            for v in shares(m):
                reads.setdefault(v, set()).add(n)
    pairs = []
    for v, ws in writes.items():
        for a in ws:
            for b in reads.get(v, set()) | ws:
                if a < b or b not in ws:
                    if a != b and a not in anc(b) and b not in anc(a):
                        pairs.append((a, b))
    pairs = sorted(pairs)[:t.n(24, 200)]
    info = dict(sampler=which, shapes=shapes, options=kw, after=phase)
    t.check("all accesses of state variables analysed", True, dict(info, executed=len(executed), unordered=len(pairs)))
    for a, b in pairs:
        outs = []
        for first, second in ((a, b), (b, a)):
            gd2 = tf.GraphDef()
            gd2.CopyFrom(gd)
            for nd in gd2.node:
                if nd.name == second:
                    nd.input.append("^" + first)
            try:
                outs.append(run_graph(gd2, copynames, fed, vs, state, sets_))
            except Exception:
                outs.append(None)         # this order does not exist (a cycle)
        if None in outs:
            continue
        same = all(np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True) for x, y in zip(*outs))
        t.check("both orders of %s and %s give the same result" % (a, b), same, dict(info, first=a, second=b), outs if not same else None, key="%s|%s|%s" % (which, a, b))
    return len(pairs)


def run_graph(gd, copynames, fed, vs, state, sets_):
    g = tf.Graph()
    with g.as_default():
        tf.import_graph_def(gd, name="")
        with tf.Session(graph=g) as s:
            for (ph, op), v in zip(sets_, state):
                s.run(op, {ph: v})
            out = s.run([n + ":0" for n in copynames], fed)
            return out + s.run([v.name for v in vs])


# ------------------------------------------------------------------ S06
def s06(t):
    for which in ALL:
        for shapes in sets(which, t.quick):
            for kw in KW[which] + ([{"burn_in_steps": 5}] if which in ("SGHMC", "SGLD") else []):
                for batches in (True, False):
                    w = World(which, shapes, values=VALUES, rs=t.seed + 2, batches=batches, **kw).ready()
                    with w.g.as_default():
                        probe = tf.placeholder_with_default(tf.constant(-1.0, tf.float64), shape=(), name="probe")
                    info = dict(sampler=which, shapes=shapes, options=kw, batches=batches)
                    for k in range(7):
                        x = w.values()
                        w.sess.log = []
                        ex = {"feed_dict": {probe: 3.5 + k}} if k % 2 else {}
                        n_up = len(w.sched.updates)
                        nb = w.gen.k if batches else 0
                        new, cost, _ = w.step("actual", **ex)
                        i = dict(info, step=k, feeds=bool(ex))
                        t.check("one evaluation of the graph", len(w.sess.log) == 1, i, len(w.sess.log))
                        fd = w.sess.log[-1][1]
                        t.check("one stepsize from the schedule", w.sched.k == k + 1, i, w.sched.k)
                        t.check("that stepsize is fed", any(isinstance(v, float) and v == VALUES[k] for v in fd.values()), i, list(fd.values())[:6])
                        if batches:
                            t.check("one batch from the generator", w.gen.k == nb + 1, i, w.gen.k)
                            t.check("that batch is fed", fd.get(w.X) == w.gen.given[-1], i, fd.get(w.X))
                        extra = [key for key in fd if key is not w.X and key is not probe]
                        t.check("what the caller fed reaches the evaluation", not ex or fd.get(probe) == 3.5 + k, i)
                        t.check("nothing else of the batch is fed", batches or w.X not in fd, i)
                        t.check("what the caller fed one step is not fed to another", bool(ex) or probe not in fd, i)
                        most = 1 + (len(shapes) if 0 < kw.get("burn_in_steps", 0) <= k else 0)
                        t.check("nothing else is fed", len(extra) <= most, i, len(extra))
                        t.check("the step counter grows by one", w.s.n_iterations == k + 1, i, w.s.n_iterations)
                        t.check("the schedule is informed once", len(w.sched.updates) == n_up + 1, i, len(w.sched.updates) - n_up)
                        if len(w.sched.updates) > n_up:
                            a, kk = w.sched.updates[-1]
                            got = list(a) + list(kk.values())
                            ok = len(got) == 2 and np.array_equal(flatten(got[0]), flatten(new)) and np.array_equal(np.ravel(got[1]), np.ravel(cost))
                            t.check("with the sample and cost returned", ok and same_form(got[0], w.ret[0]) and same_form(got[1], w.ret[1]), i, got)
                        sc = w.gen.given[-1] if batches else 1.0
                        want = np.array([one_cost(w, p, sc) for p in x]) if which == "SVGD" else w.ucost(x, sc)
                        t.check("the cost returned is evaluated in this step with this batch", close(np.ravel(cost), np.ravel(want), 1e-8), i, (cost, want))
                    w.close()
    # batches that run out: no step is made without one
    for which in ALL:
        for left in (1, 3):
            for phase in (0, 2):
                w = World(which, sets(which, True)[0], values=VALUES, rs=t.seed + 2, batches=True, **dict(KW[which][0], **({"burn_in_steps": phase} if "burn_in_steps" in KW[which][0] else {}))).ready()
                w.s.batch_generator = w.gen
                real = type(w.gen).__next__
                stop = left

                def limited(self, real=real, stop=stop):
                    if self.k >= stop:
                        raise StopIteration
                    return real(self)
                w.gen.__class__ = type("Finite", (type(w.gen),), {"__next__": limited})
                for k in range(left + 2):
                    w.sess.log = []
                    try:
                        w.step("actual")
                        made = True
                    except Exception:
                        made = False
                    info = dict(sampler=which, batches=left, step=k)
                    t.check("no step without a batch", all(w.X in fd for _, fd in w.sess.log), info, len(w.sess.log))
                    t.check("a step while there are batches", made or k >= left, info)
                w.close()
    t.bound("7 steps of every sampler, with and without batches, burn-in and explicit feeds")


def same_form(a, b):
    """both one array (or number) of the same shape, or both sequences of such"""
    la, lb = isinstance(a, (list, tuple)), isinstance(b, (list, tuple))
    if la != lb:
        return False
    return len(a) == len(b) and all(map(same_form, a, b)) if la else np.shape(a) == np.shape(b)


def flatten(x):
    if isinstance(x, (list, tuple)):
        return np.concatenate([flatten(y) for y in x]) if len(x) else np.zeros(0)
    return np.ravel(np.asarray(x, float))


# ------------------------------------------------------------------ S07
def s07(t):
    for which in ("SGHMC", "SGLD"):
        for shapes in ([[(3,)], [(2, 2), (), (3,)]] if t.quick else SHAPESETS) + [MANY] + around(t)[:4]:
            for B in ((0, 1, 2, 5) + tuple(t.near(6, 60, 4)) if t.quick else range(0, 9)) if len(shapes) < 5 and np.prod(shapes[0]) < 50 else (0, 2):
                seed = [None, 0, 3][(B + len(shapes)) % 3] if B else 0
                for feeds in (False, True):
                    o = {"mdecay": 1.0} if which == "SGHMC" else {}
                    # constant gradients, no noise: the displacement shows the mass estimate used
                    w = World(which, shapes, values=[0.1], rs=t.seed + 4, cost="linear", burn_in_steps=B, seed=seed, **o)
                    w.c = w.c
                    w.ready()
                    with w.g.as_default():
                        probe = tf.placeholder_with_default(tf.constant(-1.0, tf.float64), shape=())
                    info = dict(sampler=which, shapes=shapes, burn_in_steps=B, feeds=feeds)
                    x, disp = w.values(), []
                    for k in range(B + 5):
                        t.check("burning in exactly before that many steps", w.s.is_burning_in is (k < B) or w.s.is_burning_in == (k < B), dict(info, step=k), w.s.is_burning_in)
                        new, _, _ = w.step("zeros", **({"feed_dict": {probe: 1.0}} if feeds else {}))
                        disp.append([n - o_ for n, o_ in zip(new, x)])
                        x = new
                    for k in range(1, B + 5):
                        for i in range(len(shapes)):
                            a, b = disp[k - 1][i], disp[k][i]
                            same = np.allclose(a, b, rtol=1e-9, atol=0)
                            if B and k >= B:
                                t.check("the mass estimate stays frozen after burn-in", same, dict(info, step=k, parameter=i), (a, b))
                            else:
                                t.check("the mass estimate adapts during burn-in (or always without)", not np.any(np.isclose(a, b, rtol=1e-12, atol=0)) or same and np.all(np.abs(np.abs(w.c[i]) - 1) < 1e-3),
                                        dict(info, step=k, parameter=i), (a, b))
                    w.close()
    t.bound("burn-in lengths 0, 1, 2, 5 (to 8), five steps beyond, constant gradients")


# ------------------------------------------------------------------ S08
def s08(t):
    for which in ALL:
        for shapes in sets(which, t.quick):
            for kw in KW[which]:
                for values in ((VALUES[:4],) if shapes is MANY and t.quick else (VALUES, [0.5, 0.25, 0.125, 1e-3], [3.0, 1e-5, 2.0])):
                    if which == "SVGD":
                        o = dict(kw, alpha=0.0)
                    elif which == "Rel":
                        o = dict(kw, D=0.0)
                    else:
                        o = dict(kw)
                        if which == "SGHMC":
                            o["mdecay"] = 1.0
                    res = []
                    for vs in (values, [2 * values[0]] + list(values[1:])):
                        w = World(which, shapes, values=vs, rs=t.seed + 8, cost="linear", seed=4, **o)
                        info = dict(sampler=which, shapes=shapes, options=kw, schedule=vs)
                        t.check("the schedule given is the one kept", w.s.stepsize_schedule is w.sched, info)
                        w.ready()
                        x = w.values()
                        ds, used = [], []
                        for k in range(len(vs)):
                            w.sess.log = []
                            new, _, _ = w.step("zeros")
                            fd = w.sess.log[-1][1]
                            keys = [key for key, v in fd.items() if isinstance(v, float) and v == vs[k]]
                            t.check("the k-th value is fed", len(keys) == 1, dict(info, step=k), len(keys))
                            if k == 0 and len(keys) == 1:
                                t.check("the initial value of the schedule initialises what is fed", abs(w.sess.run(keys[0]) - vs[0]) <= 1e-12 * vs[0], info)
                            ds.append([n - p for n, p in zip(new, x)])
                            x = new
                        w.close()
                        res.append(ds)
                    # the first displacement scales as the first stepsize enters the update
                    f = {"SGHMC": 4.0, "SGLD": 2.0, "SVGD": 2.0, "Rel": None}[which]
                    if f:
                        for a, b in zip(res[0][0], res[1][0]):
                            t.check("the update uses the stepsize fed", np.allclose(f * a, b, rtol=1e-7, atol=1e-12), dict(sampler=which, shapes=shapes, options=kw, schedule=values), (a, b))
                    else:
                        t.check("the update uses the stepsize fed", not np.allclose(flatten(res[0][0]), flatten(res[1][0]), rtol=1e-6), dict(sampler=which, schedule=values))
    for which in ALL:
        for cls, vs in ((FalsySched, [0.3, 0.02]), (OddSched, [0.07, 0.2]), (Sched, [1e-13 / 3, np.pi * 1e-9, 1.0 / 30]), (Sched, [1.0 / 3, 1e-7 / 7, 0.123456789012345])):
            o = dict(D=0.0) if which == "Rel" else {}
            w = World(which, sets(which, True)[0], values=vs, rs=t.seed + 9, cost="linear", seed=4, sched=cls, **o)
            info = dict(sampler=which, schedule=vs, kind=cls.__name__)
            t.check("the schedule given is the one kept", w.s.stepsize_schedule is w.sched, info)
            w.ready()
            for k in range(len(vs)):
                w.sess.log = []
                w.step("zeros")
                fd = w.sess.log[-1][1]
                t.check("the k-th value is fed", sum(1 for v in fd.values() if isinstance(v, float) and v == vs[k]) == 1, dict(info, step=k), [v for v in fd.values() if isinstance(v, float)])
            w.close()
    # once constructed, only the values drawn matter: not the initial value, and step k only the values up to k
    for which in ALL:
        for shapes in sets(which, t.quick)[::-1][:t.n(1, 4)] if which == "Rel" else sets(which, t.quick):
            for kw in KW[which]:
                runs = []
                seqs = [(VALUES, 0.02), (VALUES, 0.4), (VALUES, 1e-4), (VALUES[:3] + [0.15] + VALUES[4:], 0.02)]
                for vs, initial in seqs:
                    w = World(which, shapes, values=vs, initial=initial, rs=t.seed + 21, seed=3, batches=True, **kw).ready()
                    info = dict(sampler=which, shapes=shapes, options=kw, schedule=vs, initial=initial)
                    steps = []
                    for k in range(t.n(5, 6)):
                        w.sess.log = []
                        steps.append(flatten(w.step("ones")[0]))
                        t.check("the k-th value is fed", sum(1 for v in w.sess.log[-1][1].values() if isinstance(v, float) and v == vs[k]) == 1, dict(info, step=k))
                    w.close()
                    runs.append(steps)
                if which == "Rel":
                    continue            # the initial momenta are random
                for (vs, initial), r in list(zip(seqs, runs))[1:3]:
                    for k in range(len(r)):
                        t.check("the initial value has no influence on the steps", np.allclose(r[k], runs[0][k], rtol=1e-10, atol=1e-13), dict(sampler=which, shapes=shapes, options=kw, initial=initial, step=k), (r[k], runs[0][k]))
                for k in range(len(runs[0])):
                    same = np.allclose(runs[3][k], runs[0][k], rtol=1e-10, atol=1e-13)
                    t.check("the value of a step takes effect in that step", same == (k < 3), dict(sampler=which, shapes=shapes, options=kw, step=k), (runs[3][k], runs[0][k]))
    for v in [0.01, 0.0, -1.0, 1e-300, 7, 2.5, np.pi / 100, 1.0 / 3, 1e300, 123456789.123456789, 1 + 2 ** -50, 2 ** 60 + 1] + t.values(-1e300, 1e300):
        s = ConstantStepsizeSchedule(v)
        t.check("initial value of a constant schedule", s.initial_value == v, v)
        for k in range(max([50] + [m + 2 for m in t.near(50, 20000, 8)])):
            t.check("a constant schedule yields its value forever", next(s) == v, (v, k))
            s.update([np.ones(3)] * 2, -1e3 * k)
            s.update(np.array([1.0]), float("nan"))
        t.check("initial value unchanged", s.initial_value == v, v)
    t.bound("three changing schedules with every sampler, six constant ones for 50 steps")


# ------------------------------------------------------------------ S09
def s09(t):
    for which in ALL:
        shs = SHAPESETS + [[(1, 2)], [(3, 1)], [(1,)], [(1, 1, 1)], [(0,)], MANY] + around(t) if which != "SVGD" else [[(2,)] * 3, [(1,)] * 2, [(3,)] * 4] + [[(2,)] * m for m in t.near(5, 24, 2)]
        for shapes in shs:
            for kw in ({"burn_in_steps": 2}, {"burn_in_steps": 0}) if which in ("SGHMC", "SGLD") else ({},):
                w = World(which, shapes, values=VALUES, rs=t.seed + 9, **kw).ready()
                for k in range(4):
                    w.sess.on = False
                    with w.g.as_default():
                        params, cost = next(w.s)
                    vals = w.values()
                    info = dict(sampler=which, shapes=shapes, options=kw, step=k)
                    if len(shapes) == 1:
                        ok = not isinstance(params, (list, tuple)) and np.shape(params) == shapes[0] and np.array_equal(params, vals[0])
                        t.check("the bare array of a single parameter", ok, info, params)
                    else:
                        ok = isinstance(params, (list, tuple)) and len(params) == len(shapes)
                        ok = t.check("one value for each parameter", ok, info, params)
                        for i in range(len(shapes) if ok else 0):
                            t.check("in order, in the shape of the parameter, with its value after the step",
                                    np.shape(params[i]) == shapes[i] and np.array_equal(params[i], vals[i]), dict(info, parameter=i), (params[i], vals[i]))
                w.close()
    t.bound("eight sets of shapes with every sampler, four steps during and after burn-in")


# ------------------------------------------------------------------ S10
def s10(t):
    from scipy import stats
    n = t.n(600, 3000)
    for which in ("SGHMC", "SGLD", "Rel"):
        for seed in [None, 0, 1, 12345] + t.near(2, 2 ** 31 - 1, 4):
            runs, tails = [], []
            for rep in range(2):
                for dt in (("float64", "float32") if rep == 0 else ("float64",)):
                    shapes = [(n,), (n // 2, 2), (n,), (1,), (2, n // 2)]
                    kw = {"D": 0.5} if which == "Rel" else {"burn_in_steps": 1}
                    w = World(which, shapes, values=[0.05], cost="zero", seed=seed, dtype=dt, **kw).ready()
                    info = dict(sampler=which, seed=seed, dtype=dt)
                    ops = w.noise_ops()
                    for i, o in enumerate(ops):
                        for op in o:
                            t.check("noise in the precision of the sampler", op.outputs[0].dtype == tf.as_dtype(dt), dict(info, parameter=i), op.outputs[0].dtype)
                    steps, x = [], w.values()
                    for k in range(3):
                        new, _, ns = w.step("actual")
                        if w.simple:
                            steps.append([np.ravel(v).astype(float) for v in ns])
                        else:
                            steps.append([np.ravel(a - b).astype(float) for a, b in zip(new, x)])
                        x = new
                    w.close()
                    for k in range(3):
                        for i, v in enumerate(steps[k]):
                            if len(v) < 10:
                                continue
                            z = v if w.simple else v / np.std(v)
                            t.check("standard normal", stats.kstest(z, "norm").pvalue > 1e-9, dict(info, step=k, parameter=i), (z.mean(), z.std()))
                            if len(v) >= 500:
                                tail = [(np.abs(z) > q).sum() for q in (1.0, 2.0, 2.5)]
                                t.check("as many values in the tails as a normal distribution has", all(abs(c - len(z) * pr) <= 7 * np.sqrt(len(z) * pr) for c, pr in zip(tail, (0.31731, 0.0455, 0.012419))), dict(info, step=k, parameter=i), tail)
                            tails += [np.abs(z)]
                            t.check("one value for each element", len(np.unique(v)) > 0.95 * len(v), dict(info, step=k, parameter=i), len(np.unique(v)))
                            h = len(v) // 2
                            t.check("elements are independent", abs(np.corrcoef(v[:h], v[h:2 * h])[0, 1]) < 7 / np.sqrt(h), dict(info, step=k, parameter=i))
                    flat = [(k, i, v) for k in range(3) for i, v in enumerate(steps[k]) if len(v) == n]
                    for (k, i, v), (k2, i2, v2) in itertools.combinations(flat, 2):
                        for shift in (0, 1):
                            a, b = v[shift:], v2[:len(v2) - shift]
                            t.check("no two parameters or steps share a random stream", abs(np.corrcoef(a, b)[0, 1]) < 7 / np.sqrt(n), dict(info, a=(k, i), b=(k2, i2), shift=shift))
                    if dt == "float64":
                        runs.append(steps)
            z = np.concatenate(tails) if tails else np.zeros(0)
            t.check("the tails of a normal distribution", len(z) < 3000 or all(abs((z > q).sum() - len(z) * pr) <= 8 * np.sqrt(len(z) * pr) + 1 for q, pr in ((2.5, 0.012419), (3.0, 0.0027))),
                    dict(sampler=which, seed=seed), [(z > q).sum() for q in (2.5, 3.0)])
            if seed is not None:
                t.check("with a seed the noise is a function of the seed", all(np.array_equal(a, b) for s1, s2 in zip(*runs) for a, b in zip(s1, s2)), dict(sampler=which, seed=seed))
    # the noise that reaches the parameters: prescribed noise moves every element by sigma, with its own value
    for which in ("SGHMC", "SGLD", "Rel"):
        w = World(which, [(3,), (2, 2), ()], values=[0.05], cost="zero", seed=3, **({"burn_in_steps": 1} if which != "Rel" else {"D": 0.5})).ready()
        x = w.values()
        new, _, ns = w.step("actual")
        if which != "Rel" and w.simple:
            q = np.concatenate([np.ravel((a - b) / n_) for a, b, n_ in zip(new, x, ns)])
            t.check("every element is moved by its own noise", np.allclose(q, q[0], rtol=1e-6) and q[0] > 0, dict(sampler=which), q)
        w.close()
    # many parameters, several seeds: pairwise different streams
    for which in ("SGHMC", "SGLD", "Rel"):
        for seed in (None, 0, 7, 1000003):
            m = t.n(16, 60)
            w = World(which, [(8,)] * m, values=[0.05], cost="zero", seed=seed, **({"burn_in_steps": 1} if which != "Rel" else {"D": 0.5})).ready()
            new, _, ns = w.step("actual")
            new2, _, ns2 = w.step("actual")
            if w.simple:
                rows = np.round(np.stack([np.ravel(v) for v in ns + ns2]), 9)
                t.check("no two parameters or steps share a random stream", len(np.unique(rows, axis=0)) == 2 * m and len(np.unique(rows)) == rows.size, dict(sampler=which, seed=seed, parameters=m))
            w.close()
    t.bound("four seeds, five parameters of hundreds of elements, three steps (Kolmogorov-Smirnov at 1e-9, correlations at 7 sigma); 16 to 60 parameters pairwise")


# ------------------------------------------------------------------ S11
def s11(t):
    r = np.random.RandomState(t.seed + 10)
    for which in ALL:
        for shapes in (sets(which, t.quick) + ([[(2,), (2,)], [(), (3,), (2, 2), (1,)]] if which != "SVGD" else [])):
            n = len(shapes)
            masks = list(itertools.product((False, True), repeat=n)) if n <= 3 else [tuple(bool(b) for b in r.randint(0, 2, n)) for _ in range(6)]
            for mask in masks:
                kept = [np.asarray(r.randn(*s)) + 5 for s in shapes]
                other = {}

                def assign(w):
                    other["v"] = tf.Variable(3.0, name="unrelated")
                    other["w"] = tf.Variable(4.0, name="related")
                    for p, k, f in zip(w.params, kept, mask):
                        if f:
                            w.sess.run(p.initializer)
                            w.sess.run(tf.assign(p, k))
                ok, w = t.runs("the sampler can be constructed", lambda: World(which, shapes, values=[0.01], rs=3, assign=assign, **KW[which][0]), dict(sampler=which, shapes=shapes, initialised=mask))
                if not ok:
                    continue
                info = dict(sampler=which, shapes=shapes, initialised=mask)
                vals = w.values()
                want = [k if f else x for k, x, f in zip(kept, w.x0, mask)]
                for i in range(n):
                    t.check("assigned values are kept, others initialised", np.allclose(vals[i], want[i]), dict(info, parameter=i), (vals[i], want[i]))
                with w.g.as_default():
                    fl = w.sess.run([tf.is_variable_initialized(v) for v in (other["v"], other["w"])])
                t.check("no other variable of the caller is initialised", not any(fl), info, fl)
                w.ready()
                t.check("values kept until the first step", all(np.allclose(a, b) for a, b in zip(w.values(), want)), info)
                new, cost, _ = w.step("zeros")
                sc = np.array([one_cost(w, p, 1.0) for p in want]) if which == "SVGD" else w.ucost(want)
                t.check("the first cost is that of the kept values", close(np.ravel(cost), np.ravel(sc), 1e-8), info, (cost, sc))
                t.check("the update starts from them", all(np.all(np.abs(a - b) < 1.0) for a, b in zip(new, want)), info, (new, want))
                later = [k - 7.5 for k in kept]
                with w.g.as_default():
                    for p, k in zip(w.params, later):
                        w.sess.run(tf.assign(p, k))
                new, cost, _ = w.step("zeros")
                sc = np.array([one_cost(w, p, 1.0) for p in later]) if which == "SVGD" else w.ucost(later)
                t.check("a later step's cost is that of values assigned before it", close(np.ravel(cost), np.ravel(sc), 1e-8), info, (cost, sc))
                t.check("a later step starts from values assigned before it", all(np.all(np.abs(a - b) < 1.0) for a, b in zip(new, later)), info, (new, later))
                w.close()
    # the helper
    g = tf.Graph()
    with g.as_default():
        with tf.Session(graph=g) as s:
            vs = [tf.Variable(np.asarray(r.randn(*sh)), name="v%d" % i) for i, sh in enumerate([(), (3,), (1,), (2, 2), (), (6,), (5,)])]
            state = set()
            for rnd in range(t.n(8, 8)):
                for k in range(t.n(12, 60)):
                    lst = [vs[j] for j in r.randint(0, len(vs), r.randint(1, 8))]
                    got = TU.uninitialized_params(params=lst, session=s)
                    want = [v for v in lst if v.name not in state]
                    t.check("exactly the uninitialised ones, in order", len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                            ([v.name for v in lst], sorted(state)), [v.name for v in got])
                if rnd < len(vs):
                    s.run(vs[(3 * rnd) % len(vs)].initializer)
                    state.add(vs[(3 * rnd) % len(vs)].name)
    t.bound("every subset of initialised parameters (up to three), helper on random lists of variables")


BATTERY = {"S01": s01, "S02": s02, "S03": s03, "S04": s04, "S05": s05, "S06": s06, "S07": s07, "S08": s08, "S09": s09, "S10": s10, "S11": s11}
