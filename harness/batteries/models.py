"""M01-M07 on the real models."""
import contextlib
import functools
import inspect
import itertools
import numpy as np
import tensorflow as tf
from pysgmcmc.models import base_model as BM
from pysgmcmc.models import bayesian_neural_network as NN
from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
from pysgmcmc.sampling import Sampler
from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
from pysgmcmc.data_batches import generate_batches
import pysgmcmc.samplers.sghmc as M_SGHMC
import pysgmcmc.samplers.sgld as M_SGLD


class Session(tf.Session):
    """records the evaluations that belong to sampler steps"""

    def __init__(self, **k):
        super().__init__(**k)
        self.steps = []
        self.ready_at_step = []

    def run(self, fetches, feed_dict=None, options=None, run_metadata=None):
        step = isinstance(fetches, (list, tuple)) and len(fetches) >= 2 and isinstance(fetches[0], (list, tuple))
        if step and not self.steps:
            with self.graph.as_default():
                vs = tf.global_variables()
                self.ready_at_step.append([v.name for v, f in zip(vs, super().run([tf.is_variable_initialized(v) for v in vs])) if not f])
        out = super().run(fetches, feed_dict=feed_dict)
        if step:
            self.steps.append((out[0], out[1], dict(feed_dict or {})))
        return out


@contextlib.contextmanager
def world():
    g = tf.Graph()
    with g.as_default():
        s = Session(graph=g)
        try:
            yield s
        finally:
            s.close()


def make_net(d, kind="two"):
    """a small network with known weights; -> (get_net, numpy function of the parameters)"""
    r = np.random.RandomState(3)
    W, b, u = r.randn(d, 2) * 0.4, r.randn(1, 2) * 0.3 - 1.0, r.randn(1, 2) * 0.1

    def get_net(inputs, seed=None, dtype=tf.float64):
        get_net.calls.append((inputs, seed, dtype))
        if kind == "one":
            w = tf.Variable(W, dtype=dtype, name="w")
            return tf.tanh(tf.matmul(inputs, w)) - 0.3
        w, c, z = tf.Variable(W, dtype=dtype, name="w"), tf.Variable(b, dtype=dtype, name="b"), tf.Variable(u[0, 0], dtype=dtype, name="z")
        return tf.tanh(tf.matmul(inputs, w) + c) + tf.concat([tf.zeros_like(inputs[:, :1]), tf.ones_like(inputs[:, :1]) * z], axis=1)

    def out(params, X):
        if kind == "one":
            return np.tanh(X.dot(params[0])) - 0.3
        o = np.tanh(X.dot(params[0]) + params[1])
        o[:, 1] += params[2]
        return o
    get_net.calls = []
    return get_net, out


OK = dict(n_nets=5, n_iters=50, burn_in_steps=3, sample_steps=2, batch_size=4, dtype=tf.float64, sampling_method=Sampler.SGHMC,
          normalize_input=True, normalize_output=False, seed=7)


class NoUpdate(object):
    initial_value = 0.1

    def __next__(self):
        return 0.1


class NoNext(object):
    initial_value = 0.1

    def update(self, *a, **k):
        pass


class Both(NoUpdate, NoNext):
    pass


def m01(t):
    get_net, _ = make_net(2)

    def build(**k):
        o = dict(OK, session=None, get_net=get_net, batch_generator=generate_batches, stepsize_schedule=ConstantStepsizeSchedule(0.02))
        o.update(k)
        return o, (lambda: BayesianNeuralNetwork(**o))
    bad = {}
    for n in ("n_nets", "n_iters", "sample_steps", "batch_size"):
        bad[n] = [0, -1, -100, 1.0, 2.5, "3", None, [1], float("inf"), np.float64(3)]
    bad["burn_in_steps"] = [-1, -7, 0.0, 1.5, "1", None, [2]]
    bad["dtype"] = ["float64", float, np.float64, None, 64]
    bad["get_net"] = [None, 3, "net", [lambda: 1]]
    bad["batch_generator"] = [None, 3, "batches", iter([])]
    bad["stepsize_schedule"] = [None, 0.1, NoUpdate(), NoNext(), iter([0.1])]
    bad["sampling_method"] = [None, "SGHMC", "SGLD", Sampler.SVGD, Sampler.RelativisticSGHMC, 1, SamplerLike()]
    good = {"n_nets": [1, 2, 10 ** 9], "n_iters": [1, 7], "sample_steps": [1, 1000], "batch_size": [1, 3, 10 ** 6], "burn_in_steps": [0, 1, 5000],
            "dtype": [tf.float64, tf.float32, tf.float16], "get_net": [get_net, lambda **k: 0, dict], "batch_generator": [generate_batches, lambda **k: 0, list],
            "stepsize_schedule": [ConstantStepsizeSchedule(0.5), Both()], "sampling_method": [Sampler.SGHMC, Sampler.SGLD],
            "normalize_input": [True, False], "normalize_output": [True, False], "seed": [None, 0, 5]}
    for n, vs in bad.items():
        for v in vs:
            o, f = build(**{n: v})
            t.raises("an invalid setting is rejected", f, (AssertionError, ValueError), {n: v})
    for n, vs in good.items():
        for v in vs:
            remembered(t, build(**{n: v}), {n: v})
    r = t.rng
    for k in range(t.n(60, 600)):
        ch = {n: r.choice(vs) for n, vs in good.items()}
        ch.update({n: r.choice([i for i in (1, 2, 3, 5, 8, 1000)]) for n in ("n_nets", "n_iters", "sample_steps", "batch_size", "burn_in_steps")})
        if r.random() < 0.5:
            remembered(t, build(session=Sess(), mdecay=0.1, other=3, **ch), ch)
        else:
            n = r.choice(sorted(bad))
            ch[n] = r.choice(bad[n])
            t.raises("one invalid setting among valid ones is rejected", build(**ch)[1], (AssertionError, ValueError), ch)
    t.bound("%d invalid and %d valid single settings, random combinations" % (sum(map(len, bad.values())), sum(map(len, good.values()))))


class Sess(object):
    pass


class SamplerLike(object):
    name = value = "SGHMC"


def remembered(t, of, info):
    o, f = of
    ok, n = t.runs("valid settings are accepted", f, info)
    if not ok:
        return
    for k, v in o.items():
        if k in ("mdecay", "other"):
            continue
        t.check("each setting is remembered under its own name", getattr(n, k, MISS) is v or getattr(n, k, MISS) == v, dict(info, setting=k), getattr(n, k, MISS))
    t.check("additional options are remembered", {k: n.sampler_kwargs.get(k) for k in ("mdecay", "other") if k in o} == {k: o[k] for k in ("mdecay", "other") if k in o}, info, n.sampler_kwargs)
    t.check("not trained yet", not n.is_trained, info)


MISS = object()


def data(n, d, seed):
    r = np.random.RandomState(seed)
    X = r.randn(n, d) * 2 + 1
    return X, np.sin(X[:, 0]) * 3 - 2 + 0.1 * r.randn(n)


def m02(t):
    confs = [(3, 60, 10, 5), (4, 30, 0, 1), (100, 25, 7, 3), (2, 1000, 4, 4), (1, 12, 3, 4), (3, 5, 9, 2), (2, 9, 8, 1), (5, 40, 6, 7), (1, 1, 0, 1), (10, 11, 0, 1)]
    r = t.rng
    confs += [(r.randint(1, 6), r.randint(1, 40), r.randint(0, 15), r.randint(1, 6)) for _ in range(t.n(4, 30))]
    confs += [(150, 170, 2, 1), (3, 400, 11, 75)]
    for v in t.near(1, 600, t.n(9, 40)):
        confs += [[(v, v + 9, 3, 1), (3, 3 * v + 12, 5, v), (2, v + 8, v, 2), (4, v, 2, 3)][q] for q in ((0, 1, 2, 3) if v < 150 or not t.quick else (len(confs) % 4,))]
    for j, (n_nets, n_iters, B, s) in enumerate(confs):
        kind = "one" if j % 4 == 3 else "two"
        info = dict(n_nets=n_nets, n_iters=n_iters, burn_in_steps=B, sample_steps=s, variables=1 if kind == "one" else 3)
        with world() as se:
            get_net, out = make_net(2, kind)
            X, y = data(15, 2, j)
            n = BayesianNeuralNetwork(se, get_net=get_net, n_nets=n_nets, n_iters=n_iters, burn_in_steps=B, sample_steps=s, batch_size=4, seed=1,
                                      sampling_method=[Sampler.SGHMC, Sampler.SGLD][j % 2], stepsize_schedule=ConstantStepsizeSchedule(0.0 if j % 6 == 1 else 1e-3))
            want_k = [k for k in range(n_iters) if k > B and k % s == 0][:n_nets]
            n_run = want_k[-1] + 1 if len(want_k) == n_nets else n_iters
            for again in range(2 if j % 3 == 0 else 1):
                if again:
                    # a second training in the same graph would define the variables again: only the discarding of samples is of interest
                    n.samples.append("old")
                    se.steps = []
                    get_net.calls = []
                    n.get_net = lambda inputs, seed=None, dtype=None: tf.matmul(inputs, tf.Variable(np.ones((2, 2)) * 0.1, dtype=tf.float64))
                n.train(X, y)
                t.check("training stops when enough networks are collected or the iterations are exhausted", len(se.steps) == n_run, info, (len(se.steps), n_run))
                smp = list(n.samples)
                if not t.check("as many networks as scheduled", len(smp) == len(want_k), info, (len(smp), want_k)):
                    continue
                for a, k in zip(smp, want_k):
                    if k < len(se.steps):
                        b = se.steps[k][0]
                        ok = isinstance(a, (list, tuple)) and len(a) == len(b) and all(np.array_equal(p, q) for p, q in zip(a, b))
                        t.check("the parameters of exactly the scheduled iterations, in order", ok, dict(info, iteration=k), (a, b))
                t.check("trained", n.is_trained is True, info)
    t.bound("%d schedules, two samplers, retraining" % len(confs))


def train_one(se, d=2, kind="two", j=0, **k):
    get_net, out = make_net(d, kind)
    X, y = data(23, d, j)
    o = dict(get_net=get_net, n_nets=4, n_iters=60, burn_in_steps=5, sample_steps=3, batch_size=4, seed=1, stepsize_schedule=ConstantStepsizeSchedule(1e-2))
    o.update(k)
    n = BayesianNeuralNetwork(se, **o)
    n.train(X, y)
    return n, out, X, y, get_net


def m03(t):
    r = np.random.RandomState(t.seed)
    with world() as se:
        n = BayesianNeuralNetwork(se, get_net=make_net(2)[0])
        t.raises("predicting before training raises a value error", lambda: n.predict(r.randn(3, 2)), ValueError)
    j = 0
    for ni, no, kind, d in itertools.product((True, False), (True, False), ("one", "two"), (1, 3)):
        j += 1
        with world() as se:
            n, out, X, y, _ = train_one(se, d, kind, j, normalize_input=ni, normalize_output=no, sampling_method=[Sampler.SGHMC, Sampler.SGLD][j % 2], n_nets=1 + j % 5)
            smp = [[np.asarray(p, float) for p in s] for s in n.samples]
            for m in (1, 2, 9):
                Xt = r.randn(m, d) * 3
                info = dict(normalize_input=ni, normalize_output=no, variables=kind, dims=d, points=m, networks=len(smp))
                Z = (Xt - X.mean(0)) / X.std(0) if ni else Xt
                o = np.array([out(s, Z) for s in smp])
                f, l = o[:, :, 0], o[:, :, 1]
                my, sy = (y.mean(), y.std()) if no else (0.0, 1.0)
                for rep in range(2):
                    ok, res = t.runs("prediction works", lambda: n.predict(Xt), info)
                    if not ok:
                        break
                    mean, var = res
                    t.check("the average of the networks' outputs", np.shape(mean) == (m,) and np.allclose(mean, f.mean(0) * sy + my, rtol=1e-8), info, (mean, f.mean(0) * sy + my))
                    t.check("the spread of the networks' outputs", np.shape(var) == (m,) and np.allclose(var, f.var(0) * sy ** 2, rtol=1e-6, atol=1e-13), info, (var, f.var(0) * sy ** 2))
                    fi, th = n.predict(Xt, return_individual_predictions=True)
                    t.check("individual predictions, one row per network", np.shape(fi) == (len(smp), m) and np.allclose(fi, f * sy + my, rtol=1e-8), info, (fi, f * sy + my))
                    t.check("individual noise variances, one row per network", np.shape(th) == (len(smp), m) and np.allclose(th, np.exp(l) * sy ** 2, rtol=1e-8), info, (th, np.exp(l) * sy ** 2))
    # each call answers for the inputs, the samples and the data as they are at the call, whatever was asked before
    for j, kind in enumerate(("one", "two")):
        with world() as se:
            n, out, X, y, _ = train_one(se, 2, kind, 50 + j, n_nets=3)
            Xt = r.randn(4, 2)

            def expect(what):
                smp = [[np.asarray(p, float) for p in s] for s in n.samples]
                o = np.array([out(s, (Xt - X.mean(0)) / X.std(0)) for s in smp])
                for rep in range(2):
                    for ind in (rep == 0, rep == 1):
                        ok, res = t.runs("prediction works", lambda: n.predict(Xt, ind) if ind else n.predict(Xt), what)
                        if ok:
                            t.check("the prediction is for the current inputs and samples", np.allclose(res[0], (o[:, :, 0] if ind else o[:, :, 0].mean(0)) * y.std() + y.mean(), rtol=1e-8),
                                    dict(variables=kind, after=what, individual=ind), res[0])
            expect("first call")
            Xt *= 1.5
            expect("the inputs changed in place")
            Xt[2] += 0.3
            expect("one input changed in place")
            n.samples[0] = [np.asarray(p) * 1.25 for p in n.samples[0]]
            expect("a sample was replaced")
            n.samples.pop()
            expect("a sample was removed")
            n.samples.append([np.asarray(p) * 0.5 for p in n.samples[0]])
            expect("a sample was added")
    t.bound("16 trained networks of one or three variables, three sizes of test data each, predictions repeated")


def m04(t):
    r = np.random.RandomState(t.seed + 4)
    sizes = [(int(r.randint(1, 30)), int(r.randint(1, 500)), int(r.randint(1, 12))) for j in range(t.n(24, 200))]
    sizes += [(3, 20001, 4), (1000, 7, 2), (5, 100, 300)] + [q for v in t.near(2, 30000, 8) for q in ((4, v, 3), (v, 50, 3), (7, 30, min(v, 2000)))]
    for j, (b, N, rows) in enumerate(sizes):
        d = 1 + j % 3
        kind = "one" if j % 4 == 0 else "two"
        with world() as se:
            get_net, out = make_net(d, kind)
            n = BayesianNeuralNetwork(se, get_net=get_net, batch_size=b, seed=2)
            n.X = r.randn(N, d)
            if j % 5 == 0:
                for q, name in enumerate(("another", "bias", "kernel", "scope/weights", "batch_norm/gamma", "log_variance")):
                    tf.Variable(r.randn(2, 3, 4)[:1 + q % 2], dtype=tf.float64, name=name)
                tf.Variable(r.randn(5) * 100, dtype=tf.float64, name="untrained", trainable=False)
            Xp, Yp = tf.placeholder(tf.float64, shape=(None, d)), tf.placeholder(tf.float64)
            info = dict(batch_size=b, N=N, rows=rows, dims=d, variables=kind, case=j)
            ok, res = t.runs("the objective can be built", lambda: n.negative_log_likelihood(X=Xp, Y=Yp), info)
            if not ok:
                continue
            nll, mse = res
            se.run(tf.global_variables_initializer())
            ws = tf.trainable_variables()
            for rep in range(5 if j % 3 == 0 and kind == "two" else 2):
                if rep:
                    for w in ws:
                        # noise far from the usual: log variances around -40 .. 40
                        se.run(tf.assign(w, {2: -40., 3: 25., 4: -20.}[rep] if rep > 1 and w.name == "z:0" else r.randn(*w.shape.as_list()) * 2))
                X, Y = r.randn(rows, d) * 2, r.randn(rows, 1) * 3
                wv = se.run(ws)
                got = se.run([nll, mse], {Xp: X, Yp: Y})
                names = {w.name.split(":")[0]: v for w, v in zip(ws, wv)}
                o = out([names[k] for k in (("w",) if kind == "one" else ("w", "b", "z"))], X)
                f, l = o[:, :1], o[:, 1:]
                P = np.mean(-(l - np.log(1e-6)) ** 2 / (2 * 0.01) - 0.5 * np.log(0.01))
                W = -0.5 * sum(np.sum(v ** 2) for v in wv) / sum(v.size for v in wv)
                want = -(np.sum(-(Y - f) ** 2 / (2 * (np.exp(l) + 1e-16)) - l / 2) / b + P / N + W / N)
                t.check("the objective", close(got[0], want, 1e-8), info, (got[0], want))
                t.check("the reported error is the mean squared error", close(got[1], np.mean((Y - f) ** 2), 1e-8), info, got[1])
    t.bound("random networks, batch sizes, dataset sizes and weights")


def close(a, b, tol):
    return np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a) - b) <= tol * (1e-3 + np.abs(b))))


def m05(t):
    r = np.random.RandomState(t.seed + 5)
    shapes = [(1,), (2,), (7,), (50,), (2, 1), (3, 4), (50, 3), (5, 1), (2, 7)]
    shapes += [q for m in sorted(set(t.near(2, 5000, 6)) | {300, 5000}) for q in ((m,), (m, 2), (3, m))]
    for j in range(max(t.n(60, 600), len(shapes))):
        sh = shapes[j % len(shapes)]
        X = (r.randn(*sh) * 10.0 ** r.randint(-3, 4) + r.randn() * 10) if j % 3 else r.randint(-5, 6, sh).astype(float)
        if len(sh) == 2 and sh[0] > 1:
            for c in range(sh[1]):
                if np.ptp(X[:, c]) == 0:
                    X[0, c] += 1
        elif sh[0] > 1 and np.ptp(X) == 0:
            X[0] += 1
        ss = sh[1:]
        X0 = X.copy()
        for name, f, g, s1, s2 in (("zero_one", BM.zero_one_normalization, BM.zero_one_unnormalization, np.min(X, 0), np.max(X, 0)),
                                   ("zero_mean_unit_var", BM.zero_mean_unit_var_normalization, BM.zero_mean_unit_var_unnormalization, np.mean(X, 0), np.std(X, 0))):
            for given in range(4):
                a1 = np.asarray(r.randn(*ss)) if given & 1 else None
                a2 = np.asarray(np.abs(r.randn(*ss)) + 20) if given & 2 else None
                if given & 1 and a1.shape == () and j % 2:
                    a1 = float(a1)
                info = dict(function=name, shape=sh, given=given, X=X0.ravel()[:6].tolist())
                w1, w2 = (s1 if a1 is None else a1), (s2 if a2 is None else a2)
                den = (w2 - w1) if name == "zero_one" else w2
                with np.errstate(all="ignore"):
                    ok, res = t.runs("normalisation works", lambda: f(X, a1, a2), info)
                    if not ok:
                        continue
                    out, r1, r2 = res
                    t.check("the statistics used are returned", np.allclose(r1, w1) and np.allclose(r2, w2), info, (r1, r2))
                    if np.any(np.abs(den) < 1e-9):
                        continue
                    t.check("normalised column by column", np.shape(out) == sh and np.allclose(out, (X0 - w1) / den, rtol=1e-9, atol=1e-9), info, out)
                    back = g(out, r1, r2)
                    t.check("the matching inverse restores the data", np.shape(back) == sh and np.allclose(back, X0, rtol=1e-8, atol=1e-8 * (1 + np.max(np.abs(X0)))), info, back)
                    if name == "zero_one" and given == 0:
                        t.check("zero-one normalised data lie in [0,1]", np.all(out >= 0) and np.all(out <= 1), info, out)
                    t.check("the data of the caller are untouched", np.array_equal(X, X0), info)
                    z = r.randn(*sh)
                    t.check("the inverse map", np.allclose(g(z, w1, w2), (w1 + (w2 - w1) * z) if name == "zero_one" else z * w2 + w1), info)
    t.bound("random data of nine shapes, with and without given statistics")


class Model(BM.BaseModel):
    def __init__(self):
        super().__init__()
        self.calls = []

    @BM.BaseModel._check_shapes_train
    def train(self, X, y, *args, **kwargs):
        self.calls.append((X, y, args, kwargs))
        self.X, self.y = X, y
        return "trained"

    @BM.BaseModel._check_shapes_predict
    def predict(self, X, *args, **kwargs):
        self.calls.append((X, args, kwargs))
        return "predicted"


def m06(t):
    r = np.random.RandomState(t.seed + 6)
    sizes = [17, 64, 65, 257, 1024, 1500] + t.near(2, 3000, 8)
    for j in range(t.n(80, 800)):
        m = Model()
        d = int(r.randint(1, 5))
        t.check("nothing before any data", m.get_json_data()["X"] is None and m.get_json_data()["y"] is None, j)
        X, y = r.randn(sizes[j] if j < len(sizes) else int(r.randint(1, 9)), d), None
        y = r.randint(-3, 4, len(X)).astype(float) if j % 2 else r.randn(len(X))
        m.train(X, y)
        ax, ay = X.copy(), y.copy()
        for k in range(3):
            n = len(m.calls)
            i = int(np.argmin(ay))
            inc = m.get_incumbent()
            info = dict(X=ax.tolist(), y=ay.tolist(), round=k)
            t.check("the incumbent is the best observed point with its label", len(inc) == 2 and inc[1] == ay.min() and any(np.array_equal(inc[0], p) and l == ay.min() for p, l in zip(ax, ay)), info, inc)
            js = m.get_json_data()
            t.check("the serialised form holds exactly the data", js["X"] == ax.tolist() and js["y"] == ay.tolist() and isinstance(js["X"], list), info, js)
            X2 = r.randn(sizes[(j + k) % len(sizes)] if j < 10 and k else int(r.randint(0, 5)), d)
            y2 = r.randn(len(X2)) - (k == 1)
            m.update(X2, y2)
            ax, ay = np.concatenate([ax, X2]), np.concatenate([ay, y2])
            ok = len(m.calls) == n + 1 and np.array_equal(m.calls[-1][0], ax) and np.array_equal(m.calls[-1][1], ay)
            t.check("updating trains once on the old data followed by the new", ok, info)
    for j in range(t.n(40, 300)):
        # data seen before, at the end or throughout, with labels that repeat or are all zero
        m, d = Model(), int(r.randint(1, 4))
        ax = r.randint(-1, 2, (int(r.randint(1, 6)), d)).astype(float)
        ay = np.zeros(len(ax)) if j % 3 == 0 else r.randint(0, 2, len(ax)).astype(float)
        m.train(ax.copy(), ay.copy())
        for k in range(4):
            q = int(r.randint(1, len(ax) + 1)) if k % 2 else 1
            X2, y2 = ax[-q:].copy(), (ay[-q:].copy() if (j + k) % 2 else np.zeros(q))
            n = len(m.calls)
            m.update(X2, y2)
            ax, ay = np.concatenate([ax, X2]), np.concatenate([ay, y2])
            info = dict(X=ax.tolist(), y=ay.tolist(), added=q, round=k)
            t.check("points seen before are added like any other", len(m.calls) == n + 1 and np.array_equal(m.calls[-1][0], ax) and np.array_equal(m.calls[-1][1], ay), info, m.calls[-1][:2])
            js, inc = m.get_json_data(), m.get_incumbent()
            t.check("the serialised form holds exactly the data", js["X"] == ax.tolist() and js["y"] == ay.tolist(), info, js)
            t.check("the incumbent is the best observed point with its label", inc[1] == ay.min() and any(np.array_equal(inc[0], p) and l == ay.min() for p, l in zip(ax, ay)), info, inc)
    for shx, shy in itertools.product([(4,), (4, 2), (4, 1), (4, 2, 1), (4, 1, 1, 1), (0, 3), (3, 2)], [(4,), (4, 1), (3,), (0,), (4, 2)]):
        m = Model()
        X, y = np.zeros(shx), np.zeros(shy)
        good = len(shx) == 2 and len(shy) == 1 and shx[0] == shy[0]
        if good:
            ok, v = t.runs("inputs of the right shape are accepted", lambda: m.train(X, y, 5, z=6), (shx, shy))
            t.check("with all arguments", ok and v == "trained" and m.calls == [(X, y, (5,), {"z": 6})] or ok and m.calls[0][0] is X and m.calls[0][1] is y and m.calls[0][2:] == ((5,), {"z": 6}), (shx, shy))
        else:
            t.raises("inputs of the wrong shape are rejected", lambda: m.train(X, y), AssertionError, (shx, shy))
            t.check("without training", not m.calls, (shx, shy))
    for shx in [(4,), (4, 2), (4, 1), (4, 2, 1), (1, 1, 1, 1), (0, 3)]:
        m = Model()
        X = np.zeros(shx)
        if len(shx) == 2:
            ok, v = t.runs("two-dimensional inputs are accepted", lambda: m.predict(X, 5, z=6), shx)
            t.check("with all arguments", ok and v == "predicted" and m.calls[0][0] is X and m.calls[0][1:] == ((5,), {"z": 6}), shx)
        else:
            t.raises("inputs that are not two-dimensional are rejected", lambda: m.predict(X), AssertionError, shx)
        with world() as se:
            n = BayesianNeuralNetwork(se, get_net=make_net(2)[0], n_iters=3, n_nets=1, burn_in_steps=0, sample_steps=1, batch_size=2)
            if len(shx) != 2:
                t.raises("network training rejects them", lambda: n.train(X, np.zeros(shx[0])), AssertionError, shx)
                n.is_trained = True
                t.raises("network prediction rejects them", lambda: n.predict(X), AssertionError, shx)
    t.bound("random data with three updates each, 35 combinations of shapes")


def m07(t):
    r = np.random.RandomState(t.seed + 7)
    j = 0
    opts = [dict(mdecay=0.2), dict(), dict(A=0.5), dict()]
    near = t.near(3, 700, 8)
    sizes = [(v + 3, 4, 9) for v in near] + [(20, v, 9) for v in near] + [(20, 3, v) for v in near] + [(6, 9, 4), (9, 4, 20), (11, 11, 0), (130, 32, 5)]
    confs = [(c, None) for c in itertools.product((Sampler.SGHMC, Sampler.SGLD), (True, False), (True, False), (0, 1))]
    confs += [((r.choice([Sampler.SGHMC, Sampler.SGLD]), bool(r.randint(2)), bool(r.randint(2)), r.randint(2)), q) for q in sizes]
    for (method, ni, no, norm), size in confs:
        j += 1
        mod, cn = (M_SGHMC, "SGHMCSampler") if method == Sampler.SGHMC else (M_SGLD, "SGLDSampler")
        cls = getattr(mod, cn)
        orig = cls.__init__
        got = []

        @functools.wraps(orig)
        def init(self, *a, **k):
            ba = inspect.signature(orig).bind(self, *a, **k)
            ba.apply_defaults()
            got.append((self, dict(ba.arguments), list(tf.trainable_variables())))
            return orig(self, *a, **k)
        extra = ({"mdecay": 0.2 + 0.01 * j} if method == Sampler.SGHMC else {"A": 0.5 + 0.01 * j}) if norm else {}
        N, d = 9 + j, 1 + j % 3
        dt = tf.float64
        sched = ConstantStepsizeSchedule(1e-3 * j)
        B = 4 + j % 3
        bs = 3 + j % 4
        if size is not None:
            N, bs, B = size
        seed = [None, j, 0, -1 - j][0 if j % 2 == 0 else (j // 2) % 4]
        if seed is not None and seed < 0:
            seed = 2 ** 31 + j
        info = dict(sampler=cn, normalize_input=ni, normalize_output=no, options=extra, N=N, batch_size=bs, burn_in_steps=B, seed=seed)
        with world() as se:
            get_net, out = make_net(d, ["two", "one"][j % 2])
            X, y = data(N, d, j)
            X0, y0 = X.copy(), y.copy()
            n = BayesianNeuralNetwork(se, sampling_method=method, get_net=get_net, n_nets=2, n_iters=14, burn_in_steps=B, sample_steps=2, batch_size=bs,
                                      stepsize_schedule=sched, seed=seed, normalize_input=ni, normalize_output=no, dtype=dt, **extra)
            cls.__init__ = init
            try:
                ok, _ = t.runs("training works", lambda: n.train(X, y), info)
            finally:
                cls.__init__ = orig
            if not ok or not t.check("the configured sampler is constructed once", len(got) == 1 and isinstance(got[0][0], cls), info, got):
                continue
            s, a, tv = got[0]
            t.check("all trainable variables of the network are sampled", len(a["params"]) == len(tv) and all(p is q for p, q in zip(a["params"], tv)), info, a["params"])
            t.check("own session", a["session"] is se, info)
            t.check("own seed", a["seed"] == seed, info, a["seed"])
            t.check("own precision", a["dtype"] is dt, info, a["dtype"])
            t.check("own stepsize schedule", a["stepsize_schedule"] is sched, info)
            t.check("gradient scale is the number of training points", a["scale_grad"] == N, info, a["scale_grad"])
            t.check("configured burn-in length", a["burn_in_steps"] == B, info, a["burn_in_steps"])
            for k, v in extra.items():
                t.check("extra options reach the sampler unchanged", a.get(k) == v, dict(info, option=k), a.get(k))
            t.check("every variable is initialised before the first step", se.ready_at_step == [[]], info, se.ready_at_step)
            t.check("the network is built once with its seed and precision", len(get_net.calls) == 1 and get_net.calls[0][1] == seed and get_net.calls[0][2] is dt, info, get_net.calls)
            Xn = (X0 - X0.mean(0)) / X0.std(0) if ni else X0
            yn = (y0 - y0.mean()) / y0.std() if no else y0
            t.check("the data of the caller are untouched", np.array_equal(X, X0) and np.array_equal(y, y0), info)
            prev = None
            px = py = None
            with tf.Graph().as_default():
                px, py = tf.placeholder(tf.float64), tf.placeholder(tf.float64)
                ref = generate_batches(x=Xn, x_placeholder=px, y=yn, y_placeholder=py, batch_size=bs, seed=seed)
            for k, (th, cost, fd) in enumerate(se.steps):
                i = dict(info, step=k)
                # the minibatch: inputs by their placeholder, labels next to them
                xb = [v for key, v in fd.items() if key is get_net.calls[0][0]]
                if not t.check("a minibatch is fed to the network's input", len(xb) == 1, i):
                    break
                xb = np.asarray(xb[0])
                t.check("minibatches have the configured size", xb.shape == (min(bs, N), d), i, xb.shape)
                rows = [int(np.argmin(np.abs(Xn - row).sum(1))) for row in xb]
                t.check("inputs are rows of the (normalised) training data", np.allclose(Xn[rows], xb, rtol=1e-9), i, xb)
                yb = [np.asarray(v) for key, v in fd.items() if np.shape(v) in ((len(rows), 1), (len(rows),)) and key is not get_net.calls[0][0]
                      and np.allclose(np.ravel(v), yn[rows], rtol=1e-9)]
                t.check("labels are the (normalised) ones of these rows", len(yb) >= 1, i)
                if seed is not None:
                    w = next(ref)
                    t.check("the batches of the network's own seed", np.allclose(w[px], xb), i, (w[px], xb))
                # the cost is the training objective at the parameters before the step
                if prev is not None and yb:
                    o = out([np.asarray(p) for p in prev], xb)
                    f, l, Y = o[:, :1], o[:, 1:], np.reshape(yb[0], (-1, 1))
                    P = np.mean(-(l - np.log(1e-6)) ** 2 / (2 * 0.01) - 0.5 * np.log(0.01))
                    W = -0.5 * sum(np.sum(v ** 2) for v in prev) / sum(np.size(v) for v in prev)
                    want = -(np.sum(-(Y - f) ** 2 / (2 * (np.exp(l) + 1e-16)) - l / 2) / bs + P / N + W / N)
                    t.check("the cost is the training objective", close(cost, want, 1e-6), i, (cost, want))
                prev = th
    # the same network trained again, on other data
    for (mod, cn, method), extra, seed in itertools.product(((M_SGHMC, "SGHMCSampler", Sampler.SGHMC), (M_SGLD, "SGLDSampler", Sampler.SGLD)), (0, 1), (None, 5)):
        cls = getattr(mod, cn)
        orig = cls.__init__
        got = []

        @functools.wraps(orig)
        def init(self, *a, **k):
            ba = inspect.signature(orig).bind(self, *a, **k)
            ba.apply_defaults()
            got.append(dict(ba.arguments))
            return orig(self, *a, **k)
        opts = ({"mdecay": 0.3} if method == Sampler.SGHMC else {"A": 0.7}) if extra else {}
        sched = ConstantStepsizeSchedule(1e-3)
        with world() as se:
            get_net, out = make_net(2, "two")
            n = BayesianNeuralNetwork(se, sampling_method=method, get_net=get_net, n_nets=2, n_iters=6, burn_in_steps=2, sample_steps=2, batch_size=3,
                                      stepsize_schedule=sched, seed=seed, dtype=tf.float64, **opts)
            for q, N in enumerate((12, 7, 7, 30)):
                X, y = data(N, 2, 60 + q)
                first = len(se.steps)
                cls.__init__ = init
                try:
                    ok, _ = t.runs("training again works", lambda: n.train(X, y), dict(sampler=cn, points=N, training=q))
                finally:
                    cls.__init__ = orig
                info = dict(sampler=cn, points=N, training=q, options=opts, seed=seed)
                if not ok or not t.check("the configured sampler is constructed once", len(got) == q + 1, info, len(got)):
                    break
                a = got[q]
                t.check("gradient scale is the number of training points", a["scale_grad"] == N, info, a["scale_grad"])
                t.check("configured burn-in length", a["burn_in_steps"] == 2, info, a["burn_in_steps"])
                t.check("own session, seed, precision and schedule", a["session"] is se and a["seed"] == seed and a["dtype"] is tf.float64 and a["stepsize_schedule"] is sched, info)
                t.check("extra options reach the sampler unchanged", all(a.get(k) == v for k, v in opts.items()), info, {k: a.get(k) for k in opts})
                Xn = (X - X.mean(0)) / X.std(0)
                for th, cost, fd in se.steps[first:]:
                    xb = [np.asarray(v) for key, v in fd.items() if key is get_net.calls[-1][0]]
                    t.check("the minibatches are rows of the new data", len(xb) == 1 and xb[0].shape == (3, 2) and all(np.min(np.abs(Xn - row).sum(1)) < 1e-8 for row in xb[0]), info, xb)
    t.bound("%d trainings: both samplers, with and without normalisation and extra options; every minibatch compared" % len(confs))


BATTERY = {"M01": m01, "M02": m02, "M03": m03, "M04": m04, "M05": m05, "M06": m06, "M07": m07}
