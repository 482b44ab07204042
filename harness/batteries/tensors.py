"""T01-T05 on the real tensor utilities."""
import itertools
import numpy as np
import tensorflow as tf
from pysgmcmc import tensor_utils as TU

SHAPES = [(), (1,), (5,), (1, 1), (3, 4), (4, 1), (1, 6), (2, 3, 4), (1, 1, 1), (2, 1, 3, 2)]


class sess(object):
    """a fresh graph with a session"""

    def __enter__(self):
        self.g = tf.Graph()
        self.c = self.g.as_default()
        self.c.__enter__()
        self.s = tf.Session(graph=self.g)
        return self.s

    def __exit__(self, *a):
        self.s.close()
        self.c.__exit__(*a)


def shape_of(x):
    return tuple(x.shape.as_list())


EDGE = [0.0, -0.0, 1.0, -1.0, 1e-16, -1e-16, 2e-16, -2e-16, 3e-16, -3e-16, 5e-17, 1e-30, -1e-30, 1e-300, -1e-300, 1e300, -1e300, 1e-5, -1e-5,
        0.5, -0.5, 3e-8, 123.456, -9.9e-17, 1.0000000000000002e-16]


def t01(t):
    t.bound("normal floating point numbers (the runtime flushes subnormal ones to zero): edge cases around zero and the constant, random values, ten shapes")
    r = np.random.RandomState(t.seed)
    for dt in ("float64", "float32"):
        with sess() as s:
            ys = np.array([e for e in EDGE if dt == "float64" or abs(e) < 1e38] + list(r.randn(40)) + list(10.0 ** r.uniform(-20, 5, 40) * r.choice([-1, 1], 40)), dtype=dt)
            eps = np.finfo(dt).eps
            xs = np.array(list(r.randn(len(ys) - 3)) + [0.0, 1.0, -1.0], dtype=dt)
            ys = np.concatenate([ys, np.array([w for v in t.values(-1e30, 1e30) for w in (v, -v, v * (1 + 4 * eps), v * (1 - 4 * eps))], dtype=dt)])
            xs = np.concatenate([xs, np.asarray(r.randn(len(ys) - len(xs)), dtype=dt)])
            for c in (None, 1e-16, 1e-8, 0.5, 3.0):
                k = {} if c is None else {"small_constant": c}
                cc = 1e-16 if c is None else c
                X, Y = tf.placeholder(dt, shape=[None]), tf.placeholder(dt, shape=[None])
                ok, q = t.runs("the quotient can be built", lambda: TU.safe_divide(X, Y, **k), (dt, c))
                if not ok:
                    continue
                ones = s.run(q, {X: np.ones_like(xs), Y: ys}).astype("float64")
                got = s.run(q, {X: xs, Y: ys}).astype("float64")
                y64 = ys.astype("float64")
                for x, y, o, g in zip(xs.astype("float64"), y64, ones, got):
                    info = dict(x=x, y=y, c=cc, dtype=dt)
                    big = abs(y) > 1e290 or (dt == "float32" and abs(y) > 1e37)
                    if not big:
                        if not t.check("the quotient is finite", np.isfinite(o) and np.isfinite(g) and o != 0, info, (o, g)):
                            continue
                        den = 1.0 / o
                        t.check("the denominator has the sign of y", (den > 0) if y >= 0 else (den < 0), info, den)
                        t.check("the denominator differs from y by at most 3c", abs(den - y) <= 3 * cc * (1 + 1e-6) + 8 * eps * (abs(y) + cc), info, den)
                        t.check("the quotient is x divided by the denominator", abs(g - x * o) <= 1e-6 * abs(x * o) + 1e-300, info, (g, x * o))
    with sess() as s:
        for sh in SHAPES:
            x, y = np.asarray(r.randn(*sh)), np.asarray(r.randn(*sh))
            ok, got = t.runs("every shape", lambda: s.run(TU.safe_divide(tf.constant(x), tf.constant(y))), sh)
            if ok:
                t.check("element by element", got.shape == sh and np.allclose(got, x / y, rtol=1e-9), sh, got)
            ok, got = t.runs("a number divided by a tensor", lambda: s.run(TU.safe_divide(1.0, tf.constant(y))), sh)
            if ok:
                t.check("a number divided element by element", got.shape == sh and np.allclose(got, 1.0 / y, rtol=1e-9), sh, got)


def t02(t):
    t.bound("edge cases, random values, ten shapes, four pairs of bounds")
    r = np.random.RandomState(t.seed + 1)
    xs = np.array([0.0, -0.0, 1.0, -1.0, 4.0, -4.0, 1e-300, -1e-300, 1e300, -1e300, 2.25, 1e-16, -1e-16, 0.25, 9.0, 100.0] + list(r.randn(50)) + list(10.0 ** r.uniform(-30, 30, 50)))
    xs = np.concatenate([xs, [w for v in t.values(-1e30, 1e30) for w in (v, -v, v * (1 + 1e-15), v * (1 - 1e-15))]])
    with sess() as s:
        for lo, hi in ((None, None), (0.0, None), (0.5, None), (None, 2.0), (1.0, 1.0), (0.25, 9.0), (0.0, 0.0), (1e-36, None), (1e-12, 1e12), (1e-60, 1e-40), (0.0, 1e-20), (1e20, None)):
            k = {}
            if lo is not None:
                k["clip_value_min"] = lo
            if hi is not None:
                k["clip_value_max"] = hi
            ok, got = t.runs("the root can be taken", lambda: s.run(TU.safe_sqrt(tf.constant(xs), **k)), (lo, hi))
            if not ok:
                continue
            want = np.sqrt(np.clip(xs, 0.0 if lo is None else lo, np.inf if hi is None else hi))
            for x, g, w in zip(xs, got, want):
                t.check("root of the clipped argument", abs(g - w) <= 1e-12 * abs(w), dict(x=x, bounds=(lo, hi)), (g, w))
        for sh in SHAPES:
            x = r.randn(*sh) ** 2 if sh else np.float64(2.0)
            got = s.run(TU.safe_sqrt(tf.constant(x)))
            t.check("element by element", got.shape == sh and np.allclose(got, np.sqrt(x)), sh, got)


def t03(t):
    t.bound("all sizes up to 40 (with and without ties), all permutations up to 5 elements, ten shapes")
    r = np.random.RandomState(t.seed + 2)

    def ref(v):
        o = sorted(v)
        n = len(o)
        return o[n // 2] if n % 2 else (o[n // 2 - 1] + o[n // 2]) / 2
    for n in list(range(1, 41)) + [101, 500, 1001] + [m for m in t.near(41, 70000)]:
        with sess() as s:
            X = tf.placeholder(tf.float64, shape=[n])
            ok, m = t.runs("a median can be built", lambda: TU.median(X), n)
            if not ok:
                continue
            cases = [r.randn(n), r.randint(0, 3, n).astype(float), -np.arange(n) * 1.0, np.arange(n) ** 2.0, np.zeros(n), r.randint(-2, 2, n) * 1e6,
                     1 + r.permutation(n) * 1e-12, -3e5 + r.permutation(n) * 1e-8, r.randn(n) * 10.0 ** r.randint(-40, 40, n), r.permutation(n) * 1e300 / n, r.permutation(n) * 1e-300]
            if n <= t.n(4, 6):
                cases += [np.array(p, float) for p in itertools.permutations(range(n))]
                cases += [np.array(p, float) for p in itertools.product((-1, 0, 5), repeat=n)]
            for v in cases:
                g = s.run(m, {X: v})
                t.check("the middle value or the mean of the middle two", np.shape(g) == () and abs(g - ref(v)) <= 1e-14 * abs(ref(v)) + 1e-307, v.tolist(), (g, ref(v)))
    for sh in SHAPES:
        with sess() as s:
            for dt in ("float64", "float32"):
                v = np.asarray(r.randn(*sh), dtype=dt)
                ok, g = t.runs("every shape", lambda: s.run(TU.median(tf.constant(v))), sh)
                if ok:
                    t.check("tensors of any shape", abs(g - ref(list(v.ravel()))) <= 1e-6, (sh, dt), g)


def t04(t):
    t.bound("2 to 17 rows, 1 to 5 columns and 33 rows; square forms of up to 300 rows; all condensed lengths up to 120")
    r = np.random.RandomState(t.seed + 3)
    for m in list(range(2, t.n(11, 20))) + [17, 33] + t.near(20, 90, 4):
        for d in (1, 2, 5) if m < 17 else (2,):
            with sess() as s:
                x = r.randn(m, d) * 10.0 ** r.randint(-2, 3)
                if m > 3:
                    x[2] = x[0]
                ok, pd = t.runs("distances can be built", lambda: TU.pdist(tf.constant(x)), (m, d))
                if not ok:
                    continue
                got = s.run(pd)
                want = np.array([np.sqrt(np.sum((x[i] - x[j]) ** 2)) for i in range(m) for j in range(i + 1, m)])
                if not t.check("rows i<j in lexicographic order", got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-12), (m, d), got):
                    continue
                v = tf.Variable(x)
                s.run(v.initializer)
                t.check("distances of a variable", np.allclose(s.run(TU.pdist(v)), want, rtol=1e-9, atol=1e-12), (m, d))
    for m in list(range(2, t.n(16, 30))) + [33, 50, 64, 65, 100, 128, 129, 182, 200, 257, 300] + t.near(34, 400, 6) + t.n([], [400, 512, 700]):
        n = m * (m - 1) // 2
        with sess() as s:
            for dt in ("float64", "float32") if m < 65 else ("float64",):
                c = np.asarray(r.permutation(n) + 1, dtype=dt)
                ok, g = t.runs("a square form can be built", lambda: s.run(TU.squareform(tf.constant(c))), m)
                if not ok:
                    continue
                want = np.zeros((m, m), dtype=dt)
                k = 0
                for i in range(m):
                    for j in range(i + 1, m):
                        want[i, j] = want[j, i] = c[k]
                        k += 1
                t.check("the symmetric matrix with zero diagonal", g.shape == want.shape and np.array_equal(g, want) and g.dtype == want.dtype, (m, dt), g)
    good = {m * (m - 1) // 2 for m in range(100)}
    for n in range(1, t.n(120, 400)):
        if n not in good:
            with sess():
                t.raises("other lengths are rejected", lambda: TU.squareform(tf.constant(np.zeros(n))), Exception, n)
    with sess():
        for sh in ((), (3,), (2, 2, 2), (1, 3, 3, 1)):
            t.raises("wrong rank for distances", lambda: TU.pdist(tf.constant(np.zeros(sh))), Exception, sh)
        for sh in ((), (3, 3), (3, 1), (1, 3), (2, 2, 2)):
            t.raises("wrong rank for a square form", lambda: TU.squareform(tf.constant(np.zeros(sh))), Exception, sh)
        for me in ("cityblock", "cosine", "Euclidean", "", "euclid", "sqeuclidean", None):
            t.raises("other metrics", lambda: TU.pdist(tf.constant(np.zeros((3, 2))), metric=me), Exception, me)
        for v in (np.zeros((3, 2)), [[1.0]], None, 3.0):
            t.raises("other inputs", lambda: TU.pdist(v), Exception, repr(v))


def t05(t):
    t.bound("ten shapes, variables and tensors, float32 and float64, initialised or not")
    r = np.random.RandomState(t.seed + 4)
    for sh in SHAPES + [(7, 1, 2), (1, 9, 1), (3, 3)] + [sh for m in t.near(6, 3000, 6) for sh in ((m,), (2, m))]:
        for dt in ("float64", "float32"):
            with sess() as s:
                x = np.asarray(r.randn(*sh), dtype=dt)
                n = x.size
                info = (sh, dt)
                for kind in ("constant", "placeholder", "expression"):
                    p = tf.placeholder(dt, shape=sh)
                    T = {"constant": lambda: tf.constant(x), "placeholder": lambda: p, "expression": lambda: tf.constant(x) * 1}[kind]()
                    ok, v = t.runs("a tensor can be vectorised", lambda: TU.vectorize(T), info)
                    if not ok:
                        continue
                    fd = {p: x}
                    t.check("a column with one row per element", shape_of(v) == (n, 1), info, v.shape)
                    t.check("a tensor becomes a tensor", isinstance(v, tf.Tensor), info, v)
                    got = s.run(v, fd)
                    t.check("rows in row-major order", np.array_equal(got, x.reshape(-1, 1)), info, got)
                    ok, b = t.runs("it can be restored", lambda: s.run(TU.unvectorize(v, original_shape=T.shape), fd), info)
                    if ok:
                        t.check("restored exactly", b.shape == sh and np.array_equal(b, x) and b.dtype == x.dtype, info, b)
                for trainable in (True, False):
                    V = tf.Variable(x, trainable=trainable)
                    for when in ("before", "after", "reassigned", "never"):
                        W = tf.Variable(x)
                        if when in ("after", "reassigned"):
                            s.run(W.initializer)
                        if when == "reassigned":
                            s.run(tf.assign(W, x))
                        ok, v = t.runs("a variable can be vectorised", lambda: TU.vectorize(W), info)
                        if not ok:
                            continue
                        t.check("a new variable", isinstance(v, tf.Variable) and v is not W, info, v)
                        if when == "before":
                            s.run(W.initializer)
                        ok, _ = t.runs("the new variable can be initialised", lambda: s.run(v.initializer), (info, when))
                        if not ok:
                            continue
                        if when == "never":
                            t.check("starts at the variable's initial value", np.array_equal(s.run(v), x.reshape(-1, 1)), info)
                            s.run(W.initializer)
                        t.check("starts at the variable's value", np.array_equal(s.run(v), x.reshape(-1, 1)), info)
                        t.check("a variable restored exactly", np.array_equal(s.run(TU.unvectorize(v, W.shape)), x), info)
                        if n:
                            s.run(tf.assign(W, x + 1))
                            t.check("the new variable is independent", np.array_equal(s.run(v), x.reshape(-1, 1)), info)
    with sess():
        for v in (1.0, 3, None, "x", np.zeros((2, 2)), [1.0, 2.0], (1.0,), object()):
            t.raises("other inputs are rejected", lambda: TU.vectorize(v), ValueError, repr(v))


BATTERY = {"T01": t01, "T02": t02, "T03": t03, "T04": t04, "T05": t05}
