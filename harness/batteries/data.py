"""D01-D04 on the real minibatch generators."""
import itertools
import numpy as np
from pysgmcmc.data_batches import generate_batches, generate_shuffled_batches

GENS = {"generate_batches": generate_batches, "generate_shuffled_batches": generate_shuffled_batches}


def dataset(n, d, dtype="float64", order="C", base=0):
    """row i has the cells base + i*d .. base + i*d + d-1, label i is -(i+1) - base: every value identifies its origin"""
    x = np.array(np.arange(n * d).reshape(n, d) + base, dtype=dtype, order=order)
    y = np.array(-(np.arange(n) + 1) - base, dtype=dtype)
    return x, y


def sizes(t):
    small = [(n, d, b) for n in range(1, t.n(7, 12)) for d in (1, 2, 3) for b in sorted({1, 2, n - 1, n, n + 1, 20}) if b > 0]
    big = [(19, 2, 20), (20, 2, 20), (21, 1, 20), (40, 3, 20), (100, 2, 99), (100, 1, 7), (256, 1, 64), (1000, 1, 20)]
    at = [c for m in t.near(3, 3000, 8) for c in ((m, 1, 2), (m + 5, 2, m))]
    return small + big + at


def check_batch(t, what, fd, x, y, xp, yp, b, info, shuffled=False):
    n, d = x.shape
    w = min(b, n)
    if not t.check(what + ": feeds exactly the two placeholders", isinstance(fd, dict) and set(map(id, fd)) == {id(xp), id(yp)}, info):
        return None
    bx, by = np.asarray(fd[xp]), np.asarray(fd[yp])
    if not t.check(what + ": shapes", bx.shape == (w, d) and by.shape == (w, 1), info, (bx.shape, by.shape)):
        return None
    rows = [int(round(float(r[0]))) for r in bx]
    base = int(round(float(x[0, 0])))
    idx = [(r - base) // d for r in rows]
    if not t.check(what + ": rows of the dataset", all(0 <= i < n for i in idx) and np.array_equal(bx, x[idx]), info, bx.tolist()):
        return None
    t.check(what + ": every row has its own label", np.array_equal(by[:, 0], y[idx]), info, (idx, by[:, 0].tolist()))
    if shuffled:
        t.check(what + ": a permutation of consecutive rows", sorted(idx) == list(range(min(idx), min(idx) + w)), info, idx)
    else:
        t.check(what + ": consecutive rows in order", idx == list(range(idx[0], idx[0] + w)), info, idx)
    return idx


def d01(t):
    t.bound("datasets of up to 1000 rows and 3 columns, up to 60 batches a stream, a few seeds")
    k = t.n(12, 60)
    for (n, d, b) in sizes(t):
        for seed in (None, 0, 1, 2 ** 32 - 1)[:t.n(3, 4)]:
            for dtype, order in (("float64", "C"), ("float32", "F")):
                x, y = dataset(n, d, dtype, order)
                x0, y0 = x.copy(), y.copy()
                xp, yp = object(), object()
                info = dict(n=n, d=d, batch_size=b, seed=seed, dtype=dtype)
                ok, batches = t.runs("batches can be drawn", lambda: list(itertools.islice(
                    generate_batches(x, y, xp, yp, batch_size=b, seed=seed), k)), info)
                if not ok:
                    continue
                t.check("the stream does not end", len(batches) == k, info, len(batches))
                for j, fd in enumerate(batches):
                    check_batch(t, "batch", fd, x, y, xp, yp, b, dict(info, batch=j))
                t.check("the caller's arrays are unchanged", np.array_equal(x, x0) and np.array_equal(y, y0), info)
    # labels and inputs of different types: neither is converted to the other
    for dx, dy in (("int64", "float64"), ("float32", "float64"), ("float64", "int64"), ("int32", "float32"), ("bool", "float64"), ("float64", "complex128")):
        x, _ = dataset(9, 2, "float64")
        x = x.astype(dx)
        y = np.array([1.5, -2.25, 1e-9, 1e9 + 0.5, 1.0 / 3, 7, -8, 9.75, 1e30][:9] if dy != "int64" else [2 ** 53 + 1, -2 ** 60 - 1, 3, 4, 5, 6, 7, 8, 9], dtype=dy)
        for b in (1, 4, 9, 12):
            xp, yp = object(), object()
            for fd in itertools.islice(generate_batches(x, y, xp, yp, batch_size=b, seed=4), 8):
                bx, by = np.asarray(fd[xp]), np.asarray(fd[yp])
                w = min(b, 9)
                t.check("inputs and labels of different types keep their values", bx.shape == (w, 2) and by.shape == (w, 1) and any(
                    np.array_equal(bx, x[i:i + w]) and np.array_equal(by[:, 0], y[i:i + w]) for i in range(9 - w + 1)), dict(inputs=dx, labels=dy, batch_size=b), by.tolist())
    # long streams
    for k2 in [m + 1 for m in t.near(12, 4000, 4)][-2:]:
        x, y = dataset(23, 1)
        xp, yp = object(), object()
        for j, fd in enumerate(itertools.islice(generate_batches(x, y, xp, yp, batch_size=5, seed=2), k2)):
            check_batch(t, "batch", fd, x, y, xp, yp, 5, dict(n=23, batch_size=5, batch=j))
    # default batch size, exactly the windows that fit
    for n, b in ((5, 3), (4, 1), (21, 20), (24, 20), (3, 3), (2, 5), (30, 20)):
        x, y = dataset(n, 2)
        starts = []
        xp, yp = object(), object()
        for seed in (7, 8):
            for fd in itertools.islice(generate_batches(x, y, xp, yp, b, seed), t.n(400, 2000)):
                starts.append(int(fd[xp][0, 0]) // 2)
        t.check("every window that fits is drawn", set(starts) == set(range(max(n - b, 0) + 1)), dict(n=n, batch_size=b), sorted(set(starts)))
        m = max(n - b, 0) + 1
        cnt = [starts.count(s) for s in range(m)]
        e = len(starts) / float(m)
        t.check("windows are drawn uniformly", all(abs(c - e) < 6 * np.sqrt(e) for c in cnt), dict(n=n, batch_size=b), cnt)
    x, y = dataset(50, 1)
    xp, yp = object(), object()
    t.check("default batch size is 20", next(generate_batches(x, y, xp, yp))[xp].shape == (20, 1), "defaults")


def take(gen, xp, yp, k):
    return [(np.array(f[xp]), np.array(f[yp])) for f in itertools.islice(gen, k)]


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(p[0], q[0]) and np.array_equal(p[1], q[1]) for p, q in zip(a, b))


def d02(t):
    t.bound("datasets of up to 200 rows, up to 200 batches a stream, seeds at the bounds and random ones")
    k = t.n(40, 200)
    for name in ("generate_batches", "generate_shuffled_batches"):
        g = GENS[name]
        for (n, d, b) in ((1, 1, 1), (30, 2, 4), (50, 2, 20), (10, 1, 10), (7, 3, 20), (200, 1, 3)):
            x, y = dataset(n, d)
            for seed in (0, 1, 2, 41, 12345, 2 ** 31, 2 ** 32 - 1, t.rng.randrange(2 ** 32)) + tuple(m for m in t.near(3, 2 ** 32 - 1, 8) if n == 30):
                xp, yp = object(), object()
                info = dict(generator=name, n=n, batch_size=b, seed=seed)
                np.random.seed(99)
                st0 = np.random.get_state()
                a = g(x.copy(), y.copy(), xp, yp, batch_size=b, seed=seed)
                ref = take(a, xp, yp, k)
                st1 = np.random.get_state()
                t.check("a seeded stream does not advance the global generator", all(np.array_equal(p, q) for p, q in zip(st0, st1)), info)
                np.random.seed(7)
                s1, s2 = g(x.copy(), y.copy(), xp, yp, batch_size=b, seed=seed), g(x.copy(), y.copy(), xp, yp, batch_size=b, seed=seed + 1 if seed < 2 ** 32 - 1 else 3)
                got = []
                for j in range(k):
                    got += take(s1, xp, yp, 1)
                    if j % 3 == 0:
                        take(s2, xp, yp, 2)
                        np.random.rand(2)
                t.check("a seeded stream is a function of data, batch size and seed", same(ref, got), info)
                if n - b > 5:
                    t.check("different seeds give different streams", not same(
                        ref, take(g(x, y, xp, yp, batch_size=b, seed=(seed + 1000) % 2 ** 32), xp, yp, k)), info)
                    t.check("seeds that differ in their high bits give different streams", not same(
                        ref, take(g(x, y, xp, yp, batch_size=b, seed=seed ^ 2 ** 31), xp, yp, k)), info)
        # unseeded: one draw from the global state decides the stream
        x, y = dataset(60, 1)
        xp, yp = object(), object()
        np.random.seed(3)
        a = take(g(x, y, xp, yp, batch_size=5), xp, yp, k)
        np.random.seed(3)
        s = g(x, y, xp, yp, batch_size=5)
        bb = take(s, xp, yp, 1)
        np.random.seed(77)
        bb += take(s, xp, yp, k - 1)
        t.check("an unseeded stream is fixed by the global state at its first batch", same(a, bb), name)
        np.random.seed(4)
        t.check("unseeded streams differ", not same(a, take(g(x, y, xp, yp, batch_size=5), xp, yp, k)), name)


def d03(t):
    t.bound("the argument values listed in the battery")
    x, y = dataset(12, 2)
    xp, yp = object(), object()
    for name in ("generate_batches", "generate_shuffled_batches"):
        g = GENS[name]
        AssertionErr = AssertionError if name == "generate_batches" else Exception
        for bs in (0, -1, -20, 1.5, 2.0, "3", None, [3], np.float64(4), 0.5):
            t.raises("invalid batch size", lambda: next(g(x, y, xp, yp, batch_size=bs, seed=1)), AssertionErr, repr(bs))
        for bs in (1, 2, 11, 12, 13, 20, 10 ** 6, True):
            ok, _ = t.runs("valid batch size", lambda: next(g(x, y, xp, yp, batch_size=bs, seed=1)), repr(bs))
            t.check("valid batch size accepted", ok, repr(bs))
        for seed in (-1, 2 ** 32, 2 ** 40, 1.0, "1", [1], 0.5, -2 ** 31):
            t.raises("invalid seed", lambda: next(g(x, y, xp, yp, batch_size=3, seed=seed)), AssertionErr, repr(seed))
        for seed in (None, 0, 1, 2 ** 31, 2 ** 32 - 1):
            ok, _ = t.runs("valid seed", lambda: next(g(x, y, xp, yp, batch_size=3, seed=seed)), repr(seed))
            t.check("valid seed accepted", ok, repr(seed))
        for n, m in ((12, 11), (12, 13), (1, 2), (5, 10), (10, 5), (40, 39), (3, 0)):
            for bs in (1, 3, 20):
                xx, yy = dataset(n, 2)[0], dataset(max(m, 1), 2)[1][:m]
                t.raises("different numbers of inputs and labels", lambda: next(g(xx, yy, xp, yp, batch_size=bs, seed=1)), AssertionErr, (n, m, bs))


def d04(t):
    t.bound("datasets of up to 1000 rows and 3 columns, up to 60 batches a stream, a few seeds")
    k = t.n(10, 60)
    for (n, d, b) in sizes(t):
        for seed in (None, 0, 5, 2 ** 32 - 1)[:t.n(3, 4)]:
            for dtype, order in (("float64", "C"), ("float32", "F")):
                x, y = dataset(n, d, dtype, order)
                x0, y0 = x.copy(), y.copy()
                xp, yp = object(), object()
                info = dict(n=n, d=d, batch_size=b, seed=seed, dtype=dtype)
                np.random.seed(11)
                ok, st = t.runs("a stream can be made", lambda: generate_shuffled_batches(x, y, xp, yp, batch_size=b, seed=seed), info)
                if not ok:
                    continue
                ref = generate_batches(x0, y0, xp, yp, batch_size=b, seed=seed) if seed is not None else None
                old = []
                for j in range(k):
                    ok, fd = t.runs("a batch can be drawn", lambda: next(st), info)
                    if not ok:
                        break
                    idx = check_batch(t, "shuffled batch", fd, x0, y0, xp, yp, b, dict(info, batch=j), True)
                    if ref is not None and idx is not None:
                        un = np.asarray(next(ref)[xp])
                        first = int(round(float(un[0, 0]))) // d
                        t.check("the rows of the unshuffled batch", min(idx) == first, dict(info, batch=j), (idx, first))
                    if isinstance(fd, dict) and xp in fd and yp in fd:
                        old.append((fd, np.array(fd[xp]), np.array(fd[yp])))
                t.check("the caller's arrays are unchanged", np.array_equal(x, x0) and np.array_equal(y, y0), info)
                t.check("earlier batches are unchanged", all(np.array_equal(f[xp], p) and np.array_equal(f[yp], q) for f, p, q in old), info)
    x, y = dataset(30, 1)
    xp, yp = object(), object()
    a = take(generate_shuffled_batches(x.copy(), y.copy(), xp, yp, 8, 3), xp, yp, k)
    np.random.seed(123)
    t.check("orders are a function of the seed", same(a, take(generate_shuffled_batches(x.copy(), y.copy(), xp, yp, 8, 3), xp, yp, k)), "seed 3")
    t.check("batches are really shuffled", any(list(p[0][:, 0]) != sorted(p[0][:, 0]) for p in a), "seed 3")


BATTERY = {"D01": d01, "D02": d02, "D03": d03, "D04": d04}
