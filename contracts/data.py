"""D01-D04: minibatch generators (pysgmcmc/data_batches.py)."""
import z3
from pyvc import alg
from pyvc.values import *
from pyvc.core import PyExc, Unsupported, PathEnd
from pyvc.spec import Case
from pyvc import lib_np as N

MOD = "pysgmcmc.data_batches"
GB, GS = MOD + ".generate_batches", MOD + ".generate_shuffled_batches"


def inputs(c, ip):
    n, d = z3.Int("N"), z3.Int("D")
    c.assume(n >= 1)
    c.assume(d >= 1)
    x, y = N.named(ip, "x", (n, d)), N.named(ip, "y", (n,))
    return n, d, x, y, Opaque("x_placeholder"), Opaque("y_placeholder")


def app_args(t, name):
    """arguments of an application of the named function"""
    if z3.is_app(t) and t.decl().name() == name and t.num_args():
        return t.children()
    return None


def find_apps(t, name, out=None):
    out = [] if out is None else out
    if z3.is_app(t):
        if t.decl().name() == name:
            out.append(t)
        for ch in t.children():
            find_apps(ch, name, out)
    return out


def entries(c, ip, fd, xp, yp):
    """the two fed arrays of a batch"""
    if not isinstance(fd, PyDict):
        c.check("a batch is a dict", False, repr(fd))
        raise PathEnd()
    ks = ip.dict_keys_seq(fd).concrete()
    ok = ks is not None and len(ks) == 2 and any(k is xp for k in ks) and any(k is yp for k in ks)
    if not c.check("a batch feeds exactly the two given placeholders", ok, "keys: %r" % (ks,)):
        raise PathEnd()
    bx, by = ip.dict_get(fd, xp), ip.dict_get(fd, yp)
    if not c.check("both placeholders are fed arrays", isinstance(bx, N.Arr) and isinstance(by, N.Arr), "%r %r" % (bx, by)):
        raise PathEnd()
    return bx, by


def stream(ip, fn, x, y, xp, yp, bs, seed, extra=()):
    f = ip.get(MOD, fn)
    g = ip.call(f, [x, y, xp, yp], {"batch_size": bs, "seed": seed})
    if not isinstance(g, GenObj):
        return ip.to_seq(g)
    return ip.gen_seq(g)


def batch_at(c, ip, fn, seed, k, bs=None):
    n, d, x, y, xp, yp = inputs(c, ip)
    b = z3.Int("batch_size")
    c.assume(b >= 1)
    seq = stream(ip, fn, x, y, xp, yp, Sym(b), seed)
    c.check("the stream of batches never ends", seq.n is None, "it has %s batches" % (seq.n,))
    fd = ip.seq_elem(seq, Sym(k))
    bx, by = entries(c, ip, fd, xp, yp)
    w = z3.If(b <= n, b, n)
    return n, d, b, w, x, y, bx, by


def window(c, n, w, tx, ty, i, names):
    """row indices of a cell of the inputs and of the labels"""
    ax, ay = app_args(tx, "x"), app_args(ty, "y")
    if ax is None or ay is None:
        foreign = (ax is None and app_args(tx, "y") is not None) or (ay is None and app_args(ty, "x") is not None)
        if foreign:
            c.check("inputs come from the inputs, labels from the labels", False, "cells are %s and %s" % (tx, ty))
        else:
            c.undecided("batch rows are rows of the dataset", "cells are %s and %s" % (tx, ty))
        raise PathEnd()
    return ax, ay


def check_start(c, ip, start, n, w, name):
    """start is a uniform draw from exactly [0, n - w]"""
    start = z3.simplify(start)
    draws = []
    for r in find_apps(start, "Rand"):
        if not any(r.eq(q) for q in draws):
            draws.append(r)
    inner = [q for r in draws for ch in r.children() for q in find_apps(ch, "Rand")]
    draws = [r for r in draws if not any(r.eq(q) for q in inner)]
    if not draws:
        # a constant window: only right if it is the only one
        return c.prove(name, z3.And(start == 0, n == w))
    if len(draws) > 1 and any(not x.eq(draws[0]) for x in draws):
        return c.undecided(name, "several draws determine the window: %s" % start)
    r = draws[0]
    off = z3.simplify(start - r)
    if alg.contains(off, r):
        return c.undecided(name, "window start is %s" % start)
    _, _, lo, hi = r.children()
    return c.prove(name, z3.And(lo + off == 0, hi + off == n - w + 1))


def d01(fn, seeded):
    def case(c, ip):
        k = z3.Int("k")
        c.assume(k >= 0)
        seed = None
        if seeded:
            s = z3.Int("seed")
            c.assume(z3.And(s >= 0, s <= 2 ** 32 - 1))
            seed = Sym(s)
        n, d, b, w, x, y, bx, by = batch_at(c, ip, fn, seed, k)
        c.check("the inputs of a batch are a matrix, its labels a column", len(bx.shape) == 2 and len(by.shape) == 2,
                "ranks %d and %d" % (len(bx.shape), len(by.shape)))
        if len(bx.shape) != 2 or len(by.shape) != 2:
            return
        c.prove("number of rows is min(batch size, N)", z3.And(N.zi(bx.shape[0]) == w, N.zi(by.shape[0]) == w))
        c.prove("all columns of the inputs, one column of labels", z3.And(N.zi(bx.shape[1]) == d, N.zi(by.shape[1]) == 1))
        i, j = z3.Int("i"), z3.Int("j")
        c.assume(z3.And(i >= 0, i < w, j >= 0, j < d))
        ax, ay = window(c, n, w, c.simp(bx.cell(ip, i, j)), c.simp(by.cell(ip, i, z3.IntVal(0))), i, None)
        c.prove_eq("labels belong to the same rows as the inputs", ax[0], ay[0])
        c.prove_eq("column j of the inputs is column j of the dataset", ax[1], j)
        start = z3.simplify(z3.substitute(ax[0], (i, z3.IntVal(0))))
        c.prove_eq("rows are consecutive and in order", ax[0], start + i)
        check_start(c, ip, start, n, w, "every window that fits, and no other, can be drawn")
    return case


def d02_seeded(fn):
    def case(c, ip):
        k, s = z3.Int("k"), z3.Int("seed")
        c.assume(k >= 0)
        c.assume(z3.And(s >= 0, s <= 2 ** 32 - 1))
        g0 = (ip.global_rng.d["seed"], ip.global_rng.d["pos"])
        n, d, b, w, x, y, bx, by = batch_at(c, ip, fn, Sym(s), k)
        c.check("a seeded stream does not use the global random state", not ip.events and
                ip.global_rng.d["seed"] is g0[0] and ip.global_rng.d["pos"] is g0[1], "operations: %r" % (ip.events,))
        i, j = z3.Int("i"), z3.Int("j")
        c.assume(z3.And(i >= 0, i < w, j >= 0, j < d))
        ok = True
        allowed = {"N", "D", "batch_size", "seed", "k", "i", "j"}
        for what, t in (("inputs", bx.cell(ip, i, j)), ("labels", by.cell(ip, i, z3.IntVal(0)))):
            free = free_names(z3.simplify(t)) - allowed
            c.check("the %s are a function of data, batch size and seed only" % what, not free, "they depend on %s" % sorted(free))
        tx = c.simp(bx.cell(ip, i, j))
        for r in find_apps(tx, "Rand"):
            seed, pos, lo, hi = r.children()
            c.prove("window starts come from a generator seeded with the given seed", seed == s)
            adv = N.ADV(z3.IntVal(N.Rng.OPS["randint"]), z3.IntVal(1))
            c.prove_eq("the k-th window start is the k-th draw", pos, k * adv)
    return case


def d02_unseeded(fn):
    def case(c, ip):
        k = z3.Int("k")
        c.assume(k >= 0)
        n, d, b, w, x, y, bx, by = batch_at(c, ip, fn, None, k)
        i, j = z3.Int("i"), z3.Int("j")
        c.assume(z3.And(i >= 0, i < w, j >= 0, j < d))
        draws = ip.lib_state.get("global_draws", [])
        c.check("without a seed exactly one is drawn from the global random state",
                len(draws) == 1 and len(ip.events) == 1, "%d draws, %d operations" % (len(draws), len(ip.events)))
        tx = c.simp(bx.cell(ip, i, j))
        rs = [r for r in find_apps(tx, "Rand") if not any(r.eq(g) for g in draws)]
        for r in rs + find_apps(tx, "Perm"):
            if draws:
                c.prove("the private generator is seeded with the number drawn", r.arg(0) == draws[0])
        free = free_names(tx) - {"N", "D", "batch_size", "k", "i", "j", "global_seed", "global_pos"}
        c.check("no other source of randomness", not free, "depends on %s" % sorted(free))
    return case


def free_names(t, out=None, seen=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return out
    seen.add(t.get_id())
    if z3.is_quantifier(t):
        return free_names(t.body(), out, seen)
    if z3.is_app(t):
        if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        for ch in t.children():
            free_names(ch, out, seen)
    return out


def dyn_bs():
    return Dyn("batch_size", [
        ("int", lambda ip: Sym(z3.Int("bs_int"))),
        ("bool", lambda ip: Sym(z3.Bool("bs_bool"))),
        ("float", lambda ip: Sym(z3.Real("bs_float"))),
        ("None", lambda ip: None), ("str", lambda ip: AbsStr()),
        ("object", lambda ip: Opaque("thing"))])


def dyn_seed():
    return Dyn("seed", [
        ("None", lambda ip: None),
        ("int", lambda ip: Sym(z3.Int("seed_int"))),
        ("float", lambda ip: Sym(z3.Real("seed_float"))),
        ("str", lambda ip: AbsStr()),
        ("object", lambda ip: Opaque("thing"))])


def d03(fn):
    def case(c, ip):
        n, m, d = z3.Int("N"), z3.Int("M"), z3.Int("D")
        c.assume(z3.And(n >= 1, m >= 1, d >= 1))
        x, y = N.named(ip, "x", (n, d)), N.named(ip, "y", (m,))
        bs, seed = dyn_bs(), dyn_seed()
        kb, ks = bs.tag, seed.tag
        names_b, names_s = [a for a, _ in bs.kinds], [a for a, _ in seed.kinds]
        good = z3.And(
            z3.Or(z3.And(kb == names_b.index("int"), z3.Int("bs_int") > 0), z3.And(kb == names_b.index("bool"), z3.Bool("bs_bool"))),
            z3.Or(ks == names_s.index("None"), z3.And(ks == names_s.index("int"), z3.Int("seed_int") >= 0,
                                                    z3.Int("seed_int") <= 2 ** 32 - 1)),
            n == m)
        c.assume(z3.And(kb >= 0, kb < len(names_b), ks >= 0, ks < len(names_s)))
        xp, yp = Opaque("x_placeholder"), Opaque("y_placeholder")
        try:
            f = ip.get(MOD, fn)
            g = ip.call(f, [x, y, xp, yp], {"batch_size": bs, "seed": seed})
            v = ip.next_(ip.iter_(g))
        except PyExc as e:
            c.prove("arguments that are rejected are invalid", z3.Not(good))
            if fn == "generate_batches":
                c.check("invalid arguments raise an assertion error", e.cls is AssertionError, "raises %s" % e)
            else:
                c.check("invalid arguments raise an error", e.cls is not StopIteration, "raises %s" % e)
            return
        c.prove("arguments that are accepted are valid", good)
    return case


def is_perm_index(c, t, i, w):
    """t is sigma(i) for a permutation sigma of [0, w)?  Only compositions of Perm are recognised."""
    t = z3.simplify(t)
    if t.eq(i):
        return True
    a = app_args(t, "Perm")
    if a is not None:
        return c.eq_quick(a[2], w) and is_perm_index(c, a[3], i, w)
    # w - 1 - i
    if c.eq_quick(t, w - 1 - i):
        return True
    return False


def d04(seeded):
    def case(c, ip):
        k = z3.Int("k")
        c.assume(k >= 0)
        seed = None
        if seeded:
            s = z3.Int("seed")
            c.assume(z3.And(s >= 0, s <= 2 ** 32 - 1))
            seed = Sym(s)
        n, d, b, w, x, y, bx, by = batch_at(c, ip, "generate_shuffled_batches", seed, k)
        i, j = z3.Int("i"), z3.Int("j")
        c.assume(z3.And(i >= 0, i < w, j >= 0, j < d))
        c.check("ranks of the batch", len(bx.shape) == 2 and len(by.shape) == 2, "")
        if len(bx.shape) != 2 or len(by.shape) != 2:
            return
        c.prove("batch sizes", z3.And(N.zi(bx.shape[0]) == w, N.zi(by.shape[0]) == w, N.zi(bx.shape[1]) == d, N.zi(by.shape[1]) == 1))
        tx, ty = bx.cell(ip, i, j), by.cell(ip, i, z3.IntVal(0))
        for p in N.perm_apps(tx) + N.perm_apps(ty):
            # the values of a permutation of [0, n) are in [0, n)
            c.assume(z3.Implies(z3.And(p.arg(3) >= 0, p.arg(3) < p.arg(2)), z3.And(p >= 0, p < p.arg(2))))
        tx, ty = c.simp(tx), c.simp(ty)
        ax, ay = window(c, n, w, tx, ty, i, None)
        c.prove_eq("every row keeps its own label", ax[0], ay[0])
        c.prove_eq("columns are not permuted", ax[1], j)
        # the window of the unshuffled generator with the same seed
        draws = find_apps(ax[0], "Rand")
        gd = ip.lib_state.get("global_draws", [])
        mine = [r for r in draws if not any(r.eq(g) for g in gd)]
        base = [r for r in mine if not find_inside(ax[0], r, "Perm")]
        sigma, start = split_perm(ax[0], i)
        if sigma is None:
            if c.eq_quick(ax[0], z3.substitute(ax[0], (i, z3.IntVal(0))) + i):
                sigma, start = i, z3.simplify(z3.substitute(ax[0], (i, z3.IntVal(0))))
            else:
                c.undecided("the rows are those of one window", "row index is %s" % ax[0])
                return
        c.check("the rows of a batch are a permutation of one window", is_perm_index(c, sigma, i, w), "index %s" % sigma)
        check_start(c, ip, start, n, w, "the window is drawn like the one of the unshuffled generator")
        seedt = gd[0] if gd and not seeded else (z3.Int("seed") if seeded else None)
        adv = N.ADV(z3.IntVal(N.Rng.OPS.get("randint", 0)), z3.IntVal(1))
        for r in find_apps(start, "Rand"):
            if any(r.eq(g) for g in gd):
                continue
            if seedt is not None:
                c.prove("windows come from a generator with the seed of the stream", r.arg(0) == seedt)
            c.prove_eq("the k-th window is the k-th draw", r.arg(1), k * adv)
        for p in find_apps(sigma, "Perm"):
            if seedt is not None:
                c.prove("orders come from a generator with the seed of the stream", p.arg(0) == seedt)
        if seeded:
            c.check("a seeded stream does not use the global random state", not ip.events, repr(ip.events))
        own = {bx.buf.name, by.buf.name}
        guarded = bx.buf.guard or by.buf.guard
        c.check("no guarded array was written", not ip.lib_state.get("frame"), "")
    return case


def find_inside(t, r, name):
    return any(alg.contains_term(p, r) if hasattr(alg, "contains_term") else False for p in find_apps(t, name))


def split_perm(t, i):
    """t == start + Perm(..., i) -> (Perm term, start)"""
    ps = [p for p in find_apps(t, "Perm")]
    tops = [p for p in ps if not any(q is not p and not q.eq(p) and p.get_id() in [x.get_id() for x in find_apps(q, "Perm")] for q in ps)]
    tops = [p for j, p in enumerate(tops) if not any(p.eq(q) for q in tops[:j])]
    if len(tops) != 1:
        return None, None
    st = z3.simplify(t - tops[0])
    if alg.contains(st, i) or find_apps(st, "Perm"):
        return None, None
    return tops[0], st


T = [GB, GS]
CASES = {
    "D01": [Case("generate_batches, any seed", d01("generate_batches", True), [GB]),
            Case("generate_batches, no seed", d01("generate_batches", False), [GB])],
    "D02": [Case("generate_batches, seeded", d02_seeded("generate_batches"), [GB]),
            Case("generate_batches, no seed", d02_unseeded("generate_batches"), [GB]),
            Case("generate_shuffled_batches, no seed", d02_unseeded("generate_shuffled_batches"), T)],
    "D03": [Case("generate_batches, arbitrary arguments", d03("generate_batches"), [GB]),
            Case("generate_shuffled_batches, arbitrary arguments", d03("generate_shuffled_batches"), T)],
    "D04": [Case("generate_shuffled_batches, any seed", d04(True), T),
            Case("generate_shuffled_batches, no seed", d04(False), T)],
}
