"""T01-T05: tensor utilities (pysgmcmc/tensor_utils.py)."""
from fractions import Fraction
import z3
from pyvc import alg
from pyvc.values import *
from pyvc.core import PyExc, Unsupported, PathEnd
from pyvc.spec import Case, pure
from pyvc import lib_np as N, lib_tf as TF
from pyvc.isets import bases
zi = N.zi

MOD = "pysgmcmc.tensor_utils"
CASES = {}


def ph(name, shape, dtype=None):
    """an arbitrary tensor"""
    return TF.TNode("placeholder", [], {"pname": name}, shape, dtype)


def value(ip, t, idx):
    return TF.Graph(ip, [], pure=True).val(t, tuple(idx))


def is_tensor(c, name, v):
    return c.check(name, isinstance(v, TF.TNode), repr(v))


def same_shape(c, ip, name, t, shape):
    r = TF.shape_eq(ip, t.shape, shape)
    if r is None:
        c.undecided(name, "%s vs %s" % (t.shape, shape))
        return False
    return c.check(name, r, "%s instead of %s" % (t.shape, shape))


def index(c, shape, names="ijk"):
    """an arbitrary valid index"""
    if shape.dims is None:
        e = z3.Int("e")
        c.assume(z3.And(e >= 0, e < shape.numel()))
        return (e,)
    out = []
    for d, n in zip(shape.dims, names):
        i = z3.Int(n)
        c.assume(z3.And(i >= 0, i < TF.zi(d)))
        out.append(i)
    return tuple(out)


SHAPES = {
    "any shape": lambda: TF.any_shape("x"),
    "scalars": lambda: TF.TShape(()),
    "a matrix": lambda: TF.TShape((z3.Int("A"), z3.Int("B"))),
}


def shape(c, kind):
    s = SHAPES[kind]()
    if s.dims is None:
        c.assume(s.numel() >= 1)
    else:
        for d in s.dims:
            c.assume(d >= 1)
    return s


# ------------------------------------------------------------------ T01
def divisors(t, out=None, seen=None):
    out, seen = ([] if out is None else out), (set() if seen is None else seen)
    if t.get_id() in seen:
        return out
    seen.add(t.get_id())
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_DIV:
            out.append(t.arg(1))
        for ch in t.children():
            divisors(ch, out, seen)
    return out


def t01(kind, given, xnum=False):
    def case(c, ip):
        s = shape(c, kind)
        x = Sym(z3.Real("x0")) if xnum else ph("x", s)
        y = ph("y", s)
        k = {}
        if given:
            sc = z3.Real("c")
            c.assume(sc > 0)
            k["small_constant"] = Sym(sc)
        else:
            sc = z3.RealVal(Fraction(1, 10 ** 16))
        r = pure(c, ip, ip.get(MOD, "safe_divide"), [x, y], k)
        if not is_tensor(c, "the quotient is a tensor", r):
            return
        same_shape(c, ip, "the quotient has the shape of the arguments", r, s)
        idx = index(c, s)
        q = value(ip, r, idx)
        yv = value(ip, y, idx)
        xv = x.t if xnum else value(ip, x, idx)
        for a in TF.defs(q):
            c.assume(a)
        for d in divisors(z3.simplify(q)):
            c.prove("no divisor is zero", d != 0)
        # the effective denominator is x / q; q is linear in x
        q1 = z3.simplify(z3.substitute(q, (xv, z3.RealVal(1))))
        c.prove_eq("the result is the first argument divided by something", q, xv * q1)
        # prove about den = 1/q1 with the quotient cleared
        den = z3.Real("den")
        h = [den * q1 == 1]
        if z3.is_app(q1) and q1.decl().kind() == z3.Z3_OP_DIV and z3.is_rational_value(q1.arg(0)):
            h = [den == q1.arg(1) / q1.arg(0), q1.arg(1) != 0]
        c.prove("the denominator exists", q1 != 0)
        c.prove("the denominator is positive for arguments >= 0", den > 0, h + [yv >= 0])
        c.prove("the denominator is negative for arguments < 0", den < 0, h + [yv < 0])
        c.prove("the denominator differs from the argument by at most three times the constant",
                z3.And(den - yv <= 3 * sc, yv - den <= 3 * sc), h)
    return case


def fp_eval(ip, t, y, yv, sort, seen):
    """the same graph in machine arithmetic (round to nearest even); collects divisors"""
    rm = z3.RNE()
    key = t.uid
    if key in seen:
        return seen[key]

    def cst(v):
        return z3.FPVal(float(v), sort)
    if t is y:
        r = yv
    elif t.op == "const":
        r = cst(t.attrs["v"])
    elif t.op in ("add", "sub", "mul", "div", "max", "min"):
        a, b = (fp_eval(ip, u, y, yv, sort, seen) for u in t.ins)
        if t.op == "div":
            seen.setdefault("div", []).append(b)
        r = {"add": lambda: z3.fpAdd(rm, a, b), "sub": lambda: z3.fpSub(rm, a, b), "mul": lambda: z3.fpMul(rm, a, b),
             "div": lambda: z3.fpDiv(rm, a, b), "max": lambda: z3.fpMax(a, b), "min": lambda: z3.fpMin(a, b)}[t.op]()
    elif t.op == "neg":
        r = z3.fpNeg(fp_eval(ip, t.ins[0], y, yv, sort, seen))
    elif t.op == "abs":
        r = z3.fpAbs(fp_eval(ip, t.ins[0], y, yv, sort, seen))
    elif t.op == "sign":
        a = fp_eval(ip, t.ins[0], y, yv, sort, seen)
        r = z3.If(z3.fpIsZero(a), cst(0.0), z3.If(z3.fpIsNegative(a), cst(-1.0), cst(1.0)))
    elif t.op in ("identity", "reshape"):
        r = fp_eval(ip, t.ins[0], y, yv, sort, seen)
    else:
        raise Unsupported("machine arithmetic of %s" % t.op)
    seen[key] = r
    return r


def t01_fp(bits):
    def case(c, ip):
        c.note("sign, products and sums of TensorFlow round to nearest even (IEEE 754)")
        y = ph("y", TF.TShape(()))
        r = pure(c, ip, ip.get(MOD, "safe_divide"), [Fraction(1), y], {})
        if not is_tensor(c, "the quotient is a tensor", r):
            return
        sort = z3.Float32() if bits == 32 else z3.Float64()
        yv = z3.FP("yf", sort)
        seen = {}
        fp_eval(ip, r, y, yv, sort, seen)
        if not seen.get("div"):
            return c.undecided("the denominator is found", "no division in the graph")
        fin = z3.And(z3.Not(z3.fpIsNaN(yv)), z3.Not(z3.fpIsInf(yv)))
        old = c.timeout_ms
        c.timeout_ms = 60000
        for d in seen["div"]:
            c.prove("no finite float%d gives a zero denominator" % bits, z3.Not(z3.fpIsZero(d)), [fin])
            c.prove("the denominator is a number for finite float%d" % bits, z3.Not(z3.fpIsNaN(d)), [fin])
        c.timeout_ms = old
    return case


SD, SS = MOD + ".safe_divide", MOD + ".safe_sqrt"
CASES["T01"] = [Case("%s, %s constant" % (k, "any positive" if g else "default"), t01(k, g), [SD]) for k in SHAPES for g in (False, True)] + [
    Case("a number divided by a tensor", t01("any shape", False, True), [SD])] + [
    Case("machine arithmetic, float%d" % b, t01_fp(b), [SD]) for b in (32, 64)]


# ------------------------------------------------------------------ T02
def t02(kind, given):
    def case(c, ip):
        s = shape(c, kind)
        x = ph("x", s)
        k = {}
        lo, hi = z3.RealVal(0), None
        if "lo" in given:
            lo = z3.Real("lo")
            c.assume(lo >= 0)
            k["clip_value_min"] = Sym(lo)
        if "hi" in given:
            hi = z3.Real("hi")
            c.assume(hi >= lo)
            k["clip_value_max"] = Sym(hi)
        r = pure(c, ip, ip.get(MOD, "safe_sqrt"), [x], k)
        if not is_tensor(c, "the root is a tensor", r):
            return
        same_shape(c, ip, "the root has the shape of the argument", r, s)
        idx = index(c, s)
        v, xv = value(ip, r, idx), value(ip, x, idx)
        for a in TF.defs(v):
            c.assume(a)
        clipped = z3.If(xv < lo, lo, xv if hi is None else z3.If(xv > hi, hi, xv))
        c.prove("no argument of a root is negative", z3.And([a.arg(0) >= 0 for a in roots(v)] or [z3.BoolVal(True)]))
        c.prove("the root is not negative", v >= 0)
        c.prove("its square is the clipped argument", v * v == clipped)
        if not given:
            c.prove("zero for negative arguments", v == 0, [xv <= 0])
            c.prove("exact root otherwise", v * v == xv, [xv >= 0])
    return case


def roots(t, out=None):
    out = [] if out is None else out
    if z3.is_app(t):
        if t.decl().name() == "sqrt":
            out.append(t)
        for ch in t.children():
            roots(ch, out)
    return out


CASES["T02"] = [Case("%s, %s" % (k, "default bounds" if not g else "bounds given: " + g), t02(k, g), [SS])
                for k in SHAPES for g in ("", "lo", "hi", "lo hi")]


# ------------------------------------------------------------------ T03
def t03(kind):
    def case(c, ip):
        s = {"any shape": lambda: TF.any_shape("x"), "a vector": lambda: TF.TShape((z3.Int("A"),)), "a scalar": lambda: TF.TShape(()),
             "a matrix": lambda: TF.TShape((z3.Int("A"), z3.Int("B")))}[kind]()
        n = s.numel()
        if s.dims is None:
            c.assume(n >= 1)
        for d in s.dims or ():
            c.assume(d >= 1)
            c.assume(n >= 1)
        x = ph("x", s)
        r = pure(c, ip, ip.get(MOD, "median"), [x], {})
        if not is_tensor(c, "the median is a tensor", r):
            return
        same_shape(c, ip, "the median is a single number", r, TF.TShape(()))
        v = value(ip, r, ())
        k = alg.fresh("m")
        lam = alg.lam(k, value(ip, x, TF.unflat(s, k)))
        # rank r in ascending order is rank n-1-r in descending order
        asc = lambda rank: alg.DESC(n, lam, n - 1 - rank)
        odd = n % 2 == 1
        if c.branch(odd):
            c.prove_eq("odd number of elements: the middle one", v, asc((n - 1) / 2))
        else:
            c.prove_eq("even number of elements: the mean of the middle two", v, (asc(n / 2 - 1) + asc(n / 2)) / 2)
    return case


CASES["T03"] = [Case(k, t03(k), [MOD + ".median"]) for k in ("any shape", "a vector", "a matrix", "a scalar")]


# ------------------------------------------------------------------ T05
def t05_tensor(kind):
    def case(c, ip):
        s = shape(c, kind)
        x = ph("x", s)
        v = pure(c, ip, ip.get(MOD, "vectorize"), [x], {})
        if not is_tensor(c, "vectorising a tensor gives a tensor", v):
            return
        c.check("it is not a variable", not isinstance(v, TF.TVar), repr(v))
        col = TF.TShape((s.numel(), 1))
        same_shape(c, ip, "a column with one row per element", v, col)
        idx = index(c, s)
        e = TF.flat(s, idx)
        c.prove_eq("rows in row-major order", value(ip, v, (e, z3.IntVal(0))), value(ip, x, idx))
        back = pure(c, ip, ip.get(MOD, "unvectorize"), [v, ip.getattr_(x, "shape")], {})
        if not is_tensor(c, "restoring gives a tensor", back):
            return
        same_shape(c, ip, "the original shape is restored", back, s)
        c.prove_eq("every element is restored", value(ip, back, idx), value(ip, x, idx))
    return case


def t05_var(kind, initialised):
    def case(c, ip):
        s = shape(c, kind)
        init = ph("init", s)
        x = TF.make_var(ip, "x", s, init=init)
        v = pure(c, ip, ip.get(MOD, "vectorize"), [x], {})
        if not c.check("vectorising a variable gives a new variable", isinstance(v, TF.TVar) and v.uid != x.uid, repr(v)):
            return
        same_shape(c, ip, "a column with one row per element", v, TF.TShape((s.numel(), 1)))
        idx = index(c, s)
        e = TF.flat(s, idx)
        have = value(ip, v.attrs["init"], (e, z3.IntVal(0)))
        c.assume(TF.INIT(x) if initialised else z3.Not(TF.INIT(x)))
        # an initialised variable starts at the value it has
        want = TF.state(x)(idx) if initialised else value(ip, init, idx)
        if initialised and c.eq_quick(have, value(ip, init, idx)):
            return c.check("it starts at the variable's initial value", True)
        c.prove_eq("it starts at the variable's %s value" % ("present" if initialised else "initial"), have, want)
        back = pure(c, ip, ip.get(MOD, "unvectorize"), [v, ip.getattr_(x, "shape")], {})
        if is_tensor(c, "restoring gives a tensor", back):
            same_shape(c, ip, "the original shape is restored", back, s)
            c.prove_eq("every element is restored", value(ip, back, idx), TF.state(v)((e, z3.IntVal(0))))
    return case


def t05_reject(c, ip):
    kinds = [("a number", lambda ip: Sym(z3.Real("r"))), ("an int", lambda ip: Sym(z3.Int("m"))), ("a string", lambda ip: "x"),
             ("None", lambda ip: None), ("an array", lambda ip: N.named(ip, "a", (z3.Int("n"), z3.Int("d")))),
             ("a list", lambda ip: PyList([Fraction(1), Fraction(2)])), ("an object", lambda ip: Opaque("object", attrs={"shape": TF.TShape((2, 3))}))]
    x = Dyn("x", kinds)
    try:
        pure(c, ip, ip.get(MOD, "vectorize"), [x], {})
    except PyExc as e:
        c.check("anything but a tensor raises a value error", isinstance(e.cls, type) and issubclass(e.cls, ValueError), str(e))
        return
    c.check("anything but a tensor is rejected", False, "accepted: %s" % x.chosen(ip))


VEC, UNV = MOD + ".vectorize", MOD + ".unvectorize"
CASES["T05"] = [Case("tensor, " + k, t05_tensor(k), [VEC, UNV]) for k in SHAPES] + [
    Case("variable, %s%s" % (k, ", initialised" if i else ""), t05_var(k, i), [VEC, UNV]) for k in SHAPES for i in (False, True)] + [
    Case("other inputs are rejected", t05_reject, [VEC])]


# ------------------------------------------------------------------ T04
PD, SQ = MOD + ".pdist", MOD + ".squareform"


def dist(ip, x, i, j, d):
    """Euclidean distance of two rows"""
    return alg.SQRT(alg.mk_sum(d, lambda q: (value(ip, x, (i, q)) - value(ip, x, (j, q))) * (value(ip, x, (i, q)) - value(ip, x, (j, q)))))


def t04_pdist_any(var):
    def case(c, ip):
        m, d = z3.Ints("m d")
        c.assume(m >= 2)
        c.assume(d >= 1)
        s = TF.TShape((m, d))
        x = TF.make_var(ip, "x", s, init=ph("x0", s)) if var else ph("x", s)
        r = pure(c, ip, ip.get(MOD, "pdist"), [x], {})
        if not is_tensor(c, "the distances are a tensor", r):
            return
        what = "rows i<j in lexicographic order, for any number of rows"
        seq = ip.to_seq(r.attrs["seq"]) if r.op == "stack_seq" else None
        if not isinstance(seq, FlatSeq):
            return c.undecided(what, repr(r))
        i, t = z3.Ints("i t")
        if not c.valid(iterm(seq.m) == m) and not c.valid(iterm(seq.m) == m - 1):
            return c.undecided(what, "outer length %s" % seq.m)
        c.assume(z3.And(i >= 0, i < iterm(seq.m)))
        inner = seq.inner(i)
        if not c.valid(iterm(inner.n) == m - 1 - i):
            return c.undecided(what, "length %s of the block of row i" % inner.n)
        c.check(what + ": block i has m-1-i distances", True)
        c.assume(z3.And(t >= 0, t < m - 1 - i))
        c.prove_eq(what + ": number t of block i is the distance of rows i and i+1+t", value(ip, inner.elem(t), ()), dist(ip, x, i, i + 1 + t, d))
    return case


def t04_pdist_m(m):
    def case(c, ip):
        d = z3.Int("d")
        c.assume(d >= 1)
        x = ph("x", TF.TShape((m, d)))
        r = pure(c, ip, ip.get(MOD, "pdist"), [x], {})
        if not is_tensor(c, "the distances are a tensor", r):
            return
        pairs = [(i, j) for i in range(m) for j in range(i + 1, m)]
        if not same_shape(c, ip, "one distance for each pair", r, TF.TShape((len(pairs),))):
            return
        for e, (i, j) in enumerate(pairs):
            c.prove_eq("%d rows: distance %d is that of rows %d and %d" % (m, e, i, j), value(ip, r, (z3.IntVal(e),)),
                       dist(ip, x, z3.IntVal(i), z3.IntVal(j), d))
    return case


def t04_square_m(m):
    def case(c, ip):
        n = m * (m - 1) // 2
        x = ph("x", TF.TShape((n,)))
        r = pure(c, ip, ip.get(MOD, "squareform"), [x], {})
        if not is_tensor(c, "the square form is a tensor", r):
            return
        if not same_shape(c, ip, "m by m", r, TF.TShape((m, m))):
            return
        pairs = [(i, j) for i in range(m) for j in range(i + 1, m)]
        for i in range(m):
            for j in range(m):
                want = z3.RealVal(0) if i == j else value(ip, x, (z3.IntVal(pairs.index((min(i, j), max(i, j)))),))
                c.prove_eq("%d rows: element (%d, %d)" % (m, i, j), value(ip, r, (z3.IntVal(i), z3.IntVal(j))), want)
    return case


def t04_square_any(c, ip):
    """any length: accepted exactly if it is m(m-1)/2 for some m >= 2, and then the square form is the one of the definition"""
    n, m = z3.Ints("n m")
    c.assume(n >= 1)
    x = ph("x", TF.TShape((n,)))
    try:
        r = pure(c, ip, ip.get(MOD, "squareform"), [x], {})
    except PyExc as e:
        c.check("other lengths are rejected with a value error", isinstance(e.cls, type) and issubclass(e.cls, ValueError), str(e))
        rest = z3.And(m >= 2, m * (m - 1) == 2 * n)
        ks = [k for k in bases(*c.all_pc()) if not k.eq(n)]
        for k in ks + [z3.simplify((1 + k) / 2) for k in ks] + [k + 1 for k in ks]:
            # a number the code computed: m is below it, equal to it or above it
            if all(c.valid(z3.Implies(h, z3.Not(rest))) for h in (m < k, m == k, m > k)):
                for what, h in (("is", m == k), ("is below", m < k), ("is above", m > k)):
                    c.prove("only lengths that are not m(m-1)/2 are rejected: m %s the number computed" % what, z3.Not(rest), [h])
                return
        c.prove("only lengths that are not m(m-1)/2 are rejected", z3.Not(rest))
        return
    if not is_tensor(c, "the square form is a tensor", r):
        return
    ds = r.shape.dims
    if ds is None or len(ds) != 2:
        return c.check("a square form is a matrix", False, repr(r)) if ds is not None else c.undecided("a square form is a matrix", repr(r))
    m = zi(ds[0])
    c.prove("the square form is square", m == zi(ds[1]))
    c.prove("only vectors of m(m-1)/2 values are accepted, and give m rows", z3.And(m >= 2, m * (m - 1) == 2 * n))
    i, j, pos = z3.Ints("i j pos")
    c.assume(z3.And(i >= 0, i < m, j >= 0, j < m))
    if c.branch(i == j):
        c.prove_eq("the diagonal is zero", value(ip, r, (i, i)), z3.RealVal(0))
        return
    if not c.branch(i < j):
        i, j = j, i
        at = (j, i)
    else:
        at = (i, j)
    # the pair (i, j) is preceded by the pairs of the rows before i: sum of m-1-r for r < i, and by (i, i+1) ... (i, j-1)
    c.assume(2 * pos == 2 * (m - 1) * i - i * (i - 1) + 2 * (j - i - 1))
    c.prove_eq("element (i, j) and element (j, i) are the value of the pair, for any number of rows", value(ip, r, at), value(ip, x, (pos,)))


def t04_square_reject(c, ip):
    good = {m * (m - 1) // 2 for m in range(30)}
    for n in range(1, 81):
        if n in good:
            continue
        try:
            pure(c, ip, ip.get(MOD, "squareform"), [ph("x", TF.TShape((n,)))], {})
        except PyExc as e:
            c.check("length %d is rejected" % n, isinstance(e.cls, type) and issubclass(e.cls, ValueError), str(e))
            continue
        c.check("length %d is rejected" % n, False, "accepted")


def rejects(c, ip, what, fn, args, k=None, cls=Exception):
    try:
        pure(c, ip, ip.get(MOD, fn), args, k or {})
    except PyExc as e:
        return c.check(what, isinstance(e.cls, type) and issubclass(e.cls, cls), str(e))
    c.check(what, False, "accepted")


def t04_reject_rank(r):
    def case(c, ip):
        ds = z3.Ints("A B C D")[:r]
        for d in ds:
            c.assume(d >= 1)
        s = TF.TShape(ds)
        if r != 2:
            rejects(c, ip, "distances of a tensor of rank %d are rejected" % r, "pdist", [ph("x", s)])
        if r != 1:
            rejects(c, ip, "square form of a tensor of rank %d is rejected" % r, "squareform", [ph("x", s)])
    return case


def t04_reject_other(c, ip):
    s = TF.TShape((z3.Int("A"), z3.Int("B")))
    c.assume(s.dims[0] >= 1)
    c.assume(s.dims[1] >= 1)
    for m in ("cityblock", "cosine", "sqeuclidean", "Euclidean", ""):
        rejects(c, ip, "metric %r is rejected" % m, "pdist", [ph("x", s), m])
    for what, v in (("an array", N.named(ip, "a", s.dims)), ("a list", PyList([Fraction(1)])), ("None", None), ("a number", Sym(z3.Real("r")))):
        rejects(c, ip, "distances of %s are rejected" % what, "pdist", [v])
        rejects(c, ip, "square form of %s is rejected" % what, "squareform", [v])


CASES["T04"] = [Case("distances of any number of rows%s" % (" of a variable" if v else ""), t04_pdist_any(v), [PD]) for v in (False, True)] + [
    Case("distances of %d rows" % m, t04_pdist_m(m), [PD]) for m in (2, 3, 4, 5)] + [
    Case("square form for any number of rows", t04_square_any, [SQ])] + [
    Case("square form for %d rows" % m, t04_square_m(m), [SQ]) for m in range(2, 13)] + [
    Case("square form rejects other lengths", t04_square_reject, [SQ])] + [
    Case("rejections, rank %d" % r, t04_reject_rank(r), [PD, SQ]) for r in (0, 1, 2, 3, 4)] + [
    Case("other rejections", t04_reject_other, [PD, SQ])]
