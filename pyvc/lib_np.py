"""Contracts of the numpy functions the verified code may use (arrays of mathematical reals)."""
from fractions import Fraction
import z3
from . import alg
from .core import Unsupported, PathEnd, PyExc
from .values import *
from .values import _birth
from .interp import SliceV, Interp
from .lib_py import B, exact_sqrt, isinst, round_to

MINF = z3.Function("Min", alg.I, alg.ArrIR, alg.R)
MAXF = z3.Function("Max", alg.I, alg.ArrIR, alg.R)
ARGMIN = z3.Function("ArgMin", alg.I, alg.ArrIR, alg.I)
ARGMAX = z3.Function("ArgMax", alg.I, alg.ArrIR, alg.I)
RAND = z3.Function("Rand", alg.I, alg.I, alg.I, alg.I, alg.I)        # seed, position, low, high
PERM = z3.Function("Perm", alg.I, alg.I, alg.I, alg.I, alg.I)        # seed, position, n, i
RANDR = z3.Function("RandReal", alg.I, alg.I, alg.I, alg.R)
ADV = z3.Function("Adv", alg.I, alg.I, alg.I)                        # advance of the stream by (op, size)
NEWAXIS = None


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def dim(t):
    t = z3.simplify(zi(t))
    return t.as_long() if z3.is_int_value(t) else t


def dim_eq(ip, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = zi(a), zi(b)
    if a.eq(b) or ip.ctx.valid(a == b):
        return True
    return ip.ctx.branch(a == b)


class Buffer(HObj):
    def __init__(self, fn, arity, name=None, guard=False):
        HObj.__init__(self)
        self.d["fn"] = fn
        self.arity = arity
        self.name = name
        self.guard = guard


class Arr(object):
    """a numpy array: a view of a buffer.  axes[j] describes buffer index j: ('fix', t) or ('var', view axis, off, step)"""

    def __init__(self, buf, shape, axes=None, sort="R"):
        self.buf = buf
        self.shape = tuple(dim(s) for s in shape)
        self.axes = axes if axes is not None else [("var", i, 0, 1) for i in range(len(self.shape))]
        self.sort = sort

    def __repr__(self):
        return "<array %s>" % (self.shape,)

    def bidx(self, idx):
        out = []
        for a in self.axes:
            if a[0] == "fix":
                out.append(a[1])
            else:
                out.append(z3.simplify(zi(idx[a[1]]) * zi(a[3]) + zi(a[2])))
        return out

    def reader(self, ip):
        """cell function at the present state"""
        f = ip.rd(self.buf, "fn")
        return lambda *idx: f(*self.bidx(idx))

    def cell(self, ip, *idx):
        return self.reader(ip)(*[zi(i) for i in idx])

    def value(self, ip, *idx):
        """the element as a program value"""
        t = self.cell(ip, *idx)
        if not isinstance(t, z3.ExprRef):
            return t
        v = mk(t)
        if isinstance(v, Sym):
            v.np = True
        return v

    def subst(self, s):
        f = self.buf.d["fn"]
        fr = [alg.fresh("x") for _ in range(self.buf.arity)]
        body = f(*fr)
        nb = s(body)
        axes = [("fix", s.t(zi(a[1]))) if a[0] == "fix" else ("var", a[1], s.t(zi(a[2])), s.t(zi(a[3]))) for a in self.axes]
        shape = tuple(s.t(zi(d)) if not isinstance(d, int) else d for d in self.shape)
        same = nb is body or (isinstance(body, z3.ExprRef) and nb.eq(body))
        if same:
            buf = self.buf
            if all(_axeq(a, b) for a, b in zip(axes, self.axes)) and all(zi(a).eq(zi(b)) for a, b in zip(shape, self.shape)):
                return self
        elif isinstance(body, z3.ExprRef):
            buf = Buffer(lambda *idx: z3.substitute(nb, *zip(fr, [zi(i) for i in idx])), self.buf.arity, self.buf.name)
            buf.frozen = True
            buf.birth = self.buf.birth
        else:
            buf = Buffer(lambda *idx: Subst(list(zip(fr, [zi(i) for i in idx])))(nb), self.buf.arity, self.buf.name)
            buf.frozen = True
            buf.birth = self.buf.birth
        return Arr(buf, shape, axes, self.sort)

    def sub_key(self):
        return None

    # ---- protocol
    def length(self, ip):
        if not self.shape:
            raise PyExc(TypeError, ("len() of unsized object",))
        return self.shape[0]

    def truth(self, ip):
        if all(isinstance(d, int) and d == 1 for d in self.shape):
            return ip.truth(self.value(ip, *([0] * len(self.shape))))
        n = self.size()
        if isinstance(n, int) and n == 0:
            return False
        if not isinstance(n, int) and ip.ctx.branch(zi(n) == 1):
            return ip.truth(self.value(ip, *([0] * len(self.shape))))
        raise PyExc(ValueError, ("truth value of an array is ambiguous",))

    def size(self):
        t = z3.IntVal(1)
        for d in self.shape:
            t = t * zi(d)
        return dim(t)

    def as_seq(self, ip):
        if not self.shape:
            raise PyExc(TypeError, ("iteration over a 0-d array",))
        n = self.shape[0]
        snap = Arr(self.buf, self.shape, self.axes, self.sort)
        if isinstance(n, int):
            return CSeq([snap.row(ip, i) for i in range(n)])
        return SymSeq(n, lambda t: snap.row(ip, t))

    def row(self, ip, i):
        if len(self.shape) == 1:
            return self.value(ip, i)
        return Arr(self.buf, self.shape[1:], _fix_axis(self.axes, 0, i), self.sort)

    def isinst(self, ip, T):
        if isinstance(T, LibType) and T.name == "ndarray":
            return True
        if isinstance(T, (PyClass, LibType)):
            return False if not (isinstance(T, LibType) and T.name == "object") else True
        return NotImplemented

    def has_attr(self, ip, name):
        import numpy
        return hasattr(numpy.ndarray, name)

    def getattr(self, ip, name):
        if name in ATTRS:
            return ATTRS[name](ip, self)
        if name in METHODS:
            return Bound(Builtin("ndarray." + name, METHODS[name]), self)
        return MISSING

    def getitem(self, ip, i):
        return getitem(ip, self, i)

    def setitem(self, ip, i, v):
        setitem(ip, self, i, v)

    def binop(self, ip, op, other, rev):
        return arr_binop(ip, op, other, self) if rev else arr_binop(ip, op, self, other)

    def inplace(self, ip, op, b):
        r = arr_binop(ip, op, self, b)
        setitem(ip, self, Ellipsis, r)
        return self

    def cmp(self, ip, op, other, rev):
        if op in ("Is", "IsNot", "In", "NotIn"):
            return NotImplemented
        if other is None or isinstance(other, (str, PyDict, PyInstance, Opaque)):
            if op in ("Eq", "NotEq"):
                return op == "NotEq"
            raise PyExc(TypeError, ())
        a, b = (other, self) if rev else (self, other)

        def f(x, y):
            x, y = alg.to_real(x), alg.to_real(y)
            return {"Eq": lambda: x == y, "NotEq": lambda: x != y, "Lt": lambda: x < y, "LtE": lambda: x <= y,
                    "Gt": lambda: x > y, "GtE": lambda: x >= y}[op]()
        return broadcast(ip, f, [a, b], "B")

    def unop(self, ip, op):
        if op == "USub":
            return self.elementwise(ip, lambda t: -t)
        if op == "UAdd":
            return self
        if op == "Invert" and self.sort == "B":
            return self.elementwise(ip, lambda t: z3.Not(t))
        return NotImplemented

    def elementwise(self, ip, fn, sort=None):
        return broadcast(ip, fn, [self], sort or self.sort)

    def copy_value(self, ip):
        return copy(ip, self)

    def same_as(self, ip, o):
        if o is self:
            return True
        raise Unsupported("equality of arrays")

    def is_same(self, ip, o):
        return o is self

    def sum_all(self, ip, start):
        return ip.binop("Add", start, reduce_(ip, "sum", self, 0, False))

    def merge(self, ip, pcs):
        raise Unsupported("conditional array values")

    def to_float(self, ip):
        if dim_eq(ip, self.size(), 1):
            v = self.value(ip, *([0] * len(self.shape)))
            return mk(rterm(v))
        raise PyExc(TypeError, ("only size-1 arrays can be converted",))

    def to_int(self, ip):
        return ip.call(ip.builtins["int"], [self.to_float(ip)], {})


def _axeq(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "fix":
        return zi(a[1]).eq(zi(b[1]))
    return a[1] == b[1] and zi(a[2]).eq(zi(b[2])) and zi(a[3]).eq(zi(b[3]))


def _fix_axis(axes, ax, t):
    out = []
    for a in axes:
        if a[0] == "var" and a[1] == ax:
            out.append(("fix", z3.simplify(zi(t) * zi(a[3]) + zi(a[2]))))
        elif a[0] == "var" and a[1] > ax:
            out.append(("var", a[1] - 1, a[2], a[3]))
        else:
            out.append(a)
    return out


def fresh_arr(fn, shape, sort="R", name=None):
    return Arr(Buffer(fn, len(shape), name), shape, None, sort)


def named(ip, name, shape, sort="R", guard=True):
    """an input array of the contract"""
    f = alg.uf(name, *([alg.I] * len(shape) + [{"R": alg.R, "I": alg.I, "B": z3.BoolSort()}[sort]]))
    a = Arr(Buffer(lambda *i: f(*i) if i else f(), len(shape), name, guard), shape, None, sort)
    a.buf.birth = 0
    return a


def shape_value(a):
    return tuple(mk(zi(d)) if not isinstance(d, int) else d for d in a.shape)


def is_arr(v):
    return isinstance(v, Arr)


def asarr(ip, v):
    """array-like -> Arr or number"""
    if isinstance(v, Arr) or is_num(v):
        return v
    if hasattr(v, "to_arr"):
        return v.to_arr(ip)
    if isinstance(v, (PyList, tuple, PyIter)) or isinstance(v, Seq):
        if isinstance(v, PyIter):
            raise Unsupported("array of an iterator")
        seq = v if isinstance(v, Seq) else ip.to_seq(v)
        items = seq.concrete()
        if items is not None:
            items = [asarr(ip, x) for x in items]
            if not items:
                return fresh_arr(lambda i: z3.RealVal(0), (0,))
            if all(is_num(x) for x in items):
                ts = [term(x) for x in items]
                sorts = {t.sort() for t in ts}
                srt = "R"
                if sorts == {alg.I}:
                    srt = "I"
                elif sorts == {z3.BoolSort()}:
                    srt = "B"
                else:
                    ts = [rterm(x) for x in items]
                return fresh_arr(lambda i: pick(ts, i), (len(ts),), srt)
            if all(isinstance(x, Arr) for x in items):
                return stack(ip, items, 0)
            if all(isinstance(x, (Opaque, AbsStr, str)) for x in items):
                return fresh_arr(lambda i: seq_pick(ip, items, i), (len(items),), "O")
            raise Unsupported("ragged array")
        if isinstance(seq, (FilterSeq, CatSeq)) or seq.n is None:
            raise Unsupported("array of a composite sequence")
        i0 = alg.fresh("i")
        e = seq.elem(i0)
        if is_num(e):
            srt = "I" if term(e).sort() == alg.I else "B" if term(e).sort() == z3.BoolSort() else "R"
            return fresh_arr(lambda i: term(seq.elem(i)), (seq.n,), srt)
        if isinstance(e, (PyList, tuple)) and not isinstance(e, Arr):
            e = asarr(ip, e)
        if isinstance(e, Arr):
            if any(alg.contains(zi(d), i0) for d in e.shape):
                raise Unsupported("ragged array")
            cache = {}

            def cell(i, *r):
                x = seq.elem(i)
                x = x if isinstance(x, Arr) else asarr(ip, x)
                return x.cell(ip, *r)
            return fresh_arr(cell, (seq.n,) + e.shape, e.sort)
        if isinstance(e, Opaque):
            return fresh_arr(lambda i: seq.elem(i), (seq.n,), "O")
        raise Unsupported("array of %r" % (e,))
    if v is None or isinstance(v, (str, PyDict)):
        raise PyExc(TypeError, ("not an array",))
    raise Unsupported("array of %r" % (v,))


def pick(ts, i):
    i = zi(i)
    s = z3.simplify(i)
    if z3.is_int_value(s):
        j = s.as_long()
        if 0 <= j < len(ts):
            return ts[j]
    r = ts[-1]
    for j in range(len(ts) - 2, -1, -1):
        r = z3.If(i == j, ts[j], r)
    return r


def seq_pick(ip, items, i):
    s = z3.simplify(zi(i))
    if z3.is_int_value(s):
        return items[s.as_long()]
    return ip.seq_elem(CSeq(items), Sym(s))


def stack(ip, arrs, axis):
    a0 = arrs[0]
    for a in arrs[1:]:
        if len(a.shape) != len(a0.shape) or not all(dim_eq(ip, x, y) for x, y in zip(a.shape, a0.shape)):
            raise PyExc(ValueError, ("all input arrays must have the same shape",))
    rd = [a.reader(ip) for a in arrs]
    nd = len(a0.shape) + 1
    ax = axis if axis >= 0 else axis + nd

    def cell(*idx):
        r = list(idx)
        i = r.pop(ax)
        return pick([_unify(f(*r), arrs) for f in rd], i)
    shape = list(a0.shape)
    shape.insert(ax, len(arrs))
    return fresh_arr(cell, tuple(shape), _sort(arrs))


def _sort(arrs):
    s = {a.sort for a in arrs}
    return s.pop() if len(s) == 1 else "R"


def _unify(t, arrs):
    return alg.to_real(t) if _sort(arrs) == "R" and isinstance(t, z3.ExprRef) and t.sort() != alg.R else t


def broadcast(ip, fn, vals, sort="R"):
    vals = [asarr(ip, v) for v in vals]
    if all(not isinstance(v, Arr) for v in vals):
        r = mk(fn(*[term(v) for v in vals]))
        if isinstance(r, Sym):
            r.np = True
        return r
    nd = max(len(v.shape) for v in vals if isinstance(v, Arr))
    shape = []
    for p in range(nd):          # from the last axis
        cur = 1
        for v in vals:
            if isinstance(v, Arr) and p < len(v.shape):
                d = v.shape[len(v.shape) - 1 - p]
                if isinstance(d, int) and d == 1:
                    continue
                if isinstance(cur, int) and cur == 1:
                    cur = d
                elif not dim_eq(ip, cur, d):
                    if not isinstance(d, int) and ip.ctx.branch(d == 1):
                        continue
                    if not isinstance(cur, int) and ip.ctx.branch(cur == 1):
                        cur = d
                        continue
                    raise PyExc(ValueError, ("operands could not be broadcast together",))
        shape.insert(0, cur)
    rds = []
    for v in vals:
        if isinstance(v, Arr):
            rds.append((v.reader(ip), v.shape))
        else:
            rds.append((term(v), None))

    def cell(*idx):
        args = []
        for r, sh in rds:
            if sh is None:
                args.append(r)
            else:
                sub = idx[len(idx) - len(sh):] if sh else ()
                sub = [z3.IntVal(0) if isinstance(d, int) and d == 1 and not (isinstance(full, int) and full == 1) else s
                       for s, d, full in zip(sub, sh, shape[len(shape) - len(sh):])]
                args.append(r(*sub))
        return fn(*args)
    return fresh_arr(cell, tuple(shape), sort)


def arr_binop(ip, op, a, b):
    for x in (a, b):
        if not (isinstance(x, Arr) or is_num(x) or isinstance(x, (PyList, tuple))):
            if x is None or isinstance(x, str):
                raise PyExc(TypeError, ("unsupported operand",))
            return NotImplemented
    if op == "MatMult":
        return matmul(ip, a, b)
    a, b = asarr(ip, a), asarr(ip, b)
    srt = "R"

    def sort_of(v):
        if isinstance(v, Arr):
            return v.sort
        t = term(v)
        return "I" if t.sort() == alg.I else "B" if t.sort() == z3.BoolSort() else "R"
    sa, sb = sort_of(a), sort_of(b)
    if op in ("BitAnd", "BitOr") and sa == sb == "B":
        return broadcast(ip, (lambda x, y: z3.And(x, y)) if op == "BitAnd" else (lambda x, y: z3.Or(x, y)), [a, b], "B")
    if sa == "I" and sb == "I" and op in ("Add", "Sub", "Mult"):
        srt = "I"

    def r(t):
        if t.sort() == z3.BoolSort():
            t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
        return t if srt == "I" else alg.to_real(t)
    if op == "Add":
        f = lambda x, y: r(x) + r(y)
    elif op == "Sub":
        f = lambda x, y: r(x) - r(y)
    elif op == "Mult":
        f = lambda x, y: r(x) * r(y)
    elif op == "Div":
        f = lambda x, y: r(x) / r(y)
    elif op == "Pow":
        if isinstance(b, (int, Fraction)) and not isinstance(b, bool) and Fraction(b).denominator == 1:
            e = int(b)
            f = lambda x, y: powi(r(x), e)
        elif isinstance(b, Fraction) and b == Fraction(1, 2):
            f = lambda x, y: exact_sqrt(r(x))
        else:
            pf = alg.uf("pow", alg.R, alg.R, alg.R)
            f = lambda x, y: pf(r(x), r(y))
    else:
        raise Unsupported("array operation " + op)
    return broadcast(ip, f, [a, b], srt)


def powi(t, e):
    if e < 0:
        return 1 / powi(t, -e)
    if e == 0:
        return z3.RealVal(1)
    r = t
    for _ in range(e - 1):
        r = r * t
    return r


def matmul(ip, a, b):
    a, b = asarr(ip, a), asarr(ip, b)
    fa, fb = a.reader(ip), b.reader(ip)
    if len(a.shape) == 1 and len(b.shape) == 1:
        if not dim_eq(ip, a.shape[0], b.shape[0]):
            raise PyExc(ValueError, ())
        return mknp(sum_n(a.shape[0], lambda i: fa(i) * fb(i)))
    if len(a.shape) == 2 and len(b.shape) == 2:
        if not dim_eq(ip, a.shape[1], b.shape[0]):
            raise PyExc(ValueError, ())
        return fresh_arr(lambda i, j: sum_n(a.shape[1], lambda q: fa(i, q) * fb(q, j)), (a.shape[0], b.shape[1]))
    if len(a.shape) == 2 and len(b.shape) == 1:
        return fresh_arr(lambda i: sum_n(a.shape[1], lambda q: fa(i, q) * fb(q)), (a.shape[0],))
    if len(a.shape) == 1 and len(b.shape) == 2:
        return fresh_arr(lambda j: sum_n(a.shape[0], lambda q: fa(q) * fb(q, j)), (b.shape[1],))
    raise Unsupported("dot")


def mknp(t):
    v = mk(t)
    if isinstance(v, Sym):
        v.np = True
    return v


def sum_n(n, f):
    if isinstance(n, int) and n <= 24:
        t = z3.RealVal(0)
        for i in range(n):
            t = t + alg.to_real(f(z3.IntVal(i)))
        return t
    return alg.mk_sum(zi(n), lambda i: f(i))


def lam(n, f):
    k = alg.fresh("m")
    return alg.lam(k, alg.to_real(f(k)))


def fold_n(kind, n, f):
    """sum/prod/min/max/... of f(0..n-1)"""
    if kind == "sum":
        return sum_n(n, f)
    if kind == "mean":
        return sum_n(n, f) / alg.to_real(zi(n))
    if kind in ("var", "std"):
        m = sum_n(n, f) / alg.to_real(zi(n))
        v = sum_n(n, lambda i: (alg.to_real(f(i)) - m) * (alg.to_real(f(i)) - m)) / alg.to_real(zi(n))
        return v if kind == "var" else exact_sqrt(v)
    if kind == "prod":
        if not isinstance(n, int):
            raise Unsupported("product of symbolic length")
        t = None
        for i in range(n):
            x = f(z3.IntVal(i))
            t = x if t is None else t * x if t.sort() == x.sort() else alg.to_real(t) * alg.to_real(x)
        return z3.RealVal(1) if t is None else t
    if kind in ("min", "max"):
        if isinstance(n, int) and 0 < n <= 8:
            t = alg.to_real(f(z3.IntVal(0)))
            for i in range(1, n):
                x = alg.to_real(f(z3.IntVal(i)))
                t = z3.If(x < t if kind == "min" else x > t, x, t)
            return t
        return (MINF if kind == "min" else MAXF)(zi(n), lam(n, f))
    raise Unsupported(kind)


def reduce_(ip, kind, v, axis=None, keepdims=False, ddof=0):
    if kind == "prod" and hasattr(v, "np_prod"):
        return v.np_prod(ip)
    v = asarr(ip, v)
    if kind == "prod" and isinstance(v, Arr) and axis is None and len(v.shape) == 1 and not isinstance(v.shape[0], int):
        rd = v.reader(ip)
        return mk(ip.product(zi(v.shape[0]), lambda i: rd(i)))
    if not isinstance(v, Arr):
        if kind in ("sum", "mean", "min", "max", "prod"):
            return v
        return Fraction(0)
    if ddof not in (0, None):
        if kind not in ("var", "std"):
            raise Unsupported("ddof")
    if isinstance(axis, tuple):
        if len(axis) == 1:
            axis = axis[0]
        elif len(axis) == len(v.shape):
            axis = None
        else:
            raise Unsupported("reduction over several axes")
    nd = len(v.shape)
    rd = v.reader(ip)

    def fold(n, f):
        if kind in ("var", "std") and ddof:
            m = sum_n(n, f) / alg.to_real(zi(n))
            t = sum_n(n, lambda i: (alg.to_real(f(i)) - m) * (alg.to_real(f(i)) - m)) / (alg.to_real(zi(n)) - rterm(ddof))
            return t if kind == "var" else exact_sqrt(t)
        return fold_n(kind, n, f)
    if kind in ("min", "max") and any(not isinstance(d, int) or d == 0 for d in v.shape):
        if ip.ctx.branch(zi(v.size()) == 0):
            raise PyExc(ValueError, ("zero-size array to reduction operation",))

    def b2r(t):
        return z3.If(t, z3.RealVal(1), z3.RealVal(0)) if t.sort() == z3.BoolSort() else alg.to_real(t)
    if axis is None:
        if nd == 0:
            t = fold(1, lambda i: b2r(rd()))
        elif nd == 1:
            t = fold(v.shape[0], lambda i: b2r(rd(i)))
        elif nd == 2:
            n, m = v.shape
            if dim_known(n, 1):
                t = fold(m, lambda j: b2r(rd(z3.IntVal(0), j)))
            elif dim_known(m, 1):
                t = fold(n, lambda i: b2r(rd(i, z3.IntVal(0))))
            elif kind in ("sum", "mean"):
                t = sum_n(n, lambda i: sum_n(m, lambda j: b2r(rd(i, j))))
                if kind == "mean":
                    t = t / alg.to_real(zi(n) * zi(m))
            else:
                raise Unsupported("%s over a whole matrix" % kind)
        else:
            raise Unsupported("reduction of rank %d" % nd)
        if keepdims:
            return fresh_arr(lambda *i: t, (1,) * nd)
        return mknp(t)
    if not isinstance(axis, int):
        raise Unsupported("symbolic axis")
    ax = axis if axis >= 0 else axis + nd
    if not 0 <= ax < nd:
        raise PyExc(ValueError, ("axis out of bounds",))
    n = v.shape[ax]
    if nd == 1:
        t = fold(n, lambda i: b2r(rd(i)))
        return fresh_arr(lambda i: t, (1,)) if keepdims else mknp(t)

    def cell(*idx):
        idx = list(idx)
        if keepdims:
            del idx[ax]
        return fold(n, lambda i: b2r(rd(*(idx[:ax] + [i] + idx[ax:]))))
    shape = list(v.shape)
    if keepdims:
        shape[ax] = 1
    else:
        del shape[ax]
    return fresh_arr(cell, tuple(shape))


def dim_known(d, c):
    return isinstance(d, int) and d == c


# ------------------------------------------------------------------ indexing
def getitem(ip, a, i):
    if isinstance(i, (PyList,)):
        ia = asarr(ip, i)
        if not isinstance(ia, Arr):
            raise Unsupported("fancy indexing")
        return take(ip, a, ia)
    if isinstance(i, Arr):
        return take(ip, a, i)
    idx = list(i) if isinstance(i, tuple) else [i]
    if any(isinstance(x, (Arr, PyList)) for x in idx):
        if len(idx) == 2 and isinstance(idx[0], (Arr, PyList)) and isinstance(idx[1], SliceV) and idx[1].a is None and idx[1].b is None:
            return take(ip, a, asarr(ip, idx[0]))
        raise Unsupported("fancy indexing")
    if Ellipsis in [x for x in idx if x is Ellipsis]:
        k = [j for j, x in enumerate(idx) if x is Ellipsis][0]
        need = len(a.shape) - sum(1 for x in idx if x is not None and x is not Ellipsis)
        idx = idx[:k] + [SliceV(None, None, None)] * need + idx[k + 1:]
    used = sum(1 for x in idx if x is not None)
    if used > len(a.shape):
        raise PyExc(IndexError, ("too many indices for array",))
    idx += [SliceV(None, None, None)] * (len(a.shape) - used)
    axes = list(a.axes)
    shape = []
    newmap = {}       # old view axis -> ("fix", t) | ("var", new axis, off, step)
    ax = 0
    for x in idx:
        if x is None:
            shape.append(1)
            continue
        n = a.shape[ax]
        if isinstance(x, SliceV):
            lo, m, st = slice_dims(ip, x, n)
            newmap[ax] = ("var", len(shape), lo, st)
            shape.append(m)
        else:
            j = ip.norm_index(x, n)
            newmap[ax] = ("fix", iterm(j))
        ax += 1
    out = []
    for b in axes:
        if b[0] == "fix":
            out.append(b)
        else:
            q = newmap[b[1]]
            off, st = zi(b[2]), zi(b[3])
            if q[0] == "fix":
                out.append(("fix", z3.simplify(q[1] * st + off)))
            else:
                out.append(("var", q[1], dim(zi(q[2]) * st + off), dim(zi(q[3]) * st)))
    r = Arr(a.buf, tuple(shape), out, a.sort)
    if not shape:
        return r.value(ip)
    return r


def slice_dims(ip, s, n):
    """(start, length, step) of a slice of an axis of length n"""
    c = 1 if s.c is None else s.c
    if isinstance(c, int) and c < 0:
        if s.a is None and s.b is None and c == -1:
            return dim(zi(n) - 1), n, -1
    nt = zi(n)
    ct = iterm(c)
    down = False
    if isinstance(c, int):
        if c == 0:
            raise PyExc(ValueError, ("slice step cannot be zero",))
        down = c < 0
    elif not ip.ctx.branch(ct > 0):
        if ip.ctx.branch(ct == 0):
            raise PyExc(ValueError, ("slice step cannot be zero",))
        down = True

    def clip(x, default):
        if x is None:
            return default
        if hasattr(x, "as_index"):
            x = x.as_index(ip)
        if not isinstance(x, (int, Sym)) or (isinstance(x, Sym) and x.ty == "float"):
            raise PyExc(TypeError, ("slice indices must be integers",))
        t = iterm(x)
        if ip.ctx.branch(t < 0):
            t = t + nt
            if ip.ctx.branch(t < 0):
                return z3.IntVal(-1 if down else 0)
        if ip.ctx.branch(t >= nt if down else t > nt):
            return nt - 1 if down else nt
        return t
    if down:
        lo, hi = clip(s.a, nt - 1), clip(s.b, z3.IntVal(-1))
        if ip.ctx.branch(hi >= lo):
            return 0, 0, 1
        return dim(lo), dim((lo - hi - ct - 1) / -ct), c if isinstance(c, int) else dim(ct)
    lo, hi = clip(s.a, z3.IntVal(0)), clip(s.b, nt)
    if ip.ctx.branch(hi < lo):
        return 0, 0, 1
    if isinstance(c, int) and c == 1:
        return dim(lo), dim(hi - lo), 1
    return dim(lo), dim((hi - lo + ct - 1) / ct), dim(ct)


def perm_apps(t):
    seen, out, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(PERM):
                out.append(x)
            todo.extend(x.children())
    return out


def take(ip, a, ia):
    if ia.sort == "B":
        raise Unsupported("boolean indexing")
    fi, fa = ia.reader(ip), a.reader(ip)
    ni = len(ia.shape)
    n0 = zi(a.shape[0])

    def norm(t):
        if t.sort() == alg.R:
            raise PyExc(IndexError, ("arrays used as indices must be of integer type",))
        return z3.If(t < 0, t + n0, t)

    def cell(*idx):
        t = norm(fi(*idx[:ni]))
        raw = z3.simplify(fi(*idx[:ni]))
        # the values of a permutation of [0, n) are in [0, n)
        perms = [z3.Implies(z3.And(p.arg(3) >= 0, p.arg(3) < p.arg(2)), z3.And(p >= 0, p < p.arg(2))) for p in perm_apps(raw)]
        if ip.ctx.valid(z3.Implies(z3.And(*perms), t == raw)):
            t = raw
        return fa(t, *idx[ni:])
    return fresh_arr(cell, ia.shape + a.shape[1:], a.sort)


def frame_violation(ip, buf):
    name = buf.name or "?"
    ip.ctx.check("frame: array %s of the caller is not modified" % name, False, "written by the code under contract")
    ip.lib_state.setdefault("frame", []).append(name)
    raise PathEnd()


def setitem(ip, a, i, v):
    if a.buf.guard:
        frame_violation(ip, a.buf)
    if isinstance(i, (Arr, PyList)):
        raise Unsupported("fancy assignment")
    tgt = a if i is Ellipsis else getitem_view(ip, a, i)
    v = asarr(ip, v)
    old = ip.rd(a.buf, "fn")
    src = None
    if isinstance(v, Arr):
        vb = broadcast(ip, lambda x, y: y, [tgt, v], v.sort)
        src = vb.reader(ip)
    else:
        t = term(v)

        def src(*idx):
            return t
    axes, shape = tgt.axes, tgt.shape

    def conv(t):
        if a.sort == "R" and t.sort() != alg.R:
            return alg.to_real(t) if t.sort() == alg.I else z3.If(t, z3.RealVal(1), z3.RealVal(0))
        return t

    def fn(*b):
        conds = []
        idx = [z3.IntVal(0)] * len(shape)
        for ax, t in zip(axes, b):
            t = zi(t)
            if ax[0] == "fix":
                conds.append(t == ax[1])
            else:
                if not dim_known(ax[3], 1):
                    raise Unsupported("strided assignment")
                j = z3.simplify(t - zi(ax[2]))
                conds.append(z3.And(j >= 0, j < zi(shape[ax[1]])))
                idx[ax[1]] = j
        c = z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True)
        if z3.is_true(c) or ip.ctx.valid(c):
            return conv(src(*idx))
        if z3.is_false(c):
            return old(*b)
        return z3.If(c, conv(src(*idx)), conv(old(*b)))
    ip.wr(a.buf, "fn", fn)


def getitem_view(ip, a, i):
    idx = i if isinstance(i, tuple) else (i,)
    n = len([x for x in idx if x is not None])
    if all(isinstance(x, (int, Sym)) for x in idx) and n == len(a.shape):
        axes = list(a.axes)
        ts = [iterm(ip.norm_index(x, d)) for x, d in zip(idx, a.shape)]
        out = []
        for b in axes:
            out.append(b if b[0] == "fix" else ("fix", z3.simplify(ts[b[1]] * zi(b[3]) + zi(b[2]))))
        return Arr(a.buf, (), out, a.sort)
    r = getitem(ip, a, i)
    if not isinstance(r, Arr):
        raise Unsupported("assignment")
    return r


# ------------------------------------------------------------------ shapes
def copy(ip, a):
    if not isinstance(a, Arr):
        return a
    return fresh_arr(a.reader(ip), a.shape, a.sort)


def reshape(ip, a, *shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, PyList)):
        shape = tuple(ip.to_seq(shape[0]).concrete() or ()) if not isinstance(shape[0], tuple) else shape[0]
    a = asarr(ip, a)
    if not isinstance(a, Arr):
        t = term(a)
        a = fresh_arr(lambda: t, (), "R" if t.sort() == alg.R else "I")
    shape = [dim(iterm(s)) if isinstance(s, Sym) else s for s in shape]
    size = a.size()
    neg = [j for j, s in enumerate(shape) if isinstance(s, int) and s == -1]
    rest = z3.IntVal(1)
    for j, s in enumerate(shape):
        if j not in neg:
            rest = rest * zi(s)
    rest = dim(rest)
    if neg:
        if dim_known(rest, 1):
            shape[neg[0]] = size
        elif isinstance(rest, int) and isinstance(size, int):
            if rest == 0 or size % rest:
                raise PyExc(ValueError, ("cannot reshape",))
            shape[neg[0]] = size // rest
        else:
            # the missing dimension must divide exactly
            for d in a.shape:
                if not isinstance(d, int):
                    q = d
                    if ip.ctx.valid(zi(q) * zi(rest) == zi(size)):
                        shape[neg[0]] = q
                        break
            else:
                if not ip.ctx.branch(z3.And(zi(rest) != 0, zi(size) % zi(rest) == 0)):
                    raise PyExc(ValueError, ("cannot reshape",))
                shape[neg[0]] = dim(zi(size) / zi(rest))
    elif not dim_eq(ip, rest, size):
        raise PyExc(ValueError, ("cannot reshape array",))
    # only size-1 axes differ?
    oldn = [(j, d) for j, d in enumerate(a.shape) if not dim_known(d, 1)]
    newn = [(j, d) for j, d in enumerate(shape) if not dim_known(d, 1)]
    if len(oldn) == len(newn) and all(zi(x[1]).eq(zi(y[1])) or ip.ctx.valid(zi(x[1]) == zi(y[1])) for x, y in zip(oldn, newn)):
        mp = {o[0]: n[0] for o, n in zip(oldn, newn)}
        out = []
        for b in a.axes:
            if b[0] == "fix":
                out.append(b)
            elif b[1] in mp:
                out.append(("var", mp[b[1]], b[2], b[3]))
            else:
                out.append(("fix", zi(b[2])))
        return Arr(a.buf, tuple(shape), out, a.sort)
    rd = a.reader(ip)
    osh, nsh = a.shape, tuple(shape)

    def cell(*idx):
        flat = z3.IntVal(0)
        for d, i in zip(nsh, idx):
            flat = flat * zi(d) + zi(i)
        flat = z3.simplify(flat)
        if len(osh) == 1:
            return rd(flat)
        out, rem = [], flat
        for j in range(len(osh)):
            st = z3.IntVal(1)
            for d in osh[j + 1:]:
                st = st * zi(d)
            st = z3.simplify(st)
            if j == len(osh) - 1:
                out.append(rem)
            else:
                out.append(z3.simplify(rem / st))
                rem = z3.simplify(rem % st)
        return rd(*out)
    return fresh_arr(cell, nsh, a.sort)


def transpose(ip, a, axes=None):
    if len(a.shape) <= 1:
        return a
    nd = len(a.shape)
    perm = list(axes) if axes else list(range(nd))[::-1]
    inv = {o: n for n, o in enumerate(perm)}
    return Arr(a.buf, tuple(a.shape[p] for p in perm), [b if b[0] == "fix" else ("var", inv[b[1]], b[2], b[3]) for b in a.axes], a.sort)


def squeeze(ip, a, axis=None):
    a = asarr(ip, a)
    if not isinstance(a, Arr):
        return a
    nd = len(a.shape)
    drop = []
    for j, d in enumerate(a.shape):
        if axis is not None:
            if j == (axis if axis >= 0 else axis + nd):
                if not dim_eq(ip, d, 1):
                    raise PyExc(ValueError, ("cannot select an axis to squeeze out",))
                drop.append(j)
        elif dim_eq(ip, d, 1):
            drop.append(j)
    idx = tuple(0 if j in drop else SliceV(None, None, None) for j in range(nd))
    if not drop:
        return a
    if len(drop) == nd:
        f = a.reader(ip)
        t = f(*[z3.IntVal(0)] * nd)
        return fresh_arr(lambda: t, (), a.sort)
    return getitem(ip, a, idx)


def tolist(ip, a):
    if not a.shape:
        return a.value(ip)
    n = a.shape[0]
    snap = copy(ip, a)
    if isinstance(n, int):
        return PyList([tolist(ip, r) if isinstance(r, Arr) else r for r in [snap.row(ip, i) for i in range(n)]])
    return PyList(SymSeq(n, lambda t: (lambda r: tolist(ip, r) if isinstance(r, Arr) else r)(snap.row(ip, t))))


def concat(ip, arrs, axis=0):
    arrs = [asarr(ip, a) for a in arrs]
    if any(not isinstance(a, Arr) for a in arrs):
        raise PyExc(ValueError, ("zero-dimensional arrays cannot be concatenated",))
    nd = len(arrs[0].shape)
    if any(len(a.shape) != nd for a in arrs):
        raise PyExc(ValueError, ("all the input array dimensions must match",))
    if nd == 0:
        raise PyExc(ValueError, ())
    if axis is None:
        arrs = [reshape(ip, a, -1) for a in arrs]
        axis, nd = 0, 1
    ax = axis if axis >= 0 else axis + nd
    for a in arrs[1:]:
        for j in range(nd):
            if j != ax and not dim_eq(ip, a.shape[j], arrs[0].shape[j]):
                raise PyExc(ValueError, ("all the input array dimensions must match",))
    rds = [a.reader(ip) for a in arrs]
    lens = [zi(a.shape[ax]) for a in arrs]
    srt = _sort(arrs)

    def cell(*idx):
        i = zi(idx[ax])
        off = z3.IntVal(0)
        offs = []
        for l in lens:
            offs.append(off)
            off = off + l

        def at(j):
            r = list(idx)
            r[ax] = z3.simplify(i - offs[j])
            return _unify(rds[j](*r), arrs)
        r = at(len(arrs) - 1)
        for j in range(len(arrs) - 2, -1, -1):
            c = z3.simplify(i < offs[j + 1])
            if z3.is_true(c) or ip.ctx.valid(c):
                r = at(j)
            elif not (z3.is_false(c) or ip.ctx.valid(z3.Not(c))):
                r = z3.If(c, at(j), r)
        return r
    shape = list(arrs[0].shape)
    tot = lens[0]
    for l in lens[1:]:
        tot = tot + l
    shape[ax] = dim(tot)
    return fresh_arr(cell, tuple(shape), srt)


# ------------------------------------------------------------------ argmin
def argext(ip, v, kind, axis=None):
    v = asarr(ip, v)
    if not isinstance(v, Arr):
        return 0
    if axis is not None and not (axis in (0, -1) and len(v.shape) == 1):
        if axis is not None:
            raise Unsupported("argmin along an axis")
    if len(v.shape) != 1:
        v = reshape(ip, v, -1)
    n = v.shape[0]
    if ip.ctx.branch(zi(n) == 0):
        raise PyExc(ValueError, ("attempt to get argmin of an empty sequence",))
    rd = v.reader(ip)
    F = ARGMIN if kind == "min" else ARGMAX
    t = F(zi(n), lam(n, rd))
    ip.ctx.assume(z3.And(t >= 0, t < zi(n)))
    return mknp(t)


ARGSORT = z3.Function("ArgSort", alg.I, alg.ArrIR, alg.I, alg.I)    # n, values, i: index of the i-th smallest value


def argsort(ip, a, k):
    v = asarr(ip, a[0])
    if not isinstance(v, Arr) or len(v.shape) != 1 or (len(a) > 1 and a[1] not in (0, -1)) or k.get("axis", -1) not in (0, -1):
        raise Unsupported("argsort of this array")
    n, rd = v.shape[0], v.reader(ip)

    def at(i):
        t = ARGSORT(zi(n), lam(n, rd), zi(i))
        ip.ctx.assume(z3.Implies(z3.And(zi(i) >= 0, zi(i) < zi(n)), z3.And(t >= 0, t < zi(n))))
        return t
    return fresh_arr(at, (n,), "I")


# ------------------------------------------------------------------ random
class Rng(HObj):
    """numpy.random.RandomState: the stream is a function of the seed; d['pos'] is the position in it"""
    OPS = {}

    def __init__(self, ip, seed=None, glob=False):
        HObj.__init__(self)
        self.glob = glob
        if glob:
            self.birth = 0
        self.do_seed(ip, seed)

    def do_seed(self, ip, seed):
        if isinstance(seed, Dyn):
            seed = seed.resolve(ip)
        if seed is None:
            s = alg.fresh("entropy")
            ip.lib_state.setdefault("entropy", []).append(s)
        else:
            if isinstance(seed, (Fraction, float, str, AbsStr)) or (isinstance(seed, Opaque) and seed.kind == "thing") or (isinstance(seed, Sym) and seed.ty == "float"):
                raise PyExc(TypeError, ("seed",))
            if isinstance(seed, Opaque):
                raise Unsupported("seed %r" % (seed,))
            s = iterm(seed)
            if not ip.ctx.branch(z3.And(s >= 0, s <= 2 ** 32 - 1)):
                raise PyExc(ValueError, ("Seed must be between 0 and 2**32 - 1",))
        ip.wr(self, "seed", s)
        ip.wr(self, "pos", 0)

    def subst(self, s):
        return self

    def use(self, ip, op):
        if self.glob:
            ip.events.append(("global_rng", op))

    def step(self, ip, op, size):
        """(seed, position), then advance"""
        self.use(ip, op)
        seed, pos = ip.rd(self, "seed"), iterm(ip.rd(self, "pos"))
        code = self.OPS.setdefault(op, len(self.OPS) + 1)
        ip.wr(self, "pos", mk(pos + ADV(z3.IntVal(code), zi(size))))
        return seed, pos

    def has_attr(self, ip, name):
        return name in RNG_METHODS

    def getattr(self, ip, name):
        if name in RNG_METHODS:
            return Bound(Builtin("RandomState." + name, RNG_METHODS[name]), self)
        raise Unsupported("RandomState." + name)


def rng_seed(ip, a, k):
    a[0].use(ip, "seed")
    a[0].do_seed(ip, a[1] if len(a) > 1 else k.get("seed"))


def rng_randint(ip, a, k, closed=False):
    r = a[0]
    lo = a[1] if len(a) > 1 else k.get("low")
    hi = a[2] if len(a) > 2 else k.get("high")
    size = a[3] if len(a) > 3 else k.get("size")
    if hi is None:
        lo, hi = 0, lo
    l, h = iterm(to_i(ip, lo)), iterm(to_i(ip, hi))
    if k.get("endpoint"):
        h = h + 1
    if not ip.ctx.branch(l < h):
        raise PyExc(ValueError, ("low >= high",))
    if size is None:
        seed, pos = r.step(ip, "randint", 1)
        t = RAND(seed, pos, z3.simplify(l), z3.simplify(h))
        ip.ctx.assume(z3.And(t >= l, t < h))
        ip.lib_state.setdefault("rand", {})[t.get_id()] = t
        if r.glob:
            ip.lib_state.setdefault("global_draws", []).append(t)
        return Sym(t)
    raise Unsupported("randint with size")


def to_i(ip, v):
    if hasattr(v, "as_index"):
        return v.as_index(ip)
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    if isinstance(v, Sym) and v.ty == "float":
        return ip.call(ip.builtins["int"], [v], {})
    return v


def rng_shuffle(ip, a, k):
    r, x = a[0], a[1]
    if isinstance(x, PyList):
        raise Unsupported("shuffling a list")
    if not isinstance(x, Arr):
        raise Unsupported("shuffle")
    n = x.shape[0]
    seed, pos = r.step(ip, "shuffle", n)
    if x.buf.guard:
        frame_violation(ip, x.buf)
    old = x.reader(ip)
    sigma = lambda i: PERM(seed, pos, zi(n), zi(i))
    setitem(ip, x, Ellipsis, fresh_arr(lambda i, *rest: old(sigma(i), *rest), x.shape, x.sort))


def rng_permutation(ip, a, k):
    r, x = a[0], a[1]
    if isinstance(x, Arr):
        n = x.shape[0]
        seed, pos = r.step(ip, "shuffle", n)
        old = x.reader(ip)
        return fresh_arr(lambda i, *rest: old(PERM(seed, pos, zi(n), zi(i)), *rest), x.shape, x.sort)
    n = dim(iterm(to_i(ip, x)))
    seed, pos = r.step(ip, "shuffle", n)
    return fresh_arr(lambda i: PERM(seed, pos, zi(n), zi(i)), (n,), "I")


def rng_real(op):
    def f(ip, a, k):
        size = k.get("size", a[3] if len(a) > 3 else None)
        if op in ("rand", "randn"):
            size = tuple(a[1:]) or None
        if op in ("random_sample", "random"):
            size = a[1] if len(a) > 1 else k.get("size")
        if size is None:
            shape = ()
        elif isinstance(size, (tuple, PyList)):
            shape = tuple(size) if isinstance(size, tuple) else tuple(ip.to_seq(size).concrete())
        else:
            shape = (size,)
        shape = tuple(dim(iterm(s)) for s in shape)
        n = z3.IntVal(1)
        for s in shape:
            n = n * zi(s)
        seed, pos = a[0].step(ip, op, dim(n))
        code = a[0].OPS[op]

        def cell(*idx):
            flat = z3.IntVal(0)
            for d, i in zip(shape, idx):
                flat = flat * zi(d) + zi(i)
            return RANDR(seed, pos + code, z3.simplify(flat))
        if not shape:
            return mknp(cell())
        return fresh_arr(cell, shape)
    return f


RNG_METHODS = {"seed": rng_seed, "randint": rng_randint, "integers": rng_randint, "shuffle": rng_shuffle,
               "permutation": rng_permutation}
for _n in ("rand", "randn", "uniform", "normal", "random_sample", "random", "standard_normal", "choice"):
    RNG_METHODS[_n] = rng_real(_n)


# ------------------------------------------------------------------ attributes and methods
ATTRS = {
    "shape": lambda ip, a: shape_value(a),
    "ndim": lambda ip, a: len(a.shape),
    "size": lambda ip, a: mk(zi(a.size())),
    "T": lambda ip, a: transpose(ip, a),
    "dtype": lambda ip, a: Opaque("dtype", uid=-100 - ord(a.sort), attrs={"name": AbsStr(), "kind": AbsStr(), "of": a.buf}),
}


def _red(kind):
    def f(ip, a, k):
        axis = a[1] if len(a) > 1 else k.get("axis")
        return reduce_(ip, kind, a[0], axis, k.get("keepdims", False), k.get("ddof", 0))
    return f


METHODS = {
    "copy": lambda ip, a, k: copy(ip, a[0]),
    "reshape": lambda ip, a, k: reshape(ip, a[0], *a[1:]),
    "tolist": lambda ip, a, k: tolist(ip, a[0]),
    "flatten": lambda ip, a, k: copy(ip, reshape(ip, a[0], -1)),
    "ravel": lambda ip, a, k: reshape(ip, a[0], -1),
    "squeeze": lambda ip, a, k: squeeze(ip, a[0], a[1] if len(a) > 1 else k.get("axis")),
    "transpose": lambda ip, a, k: transpose(ip, a[0], (a[1] if isinstance(a[1], tuple) else a[1:]) if len(a) > 1 else None),
    "astype": lambda ip, a, k: astype(ip, a[0], a[1] if len(a) > 1 else k.get("dtype")),
    "item": lambda ip, a, k: a[0].to_float(ip),
    "min": _red("min"), "max": _red("max"), "mean": _red("mean"), "std": _red("std"), "var": _red("var"), "sum": _red("sum"),
    "prod": _red("prod"),
    "argmin": lambda ip, a, k: argext(ip, a[0], "min", a[1] if len(a) > 1 else k.get("axis")),
    "argmax": lambda ip, a, k: argext(ip, a[0], "max", a[1] if len(a) > 1 else k.get("axis")),
    "argsort": argsort,
    "fill": lambda ip, a, k: setitem(ip, a[0], Ellipsis, a[1]),
    "dot": lambda ip, a, k: matmul(ip, a[0], a[1]),
    "any": lambda ip, a, k: quant(ip, a[0], True),
    "all": lambda ip, a, k: quant(ip, a[0], False),
}


def astype(ip, v, dt):
    """conversions that keep real values: to the own type and to the widest float type"""
    own = isinstance(dt, Opaque) and dt.kind == "dtype" and dt.attrs.get("of") is v.buf
    wide = isinstance(dt, DType) and dt.name in ("float64", "double") or isinstance(dt, str) and dt in ("float64", "double", "f8", "float", "d") or dt is ip.builtins.get("float")
    if own or wide:
        return copy(ip, v)
    raise Unsupported("conversion of an array to another type")


def quant(ip, v, isany):
    v = asarr(ip, v)
    if not isinstance(v, Arr):
        return mk(z3.BoolVal(ip.truth(v)) if isinstance(ip.truth(v), bool) else ip.truth(v))
    fr = [alg.fresh("i") for _ in v.shape]
    c = v.reader(ip)(*fr)
    if c.sort() != z3.BoolSort():
        c = c != 0
    if not fr:
        return mk(c)
    g = z3.And(*[z3.And(i >= 0, i < zi(d)) for i, d in zip(fr, v.shape)])
    return mk(z3.Exists(fr, z3.And(g, c)) if isany else z3.ForAll(fr, z3.Implies(g, c)))


def array_equal(ip, a, k):
    x, y = asarr(ip, a[0]), asarr(ip, a[1])
    sx, sy = (v.shape if isinstance(v, Arr) else () for v in (x, y))
    if len(sx) != len(sy) or not all(dim_eq(ip, p, q) for p, q in zip(sx, sy)):
        return False
    return quant(ip, broadcast(ip, lambda p, q: p == q if p.sort() == q.sort() else alg.to_real(p) == alg.to_real(q), [x, y], "B"), False)


def uf1(fn, sort="R"):
    def f(ip, a, k):
        return broadcast(ip, lambda t: fn(alg.to_real(t)), [a[0]], sort)
    return f


def rounder(up):
    def f(ip, a, k):
        v = asarr(ip, a[0])
        if isinstance(v, Arr):
            raise Unsupported("rounding an array")
        r = round_to(ip, rterm(v), up)
        return Fraction(r) if isinstance(r, int) else Sym(z3.ToReal(r), True)
    return f


def sinc(t):
    y = alg.PI * z3.If(t == 0, z3.RealVal(0), t)
    return z3.If(t == 0, z3.RealVal(1), alg.SIN(y) / y)


def np_bin(op):
    return B("np." + op, lambda ip, a, k: _np_bin(ip, op, a))


def _np_bin(ip, op, a):
    x, y = asarr(ip, a[0]), asarr(ip, a[1])
    if isinstance(x, Arr) or isinstance(y, Arr):
        return arr_binop(ip, op, x, y)
    if op == "Div":
        return mknp(rterm(x) / rterm(y))
    return ip.binop(op, x, y)


def shape_arg(ip, s):
    if isinstance(s, (tuple, PyList)):
        items = list(s) if isinstance(s, tuple) else ip.to_seq(s).concrete()
        return tuple(dim(iterm(x)) for x in items)
    return (dim(iterm(s)),)


def np_full(v):
    def f(ip, a, k):
        t = term(v) if v is not None else term(a[1])
        return fresh_arr(lambda *i: t, shape_arg(ip, a[0]))
    return f


def np_like(v):
    def f(ip, a, k):
        x = asarr(ip, a[0])
        t = rterm(v if v is not None else a[1])
        if not isinstance(x, Arr):
            return mk(t)
        return fresh_arr(lambda *i: t, x.shape)
    return f


def np_arange(ip, a, k):
    from .lib_py import b_range
    if all(isinstance(x, (int, Sym)) and not (isinstance(x, Sym) and x.ty == "float") for x in a):
        seq = b_range(ip, a, {}).d["seq"]
        n = seq.n
        if isinstance(seq, CSeq):
            ts = [term(x) for x in seq.items]
            return fresh_arr(lambda i: pick(ts, i) if ts else z3.IntVal(0), (n,), "I")
        return fresh_arr(lambda i: term(seq.elem(i)), (n,), "I")
    raise Unsupported("arange")


def np_cumsum(ip, a, k):
    v = asarr(ip, a[0])
    if isinstance(v, Arr) and len(v.shape) == 1:
        rd = v.reader(ip)
        if isinstance(v.shape[0], int):
            ts = []
            acc = None
            for i in range(v.shape[0]):
                acc = rd(z3.IntVal(i)) if acc is None else z3.simplify(acc + rd(z3.IntVal(i)))
                ts.append(acc)
            return fresh_arr(lambda i: pick(ts, i), (len(ts),), v.sort)
        return fresh_arr(lambda i: PREF(v.sort, rd, zi(i) + 1), v.shape, v.sort)
    raise Unsupported("cumsum")


def PREF(sort, rd, n):
    if sort == "I":
        return ISUM(n, lambda i: rd(i))
    return alg.mk_sum(n, rd)


def np_split(ip, a, k):
    v = asarr(ip, a[0])
    pts = a[1]
    ax = a[2] if len(a) > 2 else k.get("axis", 0)
    if ax != 0:
        raise Unsupported("split along another axis")
    if isinstance(pts, int):
        raise Unsupported("split into sections")
    n = v.shape[0]
    seq = ip.to_seq(pts)
    m = seq.n
    last = z3.simplify(zi(m))
    if isinstance(m, int):
        bounds = [z3.IntVal(0)] + [iterm(to_i(ip, seq.elem(i))) for i in range(m)] + [zi(n)]
        out = []
        for i in range(m + 1):
            out.append(getitem(ip, v, SliceV(mk(bounds[i]), mk(bounds[i + 1]), None)))
        return PyList(out)

    def ite(c, x, y):
        c = z3.simplify(c)
        if z3.is_true(c) or (not z3.is_false(c) and ip.ctx.valid(c)):
            return x()
        if z3.is_false(c) or ip.ctx.valid(z3.Not(c)):
            return y()
        return z3.If(c, x(), y())

    def el(i):
        l = ite(i == 0, lambda: z3.IntVal(0), lambda: iterm(to_i(ip, seq.elem(z3.simplify(i - 1)))))
        h = ite(i >= last, lambda: zi(n), lambda: iterm(to_i(ip, seq.elem(i))))
        # prefix sums are assumed to be monotone and within the array: checked by the caller's contract
        ip.lib_state.setdefault("split", []).append((l, h, zi(n)))
        return Arr(v.buf, (dim(h - l),) + v.shape[1:],
                   [b if b[0] == "fix" or b[1] != 0 else ("var", 0, dim(zi(b[2]) + l * zi(b[3])), b[3]) for b in v.axes], v.sort)
    return PyList(SymSeq(z3.simplify(last + 1), el))


def np_append(ip, a, k):
    axis = a[2] if len(a) > 2 else k.get("axis")
    x, y = asarr(ip, a[0]), asarr(ip, a[1])
    if axis is None:
        x = reshape(ip, x, -1)
        y = reshape(ip, y, -1)
        axis = 0
    return concat(ip, [x, y], axis)


def np_where(ip, a, k):
    if len(a) != 3:
        raise Unsupported("np.where with one argument")
    return broadcast(ip, lambda c, x, y: z3.If(c, alg.to_real(x), alg.to_real(y)), a)


def np_array(ip, a, k):
    v = asarr(ip, a[0])
    if is_num(v):
        t = term(v)
        return fresh_arr(lambda: t, (), "R" if t.sort() == alg.R else "I")
    return copy(ip, v)


def np_asarray(ip, a, k):
    if hasattr(a[0], "np_array"):
        return a[0].np_array(ip)
    v = asarr(ip, a[0])
    if is_num(v):
        t = term(v)
        return fresh_arr(lambda: t, (), "R" if t.sort() == alg.R else "I")
    return v


def np_atleast(n):
    def f(ip, a, k):
        v = asarr(ip, a[0])
        if is_num(v):
            v = np_asarray(ip, [v], {})
        while len(v.shape) < n:
            v = reshape(ip, v, *((1,) + tuple(mk(zi(d)) for d in v.shape)))
        return v
    return f


def np_expand(ip, a, k):
    v = asarr(ip, a[0])
    ax = a[1] if len(a) > 1 else k["axis"]
    ax = ax if ax >= 0 else ax + len(v.shape) + 1
    return getitem(ip, v, tuple([SliceV(None, None, None)] * ax + [None]))


def np_split_n(ip, a, k):
    raise Unsupported("array_split")


def seqarg(ip, v):
    if isinstance(v, (PyIter, GenObj)):
        v = PyList(ip.to_seq(v))
    items = ip.to_seq(v).concrete()
    if items is None:
        return None
    return items


def np_concat(ip, a, k):
    axis = a[1] if len(a) > 1 else k.get("axis", 0)
    items = seqarg(ip, a[0])
    if items is None:
        raise Unsupported("concatenate of a symbolic sequence")
    return concat(ip, items, axis)


def np_stack(ip, a, k):
    axis = a[1] if len(a) > 1 else k.get("axis", 0)
    items = seqarg(ip, a[0])
    if items is None:
        if axis != 0:
            raise Unsupported("stack of a symbolic sequence")
        return asarr(ip, a[0])
    return stack(ip, [asarr(ip, x) for x in items], axis)


def np_vstack(ip, a, k):
    items = seqarg(ip, a[0])
    if items is None:
        v = asarr(ip, a[0])
        if len(v.shape) == 2:
            return v
        raise Unsupported("vstack of a symbolic sequence")
    return concat(ip, [np_atleast(2)(ip, [x], {}) for x in items], 0)


def np_hstack(ip, a, k):
    items = seqarg(ip, a[0])
    if items is None:
        raise Unsupported("hstack of a symbolic sequence")
    items = [np_atleast(1)(ip, [x], {}) for x in items]
    return concat(ip, items, 0 if len(items[0].shape) == 1 else 1)


class DType(object):
    def __init__(self, name):
        self.name = name
        self.pytype = None

    def do_call(self, ip, args, kw):
        v = args[0]
        if self.name.startswith("float"):
            return ip.call(ip.builtins["float"], [v], {}) if not isinstance(v, Arr) else v
        return ip.call(ip.builtins["int"], [v], {}) if not isinstance(v, Arr) else v

    def getattr(self, ip, name):
        if name == "__name__":
            return self.name
        return MISSING

    def same_as(self, ip, o):
        return isinstance(o, DType) and o.name == self.name

    def holds(self, v):
        """isinstance(v, this scalar type); scalars of arrays are float64, int64 and bool_"""
        if isinstance(v, Sym) and v.np:
            return self.name in {"float": ("float64", "floating"), "int": ("int64", "int_", "integer"), "bool": ("bool_",)}[v.ty]
        return False


def red_fn(kind):
    def f(ip, a, k):
        axis = a[1] if len(a) > 1 else k.get("axis")
        v = a[0]
        return reduce_(ip, kind, v, axis, k.get("keepdims", False), k.get("ddof", 0))
    return f


def np_round(ip, a, k):
    raise Unsupported("rounding")


def install(ip):
    ns = {}

    def add(**kw):
        for n, f in kw.items():
            ns[n] = B("np." + n, f) if callable(f) and not isinstance(f, (Builtin, LibType)) else f
    ndarray = LibType("ndarray", lambda v: isinstance(v, Arr))
    add(array=np_array, asarray=np_asarray, atleast_1d=np_atleast(1), atleast_2d=np_atleast(2), copy=lambda ip, a, k: copy(ip, asarr(ip, a[0])),
        zeros=np_full(0), ones=np_full(1), full=np_full(None), zeros_like=np_like(0), ones_like=np_like(1), full_like=np_like(None),
        reshape=lambda ip, a, k: reshape(ip, a[0], a[1] if len(a) > 1 else k.get("newshape", k.get("shape"))),
        ravel=lambda ip, a, k: reshape(ip, a[0], -1),
        squeeze=lambda ip, a, k: squeeze(ip, a[0], a[1] if len(a) > 1 else k.get("axis")),
        transpose=lambda ip, a, k: transpose(ip, asarr(ip, a[0]), a[1] if len(a) > 1 else k.get("axes")),
        expand_dims=np_expand, concatenate=np_concat, append=np_append, stack=np_stack, vstack=np_vstack, hstack=np_hstack,
        row_stack=np_vstack, split=np_split, cumsum=np_cumsum, arange=np_arange, where=np_where,
        sum=red_fn("sum"), mean=red_fn("mean"), average=red_fn("mean"), std=red_fn("std"), var=red_fn("var"), prod=red_fn("prod"),
        min=red_fn("min"), max=red_fn("max"), amin=red_fn("min"), amax=red_fn("max"), product=red_fn("prod"),
        argmin=lambda ip, a, k: argext(ip, a[0], "min", a[1] if len(a) > 1 else k.get("axis")),
        argmax=lambda ip, a, k: argext(ip, a[0], "max", a[1] if len(a) > 1 else k.get("axis")),
        argsort=argsort,
        exp=uf1(alg.EXP), log=uf1(alg.LOG), sin=uf1(alg.SIN), cos=uf1(alg.COS), sqrt=uf1(exact_sqrt), ceil=rounder(True), floor=rounder(False), sinc=uf1(sinc),
        square=uf1(lambda t: t * t), abs=uf1(lambda t: z3.If(t >= 0, t, -t)), absolute=uf1(lambda t: z3.If(t >= 0, t, -t)),
        fabs=uf1(lambda t: z3.If(t >= 0, t, -t)), negative=uf1(lambda t: -t),
        sign=uf1(lambda t: z3.If(t > 0, z3.RealVal(1), z3.If(t < 0, z3.RealVal(-1), z3.RealVal(0)))),
        add=np_bin("Add"), subtract=np_bin("Sub"), multiply=np_bin("Mult"), divide=np_bin("Div"), true_divide=np_bin("Div"),
        dot=lambda ip, a, k: matmul(ip, a[0], a[1]), matmul=lambda ip, a, k: matmul(ip, a[0], a[1]),
        power=np_bin("Pow"), any=lambda ip, a, k: quant(ip, a[0], True), all=lambda ip, a, k: quant(ip, a[0], False), array_equal=array_equal,
        maximum=lambda ip, a, k: broadcast(ip, lambda x, y: z3.If(alg.to_real(x) >= alg.to_real(y), alg.to_real(x), alg.to_real(y)), a),
        minimum=lambda ip, a, k: broadcast(ip, lambda x, y: z3.If(alg.to_real(x) <= alg.to_real(y), alg.to_real(x), alg.to_real(y)), a),
        shape=lambda ip, a, k: shape_value(asarr(ip, a[0])) if isinstance(asarr(ip, a[0]), Arr) else (),
        ndim=lambda ip, a, k: len(asarr(ip, a[0]).shape) if isinstance(asarr(ip, a[0]), Arr) else 0,
        size=lambda ip, a, k: mk(zi(asarr(ip, a[0]).size())),
        ndarray=ndarray, newaxis=None, inf=float("inf"), nan=float("nan"), pi=Sym(alg.PI))
    ns["e"] = Sym(alg.EXP(z3.RealVal(1)))
    for n in ("float32", "float64", "float16", "int32", "int64", "int_", "intp", "bool_", "uint32", "double"):
        ns[n] = DType(n)
    ns["integer"] = LibType("np.integer", lambda v: isinstance(v, Sym) and v.ty == "int" and v.np)
    ns["floating"] = LibType("np.floating", lambda v: isinstance(v, Sym) and v.ty == "float" and v.np)
    ns["number"] = LibType("np.number", lambda v: isinstance(v, Sym) and v.np)
    m = Module("numpy", ns)
    rnd = Module("numpy.random")
    glob = Rng.__new__(Rng)
    HObj.__init__(glob)
    glob.glob, glob.birth = True, 0
    glob.d = {"seed": z3.Int("global_seed"), "pos": Sym(z3.Int("global_pos"))}
    ip.global_rng = glob
    for n, f in RNG_METHODS.items():
        rnd.d[n] = Builtin("np.random." + n, lambda ip, a, k, f=f: f(ip, [glob] + list(a), k))
    mkrng = lambda ip, a, k: Rng(ip, a[0] if a else k.get("seed"))
    rnd.d["RandomState"] = LibType("RandomState", lambda v: isinstance(v, Rng), mkrng)
    rnd.d["default_rng"] = B("default_rng", mkrng)
    rnd.d["get_state"] = B("get_state", lambda ip, a, k: (_ for _ in ()).throw(Unsupported("get_state")))
    ns["random"] = rnd
    ip.libs["numpy"] = m
    ip.libs["numpy.random"] = rnd
