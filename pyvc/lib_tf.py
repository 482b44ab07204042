"""Contracts of the TensorFlow 1.x functions the verified code may use.

Calling one builds a graph node, as in TensorFlow.  What a node computes, and in which order the runtime may
execute it, is decided afterwards by Graph:

* a value is a function of an index (row-major flat index where the shape is unknown);
* variables, and identities/reshapes/assignments of variables, are references: an operation that consumes one
  sees the buffer at the time it runs;
* an operation runs after the operations it takes inputs from and after its control dependencies; nothing else
  is ordered.
"""
from fractions import Fraction
import z3
from . import alg
from .core import Unsupported, PyExc
from .values import *
from .interp import SliceV
from .lib_py import B, isinst
from . import lib_np as N

R, I = alg.R, alg.I
NUMEL = "numel"


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


dim = N.dim


# ------------------------------------------------------------------ shapes
def note_product(ip, f, args, rank, numel):
    """the product of f(args, 0..rank-1) is numel"""
    reg = ip.lib_state.setdefault("products", [])
    ip.ctx.assume(z3.Implies(rank == 0, numel == 1))
    if not any(g.eq(f) and all(x.eq(y) for x, y in zip(args, b)) for g, b, r, n in reg):
        reg.append((f, tuple(args), rank, numel))


class TShape(object):
    """dims: tuple of int / z3 Int (known rank), or None with `key`+`numel` (any shape) or all None (unknown)"""

    def __init__(self, dims=None, numel=None, key=None):
        self.dims = None if dims is None else tuple(dim(d) for d in dims)
        self.n = numel
        self.key = key

    def __repr__(self):
        return "TShape(%s)" % (self.dims if self.dims is not None else self.key,)

    def subst(self, s):
        if self.dims is not None:
            nd = tuple(dim(s.t(zi(d))) for d in self.dims)
            return self if nd == self.dims or all(zi(a).eq(zi(b)) for a, b in zip(nd, self.dims)) else TShape(nd)
        if self.key is None:
            return self
        nk = (self.key[0],) + tuple(s.t(i) for i in self.key[1:])
        if all(a.eq(b) for a, b in zip(nk[1:], self.key[1:])):
            return self
        return TShape(None, s.t(self.n), nk)

    def numel(self):
        if self.dims is not None:
            t = z3.IntVal(1)
            for d in self.dims:
                t = t * zi(d)
            return z3.simplify(t)
        if self.key is None:
            raise Unsupported("size of a tensor of unknown shape")
        return self.n

    def rank(self):
        return len(self.dims) if self.dims is not None else None

    def same_as(self, ip, o):
        if isinstance(o, (tuple, PyList)):
            o = to_shape(ip, o)
        if not isinstance(o, TShape):
            return False
        r = shape_eq(ip, self, o)
        if r is None:
            raise Unsupported("comparison of shapes")
        return r

    # ---- protocol
    def need_dims(self):
        if self.dims is None:
            raise Unsupported("dimensions of a tensor of arbitrary shape")
        return self.dims

    def as_seq(self, ip):
        if self.dims is None and self.key is not None:
            rk = alg.uf("rank", *([I] * (len(self.key) - 1) + [I]))(*self.key[1:]) if len(self.key) > 1 else z3.Int("rank_%s" % self.key[0])
            ip.ctx.assume(rk >= 0)
            f = alg.uf("dim_%s" % self.key[0], *([I] * len(self.key) + [I]))
            note_product(ip, f, self.key[1:], rk, self.n)
            return SymSeq(rk, lambda t: Sym(f(*(tuple(self.key[1:]) + (t,)))))
        return CSeq([mk(zi(d)) for d in self.need_dims()])

    def length(self, ip):
        s = self.as_seq(ip)
        return s.n if isinstance(s.n, int) else mk(s.n)

    def getitem(self, ip, i):
        d = self.need_dims()
        if isinstance(i, SliceV):
            return TShape([zi_(x) for x in ip.slice_seq(CSeq([mk(zi(x)) for x in d]), i).concrete()])
        if not isinstance(i, int):
            raise Unsupported("symbolic index into a shape")
        try:
            return mk(zi(d[i]))
        except IndexError:
            raise PyExc(IndexError, ())

    def truth(self, ip):
        return self.dims is None or True

    def getattr(self, ip, name):
        if name == "as_list":
            return B("as_list", lambda ip, a, k: PyList(self.as_seq(ip)))
        if name == "num_elements":
            return B("num_elements", lambda ip, a, k: mk(self.numel()))
        if name in ("ndims", "rank"):
            return self.length(ip)
        if name == "dims":
            return PyList(self.as_seq(ip))
        if name == "is_fully_defined":
            return B(name, lambda ip, a, k: self.dims is not None or self.key is not None)
        if name in ("is_compatible_with",):
            raise Unsupported("TensorShape.%s" % name)
        return MISSING

    def np_array(self, ip):
        return self

    def np_prod(self, ip):
        return mk(self.numel())

    def isinst(self, ip, T):
        if isinstance(T, LibType):
            return T.name == "TensorShape"
        return NotImplemented


def zi_(v):
    return v if isinstance(v, int) else v.t


def shape_eq(ip, a, b):
    """True / False / None (unknown)"""
    if a.dims is not None and b.dims is not None:
        if len(a.dims) != len(b.dims):
            return False
        unk = False
        for x, y in zip(a.dims, b.dims):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    return False
            elif not zi(x).eq(zi(y)) and not ip.ctx.valid(zi(x) == zi(y)):
                unk = True
        return None if unk else True
    if a.dims is None and b.dims is None and a.key is not None and b.key is not None:
        if a.key[0] == b.key[0] and len(a.key) == len(b.key) and all(x.eq(y) or ip.ctx.valid(x == y) for x, y in zip(a.key[1:], b.key[1:])):
            return True
    return None


def to_shape(ip, v):
    if isinstance(v, TShape):
        return v
    if isinstance(v, TNode) and v.op == "shapevec":
        return v.attrs["shape"]
    if v is None:
        return TShape()
    if is_num(v):
        return TShape([zi_(v)])
    items = ip.to_seq(v).concrete()
    if items is None:
        raise Unsupported("shape of symbolic rank")
    out = []
    for x in items:
        if isinstance(x, TNode) and x.op == "const" and is_num(x.attrs["v"]):
            x = x.attrs["v"]
        if x is None:
            x = -2
        if not is_num(x):
            raise Unsupported("dimension %r" % (x,))
        if isinstance(x, Fraction):
            if x.denominator != 1:
                raise PyExc(TypeError, ("dimension",))
            x = int(x)
        out.append(zi_(x))
    return TShape(out)


def flat(shape, idx):
    if shape.dims is None:
        return idx[0]
    t = z3.IntVal(0)
    for d, i in zip(shape.dims, idx):
        t = t * zi(d) + i
    t = z3.simplify(t)
    FLAT[(t.get_id(), dims_key(shape))] = (tuple(idx), t)
    return t


FLAT = {}


def dims_key(shape):
    return tuple(d if isinstance(d, int) else ("t", d.get_id()) for d in shape.dims)


def unflat(shape, t):
    if shape.dims is None:
        return (t,)
    t = z3.simplify(zi(t))
    hit = FLAT.get((t.get_id(), dims_key(shape)))
    if hit:
        return hit[0]
    ds = shape.dims
    if not ds:
        return ()
    big = [i for i, d in enumerate(ds) if not (isinstance(d, int) and d == 1)]
    out = [z3.IntVal(0)] * len(ds)
    if not big:
        return tuple(out)
    for i in reversed(big[1:]):
        out[i] = t % zi(ds[i])
        t = t / zi(ds[i])
    out[big[0]] = t
    return tuple(out)


# ------------------------------------------------------------------ nodes
class Fam(object):
    """input edges from all members of a family of nodes: fn(t), 0 <= t < n"""

    def __init__(self, n, fn, uid=None, idx=()):
        self.n, self.fn = zi(n), fn
        self.uid = uid or new_uid()
        self.idx = tuple(idx)

    def subst(self, s):
        return Fam(s.t(self.n), lambda t: s(self.fn(t)), self.uid, tuple(s.t(i) for i in self.idx))


class TNode(object):
    def __init__(self, op, ins=(), attrs=None, shape=None, dtype=None, uid=None, idx=(), ctrl=(), name=None):
        self.op, self.ins, self.attrs = op, tuple(ins), attrs or {}
        self.shape, self.dtype, self.name = shape, dtype, name
        self.uid = uid or new_uid()
        self.idx = tuple(idx)
        self.ctrl = tuple(ctrl)

    def __repr__(self):
        return "<tensor %s%s %s>" % (self.op, list(self.idx) if self.idx else "", self.shape)

    def clone(self, **kw):
        d = dict(op=self.op, ins=self.ins, attrs=self.attrs, shape=self.shape, dtype=self.dtype, uid=self.uid, idx=self.idx,
                 ctrl=self.ctrl, name=self.name)
        d.update(kw)
        return type(self)(**d)

    def subst(self, s):
        idx = tuple(s.t(i) for i in self.idx)
        if self.idx and all(a.eq(b) for a, b in zip(idx, self.idx)):
            # all symbolic parts of a node created in a loop are determined by its indices and free loop state
            pass
        ins = tuple(s(x) for x in self.ins)
        attrs = {k: s(v) for k, v in self.attrs.items()}
        ctrl = tuple(s(x) for x in self.ctrl)
        shape = s(self.shape) if self.shape is not None else None
        if all(a is b for a, b in zip(ins, self.ins)) and all(attrs[k] is self.attrs[k] for k in attrs) and shape is self.shape \
                and all(a is b for a, b in zip(ctrl, self.ctrl)) and all(a.eq(b) for a, b in zip(idx, self.idx)):
            return self
        return self.clone(ins=ins, attrs=attrs, ctrl=ctrl, shape=shape, idx=idx, name=s(self.name) if self.name is not None else None)

    def same_as(self, ip, o):
        if not isinstance(o, TNode) or o.uid != self.uid:
            return False
        cs = [z3.simplify(a == b) for a, b in zip(self.idx, o.idx)]
        if all(z3.is_true(c) for c in cs):
            return True
        if any(z3.is_false(c) for c in cs):
            return False
        return z3.And(*cs)

    # ---- protocol
    def isinst(self, ip, T):
        if isinstance(T, LibType):
            if T.name == "Tensor":
                return not isinstance(self, TVar)
            if T.name == "Variable":
                return isinstance(self, TVar)
            return T.name == "object"
        return False

    def truth(self, ip):
        raise PyExc(TypeError, ("Using a `tf.Tensor` as a Python `bool` is not allowed.",))

    def binop(self, ip, op, o, rev):
        if isinstance(o, (PyList, tuple)) and op == "Add" and not is_arraylike(o):
            raise PyExc(TypeError, ("tensor and list",))
        if not (isinstance(o, TNode) or is_num(o) or isinstance(o, N.Arr) or is_arraylike(o)):
            if o is None or isinstance(o, str):
                raise PyExc((ValueError if o is None else TypeError), ("tensor and %r" % (o,),))
            return NotImplemented
        a, b = (self, o)
        if rev:
            a, b = b, a
        return ew(ip, {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "Pow": "pow", "MatMult": "matmul",
                       "FloorDiv": "floordiv", "Mod": "mod"}.get(op) or bad("operator " + op), a, b)

    def unop(self, ip, op):
        if op == "USub":
            return ew(ip, "neg", self)
        if op == "UAdd":
            return self
        raise Unsupported("unary %s on a tensor" % op)

    def cmp(self, ip, op, o, rev):
        names = {"Lt": "less", "LtE": "less_equal", "Gt": "greater", "GtE": "greater_equal"}
        if op in names:
            return ew(ip, names[op], *((o, self) if rev else (self, o)))
        return NotImplemented

    def getitem(self, ip, i):
        return t_index(ip, self, i)

    def as_seq(self, ip):
        if self.shape is None or self.shape.dims is None:
            raise Unsupported("iterating over a tensor of arbitrary shape")
        if not self.shape.dims:
            raise PyExc(TypeError, ("iteration over a scalar tensor",))
        n = self.shape.dims[0]
        if isinstance(n, int):
            return CSeq([t_index(ip, self, j) for j in range(n)])
        return SymSeq(n, lambda t: t_index(ip, self, Sym(t) if isinstance(t, z3.ExprRef) else t))

    def length(self, ip):
        raise PyExc(TypeError, ("len of a tensor",))

    def carry(self, ip):
        c = alg.fresh("tcarry", R)
        if self.shape is None or self.shape.dims != ():
            raise Unsupported("loop-carried tensor that is not a scalar")
        return TCarry("carry", (), {"c": Sym(c)}, TShape(()), self.dtype, idx=(c,)), [c]

    def getattr(self, ip, name):
        if name == "shape":
            return self.shape if self.shape is not None else TShape()
        if name == "get_shape":
            return B("get_shape", lambda ip, a, k: self.shape)
        if name == "set_shape":
            raise Unsupported("set_shape")
        if name == "dtype":
            return self.dtype if self.dtype is not None else Opaque("dtype", types=("DType",))
        if name == "name":
            return self.name if self.name is not None else AbsStr()
        if name in ("op", "graph"):
            return Opaque(name, attrs={"name": AbsStr(), "inputs": AbsStr()})
        if name == "initializer" and self.op == "assign":
            return MISSING
        if name == "eval":
            raise Unsupported("Tensor.eval")
        return self.more(ip, name)

    def more(self, ip, name):
        if name in ("values", "indices") and self.op == "topk":
            return TNode("topk_" + name, [self], {}, self.shape, self.dtype)
        return MISSING


class TCarry(TNode):
    """value of a scalar accumulated in a loop at the head of an iteration"""

    def carry(self, ip):
        raise Unsupported("nested accumulation of tensors")

    def close_carry(self, ip, end, k, at, v0):
        if end is self:
            return lambda t: v0
        if not isinstance(end, TNode) or end.shape is None or end.shape.dims != ():
            raise Unsupported("loop-carried tensor")
        c = self.attrs["c"].t
        v = Graph(ip, [], pure=True).val(end, ())
        inc = z3.substitute(v, (c, z3.RealVal(0)))
        if not ip.ctx.eq_quick(v, c + inc):
            raise Unsupported("loop-carried tensor is not a sum")
        zero = Subst([(c, z3.RealVal(0))])(end)
        uid = new_uid()
        idx0 = tuple(ip.idx_stack)
        return lambda t: TNode("loopsum", [v0, Fam(t, lambda i: at(zero, i), idx=idx0)], {"n": Sym(zi(t)) if isinstance(t, z3.ExprRef) else t},
                               TShape(()), end.dtype, uid=uid, idx=idx0)


class TVar(TNode):
    def more(self, ip, name):
        init = self.attrs.get("init")
        if name == "initialized_value":
            return B(name, lambda ip, a, k: node(ip, "initval", [self, init], {}, self.shape, self.dtype))
        if name == "initial_value":
            return init
        if name == "initializer":
            return node(ip, "init", [], {"vars": PyList([self])}, TShape(()), None)
        if name == "read_value":
            return B(name, lambda ip, a, k: identity(ip, self))
        if name == "value":
            return B(name, lambda ip, a, k: identity(ip, self))
        if name in ("assign", "assign_add", "assign_sub"):
            return B(name, lambda ip, a, k: assign_fn(name)(ip, [self] + list(a), k))
        if name == "trainable":
            return self.attrs.get("trainable", True)
        return MISSING

    def getattr(self, ip, name):
        if name == "initializer":
            return self.more(ip, name)
        return TNode.getattr(self, ip, name)


def bad(what):
    raise Unsupported(what)


def is_arraylike(o):
    return isinstance(o, (PyList, tuple))


def node(ip, op, ins, attrs, shape, dtype, name=None):
    st = ip.lib_state.setdefault("tf_ctrl", [])
    ctrl = [c for cs in st for c in cs]
    return TNode(op, ins, attrs, shape, dtype, idx=tuple(ip.idx_stack), ctrl=ctrl, name=name)


def const(ip, v, dtype=None, shape=None):
    if isinstance(v, Dyn):
        v = v.resolve(ip)
    if isinstance(v, bool):
        v = int(v)
    if is_num(v):
        return TNode("const", [], {"v": v}, shape or TShape(()), dtype, idx=tuple(ip.idx_stack))
    if isinstance(v, N.Arr):
        return TNode("const", [], {"v": v}, TShape(v.shape), dtype, idx=tuple(ip.idx_stack))
    if isinstance(v, TShape):
        return TNode("shapevec", [], {"shape": v}, TShape((len(v.dims),)) if v.dims is not None else TShape(), dtype, idx=tuple(ip.idx_stack))
    if isinstance(v, (PyList, tuple)):
        items = ip.to_seq(v).concrete()
        if items is not None and all(is_num(x) for x in items):
            return const(ip, N.np_asarray(ip, [v], {}), dtype)
        if items is not None and all(isinstance(x, (PyList, tuple)) for x in items):
            return const(ip, N.np_asarray(ip, [v], {}), dtype)
    raise Unsupported("constant %r" % (v,))


def tensor(ip, v, dtype=None):
    """tf.convert_to_tensor"""
    if isinstance(v, Dyn):
        v = v.resolve(ip)
    if isinstance(v, TNode):
        return v
    if isinstance(v, (PyList, tuple)):
        seq = ip.to_seq(v)
        items = seq.concrete()
        if items is None or any(isinstance(x, TNode) for x in items):
            return t_stack(ip, [v], {})
    if v is None or isinstance(v, (str, PyDict)):
        raise PyExc(ValueError if v is None else TypeError, ("cannot convert to a tensor",))
    return const(ip, v, dtype)


def broadcast(ip, a, b):
    """(shape, index map for a, index map for b)"""
    def bc(sh, out):
        """map an index of `out` to an index of `sh`"""
        if sh.dims == ():
            return ("scalar",)
        if sh.dims is None or out.dims is None:
            return ("same",)
        off = len(out.dims) - len(sh.dims)
        ones = tuple(isinstance(d, int) and d == 1 and not (isinstance(out.dims[i + off], int) and out.dims[i + off] == 1)
                     for i, d in enumerate(sh.dims))
        return ("bc", off, ones)
    if a.dims == () or b.dims == ():
        out = b if a.dims == () else a
        return out, bc(a, out), bc(b, out)
    if a.dims is None or b.dims is None:
        if a.dims is None and b.dims is None and a.key is None and b.key is None:
            return TShape(), ("same",), ("same",)
        if shape_eq(ip, a, b) is True:
            return a, ("same",), ("same",)
        if a.dims is None and a.key is None:
            # elementwise with a tensor of unknown shape: assumed to have the other one's shape
            ip.ctx.note("a placeholder of unknown shape is fed a value of the shape it is combined with")
            return b, ("same",), ("same",)
        if b.dims is None and b.key is None:
            ip.ctx.note("a placeholder of unknown shape is fed a value of the shape it is combined with")
            return a, ("same",), ("same",)
        raise Unsupported("broadcasting tensors of arbitrary shape")
    n = max(len(a.dims), len(b.dims))
    da = (1,) * (n - len(a.dims)) + a.dims
    db = (1,) * (n - len(b.dims)) + b.dims
    out = []
    for x, y in zip(da, db):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        elif isinstance(x, int) and isinstance(y, int):
            if x != y:
                raise PyExc(ValueError, ("Dimensions must be equal",))
            out.append(x)
        elif zi(x).eq(zi(y)) or ip.ctx.valid(zi(x) == zi(y)):
            out.append(x)
        else:
            raise Unsupported("broadcasting %s with %s" % (a, b))
    o = TShape(out)
    return o, bc(a, o), bc(b, o)


def bidx(m, idx):
    if m[0] == "scalar":
        return ()
    if m[0] == "same":
        return idx
    _, off, ones = m
    return tuple(z3.IntVal(0) if one else idx[i + off] for i, one in enumerate(ones))


def merge_dtype(ip, a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is not b and ip.same(a, b) is not True:
        raise Unsupported("operands of different types %r and %r" % (a, b))
    return a


def ew(ip, op, *xs, **kw):
    """elementwise operation"""
    name = kw.get("name")
    if op == "matmul":
        return t_matmul(ip, list(xs), {})
    ts = [x for x in xs if isinstance(x, TNode)]
    dt = None
    for t in ts:
        if not (t.op == "const" and t.dtype is None):
            dt = merge_dtype(ip, dt, t.dtype)
    ts = [tensor(ip, x, dt) for x in xs]
    if len(ts) == 1:
        return node(ip, op, ts, {"maps": (("same",),)}, ts[0].shape, dt, name)
    if len(ts) == 2:
        sh, m1, m2 = broadcast(ip, ts[0].shape or TShape(), ts[1].shape or TShape())
        return node(ip, op, ts, {"maps": (m1, m2)}, sh, dt, name)
    raise Unsupported("elementwise %s" % op)


def identity(ip, t, extra_ctrl=(), name=None):
    r = node(ip, "identity", [t], {}, t.shape, t.dtype, name)
    r.ctrl = r.ctrl + tuple(extra_ctrl)
    return r


def argd(a, k, i, name, default=None):
    if len(a) > i:
        return a[i]
    return k.get(name, default)


def t_index(ip, t, i):
    if t.shape is None or t.shape.dims is None:
        if t.shape is not None and t.shape.key is not None:
            raise Unsupported("indexing a tensor of arbitrary shape")
        raise Unsupported("indexing a tensor of unknown shape")
    ix = list(i) if isinstance(i, tuple) else [i]
    dims, maps, j = [], [], 0
    n_real = sum(1 for x in ix if x is not None and x is not Ellipsis)
    for x in ix:
        if x is Ellipsis:
            for _ in range(len(t.shape.dims) - n_real):
                maps.append(("var", len(dims), 0, 1))
                dims.append(t.shape.dims[j])
                j += 1
            continue
        if x is None:
            dims.append(1)
            continue
        if j >= len(t.shape.dims):
            raise PyExc(ValueError, ("Index out of range using input dim",))
        d = t.shape.dims[j]
        if isinstance(x, SliceV):
            if x.a is None and x.b is None and x.c is None:
                maps.append(("var", len(dims), 0, 1))
                dims.append(d)
            else:
                if x.c not in (None, 1) or isinstance(x.a, TNode) or isinstance(x.b, TNode):
                    raise Unsupported("strided slice of a tensor")
                q = ip.slice_seq(SymSeq(d, lambda t: Sym(t)), x)
                first = ip.seq_elem(q, 0) if not isinstance(q.n, int) or q.n > 0 else 0
                maps.append(("var", len(dims), zi_(first), 1))
                dims.append(q.n)
        elif is_num(x):
            jx = ip.norm_index(x, d)
            maps.append(("fix", zi(jx) if not isinstance(jx, Sym) else jx.t))
        else:
            raise Unsupported("tensor index %r" % (x,))
        j += 1
    while j < len(t.shape.dims):
        maps.append(("var", len(dims), 0, 1))
        dims.append(t.shape.dims[j])
        j += 1
    return node(ip, "slice", [t], {"m": tuple((m[0], Sym(m[1]) if m[0] == "fix" else m[1]) + ((Sym(zi(m[2])),) if m[0] == "var" else ())
                                              for m in maps)}, TShape(dims), t.dtype)


# ------------------------------------------------------------------ functions
def f_reshape(ip, a, k):
    t = tensor(ip, argd(a, k, 0, "tensor"))
    sh = to_shape(ip, argd(a, k, 1, "shape"))
    if sh.dims is not None and any(isinstance(d, int) and d == -1 for d in sh.dims):
        rest = [d for d in sh.dims if not (isinstance(d, int) and d == -1)]
        n = t.shape.numel()
        m = z3.IntVal(1)
        for d in rest:
            m = m * zi(d)
        m = z3.simplify(m)
        if z3.is_int_value(m) and m.as_long() == 1:
            q = n
        elif n.eq(m) or ip.ctx.valid(n == m):
            q = 1
        else:
            if not ip.ctx.valid(n % m == 0):
                raise Unsupported("reshape to an inferred dimension")
            q = n / m
        sh = TShape([q if isinstance(d, int) and d == -1 else d for d in sh.dims])
    elif t.shape is not None and (t.shape.dims is not None or t.shape.key is not None):
        n, m = t.shape.numel(), sh.numel()
        if not n.eq(m) and not ip.ctx.valid(n == m):
            if ip.ctx.valid(n != m):
                raise PyExc(ValueError, ("Cannot reshape a tensor with %s elements to %s" % (n, sh),))
            raise Unsupported("reshape of %s elements to %s" % (n, m))
    return node(ip, "reshape", [t], {}, sh, t.dtype, k.get("name"))


def f_expand(ip, a, k):
    t = tensor(ip, argd(a, k, 0, "input"))
    ax = argd(a, k, 1, "axis", k.get("dim"))
    ds = list(t.shape.need_dims())
    ax = ax if ax >= 0 else ax + len(ds) + 1
    ds.insert(ax, 1)
    return node(ip, "reshape", [t], {}, TShape(ds), t.dtype, k.get("name"))


def f_squeeze(ip, a, k):
    t = tensor(ip, argd(a, k, 0, "input"))
    ax = argd(a, k, 1, "axis", k.get("squeeze_dims"))
    ds = list(t.shape.need_dims())
    if ax is None:
        if any(not isinstance(d, int) for d in ds):
            raise Unsupported("squeeze of symbolic dimensions")
        nd = [d for d in ds if d != 1]
    else:
        axs = [x % len(ds) for x in (ip.to_seq(ax).concrete() if isinstance(ax, (PyList, tuple)) else [ax])]
        nd = [d for i, d in enumerate(ds) if i not in axs]
    return node(ip, "reshape", [t], {}, TShape(nd), t.dtype)


def fn1(op):
    def f(ip, a, k):
        return ew(ip, op, argd(a, k, 0, "x", k.get("features", k.get("input"))), name=argd(a, k, 1, "name"))
    return f


def fn2(op):
    def f(ip, a, k):
        return ew(ip, op, argd(a, k, 0, "x"), argd(a, k, 1, "y"), name=argd(a, k, 2, "name"))
    return f


def f_divide(ip, a, k):
    x, y = argd(a, k, 0, "x"), argd(a, k, 1, "y")
    if not isinstance(x, TNode) and not isinstance(y, TNode):
        return tensor(ip, ip.binop("Div", x, y))
    return ew(ip, "div", x, y, name=argd(a, k, 2, "name"))


def minmax(op):
    none = float("inf") if op == "min" else float("-inf")

    def f(ip, a, k):
        x, y = argd(a, k, 0, "x"), argd(a, k, 1, "y")
        for u, v in ((x, y), (y, x)):
            if isinstance(v, Dyn):
                v = v.resolve(ip)
            if isinstance(v, float) and v == none and isinstance(u, TNode):
                return node(ip, "identity", [u], {}, u.shape, u.dtype)
        return ew(ip, op, x, y, name=argd(a, k, 2, "name"))
    return f


def f_clip(ip, a, k):
    t = tensor(ip, argd(a, k, 0, "t"))
    lo, hi = argd(a, k, 1, "clip_value_min"), argd(a, k, 2, "clip_value_max")
    # the library clips from above first
    for bnd, op, none in ((hi, "min", float("inf")), (lo, "max", float("-inf"))):
        if isinstance(bnd, Dyn):
            bnd = bnd.resolve(ip)
        if isinstance(bnd, float) and bnd == none:
            continue
        if isinstance(bnd, float):
            raise Unsupported("clipping at an infinity of the wrong sign")
        sh = t.shape
        t = ew(ip, op, t, bnd)
        if shape_eq(ip, t.shape, sh) is not True:
            raise Unsupported("clipping changes the shape")
    return t


def like(v):
    def f(ip, a, k):
        t = tensor(ip, argd(a, k, 0, "tensor"))
        dt = argd(a, k, 1, "dtype")
        return node(ip, "const", [], {"v": v}, t.shape, dt if dt is not None else t.dtype)
    return f


def filled(v):
    def f(ip, a, k):
        sh = to_shape(ip, argd(a, k, 0, "shape"))
        return node(ip, "const", [], {"v": v}, sh, argd(a, k, 1, "dtype"))
    return f


def f_fill(ip, a, k):
    v = argd(a, k, 1, "value")
    if isinstance(v, TNode):
        raise Unsupported("fill with a tensor")
    return node(ip, "const", [], {"v": v}, to_shape(ip, argd(a, k, 0, "dims")), None)


def f_constant(ip, a, k):
    v = argd(a, k, 0, "value")
    if isinstance(v, TNode):
        raise PyExc(TypeError, ("constant of a tensor",))
    if v is None:
        raise PyExc(ValueError, ("None values not supported.",))
    r = const(ip, v, argd(a, k, 1, "dtype"))
    sh = argd(a, k, 2, "shape")
    if sh is not None:
        if r.shape.dims != ():
            raise Unsupported("constant with a shape")
        r = r.clone(shape=to_shape(ip, sh))
    return r


def assign_fn(kind):
    def f(ip, a, k):
        ref = argd(a, k, 0, "ref")
        val = argd(a, k, 1, "value", k.get("delta"))
        if not isinstance(ref, TNode):
            raise PyExc(TypeError, ("assignment to something that is not a variable",))
        v, maps = alias(ref)
        if v is None or maps:
            if isinstance(ref, TVar) or (v is not None and ref.op.startswith("assign")):
                pass
            else:
                raise Unsupported("assignment to a tensor that is not a variable")
        val = tensor(ip, val, v.dtype)
        if val.shape is not None and v.shape is not None and (val.shape.dims is not None or val.shape.key is not None):
            e = shape_eq(ip, v.shape, val.shape)
            if e is False and kind == "assign" and argd(a, k, 2, "validate_shape") is False:
                raise Unsupported("assignment that changes the shape")
            if e is False:
                raise PyExc(ValueError, ("shapes must be equal: %s, %s" % (v.shape, val.shape),))
            if e is None:
                raise Unsupported("assignment of %s to a variable of shape %s" % (val.shape, v.shape))
        if val.dtype is not None and v.dtype is not None and not (val.op == "const"):
            merge_dtype(ip, val.dtype, v.dtype)
        return node(ip, kind, [ref, val], {"var": v}, v.shape, v.dtype, k.get("name"))
    return f


def alias(t):
    """(variable, is reshaped) whose buffer the tensor shares, or (None, ..)"""
    if isinstance(t, TVar):
        return t, False
    if t.op in ("identity",):
        return alias(t.ins[0])
    if t.op == "reshape":
        v, _ = alias(t.ins[0])
        return v, True
    if t.op in ("assign", "assign_add", "assign_sub"):
        return t.attrs["var"], False
    return None, False


def guarded(ip, x, memo=None):
    """tf.Variable reads the variables its initial value depends on through initialized_value"""
    memo = {} if memo is None else memo
    if not isinstance(x, TNode) or isinstance(x, TCarry) or x.op in ("initval", "isinit", "placeholder", "const", "random_normal"):
        return x
    if isinstance(x, TVar):
        return x if x.attrs.get("init") is None else node(ip, "initval", [x, x.attrs["init"]], {}, x.shape, x.dtype)
    if x.op not in UN and x.op not in BIN and x.op not in ("identity", "reshape"):
        return x
    if x.uid not in memo:
        ins = [guarded(ip, y, memo) for y in x.ins]
        memo[x.uid] = x if all(p is q for p, q in zip(ins, x.ins)) else TNode(x.op, ins, x.attrs, x.shape, x.dtype, idx=x.idx, ctrl=x.ctrl, name=x.name)
    return memo[x.uid]


def f_variable(ip, a, k):
    init = argd(a, k, 0, "initial_value")
    dt = k.get("dtype")
    tr = argd(a, k, 1, "trainable", True)
    if init is None:
        raise PyExc(ValueError, ("initial_value must be specified.",))
    if not isinstance(init, (TNode, N.Arr, PyList, tuple)) and not is_num(init) and not isinstance(init, Dyn):
        if isinstance(init, Opaque) and "tf_init" in init.attrs:
            init = init.attrs["tf_init"]
        else:
            raise Unsupported("variable initialised with %r" % (init,))
    if isinstance(init, Dyn):
        init = init.resolve(ip)
    init = guarded(ip, tensor(ip, init, dt))
    if dt is not None and init.dtype is not None and init.op != "const":
        merge_dtype(ip, dt, init.dtype)
    st = ip.lib_state.setdefault("tf_ctrl", [])
    v = TVar("var", [], {"init": init, "trainable": tr}, init.shape, dt if dt is not None else init.dtype, idx=tuple(ip.idx_stack),
             name=k.get("name"))
    return v


def f_get_variable(ip, a, k):
    name = argd(a, k, 0, "name")
    sh = argd(a, k, 1, "shape")
    dt = argd(a, k, 2, "dtype")
    init = argd(a, k, 3, "initializer")
    if isinstance(init, Opaque) and init.kind in ("zeros_initializer", "ones_initializer", "constant_initializer"):
        v = {"zeros_initializer": 0, "ones_initializer": 1}.get(init.kind, init.attrs.get("value"))
        init = TNode("const", [], {"v": v}, to_shape(ip, sh), dt, idx=tuple(ip.idx_stack))
    elif isinstance(init, TNode):
        pass
    else:
        raise Unsupported("get_variable with initializer %r" % (init,))
    return TVar("var", [], {"init": init, "trainable": k.get("trainable", True)}, init.shape, dt if dt is not None else init.dtype,
                idx=tuple(ip.idx_stack), name=name)


class ctrl_deps(object):
    def __init__(self, items):
        self.items = items

    def cm_enter(self, ip):
        ip.lib_state.setdefault("tf_ctrl", []).append(self.items)
        return self

    def cm_exit(self, ip):
        st = ip.lib_state["tf_ctrl"]
        for i in range(len(st) - 1, -1, -1):
            if st[i] is self.items:
                del st[i:]
                break
        return None


def edges(ip, v):
    """a list of tensors/operations as graph edges"""
    seq = ip.to_seq(v)
    items = seq.concrete()
    if items is not None:
        return [x for x in items if x is not None]
    out = []
    for p in (seq.parts if isinstance(seq, CatSeq) else [seq]):
        c = p.concrete()
        if c is not None:
            out.extend(x for x in c if x is not None)
        elif isinstance(p, SymSeq) or hasattr(p, "elem"):
            if isinstance(p, FilterSeq):
                raise Unsupported("filtered list of tensors")
            out.append(Fam(iterm(p.n), p.elem, idx=tuple(ip.idx_stack)))
    return out


def f_control(ip, a, k):
    items = argd(a, k, 0, "control_inputs")
    if items is None:
        raise Unsupported("control_dependencies(None)")
    es = edges(ip, items)
    for e in es:
        if not isinstance(e, (TNode, Fam)):
            raise PyExc(TypeError, ("control input must be an Operation or Tensor",))
    return ctrl_deps(es)


def map_seq(ip, v, fn):
    """list of fn(element) with the structure of the given sequence"""
    seq = ip.to_seq(v)
    items = seq.concrete()
    if items is not None:
        return CSeq([fn(x) for x in items])
    if isinstance(seq, CatSeq):
        return CatSeq([map_seq(ip, PyList(p), fn) for p in seq.parts])
    if isinstance(seq, FilterSeq):
        raise Unsupported("filtered sequence of tensors")

    def el(t):
        return fn(seq.elem(t))
    return SymSeq(seq.n, el)


def fam_map(ip, v, fn):
    """like map_seq for functions that create nodes: one node family, created once"""
    seq = ip.to_seq(v)
    items = seq.concrete()
    if items is not None:
        return CSeq([fn(x) for x in items])
    if isinstance(seq, CatSeq):
        return CatSeq([fam_map(ip, PyList(p), fn) for p in seq.parts])
    if isinstance(seq, FilterSeq):
        raise Unsupported("filtered sequence of tensors")
    k = alg.fresh("k")
    from .core import Local
    ip.idx_stack.append(k)
    loc = Local([k])
    loc.pc = [k >= 0, k < iterm(seq.n)]
    loc.prefix, loc.pos, loc.work = [], 0, []
    ip.ctx.locals.append(loc)
    try:
        r = fn(seq.elem(k))
        if loc.work:
            raise Unsupported("case distinction in a family of tensors")
    finally:
        ip.ctx.locals.pop()
        ip.idx_stack.pop()
    return SymSeq(seq.n, lambda t: Subst([(k, t)])(r))


def f_tuple(ip, a, k):
    ts = argd(a, k, 0, "tensors")
    ci = argd(a, k, 2, "control_inputs")
    gate = node(ip, "group", [], {}, TShape(()), None)
    gate.ctrl = gate.ctrl + tuple(edges(ip, ts)) + (tuple(edges(ip, ci)) if ci is not None else ())
    return PyList(fam_map(ip, ts, lambda t: t if t is None else identity(ip, t, [gate])))


def f_group(ip, a, k):
    gate = node(ip, "group", [], {}, TShape(()), None)
    es = []
    for x in a:
        if isinstance(x, (PyList, tuple)):
            es += edges(ip, x)
        else:
            es.append(x)
    gate.ctrl = gate.ctrl + tuple(es)
    return gate


def f_gradients(ip, a, k):
    ys, xs = argd(a, k, 0, "ys"), argd(a, k, 1, "xs")
    if isinstance(ys, (PyList, tuple)):
        items = ip.to_seq(ys).concrete()
        if items is None or len(items) != 1:
            raise Unsupported("gradients of several tensors")
        ys = items[0]
    for x in k:
        if x not in ("ys", "xs", "name"):
            raise Unsupported("gradients(%s=...)" % x)
    if not isinstance(ys, TNode):
        raise PyExc(TypeError, ("gradients of something that is not a tensor",))

    def one(x):
        if not isinstance(x, TNode):
            raise PyExc(TypeError, ("gradients with respect to something that is not a tensor",))
        return node(ip, "grad", [ys, x], {}, x.shape, x.dtype)
    if isinstance(xs, TNode):
        return PyList([one(xs)])
    return PyList(fam_map(ip, xs, one))


def f_stack(ip, a, k):
    return t_stack(ip, a, k)


def t_stack(ip, a, k):
    v = argd(a, k, 0, "values")
    ax = argd(a, k, 1, "axis", 0)
    if ax != 0:
        raise Unsupported("stack along another axis")
    if isinstance(v, TNode):
        return v if v.shape.dims != () else bad("stack of a scalar")
    seq = ip.to_seq(v)
    items = seq.concrete()
    if items is not None:
        ts = [tensor(ip, x) for x in items]
        if not ts:
            # converting an empty list gives an empty float32 tensor
            return node(ip, "const", [], {"v": 0}, TShape((0,)), None)
        sh = ts[0].shape
        dt = None
        for t in ts:
            if shape_eq(ip, t.shape, sh) is not True:
                raise Unsupported("stack of different shapes")
            dt = merge_dtype(ip, dt, t.dtype)
        return node(ip, "stack", ts, {}, TShape((len(ts),) + sh.need_dims()), dt)
    if isinstance(seq, CatSeq) or isinstance(seq, FilterSeq) or not isinstance(seq, SymSeq):
        if all(isinstance(p, SymSeq) or p.concrete() is not None for p in (seq.parts if isinstance(seq, CatSeq) else [seq])):
            f = [Fam(iterm(p.n), p.elem) if p.concrete() is None else None for p in seq.parts]
            ins = []
            for p, q in zip(seq.parts, f):
                ins.extend(p.concrete() if q is None else [q])
            return node(ip, "stack_seq", ins, {"seq": PyList(seq)}, TShape((seq.n,)), None)
        if isinstance(seq, FlatSeq):
            a, b = alg.fresh("j"), alg.fresh("l")
            e = seq.inner(a).elem(b)
            if not isinstance(e, TNode) or e.shape is None or e.shape.dims != ():
                raise Unsupported("stack of %r" % (e,))
            outer = Fam(iterm(seq.m), lambda i: TNode("stack", [Fam(iterm(seq.inner(i).n), seq.inner(i).elem)], {}, TShape((seq.inner(i).n,)), e.dtype))
            return node(ip, "stack_seq", [outer], {"seq": PyList(seq)}, TShape((seq.n,)), e.dtype)
        raise Unsupported("stack of %s" % type(seq).__name__)
    j = alg.fresh("j")
    from .core import Local
    e = seq.elem(j)
    if not isinstance(e, TNode):
        if is_num(e):
            return const(ip, N.np_asarray(ip, [PyList(seq)], {}))
        raise Unsupported("stack of %r" % (e,))
    sh = e.shape
    if sh.dims is None or alg_mentions(sh, j):
        raise Unsupported("stack of tensors of different shapes")
    return node(ip, "stack", [Fam(iterm(seq.n), seq.elem, idx=tuple(ip.idx_stack))], {}, TShape((seq.n,) + sh.dims), e.dtype)


def alg_mentions(sh, j):
    return any(isinstance(d, z3.ExprRef) and alg.contains(d, j) for d in sh.dims)


def f_concat(ip, a, k):
    ts = [tensor(ip, x) for x in (ip.to_seq(argd(a, k, 0, "values")).concrete() or bad("concat of a symbolic list"))]
    ax = argd(a, k, 1, "axis")
    nd = len(ts[0].shape.need_dims())
    ax = ax % nd
    tot = z3.IntVal(0)
    for t in ts:
        tot = tot + zi(t.shape.need_dims()[ax])
    ds = list(ts[0].shape.dims)
    ds[ax] = dim(tot)
    return node(ip, "concat", ts, {"axis": ax}, TShape(ds), ts[0].dtype)


def f_random(ip, a, k):
    sh = to_shape(ip, argd(a, k, 0, "shape"))
    mean, std = argd(a, k, 1, "mean", 0), argd(a, k, 2, "stddev", 1)
    dt = argd(a, k, 3, "dtype", ip.lib_state.get("tf_float32"))
    seed = argd(a, k, 4, "seed")
    if isinstance(seed, Dyn):
        seed = seed.resolve(ip)
    return node(ip, "random", [x for x in (mean, std) if isinstance(x, TNode)], {"mean": mean, "std": std, "seed": seed}, sh, dt, k.get("name"))


def f_other_random(kind, first, second, d0, d1):
    """random values that are not normal ones: a symbol of their own kind"""
    def f(ip, a, k):
        sh = to_shape(ip, argd(a, k, 0, "shape"))
        dt = argd(a, k, 3, "dtype", ip.lib_state.get("tf_float32"))
        seed = argd(a, k, 4, "seed")
        if isinstance(seed, Dyn):
            seed = seed.resolve(ip)
        m, s = argd(a, k, 1, first, d0), argd(a, k, 2, second, d1)
        if kind == "UNIFORM" and is_num(m) and is_num(s):
            s = rterm(s) - rterm(m)
            s = mk(s)
        return node(ip, "random", [x for x in (m, s) if isinstance(x, TNode)], {"mean": m, "std": s, "seed": seed, "kind": kind}, sh, dt, k.get("name"))
    return f


def f_topk(ip, a, k):
    t = tensor(ip, argd(a, k, 0, "input"))
    kk = argd(a, k, 1, "k", 1)
    if not is_num(kk):
        raise Unsupported("top_k of a tensor")
    srt = argd(a, k, 2, "sorted", True)
    ds = t.shape.need_dims()
    if len(ds) != 1:
        raise Unsupported("top_k of several rows")
    if srt is False:
        raise Unsupported("unsorted top_k")
    if not ip.ctx.valid(zi_(kk) <= zi(ds[0])):
        raise Unsupported("top_k with more elements than there are")
    return node(ip, "topk", [t], {"n": mk(zi(ds[0]))}, TShape((zi_(kk),)), t.dtype)


def f_sort(ip, a, k):
    t = tensor(ip, argd(a, k, 0, "values"))
    d = argd(a, k, 2, "direction", "ASCENDING")
    ds = t.shape.need_dims()
    if len(ds) != 1:
        raise Unsupported("sort of several rows")
    top = node(ip, "topk", [t], {"n": mk(zi(ds[0]))}, t.shape, t.dtype)
    v = TNode("topk_values", [top], {}, t.shape, t.dtype)
    if d == "DESCENDING":
        return v
    return node(ip, "reverse", [v], {}, t.shape, t.dtype)


def f_transpose(ip, a, k):
    t = tensor(ip, argd(a, k, 0, "a"))
    perm = argd(a, k, 1, "perm")
    nd = len(t.shape.need_dims())
    p = list(reversed(range(nd))) if perm is None else list(ip.to_seq(perm).concrete())
    return node(ip, "transpose", [t], {"perm": tuple(p)}, TShape([t.shape.dims[j] for j in p]), t.dtype)


def t_matmul(ip, a, k):
    x, y = tensor(ip, argd(a, k, 0, "a")), tensor(ip, argd(a, k, 1, "b"))
    ta, tb = argd(a, k, 2, "transpose_a", False), argd(a, k, 3, "transpose_b", False)
    if ta:
        x = f_transpose(ip, [x], {})
    if tb:
        y = f_transpose(ip, [y], {})
    dx, dy = x.shape.need_dims(), y.shape.need_dims()
    if len(dx) != 2 or len(dy) != 2:
        raise Unsupported("matmul of these ranks")
    if not (zi(dx[1]).eq(zi(dy[0])) or ip.ctx.valid(zi(dx[1]) == zi(dy[0]))):
        if ip.ctx.valid(zi(dx[1]) != zi(dy[0])):
            raise PyExc(ValueError, ("Dimensions must be equal",))
        raise Unsupported("matmul dimensions")
    return node(ip, "matmul", [x, y], {"k": mk(zi(dx[1]))}, TShape((dx[0], dy[1])), merge_dtype(ip, x.dtype, y.dtype))


def reducer(kind):
    def f(ip, a, k):
        t = tensor(ip, argd(a, k, 0, "input_tensor"))
        ax = argd(a, k, 1, "axis", k.get("reduction_indices"))
        keep = argd(a, k, 2, "keepdims", k.get("keep_dims", False)) or False
        if kind == "prod" and t.op in ("shapevec",):
            return node(ip, "const", [], {"v": mk(t.attrs["shape"].numel())}, TShape(()), t.dtype)
        if ax is None and keep:
            ax = PyList(list(range(len(t.shape.need_dims()))))
        if ax is None:
            return node(ip, "reduce", [t], {"kind": kind, "axes": None}, TShape(()), t.dtype, k.get("name"))
        nd = len(t.shape.need_dims())
        axs = [x % nd for x in (ip.to_seq(ax).concrete() if isinstance(ax, (PyList, tuple)) else [ax])]
        ds = [1 if keep and i in axs else d for i, d in enumerate(t.shape.dims) if keep or i not in axs]
        return node(ip, "reduce", [t], {"kind": kind, "axes": tuple(axs), "keep": bool(keep)}, TShape(ds), t.dtype, k.get("name"))
    return f


def f_add_n(ip, a, k):
    v = argd(a, k, 0, "inputs")
    items = ip.to_seq(v).concrete()
    if items is None:
        return reducer("sum")(ip, [t_stack(ip, [v], {}), 0], {})
    if not items:
        raise PyExc(ValueError, ("inputs must be an iterable of at least one Tensor with the same dtype and shape",))
    r = tensor(ip, items[0])
    for x in items[1:]:
        r = ew(ip, "add", r, x)
    return r


def pieces(ip, t, ax, sizes):
    """the slices of t along axis ax"""
    nd = len(t.shape.need_dims())
    if not isinstance(ax, int) or not -nd <= ax < nd:
        raise Unsupported("axis %r" % (ax,))
    out, at = [], 0
    for s in sizes:
        ix = [SliceV(None, None, None)] * nd
        ix[ax % nd] = SliceV(mk(zi(at)), mk(z3.simplify(zi(at) + zi(s))), None)
        out.append(t_index(ip, t, tuple(ix)))
        at = z3.simplify(zi(at) + zi(s))
    return PyList(out)


def f_split(ip, a, k):
    t = tensor(ip, argd(a, k, 0, "value"))
    n = argd(a, k, 1, "num_or_size_splits")
    ax = argd(a, k, 2, "axis", 0)
    if isinstance(n, int):
        d = t.shape.need_dims()[ax]
        if not isinstance(d, int) or n <= 0 or d % n:
            raise Unsupported("split of %s into %r" % (d, n))
        return pieces(ip, t, ax, [d // n] * n)
    sizes = ip.to_seq(n).concrete()
    if sizes is None or not all(isinstance(x, int) and x >= 0 for x in sizes) or not ip.ctx.valid(zi(t.shape.need_dims()[ax]) == sum(sizes)):
        raise Unsupported("split into %r" % (n,))
    return pieces(ip, t, ax, sizes)


def f_unstack(ip, a, k):
    t = tensor(ip, argd(a, k, 0, "value"))
    ax = argd(a, k, 2, "axis", 0)
    nd = len(t.shape.need_dims())
    n = t.shape.dims[ax]
    ix = lambda i: tuple([SliceV(None, None, None)] * (ax % nd) + [i])
    if isinstance(n, int):
        return PyList([t_index(ip, t, ix(i)) for i in range(n)])
    return PyList(fam_map(ip, PyList(SymSeq(n, lambda i: mk(i))), lambda i: t_index(ip, t, ix(i))))


def f_norm(ip, a, k):
    t = tensor(ip, argd(a, k, 0, "tensor"))
    o = argd(a, k, 1, "ord", "euclidean")
    if o not in ("euclidean", 2):
        raise Unsupported("norm of order %r" % (o,))
    kw = {x: k[x] for x in ("axis", "keepdims", "keep_dims") if x in k}
    if len(a) > 2:
        kw["axis"] = a[2]
    return ew(ip, "sqrt", reducer("sum")(ip, [ew(ip, "square", t)], kw))


def f_cast(ip, a, k):
    x = argd(a, k, 0, "x")
    dt = argd(a, k, 1, "dtype")
    t = tensor(ip, x, dt)
    if t.op in ("const", "shapevec"):
        return t.clone(dtype=dt)
    return node(ip, "cast", [t], {}, t.shape, dt)


def f_convert(ip, a, k):
    v = argd(a, k, 0, "value")
    dt = argd(a, k, 1, "dtype", k.get("preferred_dtype"))
    return tensor(ip, v, dt)


def f_placeholder(ip, a, k):
    dt = argd(a, k, 0, "dtype")
    sh = argd(a, k, 1, "shape")
    nm = argd(a, k, 2, "name")
    if sh is None:
        h = ip.lib_state.get("placeholder_shape")       # shape of what will be fed, if the contract knows it
        s = h() if h else TShape()
    elif isinstance(sh, TShape):
        s = sh
    else:
        ds = []
        h = ip.lib_state.get("placeholder_dim")
        for d in ip.to_seq(sh).concrete():
            ds.append((h() if h else alg.fresh("batch")) if d is None else zi_(d))
            if d is None:
                ip.ctx.assume(ds[-1] >= 1)
        s = TShape(ds)
    return node(ip, "placeholder", [], {}, s, dt, nm)


def f_stitch(ip, a, k):
    idx, data = argd(a, k, 0, "indices"), argd(a, k, 1, "data")
    ii = [ip.to_seq(x).concrete() for x in ip.to_seq(idx).concrete()]
    dd = [tensor(ip, x) for x in ip.to_seq(data).concrete()]
    if any(x is None for x in ii) or any(not is_num(y) or isinstance(y, Sym) for x in ii for y in x):
        from . import isets
        seqs = [ip.to_seq(x) for x in ip.to_seq(idx).concrete()]
        shapes = [t.shape.need_dims() for t in dd]
        if len(ii) != len(dd) or any(len(s) != len(shapes[0]) for s in shapes):
            raise PyExc(ValueError, ("dynamic_stitch",))
        for s in shapes[1:]:
            for x, y in zip(s[1:], shapes[0][1:]):
                if not ip.ctx.valid(zi(x) == zi(y)):
                    raise Unsupported("dynamic_stitch: shapes")
        n = isets.stitch(ip, seqs, [s[0] for s in shapes])
        if n is None:
            raise PyExc(ValueError, ("dynamic_stitch: numbers of indices and rows differ",))
        return node(ip, "stitch", dd, {"seqs": seqs}, TShape((n,) + tuple(shapes[0][1:])), dd[0].dtype)
    if len(ii) != len(dd):
        raise PyExc(ValueError, ("dynamic_stitch",))
    where = {}
    tail = None
    for j, (x, t) in enumerate(zip(ii, dd)):
        ds = t.shape.need_dims()
        if not isinstance(ds[0], int) or ds[0] != len(x):
            raise PyExc(ValueError, ("dynamic_stitch: %d indices for %s rows" % (len(x), ds[0]),))
        if tail is not None and ds[0] and tuple(ds[1:]) != tail:
            raise PyExc(ValueError, ("dynamic_stitch: shapes",))
        tail = tuple(ds[1:])
        for r, pos in enumerate(x):
            where[pos] = (j, r)
    n = max(where) + 1 if where else 0
    if sorted(where) != list(range(n)):
        raise Unsupported("dynamic_stitch leaves elements undefined")
    return node(ip, "stitch", dd, {"where": where}, TShape((n,) + tail), dd[0].dtype)


def f_map_fn(ip, a, k):
    fn, elems = argd(a, k, 0, "fn"), tensor(ip, argd(a, k, 1, "elems"))
    ds = elems.shape.need_dims()
    n = ds[0]
    k0 = alg.fresh("row")
    st = ip.lib_state.setdefault("tf_ctrl", [])
    row = TNode("row", [elems], {"i": Sym(k0)}, TShape(ds[1:]), elems.dtype, idx=tuple(ip.idx_stack) + (k0,))
    from .core import Local
    loc = Local([k0])
    loc.pc = [k0 >= 0, k0 < zi(n)]
    loc.prefix, loc.pos, loc.work = [], 0, []
    ip.idx_stack.append(k0)
    ip.ctx.locals.append(loc)
    try:
        r = tensor(ip, ip.call(fn, [row], {}))
        if loc.work:
            raise Unsupported("case distinction in map_fn")
    finally:
        ip.ctx.locals.pop()
        ip.idx_stack.pop()
    return node(ip, "map", [elems, Fam(n, lambda t: Subst([(k0, t)])(r))], {}, TShape((n,) + r.shape.need_dims()), k.get("dtype") or r.dtype)


def f_isinit(ip, a, k):
    v = argd(a, k, 0, "ref")
    return node(ip, "isinit", [], {"var": v}, TShape(()), None)


def INIT(v):
    """is the variable initialised in the session at this moment"""
    key = v.attrs.get("initname", "INIT_%d" % v.uid)
    return z3.Function(key, *([I] * len(v.idx) + [z3.BoolSort()]))(*v.idx) if v.idx else z3.Bool(key)


def run(ip, fetches):
    """session.run as far as constructors need it"""
    if isinstance(fetches, TNode):
        if fetches.op in ("init", "init_all"):
            # an initializer covers the variables there were when it was made: uids are handed out in order
            ip.events.append(("run_" + fetches.op, fetches.attrs.get("vars"), fetches.uid))
            return None
        if fetches.op in ("stack", "stack_seq"):
            if fetches.op == "stack_seq":
                src = fetches.attrs["seq"]
            elif len(fetches.ins) == 1 and isinstance(fetches.ins[0], Fam):
                src = PyList(SymSeq(fetches.ins[0].n, fetches.ins[0].fn))
            else:
                src = PyList(list(fetches.ins))
            return PyList(map_seq(ip, src, lambda v: init_value(ip, v)))
        if fetches.op == "isinit":
            return init_value(ip, fetches)
    if isinstance(fetches, (PyList, tuple)):
        return PyList(map_seq(ip, fetches, lambda v: run(ip, v)))
    raise Unsupported("session.run of %r" % (fetches,))


def init_value(ip, v):
    if isinstance(v, TNode) and v.op == "isinit":
        v = v.attrs["var"]
        if "initname" not in v.attrs and not any(e[0] in ("run_init", "run_init_all") for e in ip.events):
            # created by the code itself, and no initializer has run yet
            return False
        return mk(INIT(v))
    raise Unsupported("session.run of %r" % (v,))


# ------------------------------------------------------------------ what a graph computes
class Race(Exception):
    pass


def state(v):
    """content of a variable before the step, by element"""
    name = v.attrs.get("statename", "S_%d" % v.uid)

    def f(idx):
        ts = tuple(v.idx) + tuple(idx)
        return z3.Function(name, *([I] * len(ts) + [R]))(*ts) if ts else z3.Real(name)
    return f


def rmax(a, b):
    if z3.is_rational_value(a) and not z3.is_rational_value(b):
        a, b = b, a
    return alg.RMAX(a, b)


def rmin(a, b):
    if z3.is_rational_value(a) and not z3.is_rational_value(b):
        a, b = b, a
    return alg.RMIN(a, b)


def sgn(x):
    return alg.SGN(x)


def defs(*ts):
    """definitions of max, min and sign for the applications in the terms"""
    out, todo, seen = [], list(ts), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            n = x.decl().name()
            if n == "rmax":
                out.append(x == z3.If(x.arg(0) >= x.arg(1), x.arg(0), x.arg(1)))
            if n == "rmin":
                out.append(x == z3.If(x.arg(0) <= x.arg(1), x.arg(0), x.arg(1)))
            if n == "sgn":
                out.append(x == z3.If(x.arg(0) > 0, 1.0, z3.If(x.arg(0) < 0, -1.0, 0.0)))
            todo.extend(x.children())
    return out


UN = {
    "neg": lambda x: -x, "square": lambda x: x * x, "sqrt": alg.SQRT, "exp": alg.EXP, "log": alg.LOG, "sin": alg.SIN, "cos": alg.COS,
    "sign": sgn, "cast": lambda x: x, "stop_gradient": lambda x: x,
    "reciprocal": lambda x: 1 / x, "rsqrt": lambda x: 1 / alg.SQRT(x),
    "abs": lambda x: z3.If(x >= 0, x, -x), "tanh": lambda x: z3.Function("tanh", R, R)(x),
}


def powt(a, b):
    b = z3.simplify(b)
    if z3.is_rational_value(b):
        f = b.as_fraction()
        if f.denominator == 1 and 0 <= f <= 8:
            r = z3.RealVal(1)
            for _ in range(int(f)):
                r = r * a
            return r
        if f == Fraction(1, 2):
            return alg.SQRT(a)
        if f.denominator == 1 and -8 <= f < 0:
            return 1 / powt(a, z3.RealVal(-f))
        if f == Fraction(-1, 2):
            return 1 / alg.SQRT(a)
    return z3.Function("pow", R, R, R)(a, b)


BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b, "pow": powt,
       "max": rmax, "min": rmin}


class Graph(object):
    """a graph evaluated by one session.run(fetches) with some tensors fed.

    fed: function node -> None or a function idx -> term"""

    def __init__(self, ip, fetches=(), fed=None, pure=False, leaf=None):
        self.ip, self.c = ip, ip.ctx
        self.fed = fed or (lambda n: None)
        self.pure = pure
        self.leaf = leaf or {}
        self.memo = {}
        self.keep = []
        self.ancs = {}
        self.fetches = list(fetches)
        self.nodes = None
        self.races = []
        self.univ = {}
        if not pure:
            self.build()

    # -------------------------------------------------------------- structure
    def edges_of(self, n):
        """(data edges, control edges)"""
        data = [x for x in n.ins if isinstance(x, (TNode, Fam))]
        if n.op == "grad":
            # a gradient may read every parameter directly; it has no edge from the cost itself
            leaf = self.cost_leaf(n.ins[0])
            data = list(leaf.ins)
            if n.ins[1].op != "var":
                data = data + [n.ins[1]]
        return data, list(n.ctrl)

    def expand(self, e, univ):
        if isinstance(e, Fam):
            key = (e.uid,) + tuple(i.get_id() for i in e.idx) + (e.n.get_id(),)
            if key not in univ:
                q = alg.fresh("q")
                self.c.assume(z3.Implies(zi(e.n) >= 1, z3.And(q >= 0, q < zi(e.n))))
                univ[key] = (q, e.n, e.idx)
                self.univ_n[q.get_id()] = (q, e.n)
            return e.fn(univ[key][0])
        return e

    def member(self, e):
        """an arbitrary member of a family"""
        if not isinstance(e, Fam):
            return e
        q = alg.fresh("q")
        self.c.assume(z3.Implies(e.n >= 1, z3.And(q >= 0, q < e.n)))
        return e.fn(q)

    def traverse(self, roots, include_roots=True):
        """all operations that run before or with the roots: uid -> list of (node, universals)"""
        out = {}
        univ = {}
        todo = list(roots)
        seen = set()
        while todo:
            n = self.expand(todo.pop(), univ)
            if not isinstance(n, TNode):
                raise Unsupported("graph edge to %r" % (n,))
            key = (n.uid,) + tuple(z3.simplify(i).get_id() for i in n.idx)
            if key in seen:
                continue
            seen.add(key)
            self.keep.append(n)
            out.setdefault(n.uid, []).append(n)
            data, ctrl = self.edges_of(n)
            for d in data:
                m = self.expand(d, univ)
                # a fed tensor is not computed; the operation runs only if something else needs it
                if self.fed(m) is None:
                    todo.append(m)
            todo.extend(ctrl)
        return out, {q.get_id(): (q, nn) for q, nn, _ in univ.values()}

    def build(self):
        self.univ_n = {}
        roots = []
        self.roots = []
        for f in self.fetches:
            roots.append(f)
        # a fetched tensor that is fed does not run
        live = []
        for f in roots:
            m = self.expand(f, {})
            if self.fed(m) is None:
                live.append(f)
        self.nodes, self.nuniv = self.traverse(live)
        self.writes = {}
        for uid, ns in self.nodes.items():
            for n in ns:
                if n.op in ("assign", "assign_add", "assign_sub"):
                    v = n.attrs["var"]
                    lst = self.writes.setdefault(v.uid, [])
                    if not any(w.uid == n.uid for w in lst):
                        lst.append(n)
                    elif not any(w.uid == n.uid and all(a.eq(b) or is_q(a) for a, b in zip(w.idx, n.idx)) for w in lst):
                        if not all(is_q(a) for a in n.idx):
                            # the same operation reached through another index: the general instance covers it
                            pass

    def anc(self, n):
        """operations that certainly run before n, with the constants that range over all values"""
        key = (n.uid,) + tuple(z3.simplify(i).get_id() for i in n.idx)
        if key not in self.ancs:
            data, ctrl = self.edges_of(n)
            univ = {}
            starts = []
            for d in data:
                m = self.expand(d, univ)
                if self.fed(m) is None:
                    starts.append(m)
            for d in ctrl:
                starts.append(self.expand(d, univ))
            out, u = self.traverse(starts)
            u.update({q.get_id(): (q, nn) for q, nn, _ in univ.values()})
            self.keep.append(n)
            self.ancs[key] = (out, u)
        return self.ancs[key]

    def before(self, a, b):
        """does operation a certainly run before b?"""
        out, u = self.anc(b)
        for m in out.get(a.uid, ()):
            ok = True
            used = set()
            for x, y in zip(m.idx, a.idx):
                x, y = z3.simplify(x), z3.simplify(y)
                if x.eq(y):
                    continue
                if x.get_id() in u and x.get_id() not in used:
                    used.add(x.get_id())
                    nn = u[x.get_id()][1]
                    if self.c.valid(z3.And(y >= 0, y < nn)) or self.in_univ(y, nn):
                        continue
                if self.c.valid(x == y):
                    continue
                ok = False
                break
            if ok:
                return True
        return False

    def in_univ(self, y, nn):
        """y is a constant that ranges over 0..n-1 for the same n"""
        r = self.univ_n.get(y.get_id())
        return r is not None and (r[1].eq(nn) or self.c.valid(r[1] == nn))

    def writers(self, var):
        """write operations of this very variable"""
        out = []
        for w in self.writes.get(var.uid, ()):
            v = w.attrs["var"]
            if not v.idx:
                out.append(w)
                continue
            # w writes the family member v.idx, which are w's own indices
            pairs = []
            ok = True
            for a, b in zip(v.idx, var.idx):
                a, b = z3.simplify(a), z3.simplify(b)
                if a.eq(b):
                    continue
                if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(a.eq(i) for i in w.idx):
                    pairs.append((a, b))
                elif self.c.valid(a == b):
                    continue
                elif self.c.valid(a != b):
                    ok = False
                else:
                    raise Unsupported("writes to variables with different indices")
            if ok:
                if any(not any(a.eq(v2) for v2 in v.idx) and is_free(a) for a in w.idx):
                    raise Unsupported("a variable is written once per loop iteration")
                w2 = Subst(pairs)(w)
                self.keep.append(w2)
                out.append(w2)
        return out

    def read(self, var, reader):
        """content of the variable when `reader` runs: function idx -> term"""
        if self.pure:
            return state(var)
        ws = self.writers(var)
        prior = []
        for w in ws:
            if reader is not None and w.uid == reader.uid and all(z3.simplify(a).eq(z3.simplify(b)) for a, b in zip(w.idx, reader.idx)):
                continue
            if self.before(w, reader):
                prior.append(w)
            elif not self.before(reader, w):
                self.races.append((reader, var, w))
                raise Race("%r reads %r, unordered with its update" % (reader, var))
        if not prior:
            return state(var)
        last = prior[0]
        for w in prior[1:]:
            if self.before(last, w):
                last = w
            elif not self.before(w, last):
                self.races.append((last, var, w))
                raise Race("two unordered updates of %r" % (var,))
        return lambda idx: self.written(last, idx)

    def written(self, w, idx):
        var = w.attrs["var"]
        x = self.arg(w, w.ins[1], idx)
        if w.op == "assign":
            return x
        old = self.read(var, w)(idx)
        return old + x if w.op == "assign_add" else old - x

    # -------------------------------------------------------------- values
    def arg(self, reader, t, idx):
        """element of input t as the operation `reader` sees it"""
        f = self.fed(t)
        if f is not None:
            return f(idx)
        u, j = t, tuple(idx)
        while True:
            if isinstance(u, TVar):
                return self.read(u, reader)(j)
            if u.op == "identity":
                u = u.ins[0]
            elif u.op == "reshape":
                j = unflat(u.ins[0].shape, flat(u.shape, j)) if u.ins[0].shape.dims != () else ()
                u = u.ins[0]
            elif u.op in ("assign", "assign_add", "assign_sub"):
                if self.pure:
                    return self.written(u, j)
                return self.read(u.attrs["var"], reader)(j)
            else:
                return self.val(u, j)
            f = self.fed(u)
            if f is not None:
                return f(j)

    def val(self, n, idx):
        idx = tuple(z3.simplify(zi(i)) for i in idx)
        key = (n.uid,) + tuple(z3.simplify(i).get_id() for i in n.idx) + ("|",) + tuple(i.get_id() for i in idx)
        if key not in self.memo:
            self.keep.append((n, idx))
            v = self._val(n, idx)
            self.memo[key] = v
        return self.memo[key]

    def after(self, var, idx):
        """content of a variable after the step"""
        ws = self.writers(var)
        if not ws:
            return state(var)(idx)
        last = ws[0]
        for w in ws[1:]:
            if self.before(last, w):
                last = w
            elif not self.before(w, last):
                self.races.append((last, var, w))
                raise Race("two unordered updates of %r" % (var,))
        return self.written(last, idx)

    def cost_leaf(self, t):
        """the user's cost node the tensor is computed from"""
        found = []
        todo, seen = [t], set()
        while todo:
            n = todo.pop()
            if isinstance(n, Fam):
                n = self.member(n)
            if n.uid in seen:
                continue
            seen.add(n.uid)
            if n.op == "cost":
                found.append(n)
                continue
            if n.op in ("var", "grad", "random", "placeholder") or n.op.startswith("assign"):
                raise Unsupported("the differentiated tensor depends on more than the cost")
            if n.op == "map":
                todo.extend(n.ins[1:])
                continue
            todo.extend(n.ins)
        if len({f.uid for f in found}) != 1:
            raise Unsupported("gradient of a tensor without a single cost")
        return found[0]

    def grad(self, n, idx):
        ys, x = n.ins
        leaf = self.cost_leaf(ys)
        # sum over the elements of ys; linear in the cost
        g = {}
        cs = [z3.RealVal(0), z3.RealVal(1), z3.RealVal(2)]
        yi = tuple(alg.fresh("y") for _ in (ys.shape.dims or ()))
        for j, cv in enumerate(cs):
            g[j] = Graph(self.ip, [], pure=True, leaf={leaf.uid: cv}).val(ys, yi)
        a = z3.simplify(g[1] - g[0])
        if not self.c.eq_quick(g[2] - g[1], a) or any(alg.contains(a, y) for y in yi):
            raise Unsupported("the differentiated tensor is not linear in the cost")
        if ys.op == "map" or (ys.shape.dims or ()) != ():
            if x.op != "stack":
                raise Unsupported("gradient of several costs")
        # the gradient is taken at the values the parameters have when it runs
        for e in leaf.ins:
            v = self.member(e)
            if isinstance(v, TVar) and not self.pure:
                for w in self.writers(v):
                    if not self.before(n, w):
                        self.races.append((n, v, w))
                        raise Race("the gradient reads %r, unordered with its update" % (v,))
        name = "G_%s" % (leaf.attrs.get("gname", leaf.uid))
        ts = tuple(x.idx) + tuple(idx)
        G = z3.Function(name, *([I] * len(ts) + [R]))(*ts) if ts else z3.Real(name)
        return a * G

    def _val(self, n, idx):
        op = n.op
        f = self.fed(n)
        if f is not None:
            return f(idx)
        if n.uid in self.leaf:
            return self.leaf[n.uid]
        if op == "const":
            v = n.attrs["v"]
            if isinstance(v, N.Arr):
                return alg.to_real(v.cell(self.ip, *idx))
            return rterm(v)
        if op == "shapevec":
            raise Unsupported("a shape as a tensor")
        if isinstance(n, TCarry):
            return rterm(n.attrs["c"])
        if isinstance(n, TVar) or op in ("identity", "reshape", "assign", "assign_add", "assign_sub"):
            return self.arg(n, n, idx) if op not in ("assign", "assign_add", "assign_sub") else self.written(n, idx)
        if op == "initval":
            v, init = n.ins
            iv = INIT(v)
            new = Graph(self.ip, [], pure=True).val(init, idx)
            return z3.If(iv, state(v)(idx), new)
        if op in UN:
            return UN[op](self.arg(n, n.ins[0], idx))
        if op == "guard":
            return n.attrs["fn"](self.arg(n, n.ins[0], idx))
        if op == "contract":
            # the result of a function of the repository, by its contract
            return n.attrs["fn"](self, n, idx)
        if op in BIN:
            m1, m2 = n.attrs["maps"]
            return BIN[op](self.arg(n, n.ins[0], bidx(m1, idx)), self.arg(n, n.ins[1], bidx(m2, idx)))
        if op == "grad":
            return self.grad(n, idx)
        if op == "cost":
            nm = "COST_%s" % n.attrs.get("gname", n.uid)
            if not self.pure:
                for e in n.ins:
                    v = self.member(e)
                    if isinstance(v, TVar):
                        for w in self.writers(v):
                            if not self.before(n, w):
                                self.races.append((n, v, w))
                                raise Race("the cost reads %r, unordered with its update" % (v,))
            ts = tuple(n.idx) + tuple(idx)
            return z3.Function(nm, *([I] * len(ts) + [R]))(*ts) if ts else z3.Real(nm)
        if op == "placeholder":
            nm = n.attrs.get("pname", "X_%d" % n.uid)
            ts = tuple(n.idx) + tuple(idx)
            return z3.Function(nm, *([I] * len(ts) + [R]))(*ts) if ts else z3.Real(nm)
        if op == "random":
            m, s = (rterm(x) if not isinstance(x, TNode) else self.arg(n, x, ()) for x in (n.attrs["mean"], n.attrs["std"]))
            ts = tuple(n.idx) + ((flat(n.shape, idx),))
            return m + s * z3.Function("%sNOISE_%d" % (n.attrs.get("kind", ""), n.uid), *([I] * len(ts) + [R]))(*ts)
        if op == "slice":
            src = []
            for mp in n.attrs["m"]:
                if mp[0] == "fix":
                    src.append(mp[1].t)
                else:
                    src.append(z3.simplify(idx[mp[1]] + zi_(mp[2])))
            return self.arg(n, n.ins[0], tuple(src))
        if op == "row":
            return self.arg(n, n.ins[0], (n.attrs["i"].t,) + tuple(idx))
        if op == "stack":
            e = n.ins[0]
            if isinstance(e, Fam):
                return self.arg(n, e.fn(idx[0]), idx[1:])
            if z3.is_int_value(idx[0]):
                return self.arg(n, n.ins[idx[0].as_long()], idx[1:])
            r = self.arg(n, n.ins[-1], idx[1:])
            for j in range(len(n.ins) - 2, -1, -1):
                r = z3.If(idx[0] == j, self.arg(n, n.ins[j], idx[1:]), r)
            return r
        if op == "stack_seq":
            e = self.ip.seq_elem(self.ip.to_seq(n.attrs["seq"]), Sym(idx[0]))
            return self.arg(n, e, idx[1:])
        if op == "concat":
            ax = n.attrs["axis"]
            off = z3.IntVal(0)
            parts = []
            for t in n.ins:
                j = list(idx)
                j[ax] = z3.simplify(idx[ax] - off)
                off = z3.simplify(off + zi(t.shape.dims[ax]))
                parts.append((off, t, tuple(j)))
            r = self.arg(n, parts[-1][1], parts[-1][2])
            for o, t, j in reversed(parts[:-1]):
                c = z3.simplify(idx[ax] < o)
                x = self.arg(n, t, j)
                r = x if z3.is_true(c) else r if z3.is_false(c) else z3.If(c, x, r)
            return r
        if op == "map":
            return self.arg(n, n.ins[1].fn(idx[0]), idx[1:])
        if op == "transpose":
            p = n.attrs["perm"]
            j = [None] * len(p)
            for o, src in enumerate(p):
                j[src] = idx[o]
            return self.arg(n, n.ins[0], tuple(j))
        if op == "matmul":
            kk = n.attrs["k"]
            return alg.mk_sum(zi_(kk), lambda t: self.arg(n, n.ins[0], (idx[0], t)) * self.arg(n, n.ins[1], (t, idx[1])))
        if op == "reduce":
            return self.reduce(n, idx)
        if op == "loopsum":
            v0, fam = n.ins
            return self.arg(n, v0, ()) + alg.mk_sum(fam.n, lambda t: self.arg(n, fam.fn(t), ()))
        if op == "topk_values":
            t = n.ins[0]
            src = t.ins[0]
            nn = zi_(t.attrs["n"])
            k = alg.fresh("m")
            return alg.DESC(zi(nn), alg.lam(k, self.arg(t, src, (k,))), idx[0])
        if op == "reverse":
            d = zi(n.shape.dims[0])
            return self.arg(n, n.ins[0], (z3.simplify(d - 1 - idx[0]),))
        if op == "stitch" and "seqs" in n.attrs:
            from . import isets
            j, q = isets.stitched(self.ip, n.attrs["seqs"], idx[0])
            if q is not None:
                return self.arg(n, n.ins[j], (q,) + tuple(idx[1:]))
            u = alg.fresh("any")
            v = z3.simplify(self.arg(n, n.ins[j], (u,) + tuple(idx[1:])))
            if alg.contains(v, u):
                raise Unsupported("dynamic_stitch: the order of a set matters")
            return v
        if op == "stitch":
            w = n.attrs["where"]
            if not z3.is_int_value(idx[0]):
                raise Unsupported("symbolic index into dynamic_stitch")
            j, r = w[idx[0].as_long()]
            return self.arg(n, n.ins[j], (z3.IntVal(r),) + tuple(idx[1:]))
        raise Unsupported("value of tensor operation %s" % op)

    def reduce(self, n, idx):
        kind, axes = n.attrs["kind"], n.attrs["axes"]
        t = n.ins[0]
        sh = t.shape
        if axes is None:
            if sh.dims is None:
                axs = [sh.numel()]
                at = lambda q: (q[0],)
            else:
                axs = [d for d in sh.dims]
                at = lambda q: tuple(q)
        else:
            axs = [sh.dims[j] for j in sorted(axes)]
            pos = {j: m for m, j in enumerate(sorted(axes))}
            keep = n.attrs.get("keep")

            def at(q):
                out, m = [], 0
                for j in range(len(sh.dims)):
                    if j in pos:
                        out.append(q[pos[j]])
                        if keep:
                            m += 1
                    else:
                        out.append(idx[m])
                        m += 1
                return tuple(out)

        def total(f, ds, got):
            if not ds:
                return f(at(got))
            d = ds[0]
            if isinstance(d, int) and d <= 16:
                r = None
                for i in range(d):
                    x = total(f, ds[1:], got + [z3.IntVal(i)])
                    r = x if r is None else r + x
                return z3.RealVal(0) if r is None else r
            return alg.mk_sum(zi(d), lambda q: total(f, ds[1:], got + [q]))
        size = z3.IntVal(1)
        for d in axs:
            size = size * zi(d)
        el = lambda i: self.arg(n, t, i)
        if kind == "sum":
            return total(el, axs, [])
        if kind == "mean":
            return total(el, axs, []) / z3.ToReal(z3.simplify(size))
        if kind == "logsumexp":
            return alg.LOG(total(lambda i: alg.EXP(el(i)), axs, []))
        raise Unsupported("reduce_%s" % kind)


def is_q(a):
    return z3.is_const(a) and a.decl().name().startswith("q!")


def is_free(a):
    return z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED


# ------------------------------------------------------------------ module
def install(ip):
    m = Module("tensorflow")
    ns = m.d
    reg = ip.lib_state

    def add(**kw):
        for n, f in kw.items():
            ns[n] = B("tf." + n, f) if callable(f) and not isinstance(f, (Builtin, LibType, Module, Opaque)) else f
    f32, f64, i32, bl = (Opaque(n, types=("DType",), attrs={"name": n}) for n in ("float32", "float64", "int32", "bool"))
    reg["tf_float32"] = f32
    add(float32=f32, float64=f64, int32=i32, int64=Opaque("int64", types=("DType",)), bool=bl)
    ns["DType"] = LibType("DType", lambda v: False)
    ns["Tensor"] = LibType("Tensor", lambda v: False)
    ns["Variable"] = LibType("Variable", lambda v: False, f_variable)
    ns["Operation"] = LibType("Operation", lambda v: False)
    ns["TensorShape"] = LibType("TensorShape", lambda v: False, lambda ip, a, k: to_shape(ip, a[0]))
    ns["Session"] = LibType("Session", lambda v: False, lambda ip, a, k: make_session(ip, "Session", k))
    ns["InteractiveSession"] = LibType("InteractiveSession", lambda v: False, lambda ip, a, k: make_session(ip, "InteractiveSession", k))
    ns["Graph"] = LibType("Graph", lambda v: False, lambda ip, a, k: make_graph(ip))
    add(get_default_session=lambda ip, a, k: None,
        reshape=f_reshape, expand_dims=f_expand, squeeze=f_squeeze, divide=f_divide, div=f_divide, truediv=f_divide,
        sqrt=fn1("sqrt"), square=fn1("square"), exp=fn1("exp"), log=fn1("log"), sin=fn1("sin"), cos=fn1("cos"), sign=fn1("sign"), abs=fn1("abs"),
        negative=fn1("neg"), reciprocal=fn1("reciprocal"), rsqrt=fn1("rsqrt"), tanh=fn1("tanh"), stop_gradient=fn1("stop_gradient"),
        add=fn2("add"), subtract=fn2("sub"), multiply=fn2("mul"), maximum=minmax("max"), minimum=minmax("min"), pow=fn2("pow"),
        clip_by_value=f_clip, ones_like=like(1), zeros_like=like(0), ones=filled(1), zeros=filled(0), fill=f_fill, constant=f_constant,
        assign=assign_fn("assign"), assign_add=assign_fn("assign_add"), assign_sub=assign_fn("assign_sub"),
        get_variable=f_get_variable, control_dependencies=f_control, tuple=f_tuple, group=f_group, gradients=f_gradients,
        stack=f_stack, concat=f_concat, random_normal=f_random, truncated_normal=f_other_random("TRUNCATED", "mean", "stddev", 0, 1),
        random_uniform=f_other_random("UNIFORM", "minval", "maxval", 0, 1), transpose=f_transpose, matmul=t_matmul, norm=f_norm,
        reduce_sum=reducer("sum"), reduce_mean=reducer("mean"), reduce_prod=reducer("prod"), reduce_logsumexp=reducer("logsumexp"),
        cast=f_cast, to_float=lambda ip, a, k: f_cast(ip, [argd(a, k, 0, "x"), f32], {}), to_double=lambda ip, a, k: f_cast(ip, [argd(a, k, 0, "x"), f64], {}),
        convert_to_tensor=f_convert, placeholder=f_placeholder, dynamic_stitch=f_stitch, map_fn=f_map_fn, is_variable_initialized=f_isinit,
        identity=lambda ip, a, k: identity(ip, tensor(ip, argd(a, k, 0, "input"))),
        shape=lambda ip, a, k: const(ip, tensor(ip, argd(a, k, 0, "input")).shape, i32),
        size=lambda ip, a, k: const(ip, mk(tensor(ip, argd(a, k, 0, "input")).shape.numel()), i32),
        rank=lambda ip, a, k: const(ip, len(tensor(ip, argd(a, k, 0, "input")).shape.need_dims()), i32),
        add_n=f_add_n, split=f_split, unstack=f_unstack,
        no_op=lambda ip, a, k: node(ip, "group", [], {}, TShape(()), None),
        variables_initializer=lambda ip, a, k: node(ip, "init", [], {"vars": argd(a, k, 0, "var_list")}, TShape(()), None),
        global_variables_initializer=lambda ip, a, k: node(ip, "init_all", [], {}, TShape(()), None),
        trainable_variables=lambda ip, a, k: trainable(ip),
        zeros_initializer=lambda ip, a, k: Opaque("zeros_initializer"), ones_initializer=lambda ip, a, k: Opaque("ones_initializer"),
        constant_initializer=lambda ip, a, k: Opaque("constant_initializer", attrs={"value": argd(a, k, 0, "value", 0)}),
        name_scope=lambda ip, a, k: ctrl_deps([]), variable_scope=lambda ip, a, k: ctrl_deps([]), sort=f_sort,
        set_random_seed=lambda ip, a, k: bad("set_random_seed"))
    nn = Module("tensorflow.nn", {})
    nn.d["top_k"] = B("top_k", f_topk)
    ns["nn"] = nn
    mm = Module("tensorflow.math", {})
    for n in ("add", "subtract", "multiply", "divide", "sqrt", "square", "exp", "log", "sign", "abs", "negative", "maximum", "minimum", "pow",
              "reduce_sum", "reduce_mean", "reduce_prod", "reduce_logsumexp", "reciprocal", "rsqrt"):
        mm.d[n] = ns[n]
    mm.d["top_k"] = nn.d["top_k"]
    ns["math"] = mm
    la = Module("tensorflow.linalg", {})
    la.d.update(norm=ns["norm"], matmul=ns["matmul"], transpose=ns["transpose"])
    ns["linalg"] = la
    rnd = Module("tensorflow.random", {})
    rnd.d["normal"] = ns["random_normal"]
    rnd.d["truncated_normal"], rnd.d["uniform"] = ns["truncated_normal"], ns["random_uniform"]
    ns["random"] = rnd
    er = Module("tensorflow.errors", {})
    ns["errors"] = er
    for name, mod in (("tensorflow", m), ("tensorflow.nn", nn), ("tensorflow.math", mm), ("tensorflow.linalg", la), ("tensorflow.random", rnd)):
        ip.libs[name] = mod
    sp = Module("scipy.special", {})

    def lse(ip, a, k):
        if k or len(a) != 1:
            raise Unsupported("logsumexp with options")
        v = N.asarr(ip, a[0])
        if is_num(v):
            return v
        rd = v.reader(ip)

        def total(ds, got):
            if not ds:
                return alg.EXP(alg.to_real(rd(*got)))
            n = ds[0]
            if isinstance(n, int):
                t = None
                for j in range(n):
                    x = total(ds[1:], got + [z3.IntVal(j)])
                    t = x if t is None else t + x
                return t if t is not None else z3.RealVal(0)
            return alg.mk_sum(n, lambda q: total(ds[1:], got + [q]))
        t = total(list(v.shape), [])
        return Sym(alg.LOG(t), True)
    sp.d["logsumexp"] = B("logsumexp", lse)
    ip.libs["scipy.special"] = sp
    ip.libs["scipy"] = Module("scipy", {"special": sp})
    ars = Module("arspy.ars", {})
    ars.d["adaptive_rejection_sampling"] = B("adaptive_rejection_sampling", lambda ip, a, k: ars_call(ip, a, k))
    ip.libs["arspy.ars"] = ars
    ip.libs["arspy"] = Module("arspy", {"ars": ars})
    pd = Module("pymc3.diagnostics", {})
    pd.d["effective_n"] = B("effective_n", lambda ip, a, k: hook(ip, "effective_n", a, k))
    pd.d["gelman_rubin"] = B("gelman_rubin", lambda ip, a, k: hook(ip, "gelman_rubin", a, k))
    mt = Module("pymc3.backends.base", {"MultiTrace": B("MultiTrace", lambda ip, a, k: hook(ip, "MultiTrace", a, k))})
    bk = Module("pymc3.backends", {"base": mt})
    pm = Module("pymc3", {"backends": bk, "diagnostics": pd, "effective_n": pd.d["effective_n"], "gelman_rubin": pd.d["gelman_rubin"]})
    for name, mod in (("pymc3", pm), ("pymc3.diagnostics", pd), ("pymc3.backends", bk), ("pymc3.backends.base", mt)):
        ip.libs[name] = mod


def hook(ip, name, a, k):
    h = ip.lib_state.get("hook_" + name)
    if h is None:
        raise Unsupported("%s" % name)
    return h(ip, a, k)


def ars_call(ip, a, k):
    return hook(ip, "ars", a, k)


def trainable(ip):
    t = ip.lib_state.get("tf_trainable")
    if t is None:
        raise Unsupported("trainable_variables")
    return t() if callable(t) else t


def make_session(ip, kind, k):
    h = ip.lib_state.get("hook_Session")
    if h is not None:
        return h(ip, kind, k)
    s = Opaque(kind, types=(kind,))
    s.attrs["run"] = B("run", lambda ip, a, kw: run(ip, argd(a, kw, 0, "fetches")))
    s.attrs["graph"] = k.get("graph")
    s.attrs["__enter__"] = B("__enter__", lambda ip, a, kw: s)
    s.attrs["__exit__"] = B("__exit__", lambda ip, a, kw: None)
    return s


def make_graph(ip):
    h = ip.lib_state.get("hook_Graph")
    if h is not None:
        return h(ip)
    return Opaque("Graph", types=("Graph",))


def make_var(ip, name, shape, idx=(), dtype=None, uid=None, init=None, trainable=True, pyname=None):
    """a variable supplied by a contract; its content before the step is the function `name`"""
    return TVar("var", [], {"init": init, "trainable": trainable, "statename": name, "initname": "INIT_" + name}, shape, dtype,
                uid=uid, idx=idx, name=pyname)


def any_shape(name, idx=()):
    """an arbitrary shape, known only by its number of elements"""
    n = z3.Function("numel_" + name, *([I] * len(idx) + [I]))(*idx) if idx else z3.Int("numel_" + name)
    return TShape(None, n, (name,) + tuple(idx))
