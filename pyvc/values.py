"""Values of the interpreted program."""
import itertools
from fractions import Fraction
import z3
from .core import Unsupported
from . import alg

_birth = itertools.count(1)
_uid = itertools.count(1)
MISSING = type("Missing", (), {"__repr__": lambda s: "<missing>"})()


def new_uid():
    return next(_uid)


class Sym(object):
    """symbolic int / float / bool"""
    __slots__ = ("t", "np")

    def __init__(self, t, np=False):
        self.t, self.np = t, np

    @property
    def ty(self):
        s = self.t.sort()
        return "int" if s == alg.I else "float" if s == alg.R else "bool"

    def __repr__(self):
        return "Sym(%s)" % self.t


def is_num(v):
    return isinstance(v, (int, Fraction, Sym, float))


def term(v):
    """z3 term of a number"""
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    raise Unsupported("not a number: %r" % (v,))


def iterm(v):
    if isinstance(v, z3.ExprRef):
        return v
    t = term(v)
    if t.sort() == z3.BoolSort():
        t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if t.sort() != alg.I:
        raise Unsupported("integer expected: %s" % t)
    return t


def rterm(v):
    if isinstance(v, z3.ExprRef):
        return alg.to_real(v)
    t = term(v)
    if t.sort() == z3.BoolSort():
        t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return alg.to_real(t)


def mk(t):
    """z3 term -> value (concrete if it is a literal)"""
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.as_fraction())
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return Sym(t)


class HObj(object):
    """heap object: all mutable state is in d and goes through Interp.rd / Interp.wr"""

    def __init__(self):
        self.d = {}
        self.birth = next(_birth)
        self.frozen = False


# ------------------------------------------------------------------ sequences (immutable values)
class Seq(object):
    n = None        # int, z3 Int term, or None for infinite

    def elem(self, t):
        raise NotImplementedError

    def concrete(self):
        return None


class CSeq(Seq):
    def __init__(self, items):
        self.items = list(items)
        self.n = len(self.items)

    def elem(self, t):
        if isinstance(t, int):
            return self.items[t]
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return self.items[t.as_long()]
        raise Unsupported("symbolic index into a literal sequence")

    def concrete(self):
        return self.items


class SymSeq(Seq):
    def __init__(self, n, fn, tag=None):
        self.n = n
        self.fn = fn
        self.tag = tag
        self.memo = {}

    def elem(self, t):
        if isinstance(t, int):
            t = z3.IntVal(t)
        t = z3.simplify(t)
        key = t.get_id()
        if key not in self.memo:
            self.memo[key] = (self.fn(t), t)
        return self.memo[key][0]

    def concrete(self):
        if isinstance(self.n, int):
            return [self.elem(i) for i in range(self.n)]
        return None


class CatSeq(Seq):
    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, CatSeq):
                self.parts.extend(p.parts)
            else:
                self.parts.append(p)
        ns = [p.n for p in self.parts]
        if any(x is None for x in ns):
            self.n = None
        elif any(isinstance(p, FilterSeq) for p in self.parts):
            self.n = z3.simplify(sum([iterm(x) for x in ns[1:]], iterm(ns[0])))
        else:
            tot = z3.simplify(sum([iterm(x) for x in ns[1:]], iterm(ns[0])))
            self.n = tot.as_long() if z3.is_int_value(tot) else tot

    def elem(self, t):
        raise Unsupported("indexing a concatenation")     # Interp.seq_elem branches


class FilterSeq(Seq):
    """elements elem(k), 0 <= k < m, for which cond(k), in order"""

    def __init__(self, m, cond, fn):
        self.m, self.cond, self.fn = m, cond, fn
        self.n = None if m is None else ISUM(iterm(m), cond)

    def elem(self, t):
        raise Unsupported("indexing a filtered sequence")


class FlatSeq(Seq):
    """inner(0) + inner(1) + ... + inner(m - 1); inner(i) is a sequence whose length is clipped at 0"""

    def __init__(self, m, inner):
        self.m, self.inner = m, inner
        self.n = ISUM(iterm(m), lambda i: iterm(inner(i).n))

    def elem(self, t):
        raise Unsupported("indexing a nested sequence")


ISUM_F = z3.Function("Count", alg.I, z3.ArraySort(alg.I, alg.I), alg.I)


def ISUM(n, cond):
    k = alg.fresh("c")
    c = cond(k)
    if c.sort() == z3.BoolSort():
        c = z3.If(c, z3.IntVal(1), z3.IntVal(0))
    return ISUM_F(n, alg.lam(k, z3.simplify(c)))


# ------------------------------------------------------------------ heap objects
class PyList(HObj):
    def __init__(self, seq, kind="list", maxlen=None):
        HObj.__init__(self)
        if isinstance(seq, (list, tuple)):
            seq = CSeq(seq)
        self.d["seq"] = seq
        self.kind = kind
        self.maxlen = maxlen

    def copy_with(self, d):
        o = PyList(d["seq"], self.kind, self.maxlen)
        return o


class Bulk(object):
    """family of dict entries key(k) -> val(k), 0 <= k < n"""

    def __init__(self, n, key, val):
        self.n, self.key, self.val = n, key, val


class PyDict(HObj):
    def __init__(self, entries=()):
        HObj.__init__(self)
        self.d["ent"] = list(entries)      # list of (key, value) or Bulk

    def copy_with(self, d):
        return PyDict(d["ent"])


class PySet(HObj):
    def __init__(self, items=()):
        HObj.__init__(self)
        self.d["items"] = list(items)

    def copy_with(self, d):
        return PySet(d["items"])


class PyClass(object):
    def __init__(self, name, bases, ns, module=None):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.enum = any(getattr(b, "is_enum", False) or getattr(b, "enum", False) for b in bases)

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, PyClass):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return MISSING, None

    def __repr__(self):
        return "<class %s>" % self.name


class PyInstance(HObj):
    def __init__(self, cls, attrs=None):
        HObj.__init__(self)
        self.cls = cls
        self.d.update(attrs or {})

    def copy_with(self, d):
        return PyInstance(self.cls, d)

    def __repr__(self):
        return "<%s instance>" % self.cls.name


class PyFunc(object):
    def __init__(self, node, name, defaults, kwdefaults, frame, module, qualname, locals_, isgen):
        self.node, self.name, self.defaults, self.kwdefaults = node, name, defaults, kwdefaults
        self.frame, self.module, self.qualname = frame, module, qualname
        self.locals_, self.isgen = locals_, isgen
        self.attrs = {}
        self.birth = next(_birth)
        self.owner = None

    def __repr__(self):
        return "<function %s>" % self.qualname


class Bound(object):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Builtin(object):
    def __init__(self, name, fn, pure=True):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class Prop(object):
    def __init__(self, fget):
        self.fget = fget


class StaticM(object):
    def __init__(self, f):
        self.f = f


class ClassM(object):
    def __init__(self, f):
        self.f = f


class Module(HObj):
    def __init__(self, name, ns=None):
        HObj.__init__(self)
        self.birth = 0
        self.name = name
        self.d = ns if ns is not None else {}
        self.lazy = None

    def __repr__(self):
        return "<module %s>" % self.name


class LibType(object):
    """a library type usable in isinstance; pred(value) -> bool | Sym | None"""

    def __init__(self, name, pred, call=None, attrs=None):
        self.name, self.pred, self.call, self.attrs = name, pred, call, attrs or {}

    def __repr__(self):
        return "<type %s>" % self.name


class ExcValue(object):
    def __init__(self, cls, args):
        self.cls, self.args = cls, args


class Frame(HObj):
    def __init__(self, func, parent, module):
        HObj.__init__(self)
        self.func, self.parent, self.module = func, parent, module
        self.nonlocals = set()
        self.globals_ = set()
        self.locals_ = set()
        self.yields = None


class GenObj(HObj):
    """generator object of the interpreted program"""

    def __init__(self, interp, func, frame):
        HObj.__init__(self)
        self.func, self.frame = func, frame
        self.d.update(state="new", pos=0, seq=None)
        self.co = None


class PyIter(HObj):
    """iterator over a sequence value; next element index in d['pos']"""

    def __init__(self, seq, pos=0):
        HObj.__init__(self)
        self.seq = seq
        self.d["pos"] = pos
        self.up = []         # iterators this one takes one element from for each of its own, and where they were

    def copy_with(self, d):
        r = PyIter(self.seq, d["pos"])
        r.up = self.up
        return r


class Opaque(object):
    """an object the program can only pass around; attributes and methods come from `attrs`"""

    def __init__(self, kind, idx=(), attrs=None, uid=None, types=(), truth=True, call=None):
        self.kind, self.idx, self.attrs = kind, tuple(idx), attrs or {}
        self.uid = new_uid() if uid is None else uid
        self.types = set(types)
        self.truth = truth
        self.call = call

    def subst(self, s):
        if not self.idx:
            return self
        idx = tuple(s.t(i) for i in self.idx)
        if all(a.eq(b) for a, b in zip(idx, self.idx)):
            return self
        return Opaque(self.kind, idx, {k: s(v) for k, v in self.attrs.items()}, self.uid, self.types, self.truth, self.call)

    def __repr__(self):
        return "<%s%s>" % (self.kind, list(self.idx) if self.idx else "")


ARB = object()      # an arbitrary truth value


class AnyValue(Opaque):
    """any value at all: whether it counts as true, is of some type, equals another value or has some attribute is left open"""

    def __init__(self, kind, uid=None):
        Opaque.__init__(self, kind, uid=uid, truth=ARB, call=lambda ip, a, k: AnyValue("result of " + kind))

    def subst(self, s):
        return self

    def isinst(self, ip, T):
        return z3.Bool("is_%s_%s" % (self.uid, getattr(T, "name", None) or getattr(T, "__name__", None) or id(T)))

    def same_as(self, ip, o):
        if isinstance(o, AnyValue) and o.uid == self.uid:
            return True
        return z3.Bool("eq_%s_%s" % (self.uid, getattr(o, "uid", None) or repr(o)))

    def has_attr(self, ip, name):
        return ip.ctx.branch(z3.Bool("has_%s_%s" % (self.uid, name)))

    def attr(self, ip, name):
        if name not in self.attrs:
            self.attrs[name] = AnyValue("%s.%s" % (self.kind, name), uid=(self.uid, name))
        return self.attrs[name]


class AbsStr(object):
    """a string whose text does not matter"""

    def __init__(self, text="?"):
        self.text = text

    def __repr__(self):
        return "<str>"


class IntStr(AbsStr):
    """str(t) for an integer t"""

    def __init__(self, t):
        AbsStr.__init__(self)
        self.t = t

    def subst(self, s):
        n = s.t(self.t)
        return self if n.eq(self.t) else IntStr(n)

    def same_as(self, ip, o):
        if isinstance(o, IntStr):
            r = z3.simplify(self.t == o.t)
            return True if z3.is_true(r) else False if z3.is_false(r) else r
        if isinstance(o, str):
            try:
                n = int(o)
            except ValueError:
                return False
            if str(n) != o:
                return False
            r = z3.simplify(self.t == n)
            return True if z3.is_true(r) else False if z3.is_false(r) else r
        if isinstance(o, AbsStr) or isinstance(o, Opaque):
            from .core import Unsupported
            raise Unsupported("comparison of an abstract string")
        return False


class Subst(object):
    """substitution of z3 constants throughout a value"""

    def __init__(self, pairs):
        self.pairs = [(a, b) for a, b in pairs if not a.eq(b)]
        self.memo = {}
        self.keep = []

    def t(self, t):
        if not isinstance(t, z3.ExprRef) or not self.pairs:
            return t
        return z3.simplify(z3.substitute(t, *self.pairs))

    def __call__(self, v):
        if not self.pairs:
            return v
        if v is None or isinstance(v, (int, str, float, Fraction, Builtin, PyClass, LibType, Module, bytes)) or type(v) is AbsStr:
            return v
        if isinstance(v, z3.ExprRef):
            return self.t(v)
        key = id(v)
        if key in self.memo:
            return self.memo[key]
        r = self._go(v)
        self.memo[key] = r
        self.keep.append(v)
        return r

    def _go(self, v):
        if isinstance(v, Sym):
            n = self.t(v.t)
            if n.eq(v.t):
                return v
            r = mk(n)
            return Sym(r.t, v.np) if isinstance(r, Sym) else r
        if isinstance(v, tuple):
            r = tuple(self(x) for x in v)
            return v if all(a is b for a, b in zip(r, v)) else r
        if isinstance(v, CSeq):
            r = [self(x) for x in v.items]
            return v if all(a is b for a, b in zip(r, v.items)) else CSeq(r)
        if isinstance(v, CatSeq):
            return CatSeq([self(p) for p in v.parts])
        if isinstance(v, SymSeq):
            n = self.t(v.n) if isinstance(v.n, z3.ExprRef) else v.n
            return SymSeq(n, lambda i, v=v: self(v.elem(i)), v.tag)
        if isinstance(v, FilterSeq):
            return FilterSeq(self.t(v.m) if isinstance(v.m, z3.ExprRef) else v.m,
                             lambda i: self.t(v.cond(i)), lambda i: self(v.fn(i)))
        if isinstance(v, FlatSeq):
            return FlatSeq(self.t(v.m) if isinstance(v.m, z3.ExprRef) else v.m, lambda i: self(v.inner(i)))
        if hasattr(v, "subst"):
            return v.subst(self)
        if isinstance(v, (PyList, PyDict, PySet, PyInstance)):
            nd = {}
            ch = False
            for k, x in v.d.items():
                if isinstance(x, list):
                    y = [self._ent(e) for e in x]
                    if any(a is not b for a, b in zip(x, y)):
                        ch = True
                else:
                    y = self(x)
                    if y is not x:
                        ch = True
                nd[k] = y
            if not ch:
                return v
            o = v.copy_with(nd)
            o.frozen = True
            return o
        if isinstance(v, Bulk):
            return self._ent(v)
        if isinstance(v, Bound):
            return Bound(v.func, self(v.self_))
        return v

    def _ent(self, e):
        if isinstance(e, tuple):
            return self(e)
        if isinstance(e, Bulk):
            return Bulk(self.t(e.n) if isinstance(e.n, z3.ExprRef) else e.n,
                        lambda i: self(e.key(i)), lambda i: self(e.val(i)))
        return self(e)


def mentions(v, consts):
    """does the value depend on any of the z3 constants? (decided by substituting fresh ones)"""
    s = Subst([(c, alg.fresh("m", c.sort())) for c in consts])
    if isinstance(v, z3.ExprRef):
        return any(alg.contains(v, c) for c in consts)
    return s(v) is not v


class Dyn(object):
    """an argument of unknown type; it is resolved to one of `kinds` (name -> maker) on first use"""

    def __init__(self, name, kinds):
        self.name, self.kinds = name, kinds
        self.tag = z3.Int("kind_" + name)
        self.cache = {}

    def resolve(self, ip):
        ip.ctx.assume(z3.And(self.tag >= 0, self.tag < len(self.kinds)))
        for j in range(len(self.kinds)):
            if j == len(self.kinds) - 1 or ip.ctx.branch(self.tag == j):
                key = (j, ip.ctx.paths)
                if key not in self.cache:
                    self.cache.clear()
                    self.cache[key] = self.kinds[j][1](ip)
                return self.cache[key]

    def chosen(self, ip):
        """name of the kind this path has resolved to, or None if it never looked"""
        for j, (n, _) in enumerate(self.kinds):
            if not ip.ctx.feasible(self.tag != j):
                return n
        return None
