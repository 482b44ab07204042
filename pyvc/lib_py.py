"""Contracts of the Python builtins and standard library functions the verified code may use."""
from fractions import Fraction
import z3
from . import alg
from .core import Unsupported, PathEnd, PyExc
from .values import *
from .interp import (StarBulk, SliceV, pyfloat, typename)


def B(name, fn):
    return Builtin(name, fn)


def bval(t):
    return t if isinstance(t, bool) else mk(t)


# ------------------------------------------------------------------ types
def isinst(ip, v, T):
    """-> bool or z3 Bool"""
    if isinstance(v, Dyn):
        v = v.resolve(ip)
    if isinstance(T, tuple):
        acc = []
        for t in T:
            r = isinst(ip, v, t)
            if r is True:
                return True
            if r is not False:
                acc.append(r)
        return z3.Or(*acc) if acc else False
    if hasattr(v, "isinst"):
        r = v.isinst(ip, T)
        if r is not NotImplemented:
            return r
    if isinstance(T, PyClass):
        return isinstance(v, PyInstance) and T in v.cls.mro()
    if isinstance(T, LibType):
        if T.name == "object":
            return True
        if isinstance(v, Opaque) and T.name in v.types:
            return True
        r = T.pred(v)
        if r is None:
            raise Unsupported("isinstance(%r, %s)" % (v, T.name))
        return r
    if isinstance(T, type) and issubclass(T, BaseException):
        return isinstance(v, ExcValue) and issubclass(v.cls, T)
    if isinstance(T, (Builtin, Module)) or T is None or is_num(T) or isinstance(T, str):
        raise PyExc(TypeError, ("isinstance() arg 2 must be a type",))
    if hasattr(T, "holds"):
        return T.holds(v)
    raise Unsupported("isinstance with %r" % (T,))


def _isint(v):
    return isinstance(v, int) or (isinstance(v, Sym) and v.ty in ("int", "bool") and not v.np)


def _isfloat(v):
    return isinstance(v, (Fraction, float)) or (isinstance(v, Sym) and v.ty == "float")


def _isbool(v):
    return isinstance(v, bool) or (isinstance(v, Sym) and v.ty == "bool")


def to_int(ip, args, kw):
    if not args:
        return 0
    v = args[0]
    if isinstance(v, Dyn):
        v = v.resolve(ip)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return int(v)
    if isinstance(v, float):
        raise PyExc(ValueError if v != v else OverflowError, ())
    if isinstance(v, Sym):
        if v.ty == "bool":
            return mk(iterm(v))
        if v.ty == "int":
            return Sym(v.t)
        t = v.t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
            return mk(t.arg(0))
        if alg.contains_fn(t, "sqrt") and ip.ctx.valid(t >= 0):
            return mk(iterm(round_to(ip, t, False)))
        return mk(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyExc(ValueError, ())
    if hasattr(v, "to_int"):
        return v.to_int(ip)
    if v is None or isinstance(v, (PyList, PyDict, tuple)):
        raise PyExc(TypeError, ("int()",))
    raise Unsupported("int(%r)" % (v,))


def to_float(ip, args, kw):
    if not args:
        return Fraction(0)
    v = args[0]
    if isinstance(v, Dyn):
        v = v.resolve(ip)
    if isinstance(v, (bool, int)):
        return Fraction(int(v))
    if isinstance(v, (Fraction, float)):
        return v
    if isinstance(v, Sym):
        return mk(rterm(v)) if v.ty != "float" else Sym(v.t)
    if isinstance(v, str):
        try:
            return pyfloat(float(v), None)
        except ValueError:
            raise PyExc(ValueError, ())
    if hasattr(v, "to_float"):
        return v.to_float(ip)
    if v is None or isinstance(v, (PyList, PyDict, tuple)):
        raise PyExc(TypeError, ("float()",))
    raise Unsupported("float(%r)" % (v,))


def to_bool(ip, args, kw):
    return bval(ip.truth(args[0])) if args else False


def to_str(ip, args, kw):
    if not args:
        return ""
    v = args[0]
    if isinstance(v, str):
        return v
    if isinstance(v, bool) or v is None:
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, PyInstance):
        f, _ = v.cls.lookup("__str__")
        if f is not MISSING:
            return ip.call(Bound(f, v), [], {})
    if isinstance(v, Sym) and v.ty == "int":
        return IntStr(v.t)
    return AbsStr()


def to_list(ip, args, kw):
    if not args:
        return PyList([])
    return PyList(seq_value(ip, args[0]))


def seq_value(ip, v):
    s = ip.to_seq(v)
    if s.n is None and not hasattr(s, "m"):
        raise Unsupported("list of an infinite iterable")
    return s


def to_tuple(ip, args, kw):
    if not args:
        return ()
    if isinstance(args[0], tuple):
        return args[0]
    s = seq_value(ip, args[0])
    items = s.concrete()
    if items is not None:
        return tuple(items)
    return PyList(s, kind="tuple")


def to_dict(ip, args, kw):
    d = PyDict()
    if args:
        ip.dict_update(d, args[0])
    for k, v in kw.items():
        if k == "**":
            raise Unsupported("dict(**symbolic)")
        ip.dict_set(d, k, v)
    return d


def to_set(ip, args, kw):
    s = PySet([])
    if args:
        from .isets import IntSet, expr_of
        if isinstance(args[0], IntSet):
            return args[0]
        items = ip.to_seq(args[0]).concrete()
        if items is None:
            return IntSet(expr_of(ip, args[0]))
        for x in items:
            ip.set_add(s, x)
    return s


def set_op(op):
    def f(ip, a, k):
        r = a[0]
        for x in a[1:]:
            r = ip.binop(op, r, to_set(ip, [x], {}))
        return r
    return f


def b_type(ip, args, kw):
    v = args[0]
    if isinstance(v, Dyn):
        v = v.resolve(ip)
    if isinstance(v, PyInstance):
        return v.cls
    if _isbool(v):
        return ip.builtins["bool"]
    if _isint(v):
        return ip.builtins["int"]
    if _isfloat(v):
        return ip.builtins["float"]
    if isinstance(v, (str, AbsStr)):
        return ip.builtins["str"]
    if isinstance(v, tuple):
        return ip.builtins["tuple"]
    if isinstance(v, PyList):
        return ip.builtins[v.kind] if v.kind in ip.builtins else LibType(v.kind, lambda x: None)
    if isinstance(v, PyDict):
        return ip.builtins["dict"]
    if isinstance(v, ExcValue):
        return v.cls
    if v is None:
        return NONETYPE
    if hasattr(v, "pytype"):
        return v.pytype
    raise Unsupported("type(%r)" % (v,))


NONETYPE = LibType("NoneType", lambda v: v is None)


# ------------------------------------------------------------------ functions
def b_len(ip, args, kw):
    n = ip.length(args[0] if not isinstance(args[0], Dyn) else args[0].resolve(ip))
    if n is None:
        raise Unsupported("length of an infinite sequence")
    return n if isinstance(n, int) else mk(n)


def b_range(ip, args, kw):
    for a in args:
        if not _isint(a):
            if hasattr(a, "as_index"):
                continue
            raise PyExc(TypeError, ("range() needs integers",))
    args = [a.as_index(ip) if hasattr(a, "as_index") else a for a in args]
    if len(args) == 1:
        lo, hi, st = 0, args[0], 1
    else:
        lo, hi = args[0], args[1]
        st = args[2] if len(args) > 2 else 1
    if all(isinstance(x, int) for x in (lo, hi, st)):
        if st == 0:
            raise PyExc(ValueError, ())
        r = range(lo, hi, st)
        if len(r) > 5000:
            return PyList(SymSeq(z3.IntVal(len(r)), lambda t: mk(lo + st * t)), kind="range")
        return PyList(list(r), kind="range")
    l, h, s = iterm(lo), iterm(hi), iterm(st)
    if not ip.ctx.branch(s > 0):
        if ip.ctx.branch(s == 0):
            raise PyExc(ValueError, ())
        if not isinstance(st, int):
            raise Unsupported("range with a negative symbolic step")
        if not ip.ctx.branch(l > h):
            return PyList([], kind="range")
        m = l - h if st == -1 else (l - h + (-st) - 1) / (-st)
        return PyList(SymSeq(z3.simplify(m), lambda t: mk(l + s * t)), kind="range")
    if not ip.ctx.branch(h > l):
        return PyList([], kind="range")
    m = h - l if isinstance(st, int) and st == 1 else (h - l + s - 1) / s
    if isinstance(st, Sym):
        # a simpler term for the length, if there is one
        from .isets import bases
        for k in bases(s, h - l):
            for x in (k, k - 1, k + 1):
                if ip.ctx.valid(z3.And((x - 1) * s < h - l, h - l <= x * s)):
                    return PyList(SymSeq(z3.simplify(x), lambda t: mk(l + s * t)), kind="range")
    return PyList(SymSeq(z3.simplify(m), lambda t: mk(l + s * t)), kind="range")


def _minmax(op):
    def f(ip, args, kw):
        args = [a.resolve(ip) if isinstance(a, Dyn) else a for a in args]
        default = kw.get("default", MISSING)
        key = kw.get("key")
        if len(args) == 1 and not isinstance(args[0], StarBulk):
            items = ip.to_seq(args[0]).concrete()
            if items is None:
                raise Unsupported("min/max of a symbolic sequence")
        else:
            items = args
        if not items:
            if default is not MISSING:
                return default
            raise PyExc(ValueError, ("min() arg is an empty sequence",))
        best = items[0]
        kb = ip.call(key, [best], {}) if key is not None else best
        for x in items[1:]:
            kx = ip.call(key, [x], {}) if key is not None else x
            if key is None and is_num(x) and is_num(best) and not isinstance(x, float) and not isinstance(best, float) \
                    and (isinstance(x, Sym) or isinstance(best, Sym)):
                a, b = term(best), term(x)
                if a.sort() != b.sort() or a.sort() == z3.BoolSort():
                    a, b = rterm(best), rterm(x)
                c = (b < a) if op == "min" else (b > a)
                if ip.ctx.valid(c):
                    best = x
                elif not ip.ctx.valid(z3.Not(c)):
                    best = mk(z3.If(c, b, a))
                kb = best
                continue
            if ip.cond(ip.compare("Lt" if op == "min" else "Gt", kx, kb)):
                best, kb = x, kx
        return best
    return f


def b_sum(ip, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    v = args[0]
    if hasattr(v, "sum_all"):
        return v.sum_all(ip, start)
    seq = ip.to_seq(v)
    for p in (seq.parts if isinstance(seq, CatSeq) else [seq]):
        items = p.concrete()
        if items is not None:
            for x in items:
                start = ip.binop("Add", start, x)
        elif isinstance(p, SymSeq):
            probe = alg.fresh("i")
            e = p.elem(probe)
            if not is_num(e):
                raise Unsupported("sum of non-numbers")
            n = iterm(p.n)
            tot = alg.mk_sum(n, lambda i: rterm(p.elem(i))) if term(e).sort() == alg.R else ISUM(n, lambda i: iterm(p.elem(i)))
            start = ip.binop("Add", start, mk(tot))
        elif isinstance(p, FilterSeq):
            probe = alg.fresh("i")
            e = p.fn(probe)
            if isinstance(e, int) and e == 1:
                start = ip.binop("Add", start, mk(p.n))
            else:
                raise Unsupported("sum of a filtered sequence")
        else:
            raise Unsupported("sum")
    return start


def b_abs(ip, args, kw):
    v = args[0]
    if hasattr(v, "elementwise"):
        return v.elementwise(ip, lambda t: z3.If(t >= 0, t, -t))
    if isinstance(v, (int, Fraction, float)):
        return abs(v)
    if isinstance(v, Sym):
        t = iterm(v) if v.ty == "bool" else v.t
        return mk(z3.If(t >= 0, t, -t))
    raise Unsupported("abs")


def zip_seqs(ip, seqs):
    conc = [s.concrete() for s in seqs]
    if any(c is not None for c in conc):
        m = min(len(c) for c in conc if c is not None)
        cols = []
        stop = m
        for s, c in zip(seqs, conc):
            if c is not None:
                continue
            if s.n is not None:
                # symbolic length: how many of the m tuples exist?
                j = 0
                while j < stop and ip.ctx.branch(iterm(s.n) > j):
                    j += 1
                stop = j
        return CSeq([tuple(c[i] if c is not None else ip.seq_elem(s, i) for s, c in zip(seqs, conc))
                     for i in range(stop)])
    for s in seqs:
        if isinstance(s, FilterSeq):
            raise Unsupported("zip of a filtered sequence")
    n = None
    for s in seqs:
        if s.n is None:
            continue
        t = iterm(s.n)
        if n is None or n.eq(t):
            n = t
        elif ip.ctx.valid(n == t):
            pass
        elif ip.ctx.branch(t < n):
            n = t
    if all(isinstance(s, CatSeq) for s in seqs) and len({len(s.parts) for s in seqs}) == 1:
        if all(ip.ctx.valid(iterm(a.n) == iterm(b.n)) for ps in zip(*[s.parts for s in seqs]) for a in ps for b in ps):
            return ip._join([zip_seqs(ip, list(ps)) for ps in zip(*[s.parts for s in seqs])])
    return SymSeq(n, lambda t: tuple(ip.seq_elem(s, mk(t)) if isinstance(s, CatSeq) else s.elem(t) for s in seqs))


def lazy_src(ip, v):
    """sequence still to come from an iterable, without consuming it; plus a function to consume c elements"""
    if isinstance(v, (PyIter, GenObj)):
        if isinstance(v, GenObj):
            ip.gen_seq(v)
        parts = ip.remaining(v)
        seq = parts[0] if len(parts) == 1 else CatSeq(parts)

        def use(c):
            if c is not None:
                ip._advance_total(v, iterm(c) if not isinstance(c, int) else z3.IntVal(c), seq)
        return seq, use
    if hasattr(v, "stream"):
        return v.stream(ip)
    if isinstance(v, PyInstance):
        f, _ = v.cls.lookup("__iter__")
        if f is not MISSING:
            it = ip.call(Bound(f, v), [], {})
            if it is not v:
                return lazy_src(ip, it)
        nx, _ = v.cls.lookup("__next__")
        if nx is not MISSING:
            raise Unsupported("lazy iteration over an instance")
        raise PyExc(TypeError, ("not iterable",))
    if v is None or is_num(v) or isinstance(v, (PyFunc, Builtin, PyClass)):
        raise PyExc(TypeError, ("not iterable",))
    return ip.to_seq(v), (lambda c: None)


def lockstep(ip, seq, srcs, n):
    """iterator over seq that takes one element from each of srcs [(value, use)] for each of its own"""
    it = PyIter(seq)
    if isinstance(seq, FilterSeq):
        for v, use in srcs:
            use(n)
        return it
    for v, use in srcs:
        if isinstance(v, (PyIter, GenObj)):
            it.up.append((v, ip.rd(v, "pos")))
        else:
            use(n)
    return it


def b_zip(ip, args, kw):
    if args and isinstance(args[0], StarBulk):
        inner = args[0].seq
        if len(args) > 1:
            raise Unsupported("zip(*symbolic, ...)")
        probe = inner.elem(alg.fresh("i"))
        s = ip.to_seq(probe)
        w = s.concrete()
        if w is None:
            raise Unsupported("zip(*) of rows of symbolic length")
        return PyIter(CSeq([PyList(SymSeq(inner.n, lambda t, j=j: ip.to_seq(inner.elem(t)).concrete()[j]), kind="tuple")
                            for j in range(len(w))]))
    if not args:
        return PyIter(CSeq([]))
    src = [lazy_src(ip, a) for a in args]
    z = zip_seqs(ip, [s for s, _ in src])
    return lockstep(ip, z, [(a, use) for a, (_, use) in zip(args, src)], z.n)


def map_seq(ip, seq, fn):
    if isinstance(seq, CatSeq):
        return ip._join([map_seq(ip, p, fn) for p in seq.parts])
    items = seq.concrete()
    if items is not None:
        return CSeq([fn(x) for x in items])
    if isinstance(seq, FilterSeq):
        return FilterSeq(seq.m, seq.cond, lambda i: fn(seq.fn(i)))
    return SymSeq(seq.n, lambda t: fn(seq.elem(t)))


def enum_parts(ip, seq, start, k=0):
    out = []
    for p in (seq.parts if isinstance(seq, CatSeq) else [seq]):
        items = p.concrete()
        if items is not None:
            out.append(CSeq([(ip.binop("Add", start, j), x) for j, x in enumerate(items)]))
            start = ip.binop("Add", start, len(items))
        elif isinstance(p, SymSeq):
            out.append(SymSeq(p.n, lambda t, p=p, start=start: (mk(iterm(start) + t), p.elem(t))))
            if p.n is not None:
                start = ip.binop("Add", start, mk(iterm(p.n)))
        else:
            raise Unsupported("enumerate of a filtered sequence")
    return ip._join(out) if out else CSeq([])


def b_enumerate(ip, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    v = args[0]
    if hasattr(v, "enum_stream"):
        return v.enum_stream(ip, start)
    if isinstance(v, PyInstance) and getattr(v, "stream_hook", None) is None:
        f, _ = v.cls.lookup("__next__")
        if f is not MISSING:
            raise Unsupported("enumerate over an instance")
    if hasattr(v, "mapped"):
        return v.mapped(ip, lambda t, x: (mk(iterm(start) + t), x))
    seq, use = lazy_src(ip, v)
    return lockstep(ip, enum_parts(ip, seq, start), [(v, use)], seq.n)


def effects_body(ip, seq, fn):
    """apply fn to every element now (lazily applied functions are assumed not to depend on later state)"""
    out = PyList([])

    def body(v):
        ip.list_append(out, fn(v))
    for p in (seq.parts if isinstance(seq, CatSeq) else [seq]):
        items = p.concrete()
        if items is not None:
            for x in items:
                body(x)
        else:
            fr = Frame(None, None, None)
            fr.yields = out
            fr.collecting = True
            from .interp import EndlessX
            try:
                ip.generic_loop(p.n if not isinstance(p, FilterSeq) else p.m, p, body, fr)
            except EndlessX:
                pass
    return ip.rd(out, "seq")


def b_map(ip, args, kw):
    f = args[0]
    if len(args) == 2:
        v = args[1]
        if hasattr(v, "mapped"):
            return v.mapped(ip, lambda t, x: ip.call(f, [x], {}))
        seq, use = lazy_src(ip, v)
        use(seq.n)
        return PyIter(effects_body(ip, seq, lambda x: ip.call(f, [x], {})))
    src = [lazy_src(ip, a) for a in args[1:]]
    z = zip_seqs(ip, [s for s, _ in src])
    return PyIter(effects_body(ip, z, lambda x: ip.call(f, list(x), {})))


def b_filter(ip, args, kw):
    f = args[0]
    seq, use = lazy_src(ip, args[1])
    out = PyList([])

    def body(v):
        c = ip.truth(v) if f is None else ip.truth(ip.call(f, [v], {}))
        if c if isinstance(c, bool) else ip.ctx.branch(c):
            ip.list_append(out, v)
    for p in (seq.parts if isinstance(seq, CatSeq) else [seq]):
        items = p.concrete()
        if items is not None:
            for x in items:
                body(x)
        else:
            fr = Frame(None, None, None)
            ip.generic_loop(p.n if not isinstance(p, FilterSeq) else p.m, p, body, fr)
    return PyIter(ip.rd(out, "seq"))


def _anyall(isany):
    def f(ip, args, kw):
        v = args[0]
        if hasattr(v, "any_all"):
            return v.any_all(ip, isany)
        seq = ip.to_seq(v)
        acc = []
        for p in (seq.parts if isinstance(seq, CatSeq) else [seq]):
            items = p.concrete()
            if items is not None:
                for x in items:
                    t = ip.truth(x)
                    if isinstance(t, bool):
                        if t == isany:
                            return isany
                    else:
                        acc.append(t)
            elif isinstance(p, SymSeq):
                i = alg.fresh("i")
                t = ip.truth(p.elem(i))
                n = iterm(p.n)
                if isinstance(t, bool):
                    if t == isany:
                        acc.append(n >= 1 if isany else z3.Not(n >= 1))
                    continue
                g = z3.And(i >= 0, i < n)
                acc.append(z3.Exists([i], z3.And(g, t)) if isany else z3.ForAll([i], z3.Implies(g, t)))
            elif isinstance(p, FilterSeq):
                i = alg.fresh("i")
                t = ip.truth(p.fn(i))
                t = z3.BoolVal(t) if isinstance(t, bool) else t
                g = z3.And(i >= 0, i < iterm(p.m), p.cond(i))
                acc.append(z3.Exists([i], z3.And(g, t)) if isany else z3.ForAll([i], z3.Implies(g, t)))
            else:
                raise Unsupported("any/all")
        if not acc:
            return not isany
        return mk(z3.Or(*acc) if isany else z3.And(*acc))
    return f


def b_sorted(ip, args, kw):
    items = ip.to_seq(args[0]).concrete()
    if items is None:
        raise Unsupported("sorting a symbolic sequence")
    key = kw.get("key")
    ks = [ip.call(key, [x], {}) if key is not None else x for x in items]
    if all(isinstance(x, (int, str, Fraction)) for x in ks):
        r = [x for _, _, x in sorted(zip(ks, range(len(ks)), items), key=lambda q: (q[0], q[1]))]
        if kw.get("reverse"):
            r.reverse()
        return PyList(r)
    raise Unsupported("sorting symbolic values")


def b_iter(ip, args, kw):
    if len(args) == 2:
        raise Unsupported("iter(callable, sentinel)")
    return ip.iter_(args[0])


def b_next(ip, args, kw):
    return ip.next_(args[0], *args[1:])


def b_getattr(ip, args, kw):
    o = args[0].resolve(ip) if isinstance(args[0], Dyn) else args[0]
    if not isinstance(args[1], str):
        raise Unsupported("getattr with a symbolic name")
    return ip.getattr_(o, args[1], *(args[2:]))


def b_hasattr(ip, args, kw):
    o = args[0].resolve(ip) if isinstance(args[0], Dyn) else args[0]
    r = ip.hasattr_(o, args[1])
    return bval(r)


def b_callable(ip, args, kw):
    v = args[0].resolve(ip) if isinstance(args[0], Dyn) else args[0]
    if isinstance(v, (PyFunc, PyClass, Builtin, Bound, LibType, StaticM)) or isinstance(v, type):
        return True
    if isinstance(v, Opaque):
        return v.call is not None or "callable" in v.types
    if isinstance(v, PyInstance):
        return v.cls.lookup("__call__")[0] is not MISSING
    if hasattr(v, "do_call"):
        return True
    return False


def b_isinstance(ip, args, kw):
    return bval(isinst(ip, args[0], args[1]))


def b_issubclass(ip, args, kw):
    a, b = args
    if isinstance(b, tuple):
        return any(b_issubclass(ip, [a, x], {}) for x in b)
    if isinstance(a, PyClass):
        if isinstance(b, PyClass):
            return b in a.mro()
        if isinstance(b, type):
            return any(isinstance(x, type) and issubclass(x, b) for c in a.mro() for x in c.bases)
        return False
    if isinstance(a, type) and isinstance(b, type):
        return issubclass(a, b)
    raise Unsupported("issubclass")


def b_print(ip, args, kw):
    return None


def b_reversed(ip, args, kw):
    seq = ip.to_seq(args[0])
    items = seq.concrete()
    if items is not None:
        return PyIter(CSeq(list(reversed(items))))
    if isinstance(seq, SymSeq):
        return PyIter(SymSeq(seq.n, lambda t: seq.elem(z3.simplify(iterm(seq.n) - 1 - t))))
    if isinstance(seq, CatSeq):
        return PyIter(ip._join([ip.to_seq(b_reversed(ip, [PyList(p)], {})) for p in reversed(seq.parts)]))
    raise Unsupported("reversed")


def b_round(ip, args, kw):
    if len(args) == 1 and isinstance(args[0], (int, Fraction)):
        return round(args[0])
    raise Unsupported("round")


def b_divmod(ip, args, kw):
    return (ip.binop("FloorDiv", *args), ip.binop("Mod", *args))


def b_pow(ip, args, kw):
    return ip.binop("Pow", args[0], args[1])


def b_slice(ip, args, kw):
    if len(args) == 1:
        return SliceV(None, args[0], None)
    return SliceV(args[0], args[1], args[2] if len(args) > 2 else None)


def b_setattr(ip, args, kw):
    ip.setattr_(args[0], args[1], args[2])


def b_vars(ip, args, kw):
    o = args[0]
    if isinstance(o, PyInstance):
        return PyDict(list(o.d.items()))
    raise Unsupported("vars")


# ------------------------------------------------------------------ methods
def m_list_append(ip, a, k):
    ip.list_append(a[0], a[1])


def m_list_pop(ip, a, k):
    items = ip.rd(a[0], "seq").concrete()
    if items is None:
        raise Unsupported("pop from a symbolic list")
    items = list(items)
    try:
        v = items.pop(*[x for x in a[1:]])
    except IndexError:
        raise PyExc(IndexError, ())
    ip.wr(a[0], "seq", CSeq(items))
    return v


def m_deque_popleft(ip, a, k):
    return m_list_pop(ip, [a[0], 0], {})


def m_list_insert(ip, a, k):
    seq = ip.rd(a[0], "seq")
    items = seq.concrete()
    if items is not None and isinstance(a[1], int):
        items = list(items)
        items.insert(a[1], a[2])
        ip.wr(a[0], "seq", CSeq(items))
        return
    if a[1] == 0:
        ip.wr(a[0], "seq", ip.seq_cat(CSeq([a[2]]), seq))
        return
    raise Unsupported("insert")


def m_list_index(ip, a, k):
    seq = ip.rd(a[0], "seq") if isinstance(a[0], PyList) else CSeq(a[0])
    items = seq.concrete()
    x = a[1]
    if items is not None:
        for j, e in enumerate(items):
            s = ip.same(e, x)
            if s is True or (s is not False and ip.ctx.branch(s)):
                return j
        raise PyExc(ValueError, ("not in list",))
    if isinstance(seq, SymSeq):
        for s0, x0, k0 in ip.lib_state.get("found_at", []):
            if s0 is seq and ip.same(x0, x) is True:
                return mk(k0)
        if ip.contains(PyList(seq), x) is True:
            for s0, x0, k0 in reversed(ip.lib_state.get("found_at", [])):
                if s0 is seq and ip.same(x0, x) is True:
                    return mk(k0)
        raise PyExc(ValueError, ("not in list",))
    raise Unsupported("index")


def m_list_clear(ip, a, k):
    ip.wr(a[0], "seq", CSeq([]))


def m_list_count(ip, a, k):
    items = ip.rd(a[0], "seq").concrete()
    if items is None:
        raise Unsupported("count")
    r = [ip.same(e, a[1]) for e in items]
    if all(isinstance(x, bool) for x in r):
        return sum(r)
    raise Unsupported("count")


def m_list_copy(ip, a, k):
    return PyList(ip.rd(a[0], "seq"), a[0].kind)


def m_list_reverse(ip, a, k):
    r = b_reversed(ip, [a[0]], {})
    ip.wr(a[0], "seq", r.seq)


def m_dict_get(ip, a, k):
    v = ip.dict_get(a[0], a[1])
    if v is MISSING:
        return a[2] if len(a) > 2 else k.get("default")
    return v


def m_dict_setdefault(ip, a, k):
    v = ip.dict_get(a[0], a[1])
    if v is MISSING:
        v = a[2] if len(a) > 2 else None
        ip.dict_set(a[0], a[1], v)
    return v


def m_dict_update(ip, a, k):
    for x in a[1:]:
        ip.dict_update(a[0], x)
    for n, v in k.items():
        if n == "**":
            raise Unsupported("update(**symbolic)")
        ip.dict_set(a[0], n, v)


def view(fn):
    def f(ip, a, k):
        return PyList(fn(ip, a[0]), kind="view")
    return f


# ------------------------------------------------------------------ str
def m_str_format(ip, a, k):
    if isinstance(a[0], str) and all(isinstance(x, (str, int)) for x in list(a[1:]) + list(k.values())):
        try:
            return a[0].format(*a[1:], **k)
        except (IndexError, KeyError):
            raise PyExc(IndexError, ())
    return AbsStr()


def m_str_join(ip, a, k):
    items = ip.to_seq(a[1]).concrete()
    if isinstance(a[0], str) and items is not None and all(isinstance(x, str) for x in items):
        return a[0].join(items)
    return AbsStr()


def str_method(name):
    def f(ip, a, k):
        if isinstance(a[0], str) and all(isinstance(x, (str, int, tuple)) for x in a[1:]):
            try:
                r = getattr(a[0], name)(*a[1:])
            except ValueError:
                raise PyExc(ValueError, ())
            return PyList(list(r)) if isinstance(r, list) else r
        return AbsStr()
    return f


# ------------------------------------------------------------------ itertools
def it_islice(ip, a, k):
    if len(a) == 2:
        start, stop, step = 0, a[1], 1
    else:
        start, stop, step = a[1], a[2], (a[3] if len(a) > 3 else 1)
    start = 0 if start is None else start
    step = 1 if step is None else step
    for x in (start, stop, step):
        if x is None:
            continue
        if not _isint(x):
            raise PyExc(ValueError, ("islice needs integers",))
        if isinstance(x, Sym):
            if not ip.ctx.branch(iterm(x) >= 0):
                raise PyExc(ValueError, ("islice needs non-negative integers",))
        elif x < 0:
            raise PyExc(ValueError, ("islice needs non-negative integers",))
    if isinstance(step, Sym):
        if not ip.ctx.branch(step.t >= 1):
            raise PyExc(ValueError, ("islice step",))
    elif step < 1:
        raise PyExc(ValueError, ("islice step",))
    v = a[0]
    if hasattr(v, "islice"):
        return v.islice(ip, start, stop, step)
    if isinstance(v, PyInstance) and getattr(v, "islice_hook", None):
        return v.islice_hook(ip, start, stop, step)
    seq, use = lazy_src(ip, v)
    if stop is None:
        if seq.n is None:
            if isinstance(start, int) and start == 0 and step == 1:
                return PyIter(seq)
            return PyIter(SymSeq(None, lambda t: seq.elem(z3.simplify(iterm(start) + t * iterm(step)))))
        use(seq.n)
        return PyIter(ip.slice_seq(seq, SliceV(start, None, step)))
    plain = isinstance(start, int) and start == 0 and isinstance(step, int) and step == 1
    take = (lambda n: lockstep(ip, n, [(v, use)], n.n)) if plain else PyIter
    if seq.n is None:
        if isinstance(stop, int) and isinstance(start, int) and isinstance(step, int):
            if not plain:
                use(stop)
            return take(CSeq([ip.seq_elem(seq, i) for i in range(start, stop, step)]))
        if not plain:
            use(stop)
        lo, hi, st = iterm(start), iterm(stop), iterm(step)
        if not ip.ctx.branch(hi > lo):
            return PyIter(CSeq([]))
        m = z3.simplify(hi - lo) if isinstance(step, int) and step == 1 else z3.simplify((hi - lo + st - 1) / st)
        return take(SymSeq(m, lambda t: seq.elem(z3.simplify(lo + t * st))))
    if isinstance(seq, CatSeq):
        raise Unsupported("islice of a concatenation")
    if not plain:
        use(seq.n if not isinstance(stop, int) else stop)
    return take(ip.slice_seq(seq, SliceV(start, stop, step)))


def it_count(ip, a, k):
    start = a[0] if a else k.get("start", 0)
    step = a[1] if len(a) > 1 else k.get("step", 1)
    return PyIter(SymSeq(None, lambda t: mk((iterm if _isint(start) and _isint(step) else rterm)(start) + t * term(step))))


def it_repeat(ip, a, k):
    v = a[0]
    if len(a) > 1 or "times" in k:
        n = a[1] if len(a) > 1 else k["times"]
        if isinstance(n, int):
            return PyIter(CSeq([v] * n))
        return PyIter(SymSeq(z3.simplify(z3.If(n.t >= 0, n.t, 0)), lambda t: v))
    return PyIter(SymSeq(None, lambda t: v))


def it_chain(ip, a, k):
    seqs = [ip.to_seq(x) for x in a]
    return PyIter(ip._join(seqs) if seqs else CSeq([]))


def it_chain_from(ip, a, k):
    items = ip.to_seq(a[0]).concrete()
    if items is None:
        raise Unsupported("chain.from_iterable")
    return it_chain(ip, items, {})


def it_cycle(ip, a, k):
    seq = ip.to_seq(a[0])
    n = iterm(seq.n)
    return PyIter(SymSeq(None, lambda t: ip.seq_elem(seq, mk(t % n))))


def it_starmap(ip, a, k):
    seq, use = lazy_src(ip, a[1])
    use(seq.n)
    return PyIter(effects_body(ip, seq, lambda x: ip.call(a[0], ip.unpack_all(x), {})))


def it_product(ip, a, k):
    import itertools
    cols = [ip.to_seq(x).concrete() for x in a]
    if any(c is None for c in cols):
        raise Unsupported("product of symbolic sequences")
    return PyIter(CSeq([tuple(x) for x in itertools.product(*cols)]))


def it_combinations(ip, a, k):
    import itertools
    c = ip.to_seq(a[0]).concrete()
    if c is None or not isinstance(a[1], int):
        raise Unsupported("combinations of a symbolic sequence")
    return PyIter(CSeq([tuple(x) for x in itertools.combinations(c, a[1])]))


# ------------------------------------------------------------------ functools, collections
def ft_wraps(ip, a, k):
    src = a[0]

    def deco(ip, b, kk):
        f = b[0]
        if isinstance(f, PyFunc):
            f.attrs["__name__"] = ip.getattr_(src, "__name__", "f")
            f.attrs["__wrapped__"] = src
        return f
    return B("wraps", deco)


def ft_update_wrapper(ip, a, k):
    if len(a) != 2 or k:
        raise Unsupported("functools.update_wrapper with options")
    return ft_wraps(ip, [a[1]], {}).fn(ip, [a[0]], {})


def ft_partial(ip, a, k):
    f, args, kw = a[0], list(a[1:]), dict(k)

    def call(ip, b, kk):
        m = dict(kw)
        m.update(kk)
        return ip.call(f, args + list(b), m)
    return B("partial", call)


def ft_reduce(ip, a, k):
    items = ip.to_seq(a[1]).concrete()
    if items is None:
        seq = ip.to_seq(a[1])
        if not isinstance(seq, SymSeq) or seq.n is None or len(a) < 3 or not is_num(a[2]):
            raise Unsupported("reduce over a symbolic sequence")
        x, y = alg.fresh("x"), alg.fresh("y")
        r = ip.call(a[0], [Sym(x), Sym(y)], {})
        if not is_num(r) or not z3.simplify(iterm(r) - x * y).eq(z3.IntVal(0)) :
            raise Unsupported("reduce over a symbolic sequence")
        return mk(iterm(a[2]) * ip.product(iterm(seq.n), lambda i: iterm(seq.elem(i))))
    items = list(items)
    acc = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        acc = ip.call(a[0], [acc, x], {})
    return acc


def c_deque(ip, a, k):
    ml = a[1] if len(a) > 1 else k.get("maxlen")
    if ml is not None and not _isint(ml):
        raise PyExc(TypeError, ())
    seq = ip.to_seq(a[0]) if a else CSeq([])
    if ml is not None and not (isinstance(seq, CSeq) and not seq.items):
        n = iterm(seq.n)
        if ip.ctx.branch(n > iterm(ml)):
            seq = ip.slice_seq(seq, SliceV(mk(n - iterm(ml)), None, None))
    return PyList(seq, kind="deque", maxlen=ml)


def c_namedtuple(ip, a, k):
    name = a[0]
    fields = a[1].replace(",", " ").split() if isinstance(a[1], str) else ip.to_seq(a[1]).concrete()
    cls = PyClass(name, [], {})

    def new(ip, b, kk):
        o = b[0]
        vals = dict(zip(fields, b[1:]))
        vals.update(kk)
        if set(vals) != set(fields):
            raise PyExc(TypeError, ())
        for f in fields:
            ip.wr(o, f, vals[f])
        ip.wr(o, "_fields", tuple(fields))

    def it(ip, b, kk):
        return PyIter(CSeq([ip.rd(b[0], f) for f in fields]))

    def gi(ip, b, kk):
        return ip.getitem(tuple(ip.rd(b[0], f) for f in fields), b[1])
    cls.ns.update({"__init__": B("__init__", new), "__iter__": B("__iter__", it), "__getitem__": B("__getitem__", gi),
                   "__len__": B("__len__", lambda ip, b, kk: len(fields))})
    return cls


# ------------------------------------------------------------------ inspect
def insp_signature(ip, a, k):
    f = a[0]
    drop = 0
    if isinstance(f, PyClass):
        init, _ = f.lookup("__init__")
        if init is MISSING:
            return sig_obj(ip, [])
        f, drop = init, 1
    elif isinstance(f, Bound):
        f, drop = f.func, 1
    if "__wrapped__" in getattr(f, "attrs", {}):
        raise Unsupported("signature of a wrapped function")
    if not isinstance(f, PyFunc):
        raise Unsupported("signature of %r" % (f,))
    ar = f.node.args
    ps = []
    pos = ar.posonlyargs + ar.args
    nd = len(f.defaults)
    for i, p in enumerate(pos):
        j = i - (len(pos) - nd)
        ps.append((p.arg, f.defaults[j] if j >= 0 else EMPTY, "POSITIONAL_OR_KEYWORD"))
    ps = ps[drop:]
    if ar.vararg:
        ps.append((ar.vararg.arg, EMPTY, "VAR_POSITIONAL"))
    for p in ar.kwonlyargs:
        ps.append((p.arg, f.kwdefaults.get(p.arg, EMPTY), "KEYWORD_ONLY"))
    if ar.kwarg:
        ps.append((ar.kwarg.arg, EMPTY, "VAR_KEYWORD"))
    return sig_obj(ip, ps)


EMPTY = Opaque("inspect._empty", uid=-1)
KINDS = {}


def kind_const(n):
    if n not in KINDS:
        KINDS[n] = Opaque("kind." + n)
    return KINDS[n]


PARAM = PyClass("Parameter", [], {"empty": EMPTY})
for _n in ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "VAR_POSITIONAL", "KEYWORD_ONLY", "VAR_KEYWORD"):
    PARAM.ns[_n] = kind_const(_n)
SIG = PyClass("Signature", [], {"empty": EMPTY})


def sig_obj(ip, ps):
    d = PyDict([(n, PyInstance(PARAM, {"name": n, "default": v, "kind": kind_const(kd)})) for n, v, kd in ps])
    return PyInstance(SIG, {"parameters": d})


# ------------------------------------------------------------------ math / operator / time / logging
def m_uf(name, fn):
    def f(ip, a, k):
        v = a[0]
        t = rterm(v)
        if name in ("sqrt", "log") and not ip.ctx.valid(t >= 0 if name == "sqrt" else t > 0):
            if not ip.ctx.branch(t >= 0 if name == "sqrt" else t > 0):
                raise PyExc(ValueError, ("math domain error",))
        if name == "log" and len(a) > 1:
            return mk(fn(t) / fn(rterm(a[1])))
        return mk(fn(t))
    return B("math." + name, f)


def exact_sqrt(t):
    s = z3.simplify(t)
    if z3.is_rational_value(s):
        import math
        q = Fraction(s.as_fraction())
        if q >= 0:
            a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if a * a == q.numerator and b * b == q.denominator:
                return z3.RealVal(Fraction(a, b))
    return alg.SQRT(t)


def root_facts(ip, s, d, up):
    """d is the floor (ceiling) of p + q * sqrt(a) for an integer a and rationals p, q > 0: what that means in integers"""
    roots, todo = [], [s]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().name() == "sqrt":
            if not any(x.eq(y) for y in roots):
                roots.append(x)
        else:
            todo.extend(x.children())
    if len(roots) != 1:
        return
    r = roots[0]
    a = r.arg(0)
    if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL):
        a2 = z3.simplify(z3.ToInt(a))
        if not ip.ctx.valid(z3.ToReal(a2) == a):
            return
        a = a2
    else:
        a = a.arg(0)
    c0 = z3.simplify(z3.substitute(s, (r, z3.RealVal(0))))
    c1 = z3.simplify(z3.substitute(s, (r, z3.RealVal(1))) - c0)
    if not (z3.is_rational_value(c0) and z3.is_rational_value(c1)) or not z3.is_true(z3.simplify(s == c0 + c1 * r)) and not ip.ctx.valid(s == c0 + c1 * r):
        return
    p, q = c0.as_fraction(), c1.as_fraction()
    if q <= 0:
        return
    D = p.denominator * q.denominator // __import__("math").gcd(p.denominator, q.denominator)
    P, Q = int(p * D), int(q * D)
    # floor: d*D - P <= Q*sqrt(a) < (d+1)*D - P;  ceiling: (d-1)*D - P < Q*sqrt(a) <= d*D - P
    if up:
        lo, hi = (d - 1) * D - P, d * D - P
        f = z3.And(hi >= 0, Q * Q * a <= hi * hi, z3.Or(lo < 0, lo * lo < Q * Q * a))
    else:
        lo, hi = d * D - P, (d + 1) * D - P
        f = z3.And(hi > 0, Q * Q * a < hi * hi, z3.Or(lo < 0, lo * lo <= Q * Q * a))
    ip.ctx.assume(z3.Implies(a >= 0, f))


def round_to(ip, t, up):
    """ceiling / floor as int or z3 Int"""
    import math
    s = z3.simplify(t)
    neg = False
    if z3.is_rational_value(s):
        q = Fraction(s.as_fraction())
        return math.ceil(q) if up else math.floor(q)
    if z3.is_app(s) and s.decl().name() == "sqrt" and z3.is_rational_value(s.arg(0)):
        q = Fraction(s.arg(0).as_fraction())
        if q >= 0:
            f = math.isqrt(q.numerator // q.denominator)
            return f if not up or Fraction(f) ** 2 == q else f + 1
    d = alg.fresh("ceil" if up else "floor")
    x = z3.ToReal(d)
    root_facts(ip, s, d, up)
    ip.ctx.assume(z3.And(x - 1 < t, t <= x) if up else z3.And(x <= t, t < x + 1))
    return d


def b_isfinite(ip, a, k):
    v = a[0]
    if isinstance(v, float):
        return False
    if is_num(v):
        return True
    raise Unsupported("isfinite")


def m_comb(ip, a, k):
    import math
    if all(isinstance(x, int) for x in a):
        return math.comb(*a)
    raise Unsupported("comb of symbolic numbers")


def op2(name):
    return B(name, lambda ip, a, k: ip.binop(name, a[0], a[1]))


def cmp2(name):
    return B(name, lambda ip, a, k: ip.compare(name, a[0], a[1]))


def op_itemgetter(ip, a, k):
    ks = list(a)
    if len(ks) == 1:
        return B("itemgetter", lambda ip, b, kk: ip.getitem(b[0], ks[0]))
    return B("itemgetter", lambda ip, b, kk: tuple(ip.getitem(b[0], x) for x in ks))


def op_attrgetter(ip, a, k):
    return B("attrgetter", lambda ip, b, kk: ip.getattr_(b[0], a[0]))


_clock = [0]


def t_time(ip, a, k):
    t = z3.Real("clock_%d" % len(ip.lib_state.setdefault("clock", [])))
    ip.lib_state["clock"].append(t)
    return Sym(t)


def noop(ip, a, k):
    return None


def copy_copy(ip, a, k):
    v = a[0]
    if isinstance(v, PyList):
        return m_list_copy(ip, [v], {})
    if isinstance(v, PyDict):
        return PyDict(ip.rd(v, "ent"))
    if v is None or is_num(v) or isinstance(v, (str, tuple)):
        return v
    if hasattr(v, "copy_value"):
        return v.copy_value(ip)
    raise Unsupported("copy")


def copy_deepcopy(ip, a, k):
    v = a[0]
    if isinstance(v, PyList):
        return PyList(map_seq(ip, ip.rd(v, "seq"), lambda x: copy_deepcopy(ip, [x], {})), v.kind)
    if isinstance(v, PyDict):
        out = []
        for e in ip.rd(v, "ent"):
            out.append((e[0], copy_deepcopy(ip, [e[1]], {})) if isinstance(e, tuple) else
                       Bulk(e.n, e.key, lambda i, e=e: copy_deepcopy(ip, [e.val(i)], {})))
        return PyDict(out)
    if isinstance(v, tuple):
        return tuple(copy_deepcopy(ip, [x], {}) for x in v)
    return copy_copy(ip, a, k)


def install(ip):
    b = {}
    T = {}

    def ty(name, pred, call, attrs=None):
        T[name] = b[name] = LibType(name, pred, call, attrs)
    ty("int", lambda v: _isint(v), to_int)
    ty("float", lambda v: _isfloat(v), to_float)
    ty("bool", lambda v: _isbool(v), to_bool)
    ty("str", lambda v: isinstance(v, (str, AbsStr)), to_str, {"join": B("join", m_str_join), "format": B("format", m_str_format)})
    ty("list", lambda v: isinstance(v, PyList) and v.kind == "list", to_list)
    ty("tuple", lambda v: isinstance(v, tuple) or (isinstance(v, PyList) and v.kind == "tuple"), to_tuple)
    ty("dict", lambda v: isinstance(v, PyDict), to_dict)
    ty("set", lambda v: isinstance(v, PySet) or type(v).__name__ == "IntSet", to_set)
    ty("frozenset", lambda v: isinstance(v, PySet), to_set)
    ty("object", lambda v: True, lambda ip, a, k: Opaque("object"))
    ty("type", lambda v: isinstance(v, (PyClass, LibType, type)), b_type)
    ty("slice", lambda v: isinstance(v, SliceV), b_slice)
    ty("range", lambda v: isinstance(v, PyList) and v.kind == "range", b_range)
    b.update({n: B(n, f) for n, f in {
        "len": b_len, "min": _minmax("min"), "max": _minmax("max"), "sum": b_sum, "abs": b_abs, "zip": b_zip,
        "enumerate": b_enumerate, "map": b_map, "filter": b_filter, "any": _anyall(True), "all": _anyall(False),
        "sorted": b_sorted, "iter": b_iter, "next": b_next, "getattr": b_getattr, "hasattr": b_hasattr,
        "setattr": b_setattr, "callable": b_callable, "isinstance": b_isinstance, "issubclass": b_issubclass,
        "print": b_print, "reversed": b_reversed, "round": b_round, "divmod": b_divmod, "pow": b_pow, "vars": b_vars,
        "repr": to_str, "id": lambda ip, a, k: (_ for _ in ()).throw(Unsupported("id")),
    }.items()})
    b["property"] = B("property", lambda ip, a, k: Prop(a[0]))
    b["staticmethod"] = B("staticmethod", lambda ip, a, k: StaticM(a[0]))
    b["classmethod"] = B("classmethod", lambda ip, a, k: ClassM(a[0]))
    b["super"] = B("super", lambda ip, a, k: _super(ip, a))
    b["NotImplemented"] = Opaque("NotImplemented")
    b["Ellipsis"] = Ellipsis
    b["__name__"] = "__verif__"
    import builtins as bi
    for n in dir(bi):
        v = getattr(bi, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            b[n] = v
    ip.builtins = b
    seqm = {"append": m_list_append, "extend": lambda ip, a, k: ip.list_extend(a[0], a[1]), "pop": m_list_pop,
            "insert": m_list_insert, "index": m_list_index, "clear": m_list_clear, "count": m_list_count,
            "copy": m_list_copy, "reverse": m_list_reverse,
            "sort": lambda ip, a, k: ip.wr(a[0], "seq", b_sorted(ip, a, k).d["seq"])}
    ip.methods = {
        "list": seqm,
        "deque": dict(seqm, popleft=m_deque_popleft, appendleft=lambda ip, a, k: m_list_insert(ip, [a[0], 0, a[1]], {})),
        "tuple": {"index": m_list_index, "count": lambda ip, a, k: m_list_count(ip, [PyList(list(a[0])), a[1]], {})},
        "dict": {"get": m_dict_get, "items": view(Interp_items), "keys": view(Interp_keys), "values": view(Interp_values),
                 "update": m_dict_update, "setdefault": m_dict_setdefault,
                 "pop": lambda ip, a, k: ip.dict_pop(a[0], a[1], *(a[2:])),
                 "copy": lambda ip, a, k: PyDict(ip.rd(a[0], "ent")),
                 "clear": lambda ip, a, k: ip.wr(a[0], "ent", [])},
        "set": {"add": lambda ip, a, k: ip.set_add(a[0], a[1]),
                "union": set_op("BitOr"), "difference": set_op("Sub"), "intersection": set_op("BitAnd"),
                "issubset": lambda ip, a, k: all(ip.contains(a[1], x) is True for x in ip.rd(a[0], "items"))},
        "str": {n: str_method(n) for n in ("lower", "upper", "strip", "split", "replace", "startswith", "endswith", "rstrip",
                                          "lstrip", "title", "index", "find", "partition", "rpartition", "rsplit")},
        "num": {}, "generator": {"__next__": lambda ip, a, k: ip.next_(a[0]), "close": noop},
        "PyIter": {"__next__": lambda ip, a, k: ip.next_(a[0])},
    }
    ip.methods["str"]["format"] = m_str_format
    ip.methods["str"]["join"] = m_str_join

    def mod(name, **ns):
        ip.libs[name] = Module(name, ns)
    chain = LibType("chain", lambda v: False, it_chain, {"from_iterable": B("from_iterable", it_chain_from)})
    mod("itertools", islice=B("islice", it_islice), count=B("count", it_count), repeat=B("repeat", it_repeat), chain=chain,
        cycle=B("cycle", it_cycle), starmap=B("starmap", it_starmap), product=B("product", it_product),
        combinations=B("combinations", it_combinations))
    mod("functools", wraps=B("wraps", ft_wraps), update_wrapper=B("update_wrapper", ft_update_wrapper), partial=B("partial", ft_partial), reduce=B("reduce", ft_reduce))
    mod("collections", deque=LibType("deque", lambda v: isinstance(v, PyList) and v.kind == "deque", c_deque),
        namedtuple=B("namedtuple", c_namedtuple), OrderedDict=b["dict"])
    mod("collections.abc", Iterable=LibType("Iterable", lambda v: None), Callable=LibType("Callable", lambda v: None))
    mod("logging", **{n: B("logging." + n, noop) for n in ("error", "warning", "warn", "info", "debug", "critical", "log", "exception",
                                                          "basicConfig")})
    lg = Opaque("logger", attrs={n: B("logging." + n, noop) for n in ("error", "warning", "warn", "info", "debug", "critical")})
    ip.libs["logging"].d["getLogger"] = B("getLogger", lambda ip, a, k: lg)
    mod("time", time=B("time", t_time), perf_counter=B("time", t_time), sleep=B("sleep", noop), monotonic=B("time", t_time))
    ident = B("decorator", lambda ip, a, k: a[0])
    abcm = PyClass("ABCMeta", [], {})
    mod("abc", ABCMeta=abcm, abstractmethod=ident, ABC=PyClass("ABC", [], {}),
        abstractproperty=b["property"], abstractclassmethod=b["classmethod"], abstractstaticmethod=b["staticmethod"])
    mod("inspect", signature=B("signature", insp_signature), _empty=EMPTY, Parameter=PARAM, Signature=SIG)
    en = PyClass("Enum", [], {})
    en.is_enum = True
    mod("enum", Enum=en, unique=ident)
    mod("math", pi=Sym(alg.PI), e=Sym(alg.EXP(z3.RealVal(1))), inf=float("inf"), nan=float("nan"),
        sqrt=m_uf("sqrt", exact_sqrt), exp=m_uf("exp", alg.EXP), log=m_uf("log", alg.LOG), sin=m_uf("sin", alg.SIN),
        cos=m_uf("cos", alg.COS), pow=B("pow", lambda ip, a, k: ip.binop("Pow", to_float(ip, [a[0]], {}), a[1])),
        fabs=B("fabs", b_abs), isfinite=B("isfinite", b_isfinite),
        floor=B("floor", lambda ip, a, k: mk(iterm(round_to(ip, rterm(a[0]), False)))),
        ceil=B("ceil", lambda ip, a, k: mk(iterm(round_to(ip, rterm(a[0]), True)))),
        isqrt=B("isqrt", lambda ip, a, k: mk(iterm(round_to(ip, alg.SQRT(rterm(a[0])), False)))),
        prod=B("prod", lambda ip, a, k: ft_reduce(ip, [op2("Mult"), a[0], k.get("start", 1)], {})),
        comb=B("comb", m_comb))
    mod("operator", add=op2("Add"), sub=op2("Sub"), mul=op2("Mult"), truediv=op2("Div"), itemgetter=B("itemgetter", op_itemgetter),
        attrgetter=B("attrgetter", op_attrgetter), lt=cmp2("Lt"), le=cmp2("LtE"), gt=cmp2("Gt"), ge=cmp2("GtE"), eq=cmp2("Eq"),
        ne=cmp2("NotEq"), getitem=B("getitem", lambda ip, a, k: ip.getitem(a[0], a[1])),
        neg=B("neg", lambda ip, a, k: ip.binop("Sub", 0, a[0])))
    mod("numbers", Integral=LibType("Integral", lambda v: _isint(v)), Number=LibType("Number", lambda v: is_num(v)),
        Real=LibType("Real", lambda v: is_num(v)))
    mod("copy", copy=B("copy", copy_copy), deepcopy=B("deepcopy", copy_deepcopy))
    mod("typing")
    mod("__future__", print_function=None, division=None, absolute_import=None, unicode_literals=None)
    mod("sys", version_info=(3, 12, 0), maxsize=2 ** 63 - 1)
    mod("os")
    ip.isinst = lambda v, T: isinst(ip, v, T)


def Interp_items(ip, d):
    return ip.dict_items_seq(d)


def Interp_keys(ip, d):
    return ip.dict_keys_seq(d)


def Interp_values(ip, d):
    return ip.dict_values_seq(d)


def _super(ip, a):
    from .interp import SuperProxy
    return SuperProxy(a[0], a[1])
