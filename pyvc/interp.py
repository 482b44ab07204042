"""Symbolic execution of Python source (the running text of /repo, parsed on every run)."""
import ast
import os
from fractions import Fraction
import itertools
import z3
from . import alg
from .core import Unsupported, PathEnd, PyExc
from .values import *
from .values import _birth
from .isets import IntSet, expr_of


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class Track(object):
    ev0 = try_depth = head = -1

    def __init__(self, birth):
        self.birth = birth
        self.written = {}     # loc -> (obj, key, old)
        self.order = []
        self.first = {}


class Watch(object):
    """records which state that existed before is changed (a frame condition)"""

    def __init__(self, ip):
        self.ip, self.birth, self.old = ip, next(_birth), {}

    def note(self, o, key, v):
        if getattr(o, "birth", 0) < self.birth and (id(o), key) not in self.old:
            self.old[(id(o), key)] = (o, key, v)

    def stop(self):
        self.ip.watches.remove(self)
        out = []
        for o, key, v in self.old.values():
            now = (o.ns if isinstance(o, PyClass) else o.attrs if isinstance(o, PyFunc) else o.d).get(key, MISSING)
            if now is not v and not (is_num(now) and is_num(v) and self.ip.same(now, v) is True):
                out.append((o, key))
        return out


class CarrySeq(Seq):
    """a list modified by the loop body being summarised"""

    def __init__(self, base, k, log=(), maxlen=None, L=None):
        self.base, self.k, self.log, self.L = base, k, tuple(log), L
        self.maxlen = maxlen

    @property
    def n(self):
        na = sum(1 for e in self.log if e[0] == "append")
        if na == 0 and self.L is None:
            return self.base.n
        t = z3.simplify(self.L + na)
        return t

    def elem(self, t):
        t = z3.IntVal(t) if isinstance(t, int) else t
        for e in reversed(self.log):
            if e[0] == "store":
                if z3.simplify(e[1]).eq(z3.simplify(t)):
                    return e[2]
                raise Unsupported("read of another element of a list the loop writes")
            if e[0] == "append":
                if z3.simplify(self.L + sum(1 for x in self.log if x[0] == "append") - 1 - t).eq(z3.IntVal(0)):
                    return e[1]
                raise Unsupported("read of an element of a list the loop appends to")
        if t.eq(self.k):
            return self.base.elem(t)
        raise Unsupported("read of another element of a list the loop writes")


def _local_names(node):
    """names assigned in a function body (not nested functions)"""
    names, non = set(), set()

    def targets(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                names.add(x.id)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.iter_child_nodes(n):
                if not isinstance(n, ast.Lambda):
                    # walrus only; the first iterable is evaluated outside
                    for x in ast.walk(c):
                        if isinstance(x, ast.NamedExpr):
                            names.add(x.target.id)
            return
        if isinstance(n, (ast.Nonlocal, ast.Global)):
            non.update(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        for c in ast.iter_child_nodes(n):
            visit(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    return names - non


def _is_gen(node):
    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            return False
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        return any(visit(c) for c in ast.iter_child_nodes(n))
    body = node.body if isinstance(node.body, list) else [node.body]
    return any(visit(s) for s in body)


# kinds of opaque objects that certainly have no attributes but the given ones
DTYPE_ATTRS = {"as_datatype_enum", "as_numpy_dtype", "base_dtype", "is_bool", "is_compatible_with", "is_complex", "is_floating", "is_integer",
               "is_numeric", "is_numpy_compatible", "is_quantized", "is_subtype_of", "is_unsigned", "limits", "max", "min",
               "most_specific_common_supertype", "name", "placeholder_value", "real_dtype", "size", "experimental_as_proto",
               "experimental_from_proto", "experimental_type_proto", "cast", "from_tensors", "to_tensors", "flatten", "is_tensor_like"}
CLOSED = {"thing", "object", "an object", "anything", "schedule", "iterator", "updater"}


class Interp(object):
    ROOT = "/repo"

    def __init__(self, ctx):
        self.ctx = ctx
        self.modules = {}
        self.libs = {}
        self.tracks = []
        self.try_depth = 0
        self.watches = []
        self.idx_stack = []          # generic loop indices, outermost first
        self.summaries = {}          # qualname -> fn(interp, args, kwargs)
        self.depth = 0
        self.used = set()            # functions of /repo executed
        self.events = []             # ghost event log
        self.frame_guard = []        # cells that must not be written
        self.lib_state = {}
        self.class_hooks = {}
        self.poison = set()
        from . import lib_py, lib_np
        lib_py.install(self)
        lib_np.install(self)
        from . import lib_tf
        lib_tf.install(self)

    # ------------------------------------------------------------- heap
    def rd(self, o, key, default=MISSING):
        for tr in self.tracks:
            if o.birth < tr.birth:
                loc = (id(o), key)
                if loc not in tr.first:
                    tr.first[loc] = "r"
        v = o.d.get(key, default)
        if isinstance(v, Lazy):
            v = v.force()
        return v

    def wr(self, o, key, val):
        if o.frozen:
            raise Unsupported("mutation of an object created in a summarised loop")
        for tr in self.tracks:
            if o.birth < tr.birth:
                loc = (id(o), key)
                if loc not in tr.first:
                    tr.first[loc] = "w"
                if loc not in tr.written:
                    tr.written[loc] = (o, key, o.d.get(key, MISSING))
        for w in self.watches:
            w.note(o, key, o.d.get(key, MISSING))
        if val is MISSING:
            o.d.pop(key, None)
        else:
            o.d[key] = val

    def watch(self):
        w = Watch(self)
        self.watches.append(w)
        return w

    def undo(self, tr):
        for loc, (o, key, old) in tr.written.items():
            if old is MISSING:
                o.d.pop(key, None)
            else:
                o.d[key] = old

    # ------------------------------------------------------------- modules
    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.libs:
            m = self.libs[name]() if callable(self.libs[name]) else self.libs[name]
            self.modules[name] = m
            return m
        if name.split(".")[0] == "pysgmcmc":
            return self.load(name)
        raise Unsupported("import of %s" % name)

    def load(self, name):
        base = os.path.join(self.ROOT, *name.split("."))
        if os.path.isdir(base):
            path = os.path.join(base, "__init__.py")
        else:
            path = base + ".py"
        if not os.path.exists(path):
            raise PyExc(ImportError, (name,))
        m = Module(name)
        self.modules[name] = m
        m.d["__name__"] = name
        with open(path, "rb") as f:
            tree = ast.parse(f.read(), path)
        fr = Frame(None, None, m)
        fr.d = m.d
        fr.birth = 0
        fr.is_module = True
        for s in tree.body:
            self.exec_plain([s], fr)
        return m

    def get(self, modname, attr):
        m = self.import_module(modname)
        return self.getattr_(m, attr)

    # ------------------------------------------------------------- names
    def lookup(self, name, fr):
        f = fr
        if name not in fr.globals_:
            while f is not None and not getattr(f, "is_module", False):
                if getattr(f, "is_class", False) and f is not fr:
                    f = f.parent
                    continue
                if name in f.locals_:
                    v = self.rd(f, name)
                    if v is MISSING:
                        if getattr(f, "is_class", False):
                            f = f.parent
                            continue
                        raise PyExc(UnboundLocalError, (name,))
                    return v
                f = f.parent
        m = fr.module
        if name in m.d:
            return self.rd(m, name)
        if name in self.builtins:
            return self.builtins[name]
        raise PyExc(NameError, (name,))

    def assign_name(self, name, val, fr):
        f = fr
        if name in fr.globals_:
            self.wr(fr.module, name, val)
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.locals_:
                    self.wr(f, name, val)
                    return
                f = f.parent
            raise Unsupported("nonlocal " + name)
        if getattr(f, "is_module", False):
            self.wr(f.module, name, val)
            return
        f.locals_.add(name)
        self.wr(f, name, val)

    def assign(self, target, val, fr):
        if isinstance(target, ast.Name):
            self.assign_name(target.id, val, fr)
        elif isinstance(target, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            if not star:
                vals = self.unpack(val, len(target.elts))
                for t, v in zip(target.elts, vals):
                    self.assign(t, v, fr)
            else:
                i = star[0]
                after = len(target.elts) - i - 1
                seq = self.to_seq(val)
                items = seq.concrete()
                if items is None:
                    if i == 1 and after == 0 and isinstance(seq, SymSeq):
                        if not self.ctx.branch(iterm(seq.n) >= 1):
                            raise PyExc(ValueError, ("not enough values",))
                        self.assign(target.elts[0], seq.elem(0), fr)
                        rest = SymSeq(iterm(seq.n) - 1, lambda t: seq.elem(t + 1))
                        self.assign(target.elts[1].value, PyList(rest), fr)
                        return
                    raise Unsupported("starred assignment from a symbolic sequence")
                if len(items) < len(target.elts) - 1:
                    raise PyExc(ValueError, ("not enough values to unpack",))
                for t, v in zip(target.elts[:i], items[:i]):
                    self.assign(t, v, fr)
                self.assign(target.elts[i].value, PyList(items[i:len(items) - after]), fr)
                for t, v in zip(target.elts[i + 1:], items[len(items) - after:]):
                    self.assign(t, v, fr)
        elif isinstance(target, ast.Attribute):
            self.setattr_(self.eval(target.value, fr), target.attr, val)
        elif isinstance(target, ast.Subscript):
            self.setitem(self.eval(target.value, fr), self.eval_index(target.slice, fr), val)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, val, fr)
        else:
            raise Unsupported("assignment target " + type(target).__name__)

    def unpack(self, val, n):
        if isinstance(val, tuple):
            items = list(val)
        else:
            seq = self.to_seq(val)
            items = seq.concrete()
            if items is None:
                if seq.n is None:
                    raise Unsupported("unpacking an infinite sequence")
                if not self.ctx.branch(iterm(seq.n) == n):
                    raise PyExc(ValueError, ("unpack",))
                items = [self.seq_elem(seq, i) for i in range(n)]
        if len(items) != n:
            raise PyExc(ValueError, ("cannot unpack %d values into %d" % (len(items), n),))
        return items

    # ------------------------------------------------------------- truth
    def truth(self, v):
        """-> bool or z3 Bool"""
        if isinstance(v, Dyn):
            v = v.resolve(self)
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, Fraction, float)):
            return v != 0
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, Sym):
            return v.t if v.ty == "bool" else v.t != 0
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (PyList,)):
            n = self.rd(v, "seq").n
            return n > 0 if isinstance(n, int) else (True if n is None else iterm(n) > 0)
        if isinstance(v, PyDict):
            n = self.dict_len(v)
            return n > 0 if isinstance(n, int) else n > 0
        if isinstance(v, PySet):
            return len(self.rd(v, "items")) > 0
        if hasattr(v, "truth") and not isinstance(v, Opaque):
            return v.truth(self)
        if isinstance(v, Opaque):
            if v.truth is ARB:
                f = z3.Function("true_%s" % (v.uid,), *([alg.I] * len(v.idx) + [z3.BoolSort()]))
                return f(*v.idx) if v.idx else z3.Bool("true_%s" % (v.uid,))
            return v.truth
        if isinstance(v, PyInstance):
            f, _ = v.cls.lookup("__bool__")
            if f is not MISSING:
                return self.truth(self.call(Bound(f, v), [], {}))
            f, _ = v.cls.lookup("__len__")
            if f is not MISSING:
                return self.truth(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, (PyFunc, PyClass, Builtin, Module, Bound, LibType, GenObj, PyIter, type)):
            return True
        if isinstance(v, AbsStr):
            return True
        raise Unsupported("truth value of %r" % (v,))

    def cond(self, v):
        t = self.truth(v)
        return t if isinstance(t, bool) else self.ctx.branch(t)

    # ------------------------------------------------------------- statements
    def exec_plain(self, stmts, fr):
        """run statements that contain no yield"""
        for _ in self.exec_block(stmts, fr):
            raise Unsupported("yield in an unexpected place")

    def exec_block(self, stmts, fr):
        for s in stmts:
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                raise Unsupported("statement " + type(s).__name__)
            r = m(s, fr)
            if r is not None:
                yield from r

    def s_Pass(self, s, fr):
        pass

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Yield):
            return self._yield(s.value, fr, None)
        if isinstance(s.value, ast.YieldFrom):
            return self._yield_from(s.value, fr)
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def _yield(self, node, fr, target):
        v = self.eval(node.value, fr) if node.value is not None else None
        if fr.yields is not None:            # collecting
            self.list_append(fr.yields, v)
        else:
            yield v
        if target is not None:
            self.assign(target, None, fr)

    def _yield_from(self, node, fr):
        it = self.eval(node.value, fr)
        return self.for_loop_value(it, lambda v: self._yield_value(v, fr), fr)

    def _yield_value(self, v, fr):
        if fr.yields is not None:
            self.list_append(fr.yields, v)
        else:
            yield v

    def s_Assign(self, s, fr):
        if isinstance(s.value, ast.Yield):
            return self._yield(s.value, fr, s.targets[0])
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, fr)
            self.assign_name(s.target.id, self.inplace(op, cur, self.eval(s.value, fr)), fr)
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, fr)
            cur = self.getattr_(o, s.target.attr)
            self.setattr_(o, s.target.attr, self.inplace(op, cur, self.eval(s.value, fr)))
        elif isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, fr)
            i = self.eval_index(s.target.slice, fr)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.inplace(op, cur, self.eval(s.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, a, b):
        if hasattr(a, "inplace"):
            return a.inplace(self, op, b)
        if isinstance(a, PyList) and op == "Add":
            self.list_extend(a, b)
            return a
        if isinstance(a, PySet):
            r = self.binop(op, a, b)
            self.wr(a, "items", r.d["items"])
            return a
        if isinstance(a, PyDict) and op == "BitOr":
            self.dict_update(a, b)
            return a
        return self.binop(op, a, b)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.wr(fr, t.id, MISSING)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                i = self.eval_index(t.slice, fr)
                if isinstance(o, PyDict):
                    self.dict_pop(o, i)
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def s_Return(self, s, fr):
        raise ReturnX(self.eval(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise BreakX()

    def s_Continue(self, s, fr):
        raise ContinueX()

    def s_Global(self, s, fr):
        fr.globals_.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_If(self, s, fr):
        if self.cond(self.eval(s.test, fr)):
            return self.exec_block(s.body, fr)
        return self.exec_block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.cond(self.eval(s.test, fr)):
            raise PyExc(AssertionError, ())

    def s_Raise(self, s, fr):
        if s.exc is None:
            if getattr(fr, "cur_exc", None) is not None:
                raise fr.cur_exc
            raise Unsupported("bare raise")
        v = self.eval(s.exc, fr)
        if isinstance(v, ExcValue):
            raise PyExc(v.cls, v.args)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyExc(v, ())
        if isinstance(v, PyClass):
            raise PyExc(v, ())
        if isinstance(v, PyInstance):
            e = PyExc(v.cls, ())
            e.value = v
            raise e
        raise Unsupported("raise of %r" % (v,))

    def exc_matches(self, e, h):
        if isinstance(h, tuple):
            return any(self.exc_matches(e, x) for x in h)
        if isinstance(e.cls, PyClass):
            if isinstance(h, PyClass):
                return h in e.cls.mro()
            return any(isinstance(b, type) and issubclass(b, h) for c in e.cls.mro() for b in c.bases)
        if isinstance(h, type):
            return issubclass(e.cls, h)
        return False

    def s_Try(self, s, fr):
        try:
            try:
                self.try_depth += 1
                try:
                    yield from self.exec_block(s.body, fr)
                finally:
                    self.try_depth -= 1
            except PyExc as e:
                for h in s.handlers:
                    ht = self.eval(h.type, fr) if h.type is not None else BaseException
                    if self.exc_matches(e, ht):
                        if h.name:
                            self.assign_name(h.name, e.value or ExcValue(e.cls, e.eargs), fr)
                        old = getattr(fr, "cur_exc", None)
                        fr.cur_exc = e
                        yield from self.exec_block(h.body, fr)
                        fr.cur_exc = old
                        break
                else:
                    raise
            else:
                yield from self.exec_block(s.orelse, fr)
        finally:
            # Unsupported/PathEnd abort the whole run, so finally bodies only matter for real outcomes
            import sys
            et = sys.exc_info()[0]
            if et is None or issubclass(et, (PyExc, ReturnX, BreakX, ContinueX)):
                if s.finalbody:
                    yield from self.exec_block(s.finalbody, fr)

    def s_With(self, s, fr):
        def go(i):
            if i == len(s.items):
                yield from self.exec_block(s.body, fr)
                return
            it = s.items[i]
            cm = self.eval(it.context_expr, fr)
            v = self.cm_enter(cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            try:
                yield from go(i + 1)
            except (PyExc, ReturnX, BreakX, ContinueX):
                self.cm_exit(cm)
                raise
            self.cm_exit(cm)
        return go(0)

    def cm_enter(self, cm):
        if hasattr(cm, "cm_enter"):
            return cm.cm_enter(self)
        if isinstance(cm, PyInstance):
            return self.call(self.getattr_(cm, "__enter__"), [], {})
        if isinstance(cm, Opaque) and "__enter__" in cm.attrs:
            return self.call(cm.attrs["__enter__"], [], {})
        raise Unsupported("with %r" % (cm,))

    def cm_exit(self, cm):
        if hasattr(cm, "cm_exit"):
            return cm.cm_exit(self)
        if isinstance(cm, PyInstance):
            return self.call(self.getattr_(cm, "__exit__"), [None, None, None], {})
        return self.call(cm.attrs["__exit__"], [None, None, None], {})

    def s_Import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.assign_name(a.asname, m, fr)
            else:
                self.assign_name(a.name.split(".")[0], self.import_module(a.name.split(".")[0]), fr)

    def s_ImportFrom(self, s, fr):
        name = s.module or ""
        if s.level:
            pkg = fr.module.name.split(".")
            base = os.path.join(self.ROOT, *pkg)
            if not os.path.isdir(base):
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (s.level - 1)]
            name = ".".join(pkg + ([name] if name else []))
        for a in s.names:
            sub = name + "." + a.name
            p = os.path.join(self.ROOT, *sub.split("."))
            if name.split(".")[0] == "pysgmcmc":
                m = self.import_module(name)
                if a.name in m.d:
                    v = m.d[a.name]
                elif os.path.exists(p + ".py") or os.path.isdir(p):
                    v = self.import_module(sub)
                else:
                    raise PyExc(ImportError, (a.name,))
            else:
                if sub in self.libs:
                    v = self.import_module(sub)
                else:
                    v = self.getattr_(self.import_module(name), a.name)
            self.assign_name(a.asname or a.name, v, fr)

    def s_FunctionDef(self, s, fr):
        f = self.make_func(s, fr, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, fr), [v], {})
        self.assign_name(s.name, v, fr)

    def make_func(self, node, fr, name):
        a = node.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = {k.arg: self.eval(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        parent = None if getattr(fr, "is_module", False) else fr
        while parent is not None and getattr(parent, "is_class", False):
            parent = parent.parent
        pre = getattr(fr, "qual", "")
        q = (pre + "." if pre else fr.module.name + ".") + name
        ln = getattr(node, "_vc_locals", None)
        if ln is None:
            ln = node._vc_locals = (_local_names(node), _is_gen(node))
        f = PyFunc(node, name, defaults, kwd, parent, fr.module, q, ln[0], ln[1])
        return f

    def s_ClassDef(self, s, fr):
        bases = []
        for b in s.bases:
            v = self.eval(b, fr)
            bases.append(v)
        cf = Frame(None, fr if not getattr(fr, "is_module", False) else None, fr.module)
        cf.is_class = True
        pre = getattr(fr, "qual", "")
        cf.qual = (pre + "." if pre else fr.module.name + ".") + s.name
        self.exec_plain(s.body, cf)
        cls = PyClass(s.name, bases, cf.d, fr.module)
        cls.qual = cf.qual
        for k, v in list(cf.d.items()):
            f = v.f if isinstance(v, (StaticM, ClassM)) else v.fget if isinstance(v, Prop) else v
            if isinstance(f, PyFunc) and f.owner is None:
                f.owner = cls
        if any(getattr(b, "is_enum", False) for b in bases if not isinstance(b, (int, str))):
            cls.enum = True
            for k, v in list(cf.d.items()):
                if isinstance(v, (str, int)) and not k.startswith("_"):
                    m = PyInstance(cls, {"name": k, "value": v})
                    m.birth = 0
                    m.member = k
                    cf.d[k] = m
        v = cls
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, fr), [v], {})
        self.assign_name(s.name, v, fr)

    # ------------------------------------------------------------- loops
    def s_While(self, s, fr):
        def gen():
            n = 0
            while True:
                if isinstance(s.test, ast.Constant) and s.test.value and (fr.yields is not None or n > 40):
                    self.generic_while(s, fr)
                    return
                tv = self.truth(self.eval(s.test, fr))
                if not isinstance(tv, bool):
                    tv2 = z3.simplify(tv)
                    if z3.is_true(tv2) or z3.is_false(tv2):
                        tv = z3.is_true(tv2)
                if isinstance(tv, bool) and not tv:
                    yield from self.exec_block(s.orelse, fr)
                    return
                if isinstance(tv, bool) and n < 300:
                    n += 1
                    try:
                        yield from self.exec_block(s.body, fr)
                    except BreakX:
                        return
                    except ContinueX:
                        pass
                    continue
                broke = self.generic_while(s, fr)
                if s.orelse and not broke:
                    yield from self.exec_block(s.orelse, fr)
                return
        return gen()

    def generic_while(self, s, fr):
        natural = [False]

        def body(_):
            tv = self.truth(self.eval(s.test, fr))
            if not (tv if isinstance(tv, bool) else self.ctx.branch(tv)):
                natural[0] = True
                raise BreakX()
            natural[0] = False
            self.exec_plain(s.body, fr)
        self.generic_loop(None, None, body, fr)
        return not natural[0]

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)

        def body(v):
            self.assign(s.target, v, fr)
            yield from self.exec_block(s.body, fr)

        def gen():
            broke = yield from self.for_loop_value(it, body, fr)
            if not broke and s.orelse:
                yield from self.exec_block(s.orelse, fr)
        return gen()

    def for_loop_value(self, it, body, fr):
        """iterate over the value `it`; body(v) is a generator function; returns True after break"""
        if isinstance(it, GenObj) and self.rd(it, "seq") is None and not self.gen_collectable(it):
            # run the inner generator step by step
            while True:
                try:
                    v = self.next_(it)
                except PyExc as e:
                    if e.cls is StopIteration:
                        return False
                    raise
                try:
                    yield from body(v)
                except BreakX:
                    return True
                except ContinueX:
                    pass
        it2 = self.iter_(it)
        parts = self.remaining(it2)
        if parts is None:
            while True:
                try:
                    v = self.next_(it2)
                except PyExc as e:
                    if e.cls is StopIteration:
                        return False
                    raise
                try:
                    yield from body(v)
                except BreakX:
                    return True
                except ContinueX:
                    pass
        for p in parts:
            items = p.concrete()
            if items is not None:
                for v in items:
                    self.advance(it2, 1)
                    try:
                        yield from body(v)
                    except BreakX:
                        return True
                    except ContinueX:
                        pass
            else:
                if fr.yields is None and fr.func is not None and getattr(fr.func, "isgen", False):
                    raise Unsupported("symbolic loop in a generator that is run step by step")

                def plain(v):
                    for _ in body(v):
                        raise Unsupported("yield inside a symbolic loop")
                r = self.generic_loop(p.n if not isinstance(p, FilterSeq) else p.m, p, plain, fr, it2)
                if r:
                    return True
        return False

    def advance(self, it, c):
        if isinstance(it, PyIter):
            self.move(it, c)

    def move(self, it, c):
        """it and what it is fed from take c elements"""
        pos = self.rd(it, "pos")
        for v, base in getattr(it, "up", ()):
            here = self.rd(v, "pos")
            if not z3.is_true(z3.simplify(iterm(here) == iterm(base) + iterm(pos))):
                raise Unsupported("an iterator is used beside one it feeds")
            self.move(v, c)
        self.wr(it, "pos", self.binop("Add", pos, c))

    def remaining(self, it):
        """list of sequence parts still to come from an iterator"""
        if isinstance(it, PyIter):
            pos = self.rd(it, "pos")
            seq = it.seq
            if isinstance(pos, int) and pos == 0:
                return seq.parts if isinstance(seq, CatSeq) else [seq]
            if isinstance(seq, CSeq) and isinstance(pos, int):
                return [CSeq(seq.items[pos:])]
            if isinstance(seq, CSeq):
                raise Unsupported("symbolic position in a literal sequence")
            if isinstance(seq, (SymSeq,)):
                p = iterm(pos)
                n = None if seq.n is None else z3.simplify(z3.If(iterm(seq.n) >= p, iterm(seq.n) - p, 0))
                return [SymSeq(n, lambda t: seq.elem(t + p))]
            raise Unsupported("iteration from the middle of a sequence")
        if isinstance(it, GenObj):
            seq = self.gen_seq(it)
            pos = self.rd(it, "pos")
            return self.remaining_of(seq, pos)
        if hasattr(it, "remaining"):
            return it.remaining(self)
        return None

    def remaining_of(self, seq, pos):
        if isinstance(pos, int) and pos == 0:
            return seq.parts if isinstance(seq, CatSeq) else [seq]
        if isinstance(seq, CSeq) and isinstance(pos, int):
            return [CSeq(seq.items[pos:])]
        p = iterm(pos)
        if isinstance(seq, SymSeq):
            n = None if seq.n is None else z3.simplify(z3.If(iterm(seq.n) >= p, iterm(seq.n) - p, 0))
            return [SymSeq(n, lambda t: seq.elem(t + p))]
        raise Unsupported("iteration from the middle of a sequence")

    # -- the generic iteration -----------------------------------------
    def generic_loop(self, n, seq, body, fr, it=None):
        """Summarise `for v in seq: body(v)` for symbolic length n (None: endless).

        The body is executed once for a generic index k from a generic state.  Locations it modifies are
        classified (never carried / counter / sum / append / store at k); anything else is Unsupported.
        Returns True if the loop was left by break."""
        ctx = self.ctx
        nt = None if n is None else iterm(n)
        maybe_empty = False
        if nt is not None:
            if ctx.locals and not isinstance(seq, FilterSeq) and not ctx.valid(nt >= 1) and not ctx.valid(nt < 1):
                # inside a summarised loop: loops that only add up or multiply need no case distinction
                maybe_empty = True
            elif not ctx.branch(nt >= 1):
                return False
        carried = {}           # loc -> (obj, key)
        for attempt in range(12):
            k = alg.fresh("k")
            rng = [k >= 0] + ([k < nt] if nt is not None else [])
            cand, consts = {}, [k]
            tr = Track(next(_birth))
            # values of carried locations at the head of iteration k
            for loc, (o, key) in carried.items():
                v0 = o.d.get(key, MISSING)
                cv, cs = self.carry_value(o, key, v0, k)
                cand[loc] = (o, key, v0, cv)
                consts.extend(cs)
            firsts = {}
            ev0 = len(self.events)
            path_events = []

            def one(_pc):
                tr.written.clear()
                tr.first.clear()
                del self.events[ev0:]
                for loc, (o, key, v0, cv) in cand.items():
                    o.d[key] = cv
                try:
                    if isinstance(seq, FilterSeq):
                        ctx.assume(seq.cond(k))
                    v = None if seq is None else (seq.fn(k) if isinstance(seq, FilterSeq) else seq.elem(k))
                    try:
                        body(v)
                        out = ("next",)
                    except ContinueX:
                        out = ("next",)
                    except BreakX:
                        out = ("break",)
                    except ReturnX as r:
                        out = ("return", r.v)
                    except PyExc as e:
                        out = ("raise", e)
                    fin = {}
                    for loc, (o, key, old) in tr.written.items():
                        fin[loc] = (o, key, o.d.get(key, MISSING))
                    for loc in tr.first:
                        if tr.first[loc] == "r" or loc not in firsts:
                            if firsts.get(loc) != "r":
                                firsts[loc] = tr.first[loc]
                    if len(self.events) != ev0:
                        path_events.append((out[0], self.events[ev0:]))
                    else:
                        path_events.append((out[0], []))
                    return out, fin
                finally:
                    self.undo(tr)
                    for loc, (o, key, v0, cv) in cand.items():
                        if v0 is MISSING:
                            o.d.pop(key, None)
                        else:
                            o.d[key] = v0

            tr.ev0, tr.try_depth = ev0, self.try_depth
            self.tracks.append(tr)
            self.idx_stack.append(k)
            hoist = None
            try:
                paths = self._local(consts, rng, one, cand)
            except HoistGen as h:
                hoist = h.g
            finally:
                self.tracks.pop()
                self.idx_stack.pop()
            if hoist is not None:
                del self.events[ev0:]
                if any(hoist.birth < t.birth for t in self.tracks):
                    raise HoistGen(hoist)
                self.gen_seq(hoist)
                continue
            del self.events[ev0:]
            # what the continuing iterations do; the leaving iteration is executed again from its own state
            new_events = [e for o, e in path_events if o == "next"]
            if not any(new_events):
                new_events = []
            # locations written, and read before written on some path
            missing = []
            allw = {}
            for pc, (out, fin) in paths:
                for loc, (o, key, v) in fin.items():
                    allw[loc] = (o, key)
            for loc, (o, key) in allw.items():
                if loc in carried:
                    continue
                partially = any(loc not in fin for pc, (out, fin) in paths if out[0] == "next")
                if firsts.get(loc) == "r" or (partially and o.d.get(key, MISSING) is not MISSING):
                    missing.append((loc, o, key))
            # iterator being consumed by the loop itself is handled by the engine
            if missing:
                for loc, o, key in missing:
                    carried[loc] = (o, key)
                continue
            if maybe_empty:
                if new_events or any(out[0] != "next" for pc, (out, fin) in paths) or not paths or \
                        any(not isinstance(c[3], Sym) for c in cand.values()) or \
                        any(o.d.get(key, MISSING) is not MISSING for loc, (o, key) in allw.items() if loc not in cand):
                    maybe_empty = False
                    carried = {}
                    if not ctx.branch(nt >= 1):
                        return False
                    continue
                r = self._finish_loop(paths, cand, allw, k, nt, seq, body, fr, it, rng, new_events, consts)
                for loc, (o, key) in allw.items():
                    if loc not in cand:
                        self.wr(o, key, Lazy(self, None))
                return r
            return self._finish_loop(paths, cand, allw, k, nt, seq, body, fr, it, rng, new_events, consts)
        raise Unsupported("loop state does not stabilise")

    def _local(self, consts, rng, one, cand):
        """all local paths of the generic iteration under its range assumptions"""
        ctx = self.ctx
        from .core import Local
        loc = Local(consts)
        loc.work = [[]]
        out = []
        ctx.locals.append(loc)
        head = list(rng)
        for l in cand.values():
            head.extend(getattr(l[3], "head_facts", []) or [])
        head.extend(self._carry_facts)
        try:
            n = 0
            while loc.work:
                loc.prefix = loc.work.pop()
                loc.pos = 0
                loc.pc = list(head)
                self.tracks[-1].head = len(head)
                n += 1
                if n > 120:
                    raise Unsupported("too many paths through a loop body")
                try:
                    r = one(loc.pc)
                    out.append((loc.pc[len(head):], r))
                except PathEnd:
                    pass
        finally:
            ctx.locals.pop()
        return out

    _carry_facts = ()

    def carry_value(self, o, key, v0, k):
        """symbolic value of a loop-carried location at the head of iteration k"""
        if v0 is MISSING:
            return MISSING, []
        if isinstance(v0, bool) or v0 is None or isinstance(v0, (str, PyClass, Opaque, PyInstance, PyFunc, Bound, Builtin)):
            return v0, []
        if isinstance(v0, int) or (isinstance(v0, Sym) and v0.ty == "int"):
            c = alg.fresh("carry")
            return Sym(c), [c]
        if isinstance(v0, Fraction) or (isinstance(v0, Sym) and v0.ty == "float"):
            c = alg.fresh("carry", alg.R)
            return Sym(c), [c]
        if isinstance(v0, CarrySeq):
            L = alg.fresh("len")
            cv = CarrySeq(v0, k, (), getattr(o, "maxlen", None), L)
            return cv, [L]
        if isinstance(v0, Seq):
            if v0.n is None:
                raise Unsupported("modifying an infinite sequence in a loop")
            L = alg.fresh("len")
            cv = CarrySeq(v0, k, (), getattr(o, "maxlen", None), L)
            cv.head_facts = [L >= 0]
            if cv.maxlen is not None:
                cv.head_facts.append(L < iterm(cv.maxlen))
            return cv, [L]
        if isinstance(v0, list) and isinstance(o, PyDict):
            return list(v0) + [CarryMark()], []
        if hasattr(v0, "carry"):
            return v0.carry(self)
        raise Unsupported("loop-carried value %s = %r" % (key, v0))

    def _finish_loop(self, paths, cand, allw, k, nt, seq, body, fr, it, rng, new_events, consts):
        ctx = self.ctx
        nexts = [(pc, fin) for pc, (out, fin) in paths if out[0] == "next"]
        exits = [(pc, out, fin) for pc, (out, fin) in paths if out[0] != "next"]
        rng_and = z3.And(*rng)
        # ---- closed forms of carried locations
        pairs = []      # (carry const, lambda t: term at the head of iteration t)
        post = {}       # loc -> fn(nterm) -> final value after n iterations
        merged = {}

        def pcond(pc):
            return z3.And(*pc) if pc else z3.BoolVal(True)

        def merge(vals):
            """vals: list of (pc, value) over the continuing paths"""
            first = vals[0][1]
            if all(v is first for _, v in vals):
                return first
            if all(is_num(v) and not isinstance(v, float) for _, v in vals):
                t = None
                for pc, v in reversed(vals):
                    x = term(v)
                    if t is not None and x.sort() != t.sort():
                        x, t = rterm(v), alg.to_real(t)
                    t = x if t is None else z3.If(pcond(pc), x, t)
                return mk(t)
            if len(vals) == 1:
                return first
            eqs = [self.same(first, v) for _, v in vals[1:]]
            if all(e is True for e in eqs):
                return first
            if hasattr(first, "merge"):
                return first.merge(self, [(pcond(pc), v) for pc, v in vals])
            if all(isinstance(v, tuple) for _, v in vals) and len({len(v) for _, v in vals}) == 1:
                return tuple(merge([(pc, v[i]) for pc, v in vals]) for i in range(len(first)))
            raise Unsupported("different values %r / %r on the paths of a loop body" % (first, vals[1][1]))

        todo = dict(cand)
        closed = {}
        nums = {}
        for loc, (o, key, v0, cv) in cand.items():
            vals = [(pc, fin[loc][2] if loc in fin else cv) for pc, fin in nexts]
            if not vals:
                continue
            if isinstance(cv, Sym):
                nums[loc] = (o, key, v0, cv, merge(vals))
        # numbers: iterate until all are closed
        progress = True
        pending = dict(nums)
        known = []       # (const, fn)
        while pending and progress:
            progress = False
            for loc, (o, key, v0, cv, fv) in list(pending.items()):
                c = cv.t
                others = [p[3].t for l, p in pending.items() if l != loc]
                ft = term(fv)
                # substitute known closed forms (at iteration k)
                if known:
                    ft = z3.substitute(ft, *[(kc, fn(k)) for kc, fn in known])
                if ft.sort() != c.sort():
                    if c.sort() == alg.I:
                        # int accumulator became float: restart with a real accumulator is not supported
                        o.d[key] = v0
                        raise RestartReal(o, key)
                    ft = alg.to_real(ft)
                e = z3.simplify(ft - c)
                if any(alg.contains(e, x) for x in others):
                    continue
                fac = alg.factor_of(ft, c)
                if fac is not None and nt is not None and not isinstance(seq, FilterSeq):
                    progress = True
                    pending.pop(loc)
                    v0t = term(v0) if c.sort() == alg.I else rterm(v0)
                    sofar = alg.uf(alg.fresh("prod").decl().name(), alg.I, c.sort())
                    whole = self.product(nt, lambda i, fac=fac: z3.substitute(fac, (k, i)))
                    if whole.sort() != c.sort():
                        raise Unsupported("product of mixed numbers")
                    fn = lambda t, v0t=v0t, sofar=sofar, whole=whole: v0t * (whole if t.eq(nt) else sofar(t))
                    known.append((c, fn))
                    closed[loc] = fn
                    continue
                if alg.contains(e, c):
                    nn = alg.Norm()
                    e2 = z3.simplify(z3.substitute(e, (c, z3.IntVal(0) if c.sort() == alg.I else z3.RealVal(0))))
                    if nn.eq(alg.to_real(e), alg.to_real(e2)):
                        e = e2
                    else:
                        # invariant under branch conditions? e.g. reset patterns
                        raise Unsupported("loop-carried number %s is not a counter or a sum" % (key,))
                progress = True
                pending.pop(loc)
                v0t = term(v0) if c.sort() == alg.I else rterm(v0)
                if z3.is_int_value(e) and e.as_long() == 0:
                    fn = lambda t, v0t=v0t: v0t
                elif not alg.contains(e, k):
                    fn = (lambda t, v0t=v0t, e=e: v0t + e * t) if c.sort() == alg.I else \
                        (lambda t, v0t=v0t, e=e: v0t + e * z3.ToReal(t))
                elif c.sort() == alg.R:
                    fn = lambda t, v0t=v0t, e=e: v0t + alg.mk_sum(t, lambda i: z3.substitute(e, (k, i)))
                else:
                    fn = lambda t, v0t=v0t, e=e: v0t + ISUM(t, lambda i: z3.substitute(e, (k, i)))
                known.append((c, fn))
                closed[loc] = fn
        if pending:
            raise Unsupported("mutually dependent loop-carried numbers")
        for loc, fn in closed.items():
            o, key, v0, cv, fv = nums[loc]
            post[loc] = (o, key, lambda t, fn=fn: mk(fn(t)))

        def at(v, t):
            """value computed in iteration k, for iteration t"""
            prs = [(k, t)] + [(c, fn(t)) for c, fn in known]
            return Subst(prs)(v)

        def at_term(x, t):
            return z3.substitute(x, *([(c, fn(k)) for c, fn in known])) if False else \
                z3.simplify(z3.substitute(z3.substitute(x, *[(c, fn(k)) for c, fn in known]) if known else x, (k, t)))

        # fixed-value invariants
        lens = []
        for loc, (o, key, v0, cv) in cand.items():
            if loc in closed or not nexts:
                continue
            vals = [(pc, fin[loc][2] if loc in fin else cv) for pc, fin in nexts]
            if isinstance(cv, CarrySeq):
                post[loc] = self._close_seq(o, key, v0, cv, vals, k, nt, at, pcond, known, lens, nexts, seq, rng)
                continue
            if isinstance(v0, list) and isinstance(o, PyDict):
                post[loc] = self._close_dict(o, key, v0, cv, vals, k, at, merge)
                continue
            if hasattr(cv, "close_carry"):
                post[loc] = (o, key) + (cv.close_carry(self, merge(vals), k, at, v0),)
                continue
            if v0 is MISSING or all(v is v0 or self.same(v, v0) is True for _, v in vals):
                if v0 is MISSING:
                    mv = merge(vals)
                    if mentions_const(mv, consts):
                        post[loc] = (o, key, lambda t, mv=mv: at(mv, z3.simplify(t - 1)))
                    else:
                        post[loc] = (o, key, lambda t, mv=mv: mv)
                    continue
                post[loc] = (o, key, lambda t, v0=v0: v0)
                continue
            raise Unsupported("loop-carried state %s.%s" % (type(o).__name__, key))
        # temporaries: last value
        for loc, (o, key) in allw.items():
            if loc in cand:
                continue
            vals = [(pc, fin[loc][2]) for pc, fin in nexts if loc in fin]
            if not vals:
                continue
            if len(vals) != len(nexts):
                post[loc] = (o, key, lambda t: Lazy(self, None))
                continue
            post[loc] = (o, key, lambda t, vals=vals: Lazy(self, lambda: at(merge(vals), z3.simplify(t - 1))))
        # ---- events
        if new_events:
            evs = list(new_events[0])
            if any(len(e) != len(evs) or not all(self.same_event(x, y) for x, y in zip(e, evs)) for e in new_events[1:]):
                raise Unsupported("observable events under a condition inside a loop")

        def emit(n):
            if new_events:
                self.events.append(("loop", n, lambda t, evs=evs: [at_event(e, lambda v: at(v, t)) for e in evs]))
        # ---- leaving the loop
        if nt is None and not exits:
            if fr.yields is not None and getattr(fr, "collecting", False):
                # endless generator: the yields form an infinite sequence
                for loc, (o, key, fn) in post.items():
                    if o is fr.yields:
                        self.wr(o, key, fn(None))
                emit(None)
                raise EndlessX()
            raise PathEnd()
        if exits and nt is not None:
            exits = [x for x in exits if ctx.feasible(z3.And(k >= 0, k < nt, at_term(pcond(x[0]), k)))]
        if not exits:
            emit(nt)
            for loc, (o, key, fn) in post.items():
                self.wr(o, key, fn(nt))
            self._advance_total(it, nt, seq)
            return False
        exit_at = lambda t: z3.Or(*[at_term(pcond(pc), t) for pc, out, fin in exits])
        leave = alg.fresh("leave", z3.BoolSort())
        i = alg.fresh("i")
        if (nt is None and not ctx.feasible(z3.BoolVal(False))) or ctx.branch(leave):
            k0 = alg.fresh("exit")
            ctx.assume(k0 >= 0)
            if nt is not None:
                ctx.assume(k0 < nt)
            ctx.assume(exit_at(k0))
            ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k0), z3.Not(exit_at(i)))))
            ctx.assume(z3.Implies(k0 >= 1, z3.Not(exit_at(k0 - 1))))
            for fact in lens:
                ctx.assume(fact(k0))
            if isinstance(seq, FilterSeq):
                ctx.assume(seq.cond(k0))
            if not ctx.feasible(z3.BoolVal(True)):
                raise PathEnd()
            emit(k0)
            self.loop_exit = k0
            for loc, (o, key, fn) in post.items():
                self.wr(o, key, fn(k0))
            self._advance_total(it, z3.simplify(k0 + 1), seq)
            # the exiting iteration runs from the closed-form state
            try:
                v = None if seq is None else (seq.fn(k0) if isinstance(seq, FilterSeq) else seq.elem(k0))
                try:
                    body(v)
                except ContinueX:
                    raise PathEnd()
                raise PathEnd()
            except BreakX:
                return True
        if nt is None:
            # never leaves
            raise PathEnd()
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nt), z3.Not(exit_at(i)))))
        ctx.assume(z3.Implies(nt >= 1, z3.Not(exit_at(nt - 1))))
        for fact in lens:
            ctx.assume(fact(nt))
        emit(nt)
        for loc, (o, key, fn) in post.items():
            self.wr(o, key, fn(nt))
        self._advance_total(it, nt, seq)
        return False

    def same_event(self, x, y):
        if len(x) != len(y):
            return False
        for a, b in zip(x, y):
            if a is b:
                continue
            if z3.is_expr(a) and z3.is_expr(b):
                if a.eq(b):
                    continue
                return False
            if callable(a) and not isinstance(a, (PyFunc, Builtin)) or self.same(a, b) is not True:
                return False
        return True

    def _advance_total(self, it, n, seq):
        if it is None or n is None:
            return
        if isinstance(it, (PyIter, GenObj)):
            self.move(it, mk(iterm(n)))
        elif hasattr(it, "advance"):
            it.advance(self, n)

    def _close_seq(self, o, key, v0, cv, vals, k, nt, at, pcond, known, lens, nexts, seq, rng):
        """closed form of a list the body appends to or stores into"""
        logs = []
        for pc, v in vals:
            if v is cv:
                logs.append((pc, ()))
            elif isinstance(v, CarrySeq) and v.base is cv.base and v.k is cv.k:
                logs.append((pc, v.log))
            elif isinstance(v, CatSeq) and isinstance(v.parts[0], CarrySeq) and v.parts[0].base is cv.base and v.parts[0].k is cv.k:
                lg = v.parts[0].log
                for p in v.parts[1:]:
                    lg = lg + (tuple(("append", x) for x in p.items) if isinstance(p, CSeq) else (("extend", p),))
                logs.append((pc, lg))
            else:
                raise Unsupported("list is rebuilt inside a loop")
        kinds = {e[0] for _, lg in logs for e in lg}
        if not kinds:
            return (o, key, lambda t: v0)
        if kinds == {"append"}:
            cnts = {len(lg) for _, lg in logs}
            if cnts == {0, 1} or cnts == {1}:
                conds = [(pc, lg[0][1]) for pc, lg in logs if lg]
                if len(conds) > 1:
                    val = self._merge_simple(conds, pcond)
                else:
                    val = conds[0][1]
                filt = None
                kn0 = list(known)
                if cnts != {1}:
                    def filt(t, cs=[pc for pc, lg in logs if lg]):
                        c = z3.Or(*[pcond(pc) for pc in cs])
                        c = z3.substitute(c, *[(kc, fn(k)) for kc, fn in kn0]) if kn0 else c
                        return z3.simplify(z3.substitute(c, (k, t)))
                    probe = filt(k)
                    if alg.contains(probe, cv.L):
                        # drop the part that only states the loop was not left
                        def filt(t, cs=[pc for pc, lg in logs if lg], L=cv.L):
                            keep = []
                            for pc in cs:
                                keep.append(z3.And(*[c for c in pc if not alg.contains(c, L)]))
                            c = z3.Or(*keep)
                            c = z3.substitute(c, *[(kc, fn(k)) for kc, fn in kn0]) if kn0 else c
                            return z3.simplify(z3.substitute(c, (k, t)))
                        # only sound if, among continuing iterations, the kept part already decides appending
                        for pc, lg in logs:
                            if not lg:
                                kept = [z3.substitute(c, *[(kc, fn(k)) for kc, fn in kn0]) if kn0 else c for c in pc]
                                if self.ctx.feasible(z3.And(filt(k), *kept)):
                                    raise Unsupported("append depends on the length of the list")
                L0 = iterm(v0.n)
                if filt is None:
                    Lfn = lambda t: L0 + t
                else:
                    Lfn = lambda t: L0 + ISUM(t, filt)
                known.append((cv.L, Lfn))
                if cv.maxlen is not None:
                    # invariant: length < maxlen at the head of each iteration
                    M = iterm(cv.maxlen)
                    if not self.ctx.valid(L0 < M):
                        raise Unsupported("bounded deque may already be full")
                    for pc, lg in logs:
                        self.ctx.pc.extend(pc)
                        ok = self.ctx.valid(z3.Implies(z3.And(cv.L >= 0, cv.L < M), cv.L + len(lg) < M))
                        del self.ctx.pc[len(self.ctx.pc) - len(pc):]
                        if not ok:
                            raise Unsupported("bounded deque may overflow in a loop")
                    lens.append(lambda t, Lfn=Lfn, M=M: z3.And(Lfn(t) >= 0, Lfn(t) < M))
                if filt is None:
                    def fn(t):
                        new = SymSeq(t, lambda i: at(val, i))
                        return new if isinstance(v0, CSeq) and not v0.items else CatSeq([v0, new])
                else:
                    every = None if isinstance(seq, FilterSeq) else self._every(filt, k)

                    def fn(t):
                        r = every(t) if every is not None and t is not None else None
                        new = FilterSeq(t, filt, lambda i: at(val, i)) if r is None else \
                            SymSeq(r[0], lambda i: at(val, z3.simplify(r[1](i))))
                        return new if isinstance(v0, CSeq) and not v0.items else CatSeq([v0, new])
                if isinstance(seq, FilterSeq):
                    sq = seq
                    f0 = filt

                    def fn(t, f0=f0):
                        c = sq.cond if f0 is None else (lambda i: z3.And(sq.cond(i), f0(i)))
                        new = FilterSeq(t, c, lambda i: at(val, i))
                        return new if isinstance(v0, CSeq) and not v0.items else CatSeq([v0, new])
                return (o, key, fn)
            if len(logs) == 1:
                m = len(logs[0][1])
                vs = [e[1] for e in logs[0][1]]
                L0 = iterm(v0.n)
                known.append((cv.L, lambda t: L0 + m * t))

                def fn(t):
                    def el(i):
                        q, r = i / m, i % m
                        for j in range(m - 1):
                            if self.ctx.branch(r == j):
                                return at(vs[j], q)
                        return at(vs[m - 1], q)
                    new = SymSeq(z3.simplify(t * m) if t is not None else None, el)
                    return new if isinstance(v0, CSeq) and not v0.items else CatSeq([v0, new])
                return (o, key, fn)
            raise Unsupported("varying number of appends per iteration")
        if kinds == {"extend"}:
            ext = [lg for _, lg in logs if lg]
            if len(ext) == 1 and len(ext[0]) == 1 and cv.maxlen is None:
                inner = ext[0][0][1]
                if not isinstance(inner, SymSeq):
                    raise Unsupported("extend in a loop")
                if alg.contains(iterm(inner.n), cv.L):
                    raise Unsupported("extend depends on the length of the list")
                for pc, lg in logs:
                    if not lg:
                        # nothing is appended only where there is nothing to append
                        self.ctx.pc.extend(list(pc) + rng)
                        ok = self.ctx.valid(iterm(inner.n) <= 0)
                        del self.ctx.pc[len(self.ctx.pc) - len(pc) - len(rng):]
                        if not ok:
                            raise Unsupported("conditional extend in a loop")
                n0 = iterm(inner.n)
                clip = SymSeq(z3.If(n0 >= 0, n0, 0), inner.elem)

                def fn(t):
                    new = FlatSeq(t, lambda i: at(clip, i))
                    return new if isinstance(v0, CSeq) and not v0.items else CatSeq([v0, new])
                kn0 = list(known)
                ln = ISUM
                len_at = lambda i: z3.substitute(z3.substitute(clip.n, *[(kc, f(k)) for kc, f in kn0]) if kn0 else clip.n, (k, i))
                known.append((cv.L, lambda t: iterm(v0.n) + ln(iterm(t), len_at)))
                return (o, key, fn)
            raise Unsupported("extend in a loop")
        if kinds == {"store"}:
            if any(len(lg) != 1 for _, lg in logs):
                raise Unsupported("conditional or repeated stores into a list in a loop")
            for _, lg in logs:
                ix = lg[0][1]
                if known:
                    ix = z3.substitute(ix, *[(kc, fn(k)) for kc, fn in known])
                if not z3.simplify(ix - k).eq(z3.IntVal(0)):
                    raise Unsupported("store into a list at an index that is not the loop index")
            val = logs[0][1][0][2] if len(logs) == 1 else self._merge_simple([(pc, lg[0][2]) for pc, lg in logs], pcond)
            known.append((cv.L, lambda t: iterm(v0.n)))

            def fn(t):
                def el(i):
                    c = z3.simplify(i < t)
                    if z3.is_true(c) or self.ctx.valid(i < t):
                        return at(val, i)
                    if self.ctx.branch(i < t):
                        return at(val, i)
                    return v0.elem(i)
                return SymSeq(v0.n, el)
            return (o, key, fn)
        raise Unsupported("mixed list operations in a loop")

    def _every(self, filt, k):
        """filt(k) says k % E == r for some 0 <= r < E: where the elements are and how many there are below t"""
        c = filt(k)
        if not (z3.is_eq(c) and c.num_args() == 2 and c.arg(0).sort() == alg.I):
            return None
        for m, r in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
            if m.decl().kind() != z3.Z3_OP_MOD:
                continue
            E, off = m.arg(1), z3.simplify(m.arg(0) - k)
            if any(alg.contains(x, k) for x in (E, off, r)) or not self.ctx.valid(E >= 1):
                continue
            if z3.is_int_value(off) and off.as_long() == 0 and self.ctx.valid(z3.And(r >= 0, r < E)):
                first = r
            elif z3.is_int_value(off) and off.as_long() == 1 and z3.is_int_value(r) and r.as_long() == 0:
                first = E - 1
            else:
                continue

            def at(t, E=E, first=first):
                t = z3.simplify(t)
                n = None
                if t.decl().kind() == z3.Z3_OP_MUL:
                    fs = t.children()
                    for j, f in enumerate(fs):
                        if f.eq(E):
                            rest = fs[:j] + fs[j + 1:]
                            n = rest[0]
                            for x in rest[1:]:
                                n = n * x
                            break
                if n is None:
                    n = (t - first + E - 1) / E
                return z3.simplify(z3.If(t > first, n, 0)) if not self.ctx.valid(t > first) else z3.simplify(n), \
                    lambda i: i * E + first
            return at
        return None

    def _merge_simple(self, vals, pcond):
        first = vals[0][1]
        if all(is_num(v) for _, v in vals):
            t = None
            for pc, v in reversed(vals):
                x = term(v)
                if t is not None and x.sort() != t.sort():
                    x, t = alg.to_real(x), alg.to_real(t)
                t = x if t is None else z3.If(pcond(pc), x, t)
            return mk(t)
        if hasattr(first, "merge"):
            return first.merge(self, [(pcond(pc), v) for pc, v in vals])
        if all(self.same(first, v) is True for _, v in vals):
            return first
        raise Unsupported("conditional element values")

    def _close_dict(self, o, key, v0, cv, vals, k, at, merge):
        if len(vals) != 1:
            raise Unsupported("conditional dict updates in a loop")
        ents = vals[0][1]
        i = [j for j, e in enumerate(ents) if isinstance(e, CarryMark)][0]
        if len(ents) == i + 2 and isinstance(ents[-1], tuple) and all(a is b for a, b in zip(ents[:i], v0)):
            kk, vv = ents[-1]
            return (o, key, lambda t: list(v0) + [Bulk(t, lambda x: at(kk, x), lambda x: at(vv, x))])
        if len(ents) == i + 1:
            return (o, key, lambda t: v0)
        raise Unsupported("dict updates in a loop")

    def product(self, n, fn):
        """product of fn(0..n-1)"""
        if isinstance(n, int) or z3.is_int_value(n):
            t = z3.IntVal(1)
            for i in range(n if isinstance(n, int) else n.as_long()):
                x = fn(z3.IntVal(i))
                t = t * x if t.sort() == x.sort() else alg.to_real(t) * alg.to_real(x)
            return z3.simplify(t)
        k = alg.fresh("k")
        e = z3.simplify(fn(k))
        for f, args, rank, numel in self.lib_state.get("products", ()):
            if z3.simplify(iterm(rank)).eq(z3.simplify(n)):
                if e.eq(f(*(tuple(args) + (k,)))):
                    return numel
                if e.eq(z3.simplify(z3.ToReal(f(*(tuple(args) + (k,)))))):
                    return alg.to_real(numel)
        raise Unsupported("product of symbolic length")

    # ------------------------------------------------------------- generators
    def gen_collectable(self, g):
        return self.rd(g, "state") == "new" and _needs_collect(g.func.node)

    def gen_seq(self, g):
        """run the whole generator symbolically, its yields as a sequence value"""
        seq = self.rd(g, "seq")
        if seq is not None:
            return seq
        if self.rd(g, "state") != "new":
            raise Unsupported("generator already started")
        fr = g.frame
        fr.yields = PyList([])
        fr.collecting = True
        try:
            for _ in self.exec_block(g.func.node.body, fr):
                raise Unsupported("yield while collecting")
        except ReturnX:
            pass
        except EndlessX:
            pass
        seq = self.rd(fr.yields, "seq")
        self.wr(g, "seq", seq)
        self.wr(g, "state", "seq")
        return seq

    def next_(self, it, default=MISSING):
        if isinstance(it, Dyn):
            it = it.resolve(self)
        if isinstance(it, Opaque):
            if "__next__" not in it.attrs:
                raise PyExc(TypeError, ("object is not an iterator",))
            try:
                return self.call(it.attrs["__next__"], [], {})
            except PyExc as e:
                if e.cls is StopIteration and default is not MISSING:
                    return default
                raise
        if isinstance(it, GenObj):
            if self.rd(it, "seq") is None and self.rd(it, "state") == "new" and self.gen_collectable(it):
                tr = self.tracks[-1] if self.tracks else None
                if tr is not None and it.birth < tr.birth and not tr.written and len(self.events) == tr.ev0 \
                        and self.try_depth == tr.try_depth and self.ctx.locals and not self.ctx.locals[-1].prefix \
                        and len(self.ctx.locals[-1].pc) == tr.head:
                    # every run of the loop starts with the first step of this generator: start it before the loop
                    raise HoistGen(it)
                self.gen_seq(it)
            seq = self.rd(it, "seq")
            if seq is not None:
                return self._next_seq(it, seq, default)
            if it.birth and self.tracks and any(it.birth < t.birth for t in self.tracks):
                raise Unsupported("advancing a running generator inside a summarised loop")
            if it.co is None:
                it.co = self.exec_block(it.func.node.body, it.frame)
                self.wr(it, "state", "run")
            try:
                return next(it.co)
            except StopIteration:
                pass
            except ReturnX:
                pass
            if default is not MISSING:
                return default
            raise PyExc(StopIteration, ())
        if isinstance(it, PyIter):
            return self._next_seq(it, it.seq, default)
        if hasattr(it, "next_value"):
            return it.next_value(self, default)
        if isinstance(it, PyInstance):
            f, _ = it.cls.lookup("__next__")
            if f is not MISSING:
                try:
                    return self.call(Bound(f, it), [], {})
                except PyExc as e:
                    if e.cls is StopIteration and default is not MISSING:
                        return default
                    raise
        raise Unsupported("next(%r)" % (it,))

    def _next_seq(self, it, seq, default):
        pos = self.rd(it, "pos")
        if isinstance(seq, FilterSeq):
            # next element of a filtered sequence: only the first one, from the start
            if not (isinstance(pos, int) and pos == 0):
                raise Unsupported("repeated next() on a filtered sequence")
            has = alg.fresh("found", z3.BoolSort())
            i = alg.fresh("i")
            m = iterm(seq.m)
            if self.ctx.branch(has):
                k0 = alg.fresh("first")
                self.ctx.assume(z3.And(k0 >= 0, k0 < m, seq.cond(k0)))
                self.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k0), z3.Not(seq.cond(i)))))
                self.wr(it, "pos", 1)
                return seq.fn(k0)
            self.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.Not(seq.cond(i)))))
            if default is not MISSING:
                return default
            raise PyExc(StopIteration, ())
        if seq.n is not None:
            c = z3.simplify(iterm(pos) < iterm(seq.n))
            if not (True if z3.is_true(c) else False if z3.is_false(c) else self.ctx.branch(c)):
                if default is not MISSING:
                    return default
                raise PyExc(StopIteration, ())
        v = self.seq_elem(seq, pos)
        self.move(it, 1)
        return v

    # ------------------------------------------------------------- sequences
    def seq_elem(self, seq, i):
        """element i (within range) of a sequence value"""
        if isinstance(seq, CatSeq):
            it = iterm(i)
            off = z3.IntVal(0)
            for p in seq.parts[:-1]:
                pn = iterm(p.n)
                if self.ctx.branch(it < off + pn):
                    return self.seq_elem(p, mk(it - off))
                off = off + pn
            return self.seq_elem(seq.parts[-1], mk(it - off))
        if isinstance(seq, CSeq) and isinstance(i, Sym):
            for j in range(len(seq.items) - 1):
                if self.ctx.branch(i.t == j):
                    return seq.items[j]
            if not seq.items:
                raise PathEnd()
            return seq.items[-1]
        if isinstance(i, Sym):
            i = i.t
        return seq.elem(i)

    def to_seq(self, v):
        """the elements of an iterable value as a sequence value (consumes iterators)"""
        if isinstance(v, Dyn):
            v = v.resolve(self)
        if isinstance(v, Seq):
            return v
        if isinstance(v, tuple):
            return CSeq(v)
        if isinstance(v, str):
            return CSeq(list(v))
        if isinstance(v, PyList):
            return self.rd(v, "seq")
        if isinstance(v, PySet):
            return CSeq(self.rd(v, "items"))
        if isinstance(v, IntSet):
            return v.seq(self)
        if isinstance(v, PyDict):
            return self.dict_keys_seq(v)
        if isinstance(v, (PyIter, GenObj)):
            if isinstance(v, GenObj) and self.rd(v, "seq") is None and not self.gen_collectable(v):
                items = []
                while True:
                    try:
                        items.append(self.next_(v))
                    except PyExc as e:
                        if e.cls is StopIteration:
                            return CSeq(items)
                        raise
                    if len(items) > 20000:
                        raise Unsupported("very long generator")
            parts = self.remaining(v)
            r = parts[0] if len(parts) == 1 else CatSeq(parts)
            if r.n is not None:
                self._advance_total(v, iterm(r.n) if not isinstance(r.n, int) else z3.IntVal(r.n), r)
            return r
        if hasattr(v, "as_seq"):
            return v.as_seq(self)
        if isinstance(v, PyInstance):
            f, _ = v.cls.lookup("__iter__")
            if f is not MISSING:
                it = self.call(Bound(f, v), [], {})
                if it is not v:
                    return self.to_seq(it)
            hook = getattr(v, "stream_hook", None)
            if hook:
                return hook(self)
        if isinstance(v, PyClass) and v.enum:
            return CSeq([m for m in v.ns.values() if isinstance(m, PyInstance) and hasattr(m, "member")])
        raise Unsupported("iteration over %r" % (v,))

    def iter_(self, v):
        if isinstance(v, (PyIter, GenObj)):
            return v
        if isinstance(v, PyInstance):
            f, _ = v.cls.lookup("__iter__")
            if f is MISSING:
                raise PyExc(TypeError, ("not iterable",))
            return self.call(Bound(f, v), [], {})
        if hasattr(v, "as_iter"):
            return v.as_iter(self)
        if hasattr(v, "next_value"):
            return v
        return PyIter(self.to_seq(v))

    def list_append(self, lst, v):
        seq = self.rd(lst, "seq")
        self.wr(lst, "seq", self.seq_append(seq, v, lst))

    def seq_append(self, seq, v, lst=None):
        maxlen = getattr(lst, "maxlen", None)
        if maxlen is not None and not isinstance(seq, CarrySeq):
            n = seq.n
            full = z3.simplify(iterm(n) >= iterm(maxlen))
            if self.ctx.branch(full):
                raise Unsupported("append to a full bounded deque")
        if isinstance(seq, CSeq):
            return CSeq(seq.items + [v])
        if isinstance(seq, CarrySeq):
            return CarrySeq(seq.base, seq.k, seq.log + (("append", v),), seq.maxlen, seq.L)
        return CatSeq([seq, CSeq([v])])

    def list_extend(self, lst, other):
        o = self.to_seq(other)
        seq = self.rd(lst, "seq")
        if isinstance(seq, CarrySeq):
            items = o.concrete()
            if items is not None:
                log = seq.log + tuple(("append", v) for v in items)
            else:
                log = seq.log + (("extend", o),)
            self.wr(lst, "seq", CarrySeq(seq.base, seq.k, log, seq.maxlen, seq.L))
            return
        self.wr(lst, "seq", self.seq_cat(seq, o))

    def seq_cat(self, a, b):
        if isinstance(a, CSeq) and isinstance(b, CSeq):
            return CSeq(a.items + b.items)
        if isinstance(a, CSeq) and not a.items:
            return b
        if isinstance(b, CSeq) and not b.items:
            return a
        return CatSeq([a, b])

    def length(self, v):
        """-> int or z3 Int"""
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, PyList):
            return self.rd(v, "seq").n
        if isinstance(v, Seq):
            return v.n
        if isinstance(v, PySet):
            return len(self.rd(v, "items"))
        if isinstance(v, PyDict):
            return self.dict_len(v)
        if hasattr(v, "length"):
            return v.length(self)
        if isinstance(v, PyInstance):
            f, _ = v.cls.lookup("__len__")
            if f is not MISSING:
                r = self.call(Bound(f, v), [], {})
                return r if isinstance(r, int) else iterm(r)
            raise PyExc(TypeError, ("object has no len()",))
        if v is None or is_num(v) or isinstance(v, (PyFunc, Builtin, GenObj, PyIter)):
            raise PyExc(TypeError, ("object has no len()",))
        raise Unsupported("len(%r)" % (v,))

    # ------------------------------------------------------------- dicts
    def same(self, a, b):
        """identity/equality of keys and opaque values: True, False or z3 Bool"""
        if a is b:
            return True
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if is_num(a) and is_num(b):
            return self.num_eq(a, b)
        if hasattr(a, "same_as"):
            return a.same_as(self, b)
        if hasattr(b, "same_as"):
            return b.same_as(self, a)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a.uid != b.uid:
                return False
            if len(a.idx) != len(b.idx):
                return False
            cs = [z3.simplify(x == y) for x, y in zip(a.idx, b.idx)]
            if all(z3.is_true(c) for c in cs):
                return True
            if any(z3.is_false(c) for c in cs):
                return False
            return z3.And(*cs)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = [self.same(x, y) for x, y in zip(a, b)]
            if any(x is False for x in r):
                return False
            if all(x is True for x in r):
                return True
            return z3.And(*[x for x in r if x is not True])
        if a is None or b is None:
            return False
        if isinstance(a, PyInstance) and isinstance(b, PyInstance):
            f, _ = a.cls.lookup("__eq__")
            if f is not MISSING:
                r = self.truth(self.call(Bound(f, a), [b], {}))
                return r
            return False
        if isinstance(a, PyList) and isinstance(b, PyList):
            x, y = self.rd(a, "seq").concrete(), self.rd(b, "seq").concrete()
            if x is not None and y is not None:
                return self.same(tuple(x), tuple(y))
            raise Unsupported("comparison of symbolic lists")
        if isinstance(a, AbsStr) or isinstance(b, AbsStr):
            raise Unsupported("comparison of an abstract string")
        if type(a) is not type(b):
            return False
        if isinstance(a, Bound):
            return a.func is b.func and a.self_ is b.self_
        return False

    def num_eq(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, Sym) or isinstance(b, Sym):
                return False
            return a == b
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return a == b
        x, y = term(a), term(b)
        if x.sort() != y.sort():
            x, y = rterm(a), rterm(b)
        return z3.simplify(x == y)

    def dict_len(self, d):
        n = 0
        for e in self.rd(d, "ent"):
            if isinstance(e, tuple):
                n = n + 1
            else:
                n = n + iterm(e.n)
        return n if isinstance(n, int) else z3.simplify(n)

    def dict_keys_seq(self, d):
        parts = []
        for e in self.rd(d, "ent"):
            if isinstance(e, tuple):
                parts.append(CSeq([e[0]]))
            else:
                parts.append(SymSeq(e.n, e.key))
        return self._join(parts)

    def dict_items_seq(self, d):
        parts = []
        for e in self.rd(d, "ent"):
            if isinstance(e, tuple):
                parts.append(CSeq([(e[0], e[1])]))
            else:
                parts.append(SymSeq(e.n, lambda i, e=e: (e.key(i), e.val(i))))
        return self._join(parts)

    def dict_values_seq(self, d):
        parts = []
        for e in self.rd(d, "ent"):
            if isinstance(e, tuple):
                parts.append(CSeq([e[1]]))
            else:
                parts.append(SymSeq(e.n, e.val))
        return self._join(parts)

    def _join(self, parts):
        if all(isinstance(p, CSeq) for p in parts):
            return CSeq([x for p in parts for x in p.items])
        out = []
        for p in parts:
            if out and isinstance(out[-1], CSeq) and isinstance(p, CSeq):
                out[-1] = CSeq(out[-1].items + p.items)
            else:
                out.append(p)
        return out[0] if len(out) == 1 else CatSeq(out)

    def dict_get(self, d, key, default=MISSING):
        for e in reversed(self.rd(d, "ent")):
            if isinstance(e, CarryMark):
                raise Unsupported("reading a dict the loop updates")
            if isinstance(e, tuple):
                s = self.same(e[0], key)
                if s is True or (s is not False and self.ctx.branch(s)):
                    return e[1]
            else:
                i = self.bulk_find(e, key)
                if i is not None:
                    return e.val(i)
        return default

    def bulk_find(self, e, key):
        """index of key in the family e, or None"""
        j = alg.fresh("j")
        s = self.same(e.key(j), key)
        if s is False:
            return None
        if s is True:
            raise Unsupported("constant key family")
        # solve key(j) == key for j
        for c in (s.children() if z3.is_and(s) else [s]):
            if z3.is_eq(c):
                a, b = c.children()
                for x, y in ((a, b), (b, a)):
                    if x.eq(j) and not alg.contains(y, j):
                        rest = z3.simplify(z3.substitute(s, (j, y)))
                        n = iterm(e.n)
                        if self.ctx.branch(z3.And(rest, y >= 0, y < n)):
                            return y
                        return None
        raise Unsupported("lookup in a dict family")

    def dict_set(self, d, key, val):
        ent = list(self.rd(d, "ent"))
        for i, e in enumerate(ent):
            if isinstance(e, CarryMark):
                continue
            if isinstance(e, tuple):
                s = self.same(e[0], key)
                if s is True:
                    ent[i] = (e[0], val)
                    self.wr(d, "ent", ent)
                    return
                if s is not False:
                    if self.tracks and d.birth < self.tracks[-1].birth:
                        # distinctness must hold
                        if self.ctx.valid(z3.Not(s)):
                            continue
                    if self.ctx.branch(s):
                        ent[i] = (e[0], val)
                        self.wr(d, "ent", ent)
                        return
        ent.append((key, val))
        self.wr(d, "ent", ent)

    def dict_update(self, d, other):
        if isinstance(other, PyDict):
            for e in self.rd(other, "ent"):
                if isinstance(e, tuple):
                    self.dict_set(d, e[0], e[1])
                else:
                    self.wr(d, "ent", list(self.rd(d, "ent")) + [e])
            return
        if hasattr(other, "dict_entries"):
            self.wr(d, "ent", list(self.rd(d, "ent")) + other.dict_entries(self))
            return
        seq = self.to_seq(other)
        for p in (seq.parts if isinstance(seq, CatSeq) else [seq]):
            items = p.concrete()
            if items is not None:
                for x in items:
                    kk, vv = self.unpack(x, 2)
                    self.dict_set(d, kk, vv)
            elif isinstance(p, SymSeq) and p.n is not None:
                self.wr(d, "ent", list(self.rd(d, "ent")) + [
                    Bulk(p.n, lambda i, p=p: self.unpack(p.elem(i), 2)[0], lambda i, p=p: self.unpack(p.elem(i), 2)[1])])
            else:
                raise Unsupported("dict.update")

    def dict_pop(self, d, key, default=MISSING):
        ent = list(self.rd(d, "ent"))
        for i, e in enumerate(ent):
            if isinstance(e, tuple):
                s = self.same(e[0], key)
                if s is True or (s is not False and self.ctx.branch(s)):
                    del ent[i]
                    self.wr(d, "ent", ent)
                    return e[1]
            else:
                raise Unsupported("pop from a dict family")
        if default is MISSING:
            raise PyExc(KeyError, (key,))
        return default

    # ------------------------------------------------------------- calls
    def unpack_all(self, v):
        items = list(v) if isinstance(v, tuple) else self.to_seq(v).concrete()
        if items is None:
            raise Unsupported("star arguments from a symbolic sequence")
        return items

    def call(self, f, args, kwargs):
        if isinstance(f, Dyn):
            f = f.resolve(self)
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, Bound):
            if isinstance(f.func, Builtin):
                return f.func.fn(self, [f.self_] + list(args), kwargs)
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, PyFunc):
            return self.call_func(f, args, kwargs)
        if isinstance(f, PyClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcValue(f, tuple(args))
        if isinstance(f, LibType):
            if f.call is None:
                raise Unsupported("constructing %s" % f.name)
            # library constructors look at their arguments
            args = [x.resolve(self) if isinstance(x, Dyn) else x for x in args]
            kwargs = {n: x.resolve(self) if isinstance(x, Dyn) else x for n, x in kwargs.items()}
            return f.call(self, args, kwargs)
        if isinstance(f, Opaque) and f.call is not None:
            return f.call(self, args, kwargs)
        if isinstance(f, (StaticM, ClassM)):
            return self.call(f.f, args, kwargs)
        if isinstance(f, PyInstance):
            c, _ = f.cls.lookup("__call__")
            if c is not MISSING:
                return self.call(Bound(c, f), args, kwargs)
        if hasattr(f, "do_call"):
            return f.do_call(self, args, kwargs)
        if f is None or is_num(f) or isinstance(f, (str, PyList, PyDict, tuple)):
            raise PyExc(TypeError, ("not callable",))
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, cls, args, kwargs):
        if cls in self.class_hooks:
            return self.class_hooks[cls](self, cls, args, kwargs)
        if cls.enum:
            v = args[0]
            for m in cls.ns.values():
                if isinstance(m, PyInstance) and hasattr(m, "member") and self.same(m.d["value"], v) is True:
                    return m
            raise PyExc(ValueError, ())
        new, _ = cls.lookup("__new__")
        o = PyInstance(cls)
        init, _ = cls.lookup("__init__")
        if init is not MISSING:
            self.call(Bound(init, o), args, kwargs)
        else:
            for b in cls.mro():
                for x in b.bases:
                    if isinstance(x, type) and issubclass(x, BaseException):
                        o.d["args"] = tuple(args)
                        return o
        return o

    def bind(self, f, args, kwargs, fr):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        kwargs = dict(kwargs)
        vals = {}
        args = list(args)
        if any(isinstance(x, StarBulk) for x in args) or "**" in kwargs:
            return self.bind_special(f, args, kwargs, fr)
        for name in pos:
            if args:
                vals[name] = args.pop(0)
            elif name in kwargs and name not in [x.arg for x in a.posonlyargs]:
                vals[name] = kwargs.pop(name)
        for name in pos:
            if name in kwargs and name in vals:
                raise PyExc(TypeError, ("multiple values for argument '%s'" % name,))
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if name not in vals:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vals[name] = f.defaults[j]
                else:
                    raise PyExc(TypeError, ("missing argument '%s'" % name,))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                vals[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                vals[x.arg] = f.kwdefaults[x.arg]
            else:
                raise PyExc(TypeError, ("missing keyword argument '%s'" % x.arg,))
        if a.vararg:
            vals[a.vararg.arg] = tuple(args)
        elif args:
            raise PyExc(TypeError, ("too many positional arguments",))
        if a.kwarg:
            vals[a.kwarg.arg] = PyDict([(k, v) for k, v in kwargs.items()])
        elif kwargs:
            raise PyExc(TypeError, ("unexpected keyword argument '%s'" % list(kwargs)[0],))
        for k, v in vals.items():
            fr.d[k] = v
        fr.locals_.update(vals)

    def bind_special(self, f, args, kwargs, fr):
        a = f.node.args
        npos = len(a.posonlyargs) + len(a.args)
        first = [i for i, x in enumerate(args) if isinstance(x, StarBulk)]
        if first:
            # arbitrarily many positional arguments, beyond the named ones
            if not a.vararg or first[0] < npos:
                raise Unsupported("symbolic argument list")
            rest = CatSeq([x.seq if isinstance(x, StarBulk) else CSeq([x]) for x in args[npos:]]) if len(args) > npos + 1 else args[npos].seq
            self.bind(f, args[:npos], kwargs, fr)
            fr.d[a.vararg.arg] = PyList(rest, kind="tuple")
            return
        if "**" in kwargs:
            extra = kwargs.pop("**")
            if a.kwarg and not (a.args or a.posonlyargs or a.kwonlyargs) and (a.vararg or not args):
                if isinstance(extra, PyDict):
                    d, extra = extra, PyDict(list(kwargs.items()))
                    self.dict_update(extra, d)
                fr.d[a.kwarg.arg] = extra
                fr.locals_.add(a.kwarg.arg)
                if a.vararg:
                    fr.d[a.vararg.arg] = tuple(args)
                    fr.locals_.add(a.vararg.arg)
                return
            if a.kwarg and hasattr(extra, "split_for"):
                named, rest = extra.split_for(self, [x.arg for x in a.args + a.kwonlyargs])
                kw = dict(kwargs)
                kw.update(named)
                self.bind(f, args, kw, fr)
                fr.d[a.kwarg.arg] = rest
                return
        raise Unsupported("symbolic argument list")

    def call_func(self, f, args, kwargs):
        s = self.summaries.get(f.qualname)
        if s is not None:
            return s(self, f, args, kwargs)
        return self.call_body(f, args, kwargs)

    def call_body(self, f, args, kwargs):
        if self.depth > 60:
            raise Unsupported("recursion too deep")
        if f.module.name.startswith("pysgmcmc"):
            self.used.add(f.qualname)
        fr = Frame(f, f.frame, f.module)
        fr.qual = f.qualname
        fr.locals_ = set(f.locals_)
        self.bind(f, args, kwargs, fr)
        if isinstance(f.node, ast.Lambda):
            self.depth += 1
            try:
                return self.eval(f.node.body, fr)
            finally:
                self.depth -= 1
        if f.isgen:
            return GenObj(self, f, fr)
        self.depth += 1
        try:
            self.exec_plain(f.node.body, fr)
        except ReturnX as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    # ------------------------------------------------------------- expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return pyfloat(v, e)
        if isinstance(v, (complex,)) or v is Ellipsis:
            if v is Ellipsis:
                return Ellipsis
            raise Unsupported("complex")
        return v

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr_(self.eval(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                seq = self.to_seq(self.eval(x.value, fr))
                items = seq.concrete()
                if items is None:
                    raise Unsupported("starred symbolic sequence")
                out.extend(items)
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            seq = CSeq([])
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    seq = self.seq_cat(seq, self.to_seq(self.eval(x.value, fr)))
                else:
                    seq = self.seq_cat(seq, CSeq([self.eval(x, fr)]))
            return PyList(seq)
        return PyList([self.eval(x, fr) for x in e.elts])

    def e_Set(self, e, fr):
        s = PySet([])
        for x in e.elts:
            self.set_add(s, self.eval(x, fr))
        return s

    def set_add(self, s, v):
        items = self.rd(s, "items")
        for x in items:
            r = self.same(x, v)
            if r is True or (r is not False and self.ctx.branch(r)):
                return
        self.wr(s, "items", items + [v])

    def e_Dict(self, e, fr):
        d = PyDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.eval(v, fr))
            else:
                kk = self.eval(k, fr)
                self.dict_set(d, kk, self.eval(v, fr))
        return d

    def e_JoinedStr(self, e, fr):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.eval(v.value, fr)
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                if isinstance(x, (str, int)) and not isinstance(x, bool) and v.format_spec is None:
                    parts.append(str(x))
                else:
                    return AbsStr()
        return "".join(parts)

    def e_FormattedValue(self, e, fr):
        return AbsStr()

    def e_IfExp(self, e, fr):
        return self.eval(e.body, fr) if self.cond(self.eval(e.test, fr)) else self.eval(e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, "<lambda>")

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while getattr(f, "is_comp", False):
            f = f.parent
        self.assign_name(e.target.id, v, f)
        return v

    def simple(self, e):
        """expression whose evaluation cannot fail or have effects on supported values"""
        if isinstance(e, (ast.Name, ast.Constant)):
            return True
        if isinstance(e, ast.Attribute):
            return self.simple(e.value)
        if isinstance(e, ast.Compare):
            return self.simple(e.left) and all(self.simple(c) for c in e.comparators)
        if isinstance(e, ast.UnaryOp):
            return self.simple(e.operand)
        if isinstance(e, ast.BinOp):
            return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)) and self.simple(e.left) and self.simple(e.right)
        if isinstance(e, ast.BoolOp):
            return all(self.simple(v) for v in e.values)
        return False

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        acc = None      # accumulated symbolic condition
        for i, x in enumerate(e.values):
            if acc is not None and not self.simple(x):
                # decide what we have so far
                c = self.ctx.branch(acc)
                if c != isand:
                    return c
                acc = None
            if acc is not None:
                n0 = len(self.ctx.locals[-1].pc if self.ctx.locals else self.ctx.pc)
                try:
                    v = self.eval(x, fr)
                except PyExc:
                    c = self.ctx.branch(acc)
                    if c != isand:
                        return c
                    raise
                t = self.truth(v)
                t = z3.BoolVal(t) if isinstance(t, bool) else t
                acc = z3.simplify(z3.And(acc, t) if isand else z3.Or(acc, t))
                continue
            v = self.eval(x, fr)
            last = i == len(e.values) - 1
            t = self.truth(v)
            if not isinstance(t, bool):
                t = z3.simplify(t)
                if z3.is_true(t):
                    t = True
                elif z3.is_false(t):
                    t = False
            if isinstance(t, bool):
                if t != isand or last:
                    return v
                continue
            if last:
                return v if not isinstance(v, Sym) or v.ty != "bool" else mk(t)
            isbool = isinstance(v, Sym) and v.ty == "bool"
            if isbool:
                acc = t
                continue
            c = self.ctx.branch(t)
            if c != isand:
                return v
        return mk(acc) if acc is not None else isand

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(v, Dyn):
            v = v.resolve(self)
        op = type(e.op).__name__
        if op == "Not":
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else mk(z3.Not(t))
        if hasattr(v, "unop"):
            return v.unop(self, op)
        if op == "USub":
            if isinstance(v, (int, Fraction, float)):
                return -v
            if isinstance(v, Sym):
                return mk(-(iterm(v) if v.ty == "bool" else v.t))
        if op == "UAdd" and is_num(v):
            return v
        if op == "Invert" and isinstance(v, int):
            return ~v
        if isinstance(v, PyInstance):
            f, _ = v.cls.lookup({"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
            if f is not MISSING:
                return self.call(Bound(f, v), [], {})
        raise Unsupported("unary %s on %r" % (op, v))

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Dyn):
            a = a.resolve(self)
        if isinstance(b, Dyn):
            b = b.resolve(self)
        if hasattr(a, "binop"):
            r = a.binop(self, op, b, False)
            if r is not NotImplemented:
                return r
        if hasattr(b, "binop"):
            r = b.binop(self, op, a, True)
            if r is not NotImplemented:
                return r
        if is_num(a) and is_num(b):
            return self.arith(op, a, b)
        if isinstance(a, str) and isinstance(b, str) and op == "Add":
            return a + b
        if isinstance(a, str) and op == "Mult" and isinstance(b, int):
            return a * b
        if isinstance(a, (str, AbsStr)) and op in ("Mod", "Add"):
            return AbsStr()
        if isinstance(b, AbsStr):
            return AbsStr()
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and op == "Mult":
            return a * b
        if isinstance(a, PyList) and isinstance(b, PyList) and op == "Add":
            return PyList(self.seq_cat(self.rd(a, "seq"), self.rd(b, "seq")))
        if op == "Mult" and (isinstance(a, PyList) or isinstance(b, PyList)):
            if isinstance(b, PyList):
                a, b = b, a
            seq = self.rd(a, "seq")
            if isinstance(b, int):
                items = seq.concrete()
                if items is not None:
                    return PyList(items * b)
            items = seq.concrete()
            if items is not None and len(items) == 1 and isinstance(b, Sym):
                x = items[0]
                n = z3.simplify(z3.If(b.t >= 0, b.t, 0))
                if self.ctx.valid(b.t >= 0):
                    n = b.t
                return PyList(SymSeq(n, lambda t: x))
            raise Unsupported("list repetition")
        if isinstance(a, (PySet, IntSet)) and isinstance(b, (PySet, IntSet)) and op in ("BitOr", "BitAnd", "Sub") and not (
                isinstance(a, PySet) and isinstance(b, PySet)):
            return IntSet(({"BitOr": "or", "BitAnd": "and", "Sub": "sub"}[op], expr_of(self, a), expr_of(self, b)))
        if isinstance(a, PySet) and isinstance(b, PySet):
            x, y = self.rd(a, "items"), self.rd(b, "items")

            def inn(v, s):
                return any(self.same(v, w) is True for w in s)
            if op == "BitOr":
                return PySet(x + [v for v in y if not inn(v, x)])
            if op == "BitAnd":
                return PySet([v for v in x if inn(v, y)])
            if op == "Sub":
                return PySet([v for v in x if not inn(v, y)])
        if isinstance(a, PyDict) and isinstance(b, PyDict) and op == "BitOr":
            d = PyDict(self.rd(a, "ent"))
            self.dict_update(d, b)
            return d
        names = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod",
                 "Pow": "pow", "MatMult": "matmul", "BitAnd": "and", "BitOr": "or"}
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            if isinstance(x, PyInstance) and op in names:
                f, _ = x.cls.lookup("%s%s__" % (pre, names[op]))
                if f is not MISSING:
                    return self.call(Bound(f, x), [y], {})
        if a is None or b is None or isinstance(a, (str, PyList, tuple, PyDict)) or isinstance(b, (str, PyList, tuple, PyDict)):
            raise PyExc(TypeError, ("unsupported operand types for " + op,))
        raise Unsupported("%s on %r and %r" % (op, a, b))

    def arith(self, op, a, b):
        conc = not isinstance(a, Sym) and not isinstance(b, Sym)
        if isinstance(a, float) or isinstance(b, float):
            if conc:
                x, y = float(a), float(b)
                return pyfloat({"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y,
                                "Div": lambda: x / y}[op](), None)
            raise Unsupported("arithmetic with infinity")
        if conc:
            if isinstance(a, bool):
                a = int(a)
            if isinstance(b, bool):
                b = int(b)
            bothint = isinstance(a, int) and isinstance(b, int)
            if op == "Add":
                return norm_num(a + b, bothint)
            if op == "Sub":
                return norm_num(a - b, bothint)
            if op == "Mult":
                return norm_num(a * b, bothint)
            if op in ("Div", "FloorDiv", "Mod") and b == 0:
                raise PyExc(ZeroDivisionError, ())
            if op == "Div":
                return Fraction(a) / Fraction(b)
            if op == "FloorDiv":
                return (a // b) if bothint else Fraction(a // b)
            if op == "Mod":
                return norm_num(a % b, bothint)
            if op == "Pow":
                if isinstance(b, int) or (isinstance(b, Fraction) and b.denominator == 1):
                    bi = int(b)
                    if bothint and bi >= 0:
                        return a ** bi
                    if a == 0 and bi < 0:
                        raise PyExc(ZeroDivisionError, ())
                    return Fraction(a) ** bi
                if b == Fraction(1, 2):
                    return mk(alg.SQRT(z3.RealVal(Fraction(a))))
                raise Unsupported("fractional power")
            if bothint:
                return {"BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b,
                        "LShift": lambda: a << b, "RShift": lambda: a >> b}[op]()
            raise Unsupported(op)
        sa, sb = isinstance(a, (Fraction,)) or (isinstance(a, Sym) and a.ty == "float"), \
            isinstance(b, (Fraction,)) or (isinstance(b, Sym) and b.ty == "float")
        if op in ("BitAnd", "BitOr") and not sa and not sb:
            ta, tb = term(a), term(b)
            if ta.sort() == z3.BoolSort() and tb.sort() == z3.BoolSort():
                return mk(z3.And(ta, tb) if op == "BitAnd" else z3.Or(ta, tb))
        if op == "Pow":
            if isinstance(b, (int, Fraction)) and Fraction(b).denominator == 1:
                e = int(b)
                if e < 0:
                    return mk(1 / alg_pow(rterm(a), -e))
                return mk(alg_pow(rterm(a) if sa or sb else iterm(a), e))
            if isinstance(b, Fraction) and b == Fraction(1, 2):
                return mk(alg.SQRT(rterm(a)))
            return mk(alg.uf("pow", alg.R, alg.R, alg.R)(rterm(a), rterm(b)))
        if sa or sb or op == "Div":
            x, y = rterm(a), rterm(b)
        else:
            x, y = iterm(a), iterm(b)
        if op == "Add":
            return mk(x + y)
        if op == "Sub":
            return mk(x - y)
        if op == "Mult":
            return mk(x * y)
        if op == "Div":
            if not self.ctx.valid(y != 0) and self.div_strict(a, b):
                if self.ctx.branch(y == 0):
                    raise PyExc(ZeroDivisionError, ())
            return mk(x / y)
        if op in ("FloorDiv", "Mod"):
            if sa or sb:
                if op == "FloorDiv":
                    return mk(z3.ToReal(z3.ToInt(x / y)))
                raise Unsupported("float modulo")
            if self.ctx.branch(y == 0):
                raise PyExc(ZeroDivisionError, ())
            if self.ctx.branch(y > 0):
                return mk(x / y if op == "FloorDiv" else x % y)
            raise Unsupported("division by a negative integer")
        raise Unsupported("%s on symbolic numbers" % op)

    def div_strict(self, a, b):
        """Python raises on division of ints/floats by zero, numpy values do not"""
        return not (isinstance(a, Sym) and a.np or isinstance(b, Sym) and b.np)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        acc = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            v = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            t = self.truth(v)
            if isinstance(t, bool):
                if not t:
                    return False
            else:
                acc = t if acc is None else z3.And(acc, t)
            left = right
        return True if acc is None else mk(acc)

    def compare(self, op, a, b):
        if isinstance(a, Dyn):
            a = a.resolve(self)
        if isinstance(b, Dyn):
            b = b.resolve(self)
        if op == "Is":
            r = self.is_(a, b)
            return r if isinstance(r, bool) else mk(r)
        if op == "IsNot":
            r = self.is_(a, b)
            return (not r) if isinstance(r, bool) else mk(z3.Not(r))
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if isinstance(r, bool):
                return r if op == "In" else not r
            return mk(r if op == "In" else z3.Not(r))
        for x, y, rev in ((a, b, False), (b, a, True)):
            if hasattr(x, "cmp"):
                r = x.cmp(self, op, y, rev)
                if r is not NotImplemented:
                    return r
        if op in ("Eq", "NotEq"):
            r = self.same(a, b)
            if isinstance(r, bool):
                return r if op == "Eq" else not r
            return mk(r if op == "Eq" else z3.Not(r))
        if is_num(a) and is_num(b):
            if isinstance(a, float) or isinstance(b, float):
                if not isinstance(a, Sym) and not isinstance(b, Sym):
                    x, y = float(a), float(b)
                else:
                    inf = a if isinstance(a, float) else b
                    if inf in (float("inf"), float("-inf")):
                        x, y = (inf, 0) if inf is a else (0, inf)
                    else:
                        raise Unsupported("nan comparison")
                return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
            x, y = term(a), term(b)
            if x.sort() != y.sort() or x.sort() == z3.BoolSort():
                if x.sort() == alg.R or y.sort() == alg.R:
                    x, y = rterm(a), rterm(b)
                else:
                    x, y = iterm(a), iterm(b)
            return mk({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op])
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, tuple) and isinstance(b, tuple) and all(isinstance(x, int) for x in a + b):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if a is None or b is None or isinstance(a, (str, PyList, PyDict)) or isinstance(b, (str, PyList, PyDict)):
            raise PyExc(TypeError, ("'%s' not supported" % op,))
        if isinstance(a, (Opaque, PyFunc, PyInstance)) or isinstance(b, (Opaque, PyFunc, PyInstance)):
            raise PyExc(TypeError, ("'%s' not supported" % op,))
        raise Unsupported("comparison of %r and %r" % (a, b))

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        for x, y in ((a, b), (b, a)):
            if hasattr(x, "is_same"):
                return x.is_same(self, y)
        if a is None or b is None:
            return False
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.same(a, b)
        if isinstance(a, Sym) and a.ty == "bool" and isinstance(b, bool):
            return a.t if b else z3.Not(a.t)
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return type(a) is type(b) and a == b
        return False

    def contains(self, coll, x):
        if isinstance(coll, (PyDict,)):
            acc = []
            for e in self.rd(coll, "ent"):
                if isinstance(e, tuple):
                    s = self.same(e[0], x)
                    if s is True:
                        return True
                    if s is not False:
                        acc.append(s)
                else:
                    return self.bulk_find(e, x) is not None or (bool(acc) and z3.Or(*acc))
            return z3.Or(*acc) if acc else False
        if hasattr(coll, "contains"):
            return coll.contains(self, x)
        if isinstance(coll, str):
            if isinstance(x, str):
                return x in coll
            raise PyExc(TypeError, ())
        if isinstance(coll, PyClass) and coll.enum:
            return isinstance(x, PyInstance) and x.cls is coll
        seq = self.to_seq(coll)
        items = seq.concrete()
        if items is not None:
            acc = []
            for e in items:
                s = self.same(e, x)
                if s is True:
                    return True
                if s is not False:
                    acc.append(s)
            return z3.Or(*acc) if acc else False
        if isinstance(seq, SymSeq):
            i = alg.fresh("i")
            s = self.same(seq.elem(i), x)
            if isinstance(s, bool):
                return iterm(seq.n) >= 1 if s else False
            n = iterm(seq.n)
            eq = z3.simplify(s)
            if z3.is_eq(eq) and eq.arg(0).sort() == alg.I:
                # the only candidate is a known position
                for p, q in ((eq.arg(0), eq.arg(1)), (eq.arg(1), eq.arg(0))):
                    if p.eq(i) and not alg.contains(q, i):
                        if not self.ctx.branch(z3.And(q >= 0, q < n)):
                            return False
                        self.lib_state.setdefault("found_at", []).append((seq, x, q))
                        return True
            found = alg.fresh("member", z3.BoolSort())
            if self.ctx.branch(found):
                k0 = alg.fresh("at")
                self.ctx.assume(z3.And(k0 >= 0, k0 < n, z3.substitute(s, (i, k0))))
                self.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k0), z3.Not(s))))
                self.lib_state.setdefault("found_at", []).append((seq, x, k0))
                return True
            self.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Not(s))))
            return False
        raise Unsupported("membership test")

    def e_Call(self, e, fr):
        f = None
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.make_super(fr)
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                seq = self.to_seq(v)
                items = seq.concrete()
                if items is None:
                    if isinstance(f, Builtin):
                        return f.fn(self, args + [StarBulk(seq)], {})
                    args.append(StarBulk(seq))
                else:
                    args.extend(items)
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for kw in e.keywords:
            if kw.arg is None:
                d = self.eval(kw.value, fr)
                if isinstance(d, PyDict):
                    ents = self.rd(d, "ent")
                    if len(e.keywords) == 1 and any(isinstance(ent, Bulk) for ent in ents):
                        # arbitrarily many keyword arguments
                        kwargs["**"] = d
                        continue
                    for ent in ents:
                        if not isinstance(ent, tuple) or not isinstance(ent[0], str):
                            raise Unsupported("** of a symbolic dict")
                        if ent[0] in kwargs:
                            raise PyExc(TypeError, ("multiple values for keyword " + ent[0],))
                        kwargs[ent[0]] = ent[1]
                else:
                    kwargs["**"] = d
            else:
                v = self.eval(kw.value, fr)
                if kw.arg in kwargs:
                    raise PyExc(TypeError, ("multiple values for keyword " + kw.arg,))
                kwargs[kw.arg] = v
        return self.call(f, args, kwargs)

    def make_super(self, fr):
        f = fr
        while f is not None and (f.func is None or f.func.owner is None):
            f = f.parent
        if f is None:
            raise Unsupported("super() outside a method")
        first = f.func.node.args.args[0].arg
        return SuperProxy(f.func.owner, self.rd(f, first))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.eval(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Slice(self, s, fr):
        return self.eval_index(s, fr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.eval_index(e.slice, fr))

    def norm_index(self, i, n):
        """Python index -> nonnegative index within range, or IndexError"""
        if isinstance(i, bool):
            i = int(i)
        if not isinstance(i, (int, Sym)) or (isinstance(i, Sym) and i.ty != "int"):
            if hasattr(i, "as_index"):
                i = i.as_index(self)
            else:
                raise PyExc(TypeError, ("indices must be integers",))
        if isinstance(i, int) and isinstance(n, int):
            j = i + n if i < 0 else i
            if not 0 <= j < n:
                raise PyExc(IndexError, ())
            return j
        it = iterm(i)
        if n is None:
            return i
        nt = iterm(n)
        if isinstance(i, int) and i < 0:
            it = nt + i
            if not self.ctx.branch(it >= 0):
                raise PyExc(IndexError, ())
            return mk(it)
        if not self.ctx.branch(z3.And(it >= 0, it < nt)):
            if self.ctx.branch(z3.And(it < 0, it >= -nt)):
                return mk(it + nt)
            raise PyExc(IndexError, ())
        return mk(it)

    def getitem(self, o, i):
        if isinstance(i, Dyn):
            i = i.resolve(self)
        if isinstance(o, Dyn):
            o = o.resolve(self)
        if hasattr(o, "getitem"):
            return o.getitem(self, i)
        if isinstance(o, (PyList, tuple)):
            seq = self.rd(o, "seq") if isinstance(o, PyList) else CSeq(o)
            if isinstance(i, SliceV):
                r = self.slice_seq(seq, i)
                return PyList(r) if isinstance(o, PyList) else tuple(r.items) if isinstance(r, CSeq) else PyList(r)
            for s0, x, k0 in self.lib_state.get("found_at", []):
                pass
            j = self.norm_index(i, seq.n)
            return self.seq_elem(seq, j)
        if isinstance(o, PyDict):
            v = self.dict_get(o, i)
            if v is MISSING:
                raise PyExc(KeyError, (i,))
            return v
        if isinstance(o, str):
            if isinstance(i, SliceV):
                return o[slice(i.a, i.b, i.c)]
            if isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    raise PyExc(IndexError, ())
        if isinstance(o, PyClass) and o.enum and isinstance(i, str):
            if i in o.ns:
                return o.ns[i]
            raise PyExc(KeyError, (i,))
        if isinstance(o, PyInstance):
            f, _ = o.cls.lookup("__getitem__")
            if f is not MISSING:
                return self.call(Bound(f, o), [i], {})
        if isinstance(o, AbsStr):
            return AbsStr()
        if o is None or is_num(o):
            raise PyExc(TypeError, ("not subscriptable",))
        raise Unsupported("indexing %r" % (o,))

    def slice_seq(self, seq, s):
        a, b, c = s.a, s.b, s.c
        items = seq.concrete()
        if items is not None and all(x is None or isinstance(x, int) for x in (a, b, c)):
            return CSeq(items[slice(a, b, c)])
        if isinstance(seq, (CatSeq, FilterSeq)) or seq.n is None:
            raise Unsupported("slice of a composite sequence")
        n = iterm(seq.n)
        c = 1 if c is None else c
        ct = iterm(c)
        if not self.ctx.branch(ct > 0):
            if self.ctx.branch(ct == 0):
                raise PyExc(ValueError, ("slice step cannot be zero",))
            # backwards: positions are clipped to -1 .. n-1
            def back(x, default):
                if x is None:
                    return default
                x = iterm(x)
                if self.ctx.branch(x < 0):
                    x = x + n
                    if self.ctx.branch(x < 0):
                        return z3.IntVal(-1)
                if self.ctx.branch(x >= n):
                    return n - 1
                return x
            lo, hi = back(a, n - 1), back(b, z3.IntVal(-1))
            if self.ctx.branch(hi >= lo):
                return CSeq([])
            m = z3.simplify(lo - hi if z3.is_int_value(ct) and ct.as_long() == -1 else (lo - hi - ct - 1) / -ct)
            return SymSeq(m, lambda t: self.seq_elem(seq, mk(z3.simplify(lo + t * ct))))

        def clip(x, default):
            if x is None:
                return default
            x = iterm(x)
            if self.ctx.branch(x < 0):
                x = x + n
                if self.ctx.branch(x < 0):
                    return z3.IntVal(0)
            if self.ctx.branch(x > n):
                return n
            return x
        lo, hi = clip(a, z3.IntVal(0)), clip(b, n)
        if self.ctx.branch(hi <= lo):
            return CSeq([])
        if z3.is_int_value(ct) and ct.as_long() == 1:
            m = z3.simplify(hi - lo)
        else:
            m = z3.simplify((hi - lo + ct - 1) / ct)
        if isinstance(seq, CSeq):
            return SymSeq(m, lambda t: self.seq_elem(seq, mk(lo + t * ct)))
        return SymSeq(m, lambda t: seq.elem(z3.simplify(lo + t * ct)))

    def setitem(self, o, i, v):
        if hasattr(o, "setitem"):
            return o.setitem(self, i, v)
        if isinstance(o, PyDict):
            return self.dict_set(o, i, v)
        if isinstance(o, PyList):
            seq = self.rd(o, "seq")
            if isinstance(i, SliceV):
                if i.a is None and i.b is None and i.c is None:
                    self.wr(o, "seq", self.to_seq(v))
                    return
                items = seq.concrete()
                if items is not None and all(x is None or isinstance(x, int) for x in (i.a, i.b, i.c)):
                    vs = self.to_seq(v).concrete()
                    if vs is not None:
                        items = list(items)
                        items[slice(i.a, i.b, i.c)] = vs
                        self.wr(o, "seq", CSeq(items))
                        return
                raise Unsupported("slice assignment")
            j = self.norm_index(i, seq.n)
            if isinstance(seq, CSeq) and isinstance(j, int):
                items = list(seq.items)
                items[j] = v
                self.wr(o, "seq", CSeq(items))
                return
            if isinstance(seq, CarrySeq):
                self.wr(o, "seq", CarrySeq(seq.base, seq.k, seq.log + (("store", iterm(j), v),), seq.maxlen, seq.L))
                return
            if isinstance(seq, SymSeq):
                jt = iterm(j)

                def el(t):
                    c = z3.simplify(t == jt)
                    if z3.is_true(c) or (not z3.is_false(c) and self.ctx.branch(c)):
                        return v
                    return seq.elem(t)
                self.wr(o, "seq", SymSeq(seq.n, el))
                return
            raise Unsupported("store into a sequence")
        if isinstance(o, PyInstance):
            f, _ = o.cls.lookup("__setitem__")
            if f is not MISSING:
                return self.call(Bound(f, o), [i, v], {})
        if isinstance(o, tuple):
            raise PyExc(TypeError, ("tuple does not support item assignment",))
        raise Unsupported("item assignment on %r" % (o,))

    # -- comprehensions
    def comp(self, gens, emit, fr, i=0):
        """run nested comprehension clauses; emit(frame) at the innermost level"""
        g = gens[i]
        it = self.eval(g.iter, fr)

        def body(v):
            self.assign(g.target, v, fr)
            for c in g.ifs:
                if not self.cond(self.eval(c, fr)):
                    return
            if i + 1 < len(gens):
                self.comp(gens, emit, fr, i + 1)
            else:
                emit(fr)
            return
            yield
        for _ in self.for_loop_value(it, body, fr):
            raise Unsupported("yield")

    def comp_frame(self, fr, e):
        cf = Frame(fr.func, fr, fr.module)
        cf.func = None
        cf.qual = getattr(fr, "qual", "")
        cf.is_comp = True
        if getattr(fr, "is_module", False):
            cf.parent = None
        for g in e.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    cf.locals_.add(x.id)
        return cf

    def e_ListComp(self, e, fr):
        cf = self.comp_frame(fr, e)
        out = PyList([])
        self.comp(e.generators, lambda f: self.list_append(out, self.eval(e.elt, f)), cf)
        return out

    def e_SetComp(self, e, fr):
        cf = self.comp_frame(fr, e)
        out = PySet([])
        self.comp(e.generators, lambda f: self.set_add(out, self.eval(e.elt, f)), cf)
        return out

    def e_DictComp(self, e, fr):
        cf = self.comp_frame(fr, e)
        out = PyDict()

        def emit(f):
            k = self.eval(e.key, f)
            self.dict_set(out, k, self.eval(e.value, f))
        self.comp(e.generators, emit, cf)
        return out

    def e_GeneratorExp(self, e, fr):
        # evaluated eagerly into a sequence; effects inside are assumed not to depend on laziness
        first = self.eval(e.generators[0].iter, fr)
        infinite = False
        if isinstance(first, (PyIter,)) and first.seq.n is None:
            infinite = True
        if isinstance(first, PyIter) or isinstance(first, GenObj) or hasattr(first, "as_iter") or hasattr(first, "next_value"):
            pass
        cf = self.comp_frame(fr, e)
        out = PyList([])
        cf.yields = out
        cf.collecting = True
        g0 = e.generators[0]
        gens = [ast.comprehension(target=g0.target, iter=ast.Name(id=" it", ctx=ast.Load()), ifs=g0.ifs, is_async=0)] + e.generators[1:]
        cf.locals_.add(" it")
        cf.d[" it"] = first
        try:
            self.comp(gens, lambda f: self.list_append(out, self.eval(e.elt, f)), cf)
        except EndlessX:
            pass
        return PyIter(self.rd(out, "seq"))

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    # ------------------------------------------------------------- attributes
    def getattr_(self, o, name, default=MISSING):
        r = self.getattr_opt(o, name)
        if r is MISSING:
            if default is not MISSING:
                return default
            if not self.closed(o, name):
                raise Unsupported("attribute %s of %r" % (name, o))
            raise PyExc(AttributeError, (name,))
        return r

    def getattr_opt(self, o, name):
        if isinstance(o, Dyn):
            o = o.resolve(self)
        if isinstance(o, PyInstance):
            v, owner = o.cls.lookup(name)
            if isinstance(v, Prop):
                return self.call(v.fget, [o], {})
            if name in o.d:
                return self.rd(o, name)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            if v is MISSING:
                for c in o.cls.mro():
                    for b in c.bases:
                        if isinstance(b, type) and issubclass(b, BaseException) and name == "args":
                            return o.d.get("args", ())
                if name in ("__init__", "__str__", "__repr__") :
                    return Builtin("object." + name, lambda ip, a, k: None)
                return MISSING
            return self.bind_attr(v, o, o.cls)
        if isinstance(o, PyClass):
            if name == "__name__":
                return o.name
            if name == "__members__":
                return PyDict([(m.member, m) for m in o.ns.values() if isinstance(m, PyInstance) and hasattr(m, "member")])
            v, owner = o.lookup(name)
            if v is MISSING:
                if name == "__init__":
                    return Builtin("object.__init__", lambda ip, a, k: None)
                return MISSING
            if isinstance(v, ClassM):
                return Bound(v.f, o)
            if isinstance(v, StaticM):
                return v.f
            return v
        if isinstance(o, Module):
            if name in o.d:
                return self.rd(o, name)
            if o.lazy:
                r = o.lazy(self, name)
                if r is not MISSING:
                    o.d[name] = r
                    return r
                raise Unsupported("%s.%s" % (o.name, name))
            sub = o.name + "." + name
            if sub in self.libs:
                return self.import_module(sub)
            if o.name.startswith("pysgmcmc"):
                p = os.path.join(self.ROOT, *sub.split("."))
                if os.path.exists(p + ".py") or os.path.isdir(p):
                    return self.import_module(sub)
                return MISSING
            raise Unsupported("%s.%s" % (o.name, name))
        if isinstance(o, SuperProxy):
            mro = (o.obj.cls if isinstance(o.obj, PyInstance) else o.obj).mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    return self.bind_attr(c.ns[name], o.obj, c)
            if name == "__init__":
                return Builtin("object.__init__", lambda ip, a, k: None)
            return MISSING
        if isinstance(o, PyFunc):
            if name == "__name__":
                return o.attrs.get("__name__", o.name)
            if name in o.attrs:
                return o.attrs[name]
            if name == "__doc__":
                return AbsStr()
            if name == "__qualname__":
                return o.qualname
            if name == "__module__":
                return o.module.name
            if name == "__get__":
                return Builtin("__get__", lambda ip, a, k: Bound(o, a[0]))
            return MISSING
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
            return self.getattr_opt(o.func, name)
        if isinstance(o, Opaque):
            return self.opaque_attr(o, name)
        if isinstance(o, LibType):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.name
            return MISSING
        if isinstance(o, ExcValue):
            if name == "args":
                return tuple(o.args)
            return MISSING
        if hasattr(o, "getattr"):
            return o.getattr(self, name)
        m = self.methods.get(typename(o), {}).get(name)
        if m is not None:
            return Bound(Builtin(name, m), o)
        if isinstance(o, Builtin):
            if name == "__name__":
                return o.name
            return MISSING
        if isinstance(o, Sym) and o.np and name in NUMBER_METHODS:
            return NUMBER_METHODS[name](self, o)
        return MISSING

    def closed(self, o, name):
        """is it certain that o has no such attribute"""
        if is_num(o) and not isinstance(o, bool) or type(o).__name__ == "Arr":
            # which of the Python and numpy types it is may be left open: what one of them has is undecided
            import numpy
            return not any(hasattr(T, name) for T in ((int, float, numpy.float64, numpy.int64) if is_num(o) else (numpy.ndarray,)))
        if not isinstance(o, Opaque) or o.kind in CLOSED or isinstance(o, AnyValue):
            return True
        return "DType" in o.types and not name.startswith("_") and name not in DTYPE_ATTRS

    def opaque_attr(self, o, name):
        if isinstance(o, AnyValue):
            return o.attr(self, name) if o.has_attr(self, name) else MISSING
        if name in o.attrs:
            v = o.attrs[name]
            return v
        return MISSING

    def bind_attr(self, v, obj, cls):
        if isinstance(v, PyFunc) or isinstance(v, Builtin):
            return Bound(v, obj) if isinstance(obj, (PyInstance,)) else v
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, obj.cls if isinstance(obj, PyInstance) else obj)
        if isinstance(v, Prop):
            return self.call(v.fget, [obj], {})
        return v

    def setattr_(self, o, name, val):
        if isinstance(o, PyInstance):
            v, _ = o.cls.lookup(name)
            if isinstance(v, Prop):
                raise PyExc(AttributeError, (name,))
            self.wr(o, name, val)
        elif isinstance(o, PyFunc):
            for w in self.watches:
                w.note(o, name, o.attrs.get(name, MISSING))
            o.attrs[name] = val
        elif isinstance(o, Module):
            self.wr(o, name, val)
        elif isinstance(o, PyClass):
            for w in self.watches:
                w.note(o, name, o.ns.get(name, MISSING))
            o.ns[name] = val
        elif hasattr(o, "setattr"):
            o.setattr(self, name, val)
        else:
            raise Unsupported("attribute assignment on %r" % (o,))

    def hasattr_(self, o, name):
        if hasattr(o, "has_attr"):
            return o.has_attr(self, name)
        if isinstance(o, PyInstance):
            if name in o.d:
                self.rd(o, name)
                return True
            v, _ = o.cls.lookup(name)
            return v is not MISSING
        if isinstance(o, Dyn):
            o = o.resolve(self)
        if name.startswith("__") and name.endswith("__"):
            T = self.real_type(o)
            if T is not None:
                return hasattr(T, name)
        try:
            r = self.getattr_opt(o, name)
            if r is MISSING and not self.closed(o, name):
                raise Unsupported("has %r the attribute %s" % (o, name))
            return r is not MISSING
        except PyExc as e:
            if e.cls is AttributeError:
                return False
            raise

    def real_type(self, o):
        """the Python type a value of the engine stands for (for questions about special methods)"""
        import collections
        if o is None or isinstance(o, (bool, int, str, float, tuple)):
            return type(o)
        if isinstance(o, PyList):
            return {"list": list, "tuple": tuple, "deque": collections.deque}.get(getattr(o, "kind", "list"))
        if isinstance(o, PyDict):
            return dict
        if isinstance(o, PySet):
            return set
        if isinstance(o, Fraction):
            return float
        if isinstance(o, Sym):
            import numpy
            return {"int": int, "float": float, "bool": bool}.get(o.ty) if not o.np else {"int": numpy.int64, "float": numpy.float64, "bool": numpy.bool_}.get(o.ty)
        if type(o).__name__ == "Arr":
            import numpy
            return numpy.ndarray
        return None


NUMBER_METHODS = {n: (lambda ip, o, n=n: Builtin(n, lambda ip, a, k: o)) for n in ("copy", "item", "tolist", "conjugate")}
NUMBER_METHODS.update({"shape": lambda ip, o: (), "ndim": lambda ip, o: 0, "size": lambda ip, o: 1, "real": lambda ip, o: o})


class Lazy(object):
    def __init__(self, ip, fn):
        self.ip, self.fn, self.v = ip, fn, MISSING

    def force(self):
        if self.fn is None:
            raise Unsupported("value left over from a loop")
        if self.v is MISSING:
            self.v = self.fn()
        return self.v


class CarryMark(object):
    pass


class EndlessX(Exception):
    pass


class HoistGen(Unsupported):
    """a generator from before a summarised loop is first advanced at the start of its body"""

    def __init__(self, g):
        Unsupported.__init__(self, "a generator is started inside a summarised loop")
        self.g = g


class RestartReal(Unsupported):
    def __init__(self, o, key):
        Unsupported.__init__(self, "integer accumulator turned into a float one")
        self.o, self.key = o, key


class StarBulk(object):
    def __init__(self, seq):
        self.seq = seq


class SliceV(object):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def getattr(self, ip, name):
        return {"start": self.a, "stop": self.b, "step": self.c}.get(name, MISSING)

    def subst(self, s):
        return SliceV(s(self.a), s(self.b), s(self.c))

    def same_as(self, ip, o):
        return isinstance(o, SliceV) and ip.same((self.a, self.b, self.c), (o.a, o.b, o.c))


class SuperProxy(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj



def at_event(e, f):
    return tuple(f(x) if not isinstance(x, str) else x for x in e)


def mentions_const(v, consts):
    return True


def _needs_collect(node):
    """does the generator contain a loop that cannot be run to its end step by step?"""
    c = getattr(node, "_vc_collect", None)
    if c is None:
        c = node._vc_collect = True
    return c


def pyfloat(v, e):
    if v != v or v in (float("inf"), float("-inf")):
        return v
    return Fraction(repr(v)) if not repr(v).endswith("e") else Fraction(v)


def norm_num(v, bothint):
    return v if bothint else Fraction(v)


def alg_pow(t, e):
    if e == 0:
        return z3.IntVal(1) if t.sort() == alg.I else z3.RealVal(1)
    r = t
    for _ in range(e - 1):
        r = r * t
    return r


def typename(o):
    if isinstance(o, PyList):
        return "deque" if o.kind == "deque" else "list"
    if isinstance(o, PyDict):
        return "dict"
    if isinstance(o, PySet):
        return "set"
    if isinstance(o, tuple):
        return "tuple"
    if isinstance(o, (str, AbsStr)):
        return "str"
    if isinstance(o, (int, Sym)) and not isinstance(o, bool):
        return "num"
    if isinstance(o, Fraction):
        return "num"
    if isinstance(o, GenObj):
        return "generator"
    return type(o).__name__
