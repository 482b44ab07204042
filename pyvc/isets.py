"""Sets of integers given by symbolic index sequences, and gathering by them (dynamic_stitch), for any size.

Everything asked of the solver is an equality or order of integer terms; equalities of two terms a*k + r, b*k + s with
0 <= r, s < k are first split into a == b and r == s (uniqueness of the digits to the base k)."""
import z3
from . import alg
from .core import Unsupported
from .values import *

I = alg.I


def zint(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def bases(*ts):
    """integer constants in the terms"""
    out, todo, seen = [], list(ts), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == I:
            out.append(x)
        todo.extend(x.children())
    return out


def digits(t, k):
    """(d, r) with t == d * k + r and k neither in d nor in r, or None"""
    r = z3.simplify(z3.substitute(t, (k, z3.IntVal(0))))
    d = z3.simplify(z3.substitute(t, (k, z3.IntVal(1))) - r)
    if alg.contains(r, k) or alg.contains(d, k):
        return None
    if not z3.is_int_value(z3.simplify(t - (d * k + r), som=True)) or z3.simplify(t - (d * k + r), som=True).as_long() != 0:
        return None
    return d, r


class Sets(object):
    def __init__(self, ip):
        self.ip, self.c = ip, ip.ctx

    def valid(self, goal, hyps=()):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return self.c.solve(self.c.all_pc() + list(hyps), 1500) == z3.unsat
        return self.c.solve(self.c.all_pc() + list(hyps) + [z3.Not(goal)], 3000) == z3.unsat

    # ------------------------------------------------ equality and order with digits
    def split(self, a, b, hyps):
        for k in bases(a, b):
            x, y = digits(a, k), digits(b, k)
            if x is None or y is None or z3.is_int_value(x[0]) and z3.is_int_value(y[0]):
                continue
            if self.valid(z3.And(x[1] >= 0, x[1] < k, y[1] >= 0, y[1] < k), hyps):
                yield x, y

    def equal(self, a, b, hyps=()):
        d = z3.simplify(a - b, som=True)
        if z3.is_int_value(d):
            return d.as_long() == 0
        return self.valid(a == b, hyps)

    def differ(self, a, b, hyps=()):
        d = z3.simplify(a - b, som=True)
        if z3.is_int_value(d) and d.as_long() != 0:
            return True
        for x, y in self.split(a, b, hyps):
            if self.valid(z3.Or(x[0] != y[0], x[1] != y[1]), hyps):
                return True
        return self.valid(a != b, hyps)

    def within(self, a, n, hyps=()):
        """0 <= a < n"""
        for k in bases(a, n):
            x = digits(a, k)
            if x is not None and z3.is_int_value(z3.simplify(n - k * k, som=True)) and z3.simplify(n - k * k, som=True).as_long() == 0:
                if self.valid(z3.And(x[0] >= 0, x[0] < k, x[1] >= 0, x[1] < k), hyps):
                    return True
        return self.valid(z3.And(a >= 0, a < n), hyps)

    # ------------------------------------------------ families of indices
    def families(self, seq):
        """[(variables, conditions, term, position)] of the members of the sequence"""
        items = seq.concrete()
        if items is not None:
            if not all(is_num(x) and not isinstance(x, bool) for x in items):
                raise Unsupported("a set of other things than integers")
            return [([], [], iterm(x), lambda j=j: z3.IntVal(j)) for j, x in enumerate(items)]
        if isinstance(seq, SymSeq):
            t = alg.fresh("t")
            v = seq.elem(t)
            if not (isinstance(v, (Sym, int)) and iterm(v).sort() == I):
                raise Unsupported("a set of other things than integers")
            return [([t], [t >= 0, t < zint(seq.n)], z3.simplify(iterm(v)), lambda t: t)]
        if isinstance(seq, FlatSeq):
            i, t = alg.fresh("i"), alg.fresh("t")
            h = [i >= 0, i < zint(iterm(seq.m))]
            s = seq.inner(i)
            if not isinstance(s, SymSeq):
                raise Unsupported("a nested set")
            h2 = [t >= 0, t < zint(s.n)]
            return [([i, t], h + h2, z3.simplify(iterm(s.elem(t))), lambda i, t: self.prefix(seq, i) + t)]
        raise Unsupported("a set of a %s" % type(seq).__name__)

    def inner_length(self, seq, i, hyps):
        n = zint(seq.inner(i).n)
        if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE:
            for arm in (n.arg(1), n.arg(2)):
                if self.valid(n == arm, hyps):
                    return arm
        return n

    def prefix(self, seq, i, whole=False):
        """number of members in the blocks before block i, whose lengths are an arithmetic progression"""
        x = alg.fresh("b")
        h = [x >= 0, x < zint(iterm(seq.m))]
        n = self.inner_length(seq, x, h)
        b = z3.simplify(z3.substitute(n, (x, x + 1)) - n, som=True)
        if not z3.is_int_value(b):
            raise Unsupported("blocks of lengths %s" % n)
        a = z3.simplify(z3.substitute(n, (x, z3.IntVal(0))))
        if not self.valid(n == a + b * x, h):
            raise Unsupported("blocks of lengths %s" % n)
        s = alg.fresh("before")
        self.c.assume(2 * s == z3.simplify(2 * a * i + b * i * (i - 1)))
        return s

    def length(self, seq):
        if isinstance(seq, FlatSeq):
            return self.prefix(seq, zint(iterm(seq.m)))
        return zint(seq.n)

    def same_seq(self, s, u):
        if s is u:
            return True
        f, g = self.families(s), self.families(u)
        if len(f) != len(g):
            return False
        for (v, h, t, _), (w, h2, t2, _) in zip(f, g):
            if len(v) != len(w):
                return False
            sub = list(zip(w, v))
            ren = lambda e: z3.simplify(z3.substitute(e, *sub)) if sub else e
            if not self.equal(t, ren(t2), h) or not self.valid(z3.And(z3.BoolVal(True), *h) == z3.And(z3.BoolVal(True), *[ren(x) for x in h2])):
                return False
        return True

    # ------------------------------------------------ membership
    def is_range(self, seq):
        """n if the sequence is 0, 1, ..., n - 1"""
        if isinstance(seq, SymSeq):
            t = alg.fresh("t")
            v = seq.elem(t)
            if isinstance(v, (Sym, int)) and z3.is_int_value(z3.simplify(iterm(v) - t)) and z3.simplify(iterm(v) - t).as_long() == 0:
                return zint(seq.n)
        return None

    def find(self, seq, p, hyps=()):
        """position of p in the sequence, or None if no witness was found"""
        n = self.is_range(seq)
        if n is not None:
            return p if self.within(p, n, hyps) else None
        cand = list(bases(p))
        for k in bases(p):
            d = digits(p, k)
            if d is not None:
                cand = list(d) + cand
        for vs, h, t, pos in self.families(seq):
            for sub in self.solutions(vs, t, p, cand):
                st = lambda e: z3.simplify(z3.substitute(e, *sub)) if sub else e
                if self.equal(st(t), p, hyps) and self.valid(z3.And(z3.BoolVal(True), *[st(x) for x in h]), hyps):
                    return pos(*[st(v) for v in vs])
        return None

    def solutions(self, vs, t, p, cand):
        if not vs:
            yield []
        elif len(vs) == 1:
            for c in cand:
                yield [(vs[0], c)]
        else:
            i, q = vs
            for c in cand:
                t1 = z3.substitute(t, (i, c))
                t0 = z3.simplify(z3.substitute(t1, (q, z3.IntVal(0))))
                yield [(i, c), (q, z3.simplify(p - t0, som=True))]

    def lacks(self, seq, p, hyps=()):
        """p is certainly not in the sequence"""
        n = self.is_range(seq)
        if n is not None:
            return self.valid(z3.Or(p < 0, p >= n), hyps)
        return all(self.differ(t, p, list(hyps) + h) for vs, h, t, pos in self.families(seq))

    def member(self, e, p, hyps=()):
        if e[0] == "seq":
            return self.find(e[1], p, hyps) is not None
        a, b = e[1], e[2]
        if e[0] == "or":
            return self.member(a, p, hyps) or self.member(b, p, hyps)
        if e[0] == "and":
            return self.member(a, p, hyps) and self.member(b, p, hyps)
        return self.member(a, p, hyps) and self.absent(b, p, hyps)

    def absent(self, e, p, hyps=()):
        if e[0] == "seq":
            return self.lacks(e[1], p, hyps)
        a, b = e[1], e[2]
        if e[0] == "or":
            return self.absent(a, p, hyps) and self.absent(b, p, hyps)
        if e[0] == "and":
            return self.absent(a, p, hyps) or self.absent(b, p, hyps)
        return self.absent(a, p, hyps) or self.member(b, p, hyps)

    # ------------------------------------------------ cardinality
    def atoms(self, e):
        return [e[1]] if e[0] == "seq" else self.atoms(e[1]) + self.atoms(e[2])

    def subset(self, e, f):
        if e[0] == "seq":
            return all(self.member(f, t, h) for vs, h, t, pos in self.families(e[1]))
        if e[0] == "or":
            return self.subset(e[1], f) and self.subset(e[2], f)
        return self.subset(e[1], f)

    def disjoint(self, e, f):
        if e[0] == "seq":
            return all(self.absent(f, t, h) for vs, h, t, pos in self.families(e[1]))
        if e[0] == "or":
            return self.disjoint(e[1], f) and self.disjoint(e[2], f)
        return self.disjoint(e[1], f)

    def injective(self, seq):
        if self.is_range(seq) is not None:
            return True
        fs = self.families(seq)
        for a, (vs, h, t, pos) in enumerate(fs):
            ren = [(v, alg.fresh("u")) for v in vs]
            if ren:
                t2, h2 = z3.substitute(t, *ren), [z3.substitute(x, *ren) for x in h]
                if not self.differ(t, t2, h + h2 + [z3.Or(*[v != u for v, u in ren])]):
                    return False
            for vs2, h2, t2, _ in fs[a + 1:]:
                if not self.differ(t, t2, h + h2):
                    return False
        return True

    def card(self, e):
        if e[0] == "seq":
            if not self.injective(e[1]):
                raise Unsupported("size of a set given by a sequence with repetitions")
            return self.length(e[1])
        if e[0] == "or" and self.disjoint(e[1], e[2]):
            return z3.simplify(self.card(e[1]) + self.card(e[2]))
        if e[0] == "sub" and self.subset(e[2], e[1]):
            return z3.simplify(self.card(e[1]) - self.card(e[2]))
        raise Unsupported("size of a symbolic set")


class IntSet(HObj):
    """an immutable set of integers"""

    def __init__(self, expr):
        HObj.__init__(self)
        self.expr = expr

    def length(self, ip):
        return Sets(ip).card(self.expr)

    def seq(self, ip):
        return EnumSeq(self.expr, z3.simplify(Sets(ip).card(self.expr)))

    def getattr(self, ip, name):
        ops = {"union": "or", "difference": "sub", "intersection": "and"}
        if name in ops:
            def f(ip, a, k):
                r = self
                for x in a:
                    r = IntSet((ops[name], r.expr, expr_of(ip, x)))
                return r
            return Builtin("set." + name, f)
        if name == "copy":
            return Builtin("set.copy", lambda ip, a, k: self)
        return MISSING


class EnumSeq(SymSeq):
    """the members of a set in some order"""

    def __init__(self, expr, n):
        u = z3.Function("member_%d" % next(_enum), I, I)
        SymSeq.__init__(self, n, lambda t: mk(u(t)))
        self.expr = expr


import itertools
_enum = itertools.count()


def expr_of(ip, x):
    if isinstance(x, IntSet):
        return x.expr
    seq = ip.to_seq(x)
    if isinstance(seq, EnumSeq):
        return seq.expr
    return ("seq", seq)


# ------------------------------------------------------------------ dynamic_stitch
def stitch(ip, seqs, rows):
    """size of the result of stitching sequences of indices, after checking the numbers of rows; a list of the sequences"""
    S = Sets(ip)
    for s, n in zip(seqs, rows):
        m = S.card(s.expr) if isinstance(s, EnumSeq) else S.length(s)
        if not S.valid(m == zint(n)):
            if S.valid(m != zint(n)):
                return None
            raise Unsupported("dynamic_stitch: number of rows")
    for s in seqs:
        if isinstance(s, EnumSeq) and s.expr[0] == "sub" and s.expr[1][0] == "seq":
            n = S.is_range(s.expr[1][1])
            if n is None:
                continue
            # every number below n is among the members or in one of the other sequences, nothing is above
            others = [q for q in seqs if q is not s]
            if all(any(not isinstance(q, EnumSeq) and S.same_seq(a, q) for q in others) for a in S.atoms(s.expr[2])) and \
                    all(S.subset(("seq", q), ("seq", s.expr[1][1])) for q in others):
                return n
    raise Unsupported("dynamic_stitch: which elements are defined")


def stitched(ip, seqs, p):
    """-> (which sequence, position; None for an unknown one) that defines element p"""
    S = Sets(ip)
    for j in range(len(seqs) - 1, -1, -1):
        s = seqs[j]
        if isinstance(s, EnumSeq):
            if S.member(s.expr, p):
                return j, None
            if S.absent(s.expr, p):
                continue
            raise Unsupported("dynamic_stitch: element %s" % p)
        q = S.find(s, p)
        if q is not None:
            if not S.injective(s):
                raise Unsupported("dynamic_stitch with repeated indices")
            return j, q
        if not S.lacks(s, p):
            raise Unsupported("dynamic_stitch: element %s" % p)
    raise Unsupported("dynamic_stitch: element %s is undefined" % p)
