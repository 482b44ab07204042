"""Deciding equalities between real terms.

Terms are z3 expressions.  `Norm` turns a term into a quotient of two polynomials over atoms (anything
that is not +,-,*,/ or an integer power); atoms are unified up to provable equality of their arguments
(congruence), `Sum` binders up to linearity.  Two terms are equal if cross-multiplication gives the zero
polynomial.  Denominators are taken to be nonzero (division by zero is undefined in the contracts).
"""
from fractions import Fraction
import itertools
import math
import random
import z3

R = z3.RealSort()
I = z3.IntSort()
ArrIR = z3.ArraySort(I, R)
SUM = z3.Function("Sum", I, ArrIR, R)      # Sum(n, a) = a[0] + ... + a[n-1]
FN = {}


def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in FN:
        FN[key] = z3.Function(name, *sorts)
    return FN[key]


SQRT = z3.Function("sqrt", R, R)
EXP = z3.Function("exp", R, R)
LOG = z3.Function("log", R, R)
SIN = z3.Function("sin", R, R)
COS = z3.Function("cos", R, R)
RMAX = z3.Function("rmax", R, R, R)
RMIN = z3.Function("rmin", R, R, R)
SGN = z3.Function("sgn", R, R)
DESC = z3.Function("Desc", I, ArrIR, I, R)     # Desc(n, a, i): element i of a[0..n) sorted in descending order
PI = z3.Real("pi")

INTERP = {
    "sqrt": lambda x: math.sqrt(x) if x >= 0 else float("nan"),
    "exp": lambda x: math.exp(x) if x < 300 else float("inf"),
    "log": lambda x: math.log(x) if x > 0 else float("nan"),
    "sin": math.sin, "cos": math.cos,
}


def to_real(t):
    if t.sort() == I:
        return z3.ToReal(t)
    return t


def num(v):
    """Python number -> z3 real."""
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    raise TypeError(v)


_cnt = itertools.count()


def fresh(name, sort=None):
    return z3.Const("%s!%d" % (name, next(_cnt)), I if sort is None else sort)


def lam(k, body):
    """lambda k: body, with the same bound name everywhere so that equal bodies give the same term"""
    b = z3.Const("b@", k.sort())
    return z3.Lambda([b], z3.substitute(body, (k, b)))


mklam = lam


def mk_sum(n, body_fn):
    k = fresh("s")
    body = to_real(body_fn(k))
    if isinstance(n, int):
        n = z3.IntVal(n)
    return SUM(n, lam(k, body))


class Poly(dict):
    """monomial (sorted tuple of (atom, exp)) -> Fraction"""

    def add(self, other, c=1):
        r = Poly(self)
        for m, v in other.items():
            w = r.get(m, 0) + c * v
            if w == 0:
                r.pop(m, None)
            else:
                r[m] = w
        return r

    def mul(self, other):
        r = {}
        for m1, v1 in self.items():
            for m2, v2 in other.items():
                d = dict(m1)
                for a, e in m2:
                    d[a] = d.get(a, 0) + e
                m = tuple(sorted((a, e) for a, e in d.items() if e))
                r[m] = r.get(m, 0) + v1 * v2
        return Poly({m: v for m, v in r.items() if v})

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)}) if c else Poly()


class TooBig(Exception):
    pass


_heights = {}


def height(t):
    """nesting depth of binders in t"""
    key = t.get_id()
    hit = _heights.get(key)
    if hit is not None:
        return hit[0]
    if z3.is_quantifier(t):
        h = 1 + height(t.body())
    elif z3.is_app(t):
        h = max([height(x) for x in t.children()] or [0])
    else:
        h = 0
    _heights[key] = (h, t)
    return h


def opened(lam):
    """(constant, body) of a lambda; the constant depends on the nesting depth only, so that equal lambdas open to equal
    bodies.  Inside the body only binders of smaller depth occur, so the constant is not used again below."""
    k = z3.Const("sk@%d" % height(lam), lam.var_sort(0))
    return k, z3.substitute_vars(lam.body(), k)


def has_bound(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().name().startswith("sk@"):
                return True
            todo.extend(x.children())
    return False


class Norm(object):
    LIMIT = 4000

    def __init__(self, prover=None):
        self.atoms = []          # id -> z3 term
        self.by_head = {}        # head -> list of ids
        self.memo = {}
        self.keep = []
        self.asked = {}
        self._prover = prover    # callable(bool term) -> True if valid (for int/bool arguments)

    def prover(self, t):
        if self._prover is None:
            return False
        if t.get_id() not in self.asked:
            self.asked[t.get_id()] = (bool(self._prover(t)), t)
        return self.asked[t.get_id()][0]

    # -- atoms ---------------------------------------------------------
    def atom(self, t, head, eq):
        for i in self.by_head.get(head, ()):
            if self.atoms[i].eq(t) or eq(self.atoms[i]):
                return self._p(i)
        self.atoms.append(t)
        i = len(self.atoms) - 1
        self.by_head.setdefault(head, []).append(i)
        return self._p(i)

    @staticmethod
    def _p(i):
        return Poly({((i, 1),): Fraction(1)}), Poly.const(1)

    def arg_eq(self, a, b):
        if a.eq(b):
            return True
        if a.sort() != b.sort():
            return False
        if a.sort() == R:
            return self.eq(a, b)
        if a.sort() == I:
            if self.eq(z3.ToReal(a), z3.ToReal(b)):
                return True
            if has_bound(a) != has_bound(b):
                return False
            return self.prover(a == b)
        if a.sort() == z3.BoolSort():
            if a.decl().eq(b.decl()) and a.num_args() == b.num_args() and a.num_args() and all(
                    self.arg_eq(x, y) for x, y in zip(a.children(), b.children())):
                return True
            return self.prover(a == b)
        if a.sort().kind() == z3.Z3_ARRAY_SORT and z3.is_quantifier(a) and z3.is_quantifier(b):
            if height(a) == height(b):
                return self.arg_eq(opened(a)[1], opened(b)[1])
            k = fresh("b", a.sort().domain())
            return self.arg_eq(z3.Select(a, k) if False else z3.substitute_vars(a.body(), k),
                               z3.substitute_vars(b.body(), k))
        return False

    def eq(self, a, b):
        n1, d1 = self.norm(a)
        n2, d2 = self.norm(b)
        diff = self.reduce(n1.mul(d2).add(n2.mul(d1), -1))
        return not diff

    # -- sqrt(x)^2 = x ------------------------------------------------
    def reduce(self, p):
        while True:
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2 and self.atoms[a].decl().name() == "sqrt":
                        hit = (m, a, e)
                        break
                if hit:
                    break
            if not hit:
                return p
            m, a, e = hit
            arg = self.atoms[a].arg(0)
            if not self.prover(arg >= 0):
                return p
            n, d = self.norm(arg)
            # p = (sum of terms) ; multiply everything by d
            c = p[m]
            rest = Poly({k: v for k, v in p.items() if k != m})
            mm = tuple(sorted([(x, y) for x, y in m if x != a] + ([(a, e - 2)] if e > 2 else [])))
            p = rest.mul(d).add(Poly({mm: c}).mul(n))
            if len(p) > self.LIMIT:
                raise TooBig()

    # -- normal form ----------------------------------------------------
    def norm(self, t):
        key = t.get_id()
        if key in self.memo:
            return self.memo[key]
        r = self._norm(t)
        if len(r[0]) + len(r[1]) > self.LIMIT:
            raise TooBig()
        self.memo[key] = r
        self.keep.append(t)
        return r

    def _norm(self, t):
        one = Poly.const(1)
        if z3.is_rational_value(t):
            return Poly.const(t.as_fraction()), one
        if z3.is_int_value(t):
            return Poly.const(t.as_long()), one
        if not z3.is_app(t):
            return self.atom(t, ("misc", str(t.sort())), lambda o: False)
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_TO_REAL:
            return self.norm(ch[0])
        if k == z3.Z3_OP_ADD:
            n, d = self.norm(ch[0])
            for c in ch[1:]:
                n, d = self._addq(n, d, *self.norm(c))
            return n, d
        if k == z3.Z3_OP_SUB:
            n, d = self.norm(ch[0])
            for c in ch[1:]:
                n2, d2 = self.norm(c)
                n, d = self._addq(n, d, Poly.const(-1).mul(n2), d2)
            return n, d
        if k == z3.Z3_OP_UMINUS:
            n, d = self.norm(ch[0])
            return Poly.const(-1).mul(n), d
        if k == z3.Z3_OP_MUL:
            n, d = self.norm(ch[0])
            for c in ch[1:]:
                n2, d2 = self.norm(c)
                n, d = n.mul(n2), d.mul(d2)
                if len(n) + len(d) > self.LIMIT:
                    raise TooBig()
            return self._cancel(n, d)
        if k == z3.Z3_OP_DIV:
            n1, d1 = self.norm(ch[0])
            n2, d2 = self.norm(ch[1])
            if not n2:
                return self.atom(t, ("div0",), lambda o: False)
            return self._cancel(n1.mul(d2), d1.mul(n2))
        if k == z3.Z3_OP_POWER:
            if (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])):
                e = ch[1].as_fraction() if z3.is_rational_value(ch[1]) else Fraction(ch[1].as_long())
                if e.denominator == 1 and 0 <= e <= 16:
                    n, d = one, one
                    n1, d1 = self.norm(ch[0])
                    for _ in range(int(e)):
                        n, d = n.mul(n1), d.mul(d1)
                    return n, d
        if t.decl().name() == "Sum" and len(ch) == 2 and z3.is_quantifier(ch[1]):
            return self._sum(t, ch[0], ch[1])
        if k == z3.Z3_OP_ITE:
            c, a, b = ch
            if self.arg_eq(a, b):
                return self.norm(a)

            def eqi(o):
                c2, a2, b2 = o.children()
                return self.arg_eq(a, a2) and self.arg_eq(b, b2) and self.arg_eq(c, c2)
            return self.atom(t, ("ite", str(t.sort())), eqi)
        if len(ch) == 0:
            return self.atom(t, ("const", t.decl().name(), str(t.sort())), lambda o: o.eq(t))
        head = (t.decl().name(), len(ch), k)
        # normal forms of the arguments first: comparing atoms then never meets a term that is being normalised
        for x in ch:
            if x.sort() == R:
                self.norm(x)

        def eqa(o):
            return all(self.arg_eq(x, y) for x, y in zip(ch, o.children()))
        return self.atom(t, head, eqa)

    def _addq(self, n1, d1, n2, d2):
        if d1 == d2:
            return n1.add(n2), d1
        return self._cancel(n1.mul(d2).add(n2.mul(d1)), d1.mul(d2))

    @staticmethod
    def _cancel(n, d):
        """cancel common monomial factors and constant denominators"""
        if not n:
            return Poly(), Poly.const(1)
        com = None
        for m in itertools.chain(n, d):
            dm = dict(m)
            com = dm if com is None else {a: min(e, dm[a]) for a, e in com.items() if a in dm}
            if not com:
                break
        if com:
            def div(p):
                return Poly({tuple(sorted((a, e - com.get(a, 0)) for a, e in m if e - com.get(a, 0))): v
                             for m, v in p.items()})
            n, d = div(n), div(d)
        if len(d) == 1 and () in d:
            c = d[()]
            return Poly({m: v / c for m, v in n.items()}), Poly.const(1)
        return n, d

    def _sum(self, t, n, lam):
        k, body = opened(lam)
        num_, den = self.norm(body)

        def dep(i):
            return _contains(self.atoms[i], k)
        if any(dep(a) for m in den for a, _ in m):
            groups = [(Fraction(1), (), num_, den)]
            # leave as an opaque binder
            def eqs(o):
                return self.arg_eq(n, o.arg(0)) and self.arg_eq(lam, o.arg(1))
            return self.atom(t, ("Sum", "frac"), eqs)
        res_n, res_d = Poly(), den
        total = {}
        for m, c in num_.items():
            ind = tuple((a, e) for a, e in m if not dep(a))
            de = tuple((a, e) for a, e in m if dep(a))
            total.setdefault(de, Poly())
            total[de] = total[de].add(Poly({ind: c}))
        for de, coef in total.items():
            if de == ():
                nn, nd = self.norm(z3.ToReal(n))
                res_n = res_n.mul(nd).add(coef.mul(nn).mul(res_d.mul(Poly.const(1))) if False else coef.mul(nn))
                continue
            prod = None
            for a, e in de:
                for _ in range(e):
                    prod = self.atoms[a] if prod is None else prod * self.atoms[a]
            prod = to_real(prod)
            s = SUM(n, mklam(k, prod))
            sl = s.arg(1)

            def eqs(o, s=s, sl=sl):
                return self.arg_eq(n, o.arg(0)) and self.arg_eq(sl, o.arg(1))
            an, _ = self.atom(s, ("Sum", "mono", sum(e for _, e in de)), eqs)
            res_n = res_n.add(coef.mul(an))
        return self._cancel(res_n, res_d)


def _contains(t, k):
    todo, seen = [t], set()
    kid = k.get_id()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i == kid:
            return True
        if i in seen:
            continue
        seen.add(i)
        todo.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
    return False


def factor_of(t, c):
    """f with t == c * f and c not in f, or None"""
    t = z3.simplify(t)
    if not contains(t, c):
        return None
    v = lambda x: z3.IntVal(x) if c.sort() == I else z3.RealVal(x)
    f = z3.simplify(z3.substitute(t, (c, v(1))))
    if contains(f, c) or not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_MUL:
        return None
    if t.num_args() < 2 or sum(1 for x in t.children() if contains(x, c)) != 1 or not any(x.eq(c) for x in t.children()):
        return None
    return f


def contains(t, k):
    return _contains(t, k)


_HASQ = {}


def has_quantifier(t):
    """does a forall or exists (not a lambda) occur in t"""
    i = t.get_id()
    if i not in _HASQ:
        r, seen, todo = False, set(), [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                if not x.is_lambda():
                    r = True
                    break
                todo.append(x.body())
            else:
                todo.extend(x.children())
        _HASQ[i] = (r, t)
    return _HASQ[i][0]


def ite_conds(*ts):
    """conditions of if-then-else subterms (outside binders)"""
    out, seen, todo = [], set(), list(ts)
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen or z3.is_quantifier(x):
            continue
        seen.add(i)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            out.append(x.arg(0))
        todo.extend(x.children())
    return out


# ---------------------------------------------------------------- numeric evaluation
DEFINED = {"Sum", "Count", "sqrt", "exp", "log", "sin", "cos", "Min", "Max", "ArgMin", "ArgMax", "ArgSort", "Desc", "rmax", "rmin", "sgn", "pi"}


def contains_fn(t, name):
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().name() == name:
            return True
        todo.extend(x.children())
    return False


def has_defined(*ts):
    """do the terms use functions whose meaning the solver does not know?"""
    todo, seen = list(ts), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        if z3.is_app(x) and x.decl().name() in DEFINED:
            return True
        todo.extend(x.children())
    return False


class NumFail(Exception):
    pass


def _hashval(key, lo=0.3, hi=2.0):
    r = random.Random(repr(key))
    if isinstance(key, tuple) and isinstance(key[0], int) and key[0] % 3 == 2:
        return 10 ** (1.2 * (2 * r.random() - 1))      # some of the environments are spread more widely
    return lo + (hi - lo) * r.random()


def has_vars(t):
    """does the term mention variables bound outside of it?"""
    seen, todo = set(), [(t, 0)]
    while todo:
        x, d = todo.pop()
        if (x.get_id(), d) in seen:
            continue
        seen.add((x.get_id(), d))
        if z3.is_var(x):
            if z3.get_var_index(x) >= d:
                return True
        elif z3.is_quantifier(x):
            todo.append((x.body(), d + x.num_vars()))
        else:
            todo.extend((c, d) for c in x.children())
    return False


def evaluate(t, env, salt, model=None):
    """Evaluate a z3 term numerically; uninterpreted symbols get pseudo-random interpretations, or those of the model (exact
    rationals; then comparisons that rounding could decide fail)."""
    memo = {}

    def z3val(v, sort):
        if sort == z3.BoolSort():
            return z3.BoolVal(bool(v))
        return z3.IntVal(int(v)) if sort == I else z3.RealVal(Fraction(v))

    def from_model(d, a):
        if any(isinstance(x, tuple) for x in a):
            raise NumFail("function argument")
        v = model.eval(d(*[z3val(x, d.domain(i)) for i, x in enumerate(a)]), model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return v.as_fraction()
        if z3.is_true(v) or z3.is_false(v):
            return z3.is_true(v)
        if z3.is_algebraic_value(v):
            return float(v.approx(30).as_fraction())
        raise NumFail("model value")

    def far(a):
        if model is not None and any(isinstance(x, float) for x in a) and abs(a[0] - a[1]) <= 1e-9 * max(abs(a[0]), abs(a[1]), 1e-300):
            raise NumFail("close call")

    def rnd(x):
        if isinstance(x, bool) or isinstance(x, int):
            return x
        if isinstance(x, float):
            return float("%.9g" % x)
        return x

    def ev(t, b):
        key = (t.get_id(), tuple(sorted(b.items())) if b else ())
        if key in memo:
            return memo[key][0]
        v = ev1(t, b)
        memo[key] = (v, t)
        return v

    def ev1(t, b):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return float(t.as_fraction()) if model is None else t.as_fraction()
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if z3.is_var(t):
            raise NumFail("var")
        if z3.is_quantifier(t):
            if t.is_lambda():
                return ("lam", t, dict(b))
            # bounded instances only
            n = t.num_vars()
            vals = []
            # beyond every number the body mentions nothing new happens
            top, todo, seen = 0, [t.body()], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen or z3.is_quantifier(x):
                    continue
                seen.add(x.get_id())
                if x.sort() == I and not has_vars(x):
                    v = ev(x, b)
                    top += abs(v) if not isinstance(v, tuple) else 0
                else:
                    todo.extend(x.children())
            top = max(top, 4)
            if top > 4 and (top + 3) ** n > 600:
                raise NumFail("quantifier over many values")
            for tup in itertools.product(range(-1, int(top) + 2 if top > 4 else 5), repeat=n):
                sub = [z3.IntVal(v) for v in tup]
                body = z3.substitute_vars(t.body(), *reversed(sub))
                vals.append(ev(body, b))
            if model is not None and all(vals) == t.is_forall() and any(vals) == t.is_forall():
                raise NumFail("quantifier")
            return all(vals) if t.is_forall() else any(vals)
        k = t.decl().kind()
        name = t.decl().name()
        if k == z3.Z3_OP_ITE:
            return ev(t.arg(1), b) if ev(t.arg(0), b) else ev(t.arg(2), b)
        if k == z3.Z3_OP_AND:
            return all(ev(c, b) for c in t.children())
        if k == z3.Z3_OP_OR:
            return any(ev(c, b) for c in t.children())
        if k == z3.Z3_OP_IMPLIES:
            return (not ev(t.arg(0), b)) or ev(t.arg(1), b)
        a = [ev(c, b) for c in t.children()]
        if k == z3.Z3_OP_NOT:
            return not a[0]
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_SUB:
            return a[0] - sum(a[1:])
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_MUL:
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if k == z3.Z3_OP_DIV:
            if a[1] == 0:
                raise NumFail("div0")
            return a[0] / a[1] if model is None or isinstance(a[0] / a[1], float) and isinstance(a[0] * a[1], float) else Fraction(a[0]) / Fraction(a[1])
        if k == z3.Z3_OP_IDIV:
            if a[1] == 0:
                raise NumFail("div0")
            return a[0] // a[1]
        if k == z3.Z3_OP_MOD:
            if a[1] == 0:
                raise NumFail("div0")
            return a[0] % abs(a[1])
        if k == z3.Z3_OP_POWER:
            return a[0] ** a[1]
        if k == z3.Z3_OP_TO_REAL:
            return float(a[0]) if model is None else a[0]
        if k == z3.Z3_OP_TO_INT:
            return math.floor(a[0])
        if k == z3.Z3_OP_IS_INT:
            return float(a[0]).is_integer()
        if k == z3.Z3_OP_EQ:
            if isinstance(a[0], float) or isinstance(a[1], float):
                if model is not None and 1e-14 < abs(a[0] - a[1]) / max(abs(a[0]), abs(a[1]), 1e-300) < 1e-6:
                    raise NumFail("close call")
                if model is not None:
                    return abs(a[0] - a[1]) <= 1e-12 * max(abs(a[0]), abs(a[1]))
                return abs(a[0] - a[1]) <= 1e-9 * max(1, abs(a[0]))
            return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT:
            return len(set(a)) == len(a)
        if k == z3.Z3_OP_LE:
            far(a)
            return a[0] <= a[1]
        if k == z3.Z3_OP_LT:
            far(a)
            return a[0] < a[1]
        if k == z3.Z3_OP_GE:
            far(a)
            return a[0] >= a[1]
        if k == z3.Z3_OP_GT:
            far(a)
            return a[0] > a[1]
        if k == z3.Z3_OP_SELECT:
            if isinstance(a[0], tuple) and a[0][0] == "lam":
                return app(a[0], a[1])
            return _hashval((salt, "sel", a[0], rnd(a[1])))
        if name == "Sum":
            n = a[0]
            if n > 200:
                raise NumFail("n")
            if isinstance(a[1], tuple) and a[1][0] == "lam":
                return float(sum(app(a[1], i) for i in range(n)))
            return float(sum(_hashval((salt, "arr", a[1], i)) for i in range(n)))
        if name in INTERP and len(a) == 1:
            try:
                return INTERP[name](a[0] if model is None else float(a[0]))
            except (OverflowError, ValueError):
                raise NumFail(name)
        if name == "pi" and not a:
            return math.pi
        if not a:
            if name in env:
                return env[name]
            if model is not None and t.sort() in (I, R, z3.BoolSort()):
                env[name] = from_model(t.decl(), [])
                return env[name]
            if t.sort() == I:
                env[name] = random.Random(repr((salt, name))).choice([1, 2, 3, 2, 3, 4, 0])
            elif t.sort() == R:
                env[name] = _hashval((salt, name))
            elif t.sort() == z3.BoolSort():
                env[name] = random.Random(repr((salt, name))).random() < .5
            else:
                return (name,)
            return env[name]
        if name == "rmax" and len(a) == 2:
            return max(a)
        if name == "rmin" and len(a) == 2:
            return min(a)
        if name == "sgn" and len(a) == 1:
            return float((a[0] > 0) - (a[0] < 0)) if model is None else int(a[0] > 0) - int(a[0] < 0)

        def hk(x):
            # functions are compared by their values on the range that counts
            if isinstance(x, tuple) and x and x[0] == "lam":
                m = a[0] if isinstance(a[0], int) and not isinstance(a[0], bool) else 6
                if m > 12:
                    raise NumFail("n")
                return tuple(rnd(app(x, i)) for i in range(max(m, 0)))
            return rnd(x) if not isinstance(x, tuple) else repr(x)
        if name == "Count" and isinstance(a[1], tuple):
            if a[0] > 400:
                raise NumFail("n")
            return sum(app(a[1], i) for i in range(a[0])) if a[1][0] == "lam" else 0
        if name in ("Min", "Max", "ArgMin", "ArgMax", "ArgSort", "Desc") and isinstance(a[1], tuple) and a[1][0] == "lam" and 1 <= a[0] <= 300:
            vs = [app(a[1], i) for i in range(a[0])]
            if name == "ArgSort":
                if not 0 <= a[2] < a[0]:
                    raise NumFail("ArgSort")
                return sorted(range(a[0]), key=lambda i: vs[i])[a[2]]
            if name == "Desc":
                if not 0 <= a[2] < a[0]:
                    raise NumFail("Desc")
                return sorted(vs, reverse=True)[a[2]]
            b = min(vs) if "Min" in name else max(vs)
            return vs.index(b) if name.startswith("Arg") else b
        if model is not None and not any(isinstance(x, tuple) for x in a):
            return from_model(t.decl(), a)
        if not any(isinstance(x, tuple) for x in a) and (name, tuple(a)) in env:
            return env[(name, tuple(a))]
        key = (salt, name, tuple(hk(x) for x in a))
        if t.sort() == I:
            return random.Random(repr(key)).choice([0, 1, 2, 3, 1, 2])
        if t.sort() == z3.BoolSort():
            return random.Random(repr(key)).random() < .5
        return _hashval(key)

    def app(lam, i):
        _, q, b = lam
        s = q.var_sort(0)
        v = z3.IntVal(i) if s == I else z3.RealVal(i)
        return ev(z3.substitute_vars(q.body(), v), b)

    return ev(t, {})
