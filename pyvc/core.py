"""Paths, obligations and solver access."""
import subprocess
import tempfile
import time
import os
import z3
from . import alg


class Unsupported(Exception):
    """The code uses something outside the verifier's reach: undecided, never a violation."""


class PathEnd(Exception):
    """this path is infeasible or not of interest"""


class PyExc(Exception):
    """a Python exception raised by the interpreted program"""

    def __init__(self, cls, args=(), msg=None):
        Exception.__init__(self, str(cls), args)
        self.cls, self.eargs = cls, args
        self.value = None

    @property
    def name(self):
        return getattr(self.cls, "name", None) or getattr(self.cls, "__name__", str(self.cls))

    def __str__(self):
        return "%s%s" % (self.name, tuple(str(a)[:80] for a in self.eargs))


class Local(object):
    def __init__(self, deps):
        self.deps = deps        # z3 constants local to this exploration
        self.prefix = []
        self.pos = 0
        self.work = []
        self.pc = []


class Result(object):
    def __init__(self, name, status, backend, secs, detail="", path=""):
        self.name, self.status, self.backend, self.secs = name, status, backend, secs
        self.detail, self.path = detail, path

    def as_dict(self):
        return {"obligation": self.name, "status": self.status, "backend": self.backend,
                "secs": round(self.secs, 4), "detail": self.detail, "path": self.path}


STATS = {"solver_s": 0.0, "queries": 0, "by": {}}


def _count(backend, secs):
    STATS["solver_s"] += secs
    STATS["queries"] += 1
    b = STATS["by"].setdefault(backend, [0, 0.0])
    b[0] += 1
    b[1] += secs


AXIOMS_FOR = {}


def math_axioms(terms):
    """instances of basic facts on sqrt/exp/log for the applications occurring in the terms"""
    out, seen, todo = [], set(), list(terms)
    apps = {}
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x) and x.decl().name() in ("sqrt", "exp", "log") and x.num_args() == 1:
            apps.setdefault(x.decl().name(), []).append(x)
        if z3.is_app(x) and x.decl().name() == "Count":
            apps.setdefault("Count", []).append(x)
        todo.extend(x.children())
    out.extend(count_axioms(apps.get("Count", ())))
    for x in apps.get("sqrt", ()):
        a = x.arg(0)
        out.append(z3.Implies(a >= 0, z3.And(x >= 0, x * x == a)))
    for x in apps.get("exp", ()):
        out.append(x > 0)
        out.append(x >= 1 + x.arg(0))
    for x in apps.get("log", ()):
        out.append(z3.Implies(x.arg(0) > 1, x > 0))
    return out


def count_axioms(apps):
    """Count(n, f) = f(0) + ... + f(n - 1): the empty sum, and one step between neighbouring bounds"""
    out = []
    for x in apps:
        n, f = x.arg(0), x.arg(1)
        out.append(z3.Implies(n <= 0, x == 0))
        for y in apps:
            if y is not x and y.arg(1).eq(f):
                d = z3.simplify(y.arg(0) - n)
                if z3.is_int_value(d) and d.as_long() == 1:
                    out.append(z3.Implies(n >= 0, y == x + z3.simplify(z3.Select(f, n))))
    return out


class Ctx(object):
    def __init__(self, timeout_ms=8000):
        self.timeout_ms = timeout_ms
        self.results = []
        self.work = [[]]
        self.assumptions = set()
        self.paths = 0
        self.reached = set()
        self.functions = set()
        self.limit = 4000
        self._feasible = {}
        self.reset([])

    def reset(self, prefix):
        self.prefix, self.pos = prefix, 0
        self.pc = []
        self.locals = []
        self.trace = []

    # ---- exploring
    def run(self, contract):
        """explore all paths of contract(ctx)"""
        while self.work:
            prefix = self.work.pop()
            self.reset(prefix)
            self.paths += 1
            if self.paths > self.limit:
                raise Unsupported("too many paths")
            try:
                contract(self)
            except PathEnd:
                pass

    def all_pc(self):
        r = list(self.pc)
        for l in self.locals:
            r.extend(l.pc)
        return r

    def assume(self, t):
        if isinstance(t, bool):
            if not t:
                raise PathEnd()
            return
        if z3.is_true(z3.simplify(t)):
            return
        tgt = self.pc
        for l in self.locals:
            if any(alg.contains(t, d) for d in l.deps):
                tgt = l.pc
        tgt.append(t)

    def note(self, s):
        self.assumptions.add(s)

    @staticmethod
    def solve(ts, timeout):
        """z3's answer on the conjunction of ts, tried first without the quantified ones"""
        ax = list(math_axioms(ts))
        t0 = time.time()
        quant = any(alg.has_quantifier(t) for t in ts)
        for some in ([t for t in ts if not alg.has_quantifier(t)], ts) if quant else (ts,):
            s = z3.Solver()
            # with quantifiers "unknown" is the usual answer: do not wait long for it
            s.set("timeout", 400 if quant and some is ts else timeout)
            s.add(*some)
            s.add(*ax)
            r = s.check()
            if r == z3.unsat:
                break
        _count("z3", time.time() - t0)
        return r

    def feasible(self, extra, timeout=3000):
        ts = self.all_pc() + [extra]
        key = (timeout,) + tuple(t.get_id() for t in ts)
        if key in self._feasible:
            return self._feasible[key][0]
        r = self.solve(ts, timeout)
        self._feasible[key] = (r != z3.unsat, ts)
        return r != z3.unsat

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        can_t = self.feasible(cond)
        can_f = self.feasible(z3.Not(cond))
        if not can_t and not can_f:
            raise PathEnd()
        if can_t != can_f:
            return can_t
        loc = None
        for l in self.locals:
            if any(alg.contains(cond, d) for d in l.deps):
                loc = l
        if loc is None:
            if self.pos < len(self.prefix):
                c = self.prefix[self.pos]
            else:
                c = True
                self.work.append(self.prefix[:self.pos] + [False])
                self.prefix = self.prefix + [True]
            self.pos += 1
            self.pc.append(cond if c else z3.Not(cond))
            self.trace.append("%s%s" % ("" if c else "not ", str(cond).replace("\n", " ")[:120]))
            return c
        if loc.pos < len(loc.prefix):
            c = loc.prefix[loc.pos]
        else:
            c = True
            loc.work.append(loc.prefix[:loc.pos] + [False])
            loc.prefix = loc.prefix + [True]
        loc.pos += 1
        loc.pc.append(cond if c else z3.Not(cond))
        return c

    def local_paths(self, deps, fn, undo):
        """run fn on every local path; yields (local pc, result or PyExc)"""
        loc = Local(deps)
        loc.work = [[]]
        out = []
        self.locals.append(loc)
        try:
            n = 0
            while loc.work:
                loc.prefix = loc.work.pop()
                loc.pos = 0
                loc.pc = []
                n += 1
                if n > 200:
                    raise Unsupported("too many local paths")
                try:
                    res = fn(list(loc.pc) and loc.pc or loc.pc)
                    out.append((list(loc.pc), res))
                except PathEnd:
                    pass
                finally:
                    undo()
        finally:
            self.locals.pop()
        return out

    # ---- solving
    def simp(self, t, depth=0):
        """t with every if-then-else whose condition the path decides resolved"""
        t = z3.simplify(t)
        for _ in range(40):
            done = True
            for cnd in alg.ite_conds(t):
                if z3.is_quantifier(cnd):
                    continue
                try:
                    if self.valid(cnd):
                        v = z3.BoolVal(True)
                    elif self.valid(z3.Not(cnd)):
                        v = z3.BoolVal(False)
                    else:
                        continue
                except z3.Z3Exception:
                    continue
                n = z3.simplify(z3.substitute(t, (cnd, v)))
                if not n.eq(t):
                    t, done = n, False
                    break
            if done:
                return t
        return t

    def valid(self, t, timeout=1500):
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return not self.feasible_strict(z3.Not(t), timeout)

    def feasible_strict(self, extra, timeout):
        return self.feasible(extra, timeout)

    def record(self, name, status, backend, secs, detail=""):
        self.results.append(Result(name, status, backend, secs, detail, "; ".join(self.trace)))
        return status == "proved"

    def check(self, name, ok, detail=""):
        """a structural obligation, decided by the engine's own bookkeeping"""
        return self.record(name, "proved" if ok else "refuted", "engine", 0.0, "" if ok else detail)

    def undecided(self, name, detail):
        return self.record(name, "unknown", "engine", 0.0, detail)

    def prove(self, name, goal, hyps=()):
        if isinstance(goal, bool):
            return self.check(name, goal, "false")
        t0 = time.time()
        hyps = list(hyps)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return self.record(name, "proved", "z3-simplify", time.time() - t0)
        ts = self.all_pc() + hyps
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        for a in ts:
            s.add(a)
        for a in math_axioms(ts + [goal]):
            s.add(a)
        s.add(z3.Not(goal))
        r = s.check()
        dt = time.time() - t0
        _count("z3", dt)
        if r == z3.unsat:
            return self.record(name, "proved", "z3", dt)
        if r == z3.sat:
            try:
                m = str(s.model()).replace("\n", " ")[:1500]
            except z3.Z3Exception:
                m = ""
            if not alg.has_defined(goal, *hyps):
                return self.record(name, "refuted", "z3", dt, "counterexample: " + m)
            # the solver does not know what sums, roots etc. are: its model counts only if it survives evaluation
            ce = self.model_refute(s.model(), goal, hyps) or self.numeric_refute(goal, hyps)
            if ce:
                return self.record(name, "refuted", "z3+numeric", dt, ce)
            return self.record(name, "unknown", "z3", dt, "no proof; candidate counterexample: " + m)
        st = cvc5_check(s.to_smt2(), 10)
        dt2 = time.time() - t0
        _count("cvc5", dt2 - dt)
        if st == "unsat":
            return self.record(name, "proved", "cvc5", dt2)
        ce = self.numeric_refute(goal, hyps)
        if ce:
            return self.record(name, "refuted", "numeric", time.time() - t0, ce)
        return self.record(name, "unknown", "z3+cvc5", time.time() - t0, "solver gave no answer for %s" % str(goal)[:1200])

    def model_refute(self, model, goal, hyps=()):
        """does the solver's model survive with the defined functions (roots, sums, ...) evaluated as what they are?"""
        env = {}
        try:
            if all(alg.evaluate(p, env, 0, model) for p in self.all_pc() + list(hyps)) and not alg.evaluate(goal, env, 0, model):
                return "counterexample: %s" % {k: str(v) for k, v in list(env.items())[:30]}
        except Exception:
            pass
        return None

    def constants(self, pcs, goals):
        """pseudo-random values of the constants that satisfy the conditions on constants alone: an endless supply of environments"""
        simple, atoms = [], {}

        def split(p):
            return [q for c in p.children() for q in split(c)] if z3.is_and(p) else [p]

        def collect(t, out):
            if t.num_args() == 0 and t.sort() not in (alg.I, alg.R, z3.BoolSort()):
                return False
            if z3.is_var(t) or z3.is_quantifier(t) or t.decl().name() == "pi":
                return False
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if t.sort() not in (alg.I, alg.R, z3.BoolSort()):
                    return False
                out[t.get_id()] = t
            return all([collect(c, out) for c in t.children()])
        for p in [q for p in pcs for q in split(p)]:
            out = {}
            if not alg.has_defined(p) and collect(p, out):
                simple.append(p)
                atoms.update(out)
        import random
        # sizes around the integers that occur
        lits, done, todo = set(), set(), list(goals) + list(pcs)
        while todo and len(done) < 20000:
            t = todo.pop()
            if t.get_id() in done:
                continue
            done.add(t.get_id())
            if z3.is_int_value(t) or (z3.is_rational_value(t) and t.denominator_as_long() == 1):
                v = t.as_long() if z3.is_int_value(t) else t.numerator_as_long()
                if 4 < v < 3000:
                    lits.update((v - 1, v, v + 1))
            todo.extend([t.body()] if z3.is_quantifier(t) else t.children())
        lits = sorted(lits)

        def num(v):
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(v.as_fraction())
            return z3.is_true(v) if z3.is_true(v) or z3.is_false(v) else None
        s = z3.Solver()
        s.set("timeout", 300)
        for p in simple:
            s.add(p)
        salt = 0
        ok = bool(simple) and s.check() == z3.sat
        t0 = time.time()
        while True:
            env = {}
            if ok and time.time() - t0 < 8:
                rnd = random.Random(salt * 31 + 5)
                s.push()
                todo = list(atoms.values())
                rnd.shuffle(todo)
                for x in todo:
                    if x.sort() == z3.BoolSort():
                        v = z3.BoolVal(rnd.random() < .5)
                    elif x.sort() == alg.I:
                        v = z3.IntVal(rnd.choice(lits) if lits and salt % 2 and rnd.random() < .6 else rnd.choice([0, 1, 2, 3, 1, 2, 3, 4]))
                    else:
                        v = z3.RealVal(round(alg._hashval((salt, str(x))), 4)) * (-1 if salt % 5 == 4 and rnd.random() < .5 else 1)
                    s.push()
                    s.add(x == v)
                    if s.check() == z3.sat:
                        continue
                    s.pop()
                if s.check() == z3.sat:
                    m = s.model()
                    val = lambda x: num(m.eval(x, model_completion=True))
                    for x in atoms.values():
                        v = val(x)
                        if v is not None:
                            args = tuple(val(c) for c in x.children())
                            env[(x.decl().name(), args) if args else x.decl().name()] = v
                while s.num_scopes():
                    s.pop()
            yield salt, env
            salt += 1

    def numeric_refute(self, goal, hyps=()):
        supply = self.constants(self.all_pc() + list(hyps), [goal])
        t0 = time.time()
        for salt, env in (next(supply) for _ in range(60)):
            if time.time() - t0 > 12:
                break
            try:
                if all(alg.evaluate(p, env, salt) for p in self.all_pc() + list(hyps)):
                    if not alg.evaluate(goal, env, salt):
                        return "numeric counterexample: %s" % {k: v for k, v in list(env.items())[:30]}
            except (alg.NumFail, OverflowError, ZeroDivisionError, ValueError):
                continue
            except Exception:
                return None
        return None

    def eq_quick(self, a, b):
        """a == b provable (no record)?"""
        if a.eq(b):
            return True
        if a.sort() == alg.I and b.sort() == alg.I:
            a2, b2 = z3.ToReal(a), z3.ToReal(b)
        else:
            a2, b2 = alg.to_real(a), alg.to_real(b)
        try:
            n = alg.Norm(lambda t: self.valid(t))
            if n.eq(z3.simplify(a2), z3.simplify(b2)):
                return True
        except alg.TooBig:
            pass
        return self.valid(a == b)

    def prove_eq(self, name, a, b, hyps=()):
        """obligation a == b over the reals (or ints)"""
        t0 = time.time()
        a, b = alg.to_real(a), alg.to_real(b)
        if self._eq(a, b, list(hyps), 0):
            dt = time.time() - t0
            _count("pyvc-ring", dt)
            return self.record(name, "proved", "pyvc-ring", dt)
        # numeric refutation first: cheap and decisive
        ce = self.numeric_eq_refute(a, b, hyps)
        if ce:
            return self.record(name, "refuted", "numeric", time.time() - t0, ce + "; have: %s; want: %s" % (
                str(z3.simplify(a)).replace("\n", " ")[:700], str(z3.simplify(b)).replace("\n", " ")[:700]))
        return self.prove(name, a == b, hyps)

    def _eq(self, a, b, hyps, depth):
        def valid(t):
            return self.solve(self.all_pc() + hyps + [z3.Not(t)], 1500) == z3.unsat
        try:
            n = alg.Norm(valid)
            if n.eq(a, b):
                return True
        except alg.TooBig:
            return False
        if depth >= 5:
            return False
        conds = alg.ite_conds(a, b)
        if not conds:
            return False
        c = conds[0]
        for x in conds:         # prefer innermost
            if not alg.ite_conds(x):
                c = x
                break
        ok = True
        for lit, val in ((c, z3.BoolVal(True)), (z3.Not(c), z3.BoolVal(False))):
            if not valid(z3.Not(lit)):
                a2 = z3.simplify(z3.substitute(a, (c, val)))
                b2 = z3.simplify(z3.substitute(b, (c, val)))
                if not self._eq(a2, b2, hyps + [lit], depth + 1):
                    ok = False
                    break
        return ok

    def numeric_eq_refute(self, a, b, hyps=()):
        hits = 0
        pcs = self.all_pc() + list(hyps)
        supply = self.constants(pcs, [a, b])
        t0 = time.time()
        for salt, env in (next(supply) for _ in range(160)):
            if time.time() - t0 > 12:
                break
            try:
                if not all(alg.evaluate(p, env, salt) for p in pcs):
                    continue
                x, y = alg.evaluate(a, env, salt), alg.evaluate(b, env, salt)
            except (alg.NumFail, OverflowError, ZeroDivisionError, ValueError, TypeError):
                continue
            if x != x or y != y:
                continue
            if abs(x - y) > (1e-5 if salt % 3 == 2 else 1e-6) * max(1.0, abs(x), abs(y)):
                return "values differ: %.9g vs %.9g (e.g. at %s)" % (
                    x, y, {k: (round(v, 4) if isinstance(v, float) else v) for k, v in list(env.items())[:20]})
            hits += 1
        return None


def cvc5_check(smt2, tlimit):
    exe = "cvc5"
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write("(set-logic ALL)\n" + smt2)
        try:
            r = subprocess.run([exe, "--tlimit=%d" % (tlimit * 1000), p], capture_output=True, text=True,
                               timeout=tlimit + 5)
        except (subprocess.TimeoutExpired, OSError):
            return "unknown"
        out = r.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    finally:
        os.unlink(p)
