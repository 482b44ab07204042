"""run.py <property> <tier> <seed> <out.json>: evaluate the contracts of a property on the real code."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))


FILES = {"D": ["data_batches.py"], "T": ["tensor_utils.py"], "S": ["samplers/*.py", "stepsize_schedules.py", "tensor_utils.py"], "F": ["sampling.py", "samplers/*.py"],
         "M": ["models/*.py", "data_batches.py", "sampling.py"], "G": ["diagnostics/*.py", "models/*.py"]}


def literals(pid):
    """the integers and floats written in the files a property depends on (constant expressions folded)"""
    import ast
    import glob
    import operator
    ops = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Pow: operator.pow, ast.LShift: operator.lshift, ast.FloorDiv: operator.floordiv, ast.Div: operator.truediv}
    ints, floats = set(), set()

    def val(n):
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            return n.value
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            v = val(n.operand)
            return None if v is None else -v
        if isinstance(n, ast.BinOp) and type(n.op) in ops:
            a, b = val(n.left), val(n.right)
            try:
                if a is not None and b is not None and abs(a) < 1e6 and abs(b) < 64:
                    return ops[type(n.op)](a, b)
            except Exception:
                pass
        return None
    root = os.path.dirname(os.path.abspath(__import__("pysgmcmc").__file__))
    for pat in FILES[pid[0]]:
        for f in glob.glob(os.path.join(root, pat)):
            if f.endswith("objective_functions.py"):
                continue
            try:
                tree = ast.parse(open(f).read())
            except (OSError, SyntaxError):
                continue
            for n in ast.walk(tree):
                v = val(n)
                if type(v) is int:
                    ints.add(v)
                elif type(v) is float:
                    floats.add(v)
                    if v == int(v) and abs(v) < 1e9:
                        ints.add(int(v))
    return sorted(ints), sorted(floats)


class T(object):
    """collects run-time contract checks"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cases = 0
        self.failures = []
        self.samples = []
        self.bounds = []
        self.quick = tier == "quick"
        self.n = lambda q, t: q if tier == "quick" else t
        import random
        self.rng = random.Random(seed * 7919 + 13)
        self.literals, self.floats = literals(pid)

    def near(self, lo, hi, count=12):
        """sizes around the integers the code under contract mentions: behaviour may change there"""
        out = sorted({v for k in self.literals for v in (k - 1, k, k + 1) if lo <= v <= hi})
        return out[:count] if len(out) <= count else out[:count // 2] + out[-(count - count // 2):]

    def values(self, lo, hi, count=12):
        """numbers the code under contract mentions"""
        return sorted({float(v) for v in list(self.literals) + list(self.floats) if lo <= v <= hi})[:count]

    def check(self, what, ok, input=None, detail=None, key=None):
        self.cases += 1
        if len(self.samples) < 5 and input is not None and self.cases % 7 == 1:
            self.samples.append({"what": what, "input": short(input)})
        if not ok and len(self.failures) < 30:
            self.failures.append({"what": what, "input": short(input), "detail": short(detail), "key": key})
        return bool(ok)

    def raises(self, what, fn, excs, input=None):
        try:
            fn()
        except excs:
            return self.check(what, True, input)
        except Exception as e:
            return self.check(what, False, input, "raised %r" % (e,))
        return self.check(what, False, input, "did not raise")

    def runs(self, what, fn, input=None):
        """fn() must not raise; returns (ok, value)"""
        try:
            return True, fn()
        except Exception as e:
            tb = traceback.format_exc().splitlines()[-6:]
            self.check(what, False, input, "raised %r: %s" % (e, " / ".join(x.strip() for x in tb)))
            return False, None

    def bound(self, s):
        if s not in self.bounds:
            self.bounds.append(s)


def short(x):
    s = repr(x)
    return s if len(s) < 1500 else s[:1500] + "..."


def main():
    pid, tier, seed, out = sys.argv[1:5]
    import tf_v1_api  # noqa: F401  (patches tensorflow to the v1 API)
    sys.path.insert(0, os.path.dirname(HERE))
    from harness import shims
    shims.install()
    from harness import batteries
    t = T(pid, tier, int(seed))
    err = None
    t0 = time.time()
    try:
        batteries.BATTERY[pid](t)
    except Exception:
        err = traceback.format_exc()[-3000:]
        # an exception that comes out of the code under test is a failure of the contract, not of the harness
        frames = traceback.extract_tb(sys.exc_info()[2])
        if frames and any("/repo/pysgmcmc" in f.filename for f in frames):
            last = [f for f in frames if "/repo/pysgmcmc" in f.filename][-1]
            t.check("the code under contract raises no unexpected exception", False, "%s:%d %s" % (last.filename, last.lineno, last.name), err)
    res = {"property": pid, "cases": t.cases, "failures": t.failures, "samples": t.samples, "bounds": "; ".join(t.bounds),
           "error": err, "wall_s": round(time.time() - t0, 2)}
    with open(out, "w") as f:
        json.dump(res, f, indent=1, default=str)


main()
