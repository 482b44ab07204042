"""Running contracts: every case explores all paths of the real code and discharges its obligations."""
import time
import traceback
import z3
from . import alg, core
from .core import Ctx, Unsupported, PathEnd, PyExc
from .interp import Interp, ReturnX, BreakX, ContinueX, EndlessX


class Case(object):
    def __init__(self, name, fn, targets=()):
        self.name, self.fn, self.targets = name, fn, targets


def pure(c, ip, f, args, kwargs, what=None, allowed=()):
    """call f and check that it leaves no state behind: what the contract proves for one call then holds for each call of any history"""
    what = what or "a call of %s leaves no state behind" % getattr(f, "name", getattr(getattr(f, "func", None), "name", "the function"))
    w = ip.watch()
    try:
        return ip.call(f, args, kwargs)
    finally:
        other = ["%s of %r" % (key, o) for o, key in w.stop() if not any(o is x for x in allowed)]
        if other:
            c.undecided(what, "it also changes " + "; ".join(other)[:300])
        else:
            c.check(what, True)


def run_case(case, budget=None):
    """-> dict with results of one contract case"""
    t0 = time.time()
    ctx = Ctx()
    used = set()
    ends = {"n": 0}

    def body(c):
        if budget and time.time() - t0 > budget:
            raise Unsupported("time budget exceeded")
        ip = Interp(c)
        try:
            case.fn(c, ip)
            ends["n"] += 1
        except PyExc as e:
            c.check("no unexpected exception", False, "the code raises %s" % e)
            ends["n"] += 1
        except (ReturnX, BreakX, ContinueX, EndlessX) as e:
            raise Unsupported("control flow escaped: %r" % (e,))
        finally:
            used.update(ip.used)
    err = None
    try:
        ctx.run(body)
    except Unsupported as e:
        err = "unsupported: %s" % e
    except RecursionError:
        err = "unsupported: recursion"
    except z3.Z3Exception as e:
        err = "solver: %s | %s" % (e, traceback.format_exc().splitlines()[-4:])
    except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, NotImplementedError) as e:
        err = "engine: %s | %s" % (repr(e), " / ".join(x.strip() for x in traceback.format_exc().splitlines()[-7:]))
    res = [r for r in ctx.results]
    st = "proved"
    if any(r.status == "refuted" for r in res):
        st = "refuted"
    elif err or any(r.status == "unknown" for r in res):
        st = "unknown"
    elif not res or not ends["n"]:
        st = "unknown"
        err = "vacuous: no obligation was generated or no path reaches the end"
    return {"case": case.name, "status": st, "error": err, "results": [r.as_dict() for r in res], "paths": ctx.paths,
            "ends": ends["n"], "functions": sorted(used), "assumptions": sorted(ctx.assumptions),
            "wall_s": round(time.time() - t0, 2), "targets": list(case.targets)}
