"""F01 on the real factory."""
import functools
import importlib
import inspect
import itertools
import numpy as np
import tensorflow as tf
from pysgmcmc.sampling import Sampler

METHODS = {"SGHMC": ("sghmc", "SGHMCSampler"), "SGLD": ("sgld", "SGLDSampler"), "RelativisticSGHMC": ("relativistic_sghmc", "RelativisticSGHMCSampler"),
           "SVGD": ("svgd", "SVGDSampler")}
NAMES = {"SGHMC": ["params", "cost_fun", "batch_generator", "stepsize_schedule", "burn_in_steps", "mdecay", "scale_grad", "session", "dtype", "seed"],
         "SGLD": ["params", "cost_fun", "batch_generator", "stepsize_schedule", "burn_in_steps", "A", "scale_grad", "session", "dtype", "seed"],
         "RelativisticSGHMC": ["params", "cost_fun", "batch_generator", "stepsize_schedule", "mass", "speed_of_light", "D", "Bhat", "session", "dtype", "seed"],
         "SVGD": ["particles", "cost_fun", "batch_generator", "stepsize_schedule", "alpha", "fudge_factor", "session", "dtype", "seed"]}


class Val(object):
    pass


class Chameleon(object):
    """has every attribute, and every method returns something else"""
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: Val()


class Falsy(object):
    def __bool__(self):
        return False


class Empty(list):
    pass


def odd_values():
    return [Chameleon(), Falsy(), Empty(), np.arange(3.0), np.float64(2.5), np.int64(7), np.zeros(0), np.array(4), "text", "", b"bytes", 2.5, -1.0, 1e-300,
            float("nan"), float("inf"), 2 ** 70, (), (1, 2), [1, 2], [], {}, {"a": 1}, {1, 2}, iter([1]), (i for i in [1, 2]), range(3), True, False, int,
            lambda *a: 1, functools.partial(max, 1), tf.float32, tf.float64, Sampler, Sampler.SGLD, Exception("x"), slice(1), complex(1, 2), type("T", (), {})]


class Look(object):
    """looks like a method"""
    def __init__(self, m):
        self.name, self.value = m, getattr(Sampler, m).value


def f01(t):
    made = []
    undo = []
    classes = {}
    for m, (mod, cn) in METHODS.items():
        cls = getattr(importlib.import_module("pysgmcmc.samplers." + mod), cn)
        orig = cls.__init__
        classes[m] = (cls, inspect.signature(orig))

        def init(self, *a, _m=m, **k):
            made.append((_m, self, a, k))
        init = functools.wraps(orig)(init)
        undo.append((cls, orig))
        cls.__init__ = init
    try:
        for m in METHODS:
            cls, sig = classes[m]
            meth = getattr(Sampler, m)
            req, opt = NAMES[m][:2], NAMES[m][2:]
            t.check("only the two adaptive methods are burn-in methods", Sampler.is_burn_in_mcmc(meth) is (m in ("SGHMC", "SGLD")), m)
            for r in range(len(opt) + 1):
                for sub in itertools.combinations(opt, r):
                    for val in (None, Val, 0):
                        given = {n: (Val() if val is Val else val) for n in req + list(sub)}
                        del made[:]
                        info = dict(method=m, given=sorted(given), values=str(val))
                        ok, res = t.runs("every combination of arguments is accepted", lambda: Sampler.get_sampler(meth, **given), info)
                        if not ok or not t.check("exactly one sampler is constructed and returned", len(made) == 1 and made[0][1] is res and type(res) is cls, info, made):
                            continue
                        ba = sig.bind(res, *made[0][2], **made[0][3])
                        ba.apply_defaults()
                        for n in NAMES[m]:
                            want = given[n] if n in given else sig.parameters[n].default
                            t.check("each argument or default passes unchanged", ba.arguments[n] is want, dict(info, argument=n), ba.arguments[n])
            for n in NAMES[m]:
                for sub in ((), opt):
                    for v in odd_values():
                        given = {x: Val() for x in req + list(sub)}
                        given[n] = v
                        del made[:]
                        info = dict(method=m, argument=n, value=repr(v)[:60])
                        ok, res = t.runs("a value of any kind is accepted", lambda: Sampler.get_sampler(meth, **given), info)
                        if not ok or not t.check("exactly one sampler is constructed and returned", len(made) == 1 and made[0][1] is res, info, made):
                            continue
                        ba = sig.bind(res, *made[0][2], **made[0][3])
                        t.check("the very value reaches the constructor", ba.arguments.get(n) is v, info, repr(ba.arguments.get(n))[:80])
            unknown = sorted({"_x", "__x", "x_", "_", "_seed", "seed_", "seed2", "SEED", " seed", "seed ", "x y", "9", "lambda", "a-b", "a.b", "x" * 300, "\u00e9",
                              "burn_in", "step_size", "stepsize", "n_iters", "kwargs_", "n", "name", "verbose", "debug"} |
                             {"zz", "Params", "n_steps", "", "args", "kwargs"} | {n for k in NAMES for n in NAMES[k]} - set(NAMES[m]))
            for n in unknown:
                for sub in ((), opt[:1], opt):
                    del made[:]
                    t.raises("unknown arguments are rejected", lambda: Sampler.get_sampler(meth, **{x: Val() for x in req + list(sub) + [n]}), ValueError, dict(method=m, unknown=n, given=sub))
                    t.raises("unknown arguments are rejected", lambda: Sampler.get_sampler(meth, **{x: None for x in [n] + req + list(sub)}), ValueError, dict(method=m, unknown=n, given=sub))
                    t.check("before anything is constructed", not made, dict(method=m, unknown=n))
            for miss in (req[:1], req[1:], req):
                for sub in ((), opt[:1], opt):
                    del made[:]
                    t.raises("missing arguments are rejected", lambda: Sampler.get_sampler(meth, **{x: Val() for x in list(sub) + [y for y in req if y not in miss]}), ValueError, dict(method=m, missing=miss))
                    t.check("before anything is constructed", not made, dict(method=m, missing=miss))
        strings = [f(m) for m in METHODS for f in (str, str.lower, str.upper, lambda m: "Sampler." + m, lambda m: METHODS[m][1])]
        for bad in [None, 3, [], Val(), Sampler, 0, 1, True, ""] + strings + [Look(m) for m in METHODS] + [getattr(Sampler, m).value for m in METHODS]:
            del made[:]
            for m in METHODS:
                t.raises("unknown methods are rejected", lambda: Sampler.get_sampler(bad, **{n: Val() for n in NAMES[m][:2]}), ValueError, (repr(bad), m))
            t.check("before anything is constructed", not made, repr(bad))
            t.check("only the two adaptive methods are burn-in methods", not Sampler.is_burn_in_mcmc(bad), repr(bad))
        t.check("four different methods", len({getattr(Sampler, m) for m in METHODS}) == 4, None)
    finally:
        for cls, orig in undo:
            cls.__init__ = orig
    # and with real construction
    for m in METHODS:
        g = tf.Graph()
        with g.as_default():
            with tf.Session(graph=g) as s:
                ps = [tf.Variable([1.0, 2.0], dtype=tf.float64), tf.Variable([2.0, 3.5], dtype=tf.float64)]
                cost = (lambda p: tf.reduce_sum(p * p)) if m == "SVGD" else (lambda p: sum(tf.reduce_sum(q * q) for q in p))
                ok, smp = t.runs("samplers can be built", lambda: Sampler.get_sampler(getattr(Sampler, m), session=s, cost_fun=cost, dtype=tf.float64, **{NAMES[m][0]: ps}), m)
                if ok:
                    s.run(tf.global_variables_initializer())
                    t.check("and run", len(next(smp)[0]) == 2 and type(smp).__name__ == METHODS[m][1], m)
    t.bound("every subset of optional arguments of every method with three kinds of values, unknown and missing arguments, unknown methods")


BATTERY = {"F01": f01}
