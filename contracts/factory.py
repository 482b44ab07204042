"""F01: the sampler factory (pysgmcmc/sampling.py)."""
import itertools
import z3
from pyvc.values import *
from pyvc.core import PyExc, Unsupported, PathEnd
from pyvc.spec import Case, pure
from fractions import Fraction

M = "pysgmcmc.sampling"
S = "pysgmcmc.samplers."
METHODS = {"SGHMC": (S + "sghmc", "SGHMCSampler"), "SGLD": (S + "sgld", "SGLDSampler"),
           "RelativisticSGHMC": (S + "relativistic_sghmc", "RelativisticSGHMCSampler"), "SVGD": (S + "svgd", "SVGDSampler")}
# the documented arguments of the four constructors; the first two are required
NAMES = {"SGHMC": ["params", "cost_fun", "batch_generator", "stepsize_schedule", "burn_in_steps", "mdecay", "scale_grad", "session", "dtype", "seed"],
         "SGLD": ["params", "cost_fun", "batch_generator", "stepsize_schedule", "burn_in_steps", "A", "scale_grad", "session", "dtype", "seed"],
         "RelativisticSGHMC": ["params", "cost_fun", "batch_generator", "stepsize_schedule", "mass", "speed_of_light", "D", "Bhat", "session", "dtype", "seed"],
         "SVGD": ["particles", "cost_fun", "batch_generator", "stepsize_schedule", "alpha", "fudge_factor", "session", "dtype", "seed"]}
CASES = {}
GET = M + ".Sampler.get_sampler"


def world(c, ip):
    """the sampler classes, with constructors that only record what they are given"""
    calls = []
    for m, (mod, name) in METHODS.items():
        cls = ip.get(mod, name)

        def hook(ip, cl, a, k, m=m):
            calls.append((m, list(a), dict(k)))
            return Opaque("sampler", uid=("made", len(calls)))
        ip.class_hooks[cls] = hook
    return ip.get(M, "Sampler"), calls


def member(ip, S_, m):
    return ip.getattr_(S_, m)


def defaults(ip, m):
    sig = ip.call(ip.libs["inspect"].d["signature"], [ip.getattr_(ip.get(*METHODS[m]), "__init__")], {})
    ps = ip.getattr_(sig, "parameters")
    out = {}
    empty = ip.libs["inspect"].d["_empty"]
    for n in ip.dict_keys_seq(ps).concrete():
        d = ip.getattr_(ip.dict_get(ps, n, MISSING), "default")
        out[n] = MISSING if d is empty else d
    return out


def construct_case(m):
    req, opt = NAMES[m][:2], NAMES[m][2:]

    def case(c, ip):
        S_, calls = world(c, ip)
        d = defaults(ip, m)
        if not c.check("the constructor has the documented arguments", set(d) == set(NAMES[m]) | {"self"}, repr(sorted(d))):
            return
        for n in opt:
            c.check("optional arguments have defaults", d[n] is not MISSING, n)
        for n in req:
            c.check("required arguments have none", d[n] is MISSING, n)
        bad = {"class": [], "args": [], "value": [], "count": [], "result": [], "exc": []}
        total = 0
        for r in range(len(opt) + 1):
            for sub in itertools.combinations(opt, r):
                for rev in ((0, 1, 2, 3, 4) if r in (0, 1, len(opt)) else (0, 2)):
                    # arbitrary values, also in another order of the arguments, and values that count as false
                    val = {2: None, 3: 0, 4: False}.get(rev, MISSING)
                    given = {n: Opaque("object", uid=("given", n)) if val is MISSING else val for n in (list(reversed(sub)) + req if rev else req + list(sub))}
                    del calls[:]
                    total += 1
                    try:
                        res = pure(c, ip, ip.getattr_(S_, "get_sampler"), [member(ip, S_, m)], dict(given))
                    except PyExc as e:
                        bad["exc"].append((sub, str(e)))
                        continue
                    if len(calls) != 1:
                        bad["count"].append((sub, len(calls)))
                        continue
                    which, a, k = calls[0]
                    if which != m:
                        bad["class"].append((sub, which))
                    if not (isinstance(res, Opaque) and res.uid == ("made", 1)):
                        bad["result"].append((sub, repr(res)))
                    # positional arguments by the constructor's own order
                    got = dict(zip(NAMES_OF(d), a))
                    got.update(k)
                    if set(got) != set(NAMES[m]) and not set(given) <= set(got):
                        bad["args"].append((sub, sorted(got)))
                    for n, v in got.items():
                        want = given.get(n, d.get(n, MISSING))
                        if v is not want and not same_default(ip, v, want):
                            bad["value"].append((sub, n, repr(v)))
                    # an argument that is not passed on takes the constructor's own default anyway
        c.note("%d subsets of given arguments, each with arbitrary values" % total)
        c.check("every given or omitted combination is accepted", not bad["exc"], repr(bad["exc"][:3]))
        c.check("exactly one sampler is constructed", not bad["count"], repr(bad["count"][:3]))
        c.check("it is the sampler of the method", not bad["class"], repr(bad["class"][:3]))
        c.check("that sampler is returned", not bad["result"], repr(bad["result"][:3]))
        c.check("every argument reaches the constructor", not bad["args"], repr(bad["args"][:3]))
        c.check("under its own name, unchanged, or with the constructor's own default", not bad["value"], repr(bad["value"][:3]))
    return Case("%s: all combinations of arguments" % m, case, [GET])


def value_case(m):
    """one argument has any value whatsoever: of any type, with any attributes"""
    req, opt = NAMES[m][:2], NAMES[m][2:]

    def case(c, ip):
        S_, calls = world(c, ip)
        d = defaults(ip, m)
        if set(d) != set(NAMES[m]) | {"self"}:
            return c.undecided("the constructor has the documented arguments", repr(sorted(d)))
        for n in [next((n for n in NAMES[m][:-1] if c.branch(z3.Bool("it is " + n))), NAMES[m][-1])]:
            for sub in [() if c.branch(z3.Bool("nothing else is given")) else tuple(opt)]:
                v = AnyValue("value of " + n, uid="any value of " + n)
                given = {x: Opaque("thing", uid=("given", x)) for x in req + list(sub)}
                given[n] = v
                del calls[:]
                try:
                    pure(c, ip, ip.getattr_(S_, "get_sampler"), [member(ip, S_, m)], dict(given))
                except PyExc as e:
                    c.check("a value of any kind is accepted", False, "%s: %s" % (n, e))
                    continue
                if len(calls) != 1 or calls[0][0] != m:
                    c.check("exactly one sampler of the method is constructed", False, repr([x[0] for x in calls]))
                    continue
                got = dict(zip(NAMES_OF(d), calls[0][1]))
                got.update(calls[0][2])
                c.check("the very value reaches the constructor", got.get(n, MISSING) is v, "%s: %r" % (n, got.get(n)))
                c.check("and so do the others", all(got.get(x, MISSING) is given[x] for x in given if x != n), repr(got))
    return Case("%s: one argument with any value" % m, case, [GET])


def any_name():
    """a name that differs from every name the code mentions, whatever it looks like"""
    a = Opaque("any other name", uid="any other name", types=("str",))
    key = lambda m, x: "name_%s_%s" % (m, ",".join(map(repr, x)))
    for m in ("startswith", "endswith", "isidentifier", "isupper", "islower", "isalpha", "isalnum", "isdigit", "isspace", "__contains__"):
        a.attrs[m] = Builtin(m, lambda ip, x, k, m=m: mk(z3.Bool(key(m, x))))
    for m in ("lower", "upper", "strip", "lstrip", "rstrip", "casefold", "title", "replace", "capitalize"):
        a.attrs[m] = Builtin(m, lambda ip, x, k, m=m: AnyValue("name.%s" % m, uid=key(m, x)))
    return a


def NAMES_OF(d):
    return [n for n in d if n != "self"]


def same_default(ip, a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque) or a is MISSING or b is MISSING:
        return a is b
    if isinstance(a, (int, float, str, bool, type(None), Fraction)) and type(a) is type(b):
        return a == b
    return a is b


OTHERS = ["zz", "n_steps", "Params", "param", "", "cost", "args", "kwargs"]


def reject_case(m):
    req, opt = NAMES[m][:2], NAMES[m][2:]

    def case(c, ip):
        S_, calls = world(c, ip)
        unknown = sorted(set(OTHERS) | {n for k in NAMES for n in NAMES[k]} - set(NAMES[m]))
        acc, wrong, made = [], [], []

        def tried(given, why):
            del calls[:]
            try:
                pure(c, ip, ip.getattr_(S_, "get_sampler"), [member(ip, S_, m)], given)
                acc.append((why, sorted(map(str, given))))
            except PyExc as e:
                if e.cls is not ValueError:
                    wrong.append((why, str(e)))
                if calls:
                    made.append(why)
        for n in unknown:
            for sub in [(), (opt[0],), tuple(opt)]:
                for first in (False, True):
                    g = {} if not first else {n: Opaque("object")}
                    g.update({x: Opaque("object") for x in req + list(sub)})
                    g[n] = Opaque("object")
                    tried(g, "unknown %s" % n)
        # any other name: one that differs from every name the code mentions
        anyname = any_name()
        for sub in [(), (opt[0],), tuple(opt)]:
            for first in (False, True):
                g = {x: Opaque("object") for x in req + list(sub)}
                tried(dict([(anyname, Opaque("object"))] + list(g.items())) if first else dict(list(g.items()) + [(anyname, Opaque("object"))]), "any other name")
        for r in range(len(opt) + 1):
            for sub in itertools.combinations(opt, r):
                for missing in (req[:1], req[1:], req):
                    tried({x: Opaque("object") for x in [y for y in req if y not in missing] + list(sub)}, "missing %s" % (missing,))
        c.note("unknown argument names: %d names, and one that differs from every name in the code" % len(unknown))
        c.check("unknown and missing arguments are rejected", not acc, repr(acc[:3]))
        c.check("with a value error", not wrong, repr(wrong[:3]))
        c.check("before anything is constructed", not made, repr(made[:3]))
    return Case("%s: unknown and missing arguments" % m, case, [GET])


def method_case(c, ip):
    S_, calls = world(c, ip)
    acc, wrong = [], []
    for bad in [Opaque("anything", uid="anything"), None, 3, PyList([]), 0, True] + [f(m) for m in METHODS for f in (str, str.lower, lambda m: "Sampler." + m, lambda m: METHODS[m][1])]:
        for m in METHODS:
            try:
                pure(c, ip, ip.getattr_(S_, "get_sampler"), [bad], {n: Opaque("object") for n in NAMES[m][:2]})
                acc.append(repr(bad))
            except PyExc as e:
                if e.cls is not ValueError:
                    wrong.append((repr(bad), str(e)))
        b = pure(c, ip, ip.getattr_(S_, "is_burn_in_mcmc"), [bad], {})
        c.check("unknown methods are not reported as burn-in methods", b is False, "%r for %r" % (b, bad))
    c.check("unknown methods are rejected", not acc, repr(acc))
    c.check("unknown methods are rejected with a value error", not wrong, repr(wrong))
    c.check("nothing is constructed for unknown methods", not calls, repr(calls))
    names = set()
    for m in METHODS:
        b = pure(c, ip, ip.getattr_(S_, "is_burn_in_mcmc"), [member(ip, S_, m)], {})
        c.check("only the two adaptive methods are reported as burn-in methods", b is (m in ("SGHMC", "SGLD")), "%s: %r" % (m, b))
        names.add(id(member(ip, S_, m)))
    c.check("the four methods are different", len(names) == 4, "")


CASES["F01"] = [construct_case(m) for m in METHODS] + [value_case(m) for m in METHODS] + [reject_case(m) for m in METHODS] + \
    [Case("methods", method_case, [GET, M + ".Sampler.is_burn_in_mcmc"])]
