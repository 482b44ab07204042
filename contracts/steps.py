"""S06, S07 and the schedule part of S08: the protocol of a sampler step (pysgmcmc/samplers/base_classes.py,
pysgmcmc/stepsize_schedules.py), for every sampler, from an arbitrary state."""
import z3
from pyvc import alg
from pyvc.values import *
from pyvc.core import PyExc, Unsupported, PathEnd
from pyvc.spec import Case
from pyvc import lib_tf as TF
from contracts.samplers import (World, make_world, VARIANTS, vname, vtargets, BASEM, StepView, guarded, zi, sdiv, ssqrt, mentions, same_node,
                                mass_spec, element, MODES)

CASES = {}
I, R = alg.I, alg.R
SCH = "pysgmcmc.stepsize_schedules"


def do_step(w, mode, **kw):
    if mode is None:
        return w.step(**kw)
    return w.step({"burn": True, "frozen": False, "noburn": None}[mode], **kw)


def entry(ip, ents, key):
    """value stored last under the very key, or MISSING"""
    for e in reversed(ents):
        if isinstance(e, tuple) and ip.same(e[0], key) is True:
            return e[1]
    return MISSING


def same_uid(n, uid):
    return getattr(n, "uid", None) == uid


def num_of(v):
    return v if isinstance(v, int) else v.t


# ------------------------------------------------------------------ S06
def step_case(which, mode, batches, feed):
    """one step; when the caller feeds values, a second step that is fed nothing follows it"""
    def case(c, ip):
        o, w = make_world(c, ip, which, batches=batches)
        w.construct()
        c.check("constructing draws no batch and no stepsize", not w.fed_log and not w.sched_log, repr((w.fed_log, w.sched_log)))
        n0 = ip.getattr_(w.sampler, "n_iterations")
        c.check("steps are counted from zero", isinstance(n0, int) and n0 == 0, repr(n0))
        kw = {}
        if feed:
            nu = z3.Int("n_fed")
            c.assume(nu >= 0)
            ku, vu = new_uid(), new_uid()
            given = Bulk(nu, lambda t: TF.TNode("placeholder", [], {"pname": "user"}, TF.TShape(), None, uid=ku, idx=(t,)),
                         lambda t: Opaque("fed by the caller", idx=(t,), uid=vu))
            kw["feed_dict"] = PyDict([given])
        do_step(w, mode, **kw)
        c.check("a step evaluates the sampler once", len(w.runs) == 1, "%d evaluations" % len(w.runs))
        c.check("a step draws exactly one batch", w.fed_log == (["batch"] if batches else []), repr(w.fed_log))
        c.check("a step draws one stepsize, then informs the schedule once", [x if isinstance(x, str) else x[0] for x in w.sched_log] == ["next", "update"], repr(w.sched_log))
        # what was fed
        ents = ip.rd(w.fd, "ent") if isinstance(w.fd, PyDict) else []
        left = list(ents)
        if batches:
            for key, val in w.batch:
                got = entry(ip, ents, key)
                c.check("the step is evaluated with the batch it drew", got is val, repr(got))
                left = [e for e in left if not (isinstance(e, tuple) and e[0] is key)]
        scal = [e for e in left if isinstance(e, tuple) and isinstance(e[0], TF.TVar) and is_num(e[1])]
        c.check("the step is evaluated with the stepsize it drew", len(scal) == 1 and rterm(scal[0][1]).eq(w.eps), repr(scal))
        left = [e for e in left if e not in scal]
        if feed:
            mine = [e for e in left if e is given]
            c.check("what the caller feeds is used", len(mine) == 1, repr(ents))
            left = [e for e in left if e is not given]
        minv = [e for e in left if isinstance(e, Bulk)] if mode == "frozen" else []
        left = [e for e in left if e not in minv]
        c.check("nothing else is fed", not left, repr(left))
        # what was returned and reported
        if not c.check("a step returns a pair", isinstance(w.ret, tuple) and len(w.ret) == 2, repr(w.ret)):
            raise PathEnd()
        sample, cost = w.ret
        cn = ip.getattr_(w.sampler, "cost")
        c.check("the returned cost is the one evaluated in this step", isinstance(cost, Opaque) and cost.attrs.get("node") is not None
                and any(cost.attrs["node"] is l for l in w.leaves) and same_node(c, cost.attrs["node"], cn), repr(cost))
        upd = [x for x in w.sched_log if not isinstance(x, str)]
        if len(upd) == 1:
            _, a, k = upd[0]
            vals = list(a) + [k[x] for x in ("params", "cost") if x in k]
            c.check("the schedule is informed with the returned sample and cost", len(vals) == 2 and vals[0] is sample and vals[1] is cost, repr((a, k)))
        n1 = ip.getattr_(w.sampler, "n_iterations")
        if c.check("the step counter stays a number", is_num(n1), repr(n1)):
            c.prove("the step counter grows by one", zi(num_of(n1)) == w.iteration + 1)
        if feed:
            w.runs, w.sched_log, w.fed_log = [], [], []
            c.assume(z3.And(z3.Int("q_next") >= 0, z3.Int("q_next") < w.P))
            ip.call(ip.getattr_(w.sampler, "__next__"), [], {})
            c.check("the next step evaluates the sampler once", len(w.runs) == 1, "%d evaluations" % len(w.runs))
            fd = w.runs[0][1]
            ents = ip.rd(fd, "ent") if isinstance(fd, PyDict) else []
            c.check("what the caller feeds one step is not fed to the next", not any(e is given or isinstance(e, Bulk) and same_uid(e.key(z3.Int("q_next")), ku) for e in ents), repr(ents))
            want = [kk for kk, _ in w.batch] if batches else []
            left = [e for e in ents if not (isinstance(e, tuple) and any(e[0] is kk for kk in want))]
            if batches:
                c.check("the next step is evaluated with its own batch", all(entry(ip, ents, kk) is v for kk, v in w.batch) and w.fed_log == ["batch"], repr(ents))
            scal = [e for e in left if isinstance(e, tuple) and isinstance(e[0], TF.TVar) and is_num(e[1])]
            c.check("the next step is evaluated with one stepsize", len(scal) == 1, repr(left))
            left = [e for e in left if e not in scal and not (isinstance(e, Bulk) and mode != "noburn" and w.burn)]
            c.check("nothing else is fed to the next step", not left, repr(left))
    name = "%s%s, %s" % ("batches, " if batches else "no batches, ", "caller feeds values" if feed else "nothing else fed", vname(which, mode))
    return Case(name, case, vtargets(which) + [BASEM + ".MCMCSampler._next_batch", BASEM + ".MCMCSampler._next_stepsize"])


CASES["S06"] = [step_case(w, m, b, f) for w, m in VARIANTS for b, f in ((True, False), (True, True), (False, False))]


# ------------------------------------------------------------------ S07
def burning_case(which):
    def case(c, ip):
        o, w = make_world(c, ip, which)
        w.construct()
        it = z3.Int("iteration")
        c.assume(it >= 0)
        ip.setattr_(w.sampler, "n_iterations", Sym(it))
        b = ip.getattr_(w.sampler, "is_burning_in")
        t = z3.BoolVal(b) if isinstance(b, bool) else b.t
        c.prove("burning in exactly while fewer than burn-in-steps steps were performed", t == (it < w.B))
    return Case("is_burning_in, %s" % which, case, [BASEM + ".BurnInMCMCSampler.is_burning_in"])


def fetch_case(which, later):
    @guarded
    def case(c, ip):
        o, w = make_world(c, ip, which)
        w.construct()
        if later:
            # a later step of the burn-in: estimates of the step before are there already
            prev = new_uid()
            ip.setattr_(w.sampler, "minv", PyList(SymSeq(w.P, lambda t: Opaque("previous estimate", idx=(t,), uid=prev, attrs={"cell": z3.Function("MINV0", I, I, R)}))))
        G = do_step(w, "burn")
        view = StepView(w, G)
        k, e = view.k, view.e
        try:
            m = ip.getattr_(w.sampler, "minv")
        except PyExc as x:
            c.check("the mass estimate of a burn-in step is kept", False, str(x))
            raise PathEnd()
        if not c.check("the mass estimate is a list", isinstance(m, PyList), repr(m)):
            raise PathEnd()
        seq = ip.to_seq(m)
        c.prove("one mass estimate is kept for each parameter", zi(seq.n) == w.P)
        r = ip.seq_elem(seq, Sym(k))
        node = r.attrs.get("node") if isinstance(r, Opaque) else None
        if not c.check("the kept estimate is what this step computed", node is not None and any(
                (isinstance(l, TF.Fam) and l.fn(k).uid == node.uid) or l is node for l in w.leaves), repr(r)):
            raise PathEnd()
        M = c.simp(G.val(node, element(node, e)))
        # the estimate is the one the update of this step used
        new = c.simp(view.new(view.theta))
        olds = [(u, view.old(v)) for u, v in view.vars.items() if u != view.theta.uid]
        hit = [v for u, v in olds if c.eq_quick(M, sdiv(z3.RealVal(1), ssqrt(v)))]
        if not c.check("the kept estimate is 1/sqrt(v) of some state variable", len(hit) >= 1, str(M)):
            raise PathEnd()
        c.check("the update of the step uses that variable", any(mentions(new, v) for v in hit), str(new)[:300])
        w.node = node
        # after burn-in: the kept estimates are fed for exactly these tensors, and kept
        w2 = w
        w2.runs, w2.sched_log, w2.fed_log = [], [], []
        ip.setattr_(w2.sampler, "burn_in_steps", Sym(z3.Int("B2")))
        w2.B = z3.Int("B2")
        c.assume(w2.B >= 0)
        it2 = z3.Int("iteration2")
        c.assume(z3.And(w2.B >= 1, it2 >= w2.B))
        ip.setattr_(w2.sampler, "n_iterations", Sym(it2))
        frozen = PyList(SymSeq(w.P, lambda t: Opaque("estimate", idx=(t,), uid=w.minv_uid, attrs={"cell": z3.Function("MINV", I, I, R)})))
        ip.setattr_(w2.sampler, "minv", frozen)
        ip.call(ip.getattr_(w2.sampler, "__next__"), [], {})
        if not c.check("a step evaluates the sampler once", len(w2.runs) == 1, "%d evaluations" % len(w2.runs)):
            raise PathEnd()
        fd = w2.runs[0][1]
        c.check("the kept estimates stay unchanged after burn-in", ip.getattr_(w2.sampler, "minv") is frozen and unchanged(ip, frozen, w, c), "minv was replaced")
        bulks = [x for x in (ip.rd(fd, "ent") if isinstance(fd, PyDict) else []) if isinstance(x, Bulk)]
        if not c.check("the kept estimates are fed after burn-in", len(bulks) == 1, "%d families of fed values" % len(bulks)):
            raise PathEnd()
        b = bulks[0]
        n = b.n if not isinstance(b.n, int) else z3.IntVal(b.n)
        c.prove("an estimate is fed for every parameter", n == w.P)
        key, val = b.key(k), b.val(k)
        c.check("the fed tensor is the estimate of that parameter", same_node(c, key, node), repr(key))
        c.check("the fed value is the kept estimate of that parameter", isinstance(val, Opaque) and val.uid == w.minv_uid and c.valid(val.idx[0] == k), repr(val))
    return Case("mass estimates, %s, %s" % (which, "a later step" if later else "the first step"), case, vtargets(which))


def unchanged(ip, lst, w, c):
    seq = ip.to_seq(lst)
    q = z3.Int("q_unchanged")
    r = ip.seq_elem(seq, Sym(q))
    return isinstance(r, Opaque) and r.uid == w.minv_uid and c.valid(z3.And(zi(seq.n) == w.P, r.idx[0] == q))


def noburn_case(which):
    def case(c, ip):
        o, w = make_world(c, ip, which)
        w.construct()
        try:
            do_step(w, "noburn")
        except PyExc as x:
            c.check("steps without burn-in succeed", False, str(x))
            raise PathEnd()
        bulks = [x for x in (ip.rd(w.fd, "ent") if isinstance(w.fd, PyDict) else []) if isinstance(x, Bulk)]
        c.check("without burn-in no estimate is fed", not bulks and all(is_num(x[1]) for x in ip.rd(w.fd, "ent")), repr(bulks))
        c.check("every step computes the estimate it uses", True)
    return Case("no burn-in, %s" % which, case, vtargets(which))


def steps_case(which):
    def case(c, ip):
        o, w = make_world(c, ip, which)
        w.construct()
        b = ip.getattr_(w.sampler, "burn_in_steps")
        c.prove("the burn-in length is the configured one", zi(num_of(b)) == w.B)
        do_step(w, "frozen")
        b = ip.getattr_(w.sampler, "burn_in_steps")
        c.prove("the burn-in length never changes", zi(num_of(b)) == w.B)
        c.check("no estimate is adapted after burn-in", not any(has_fetch(c, l, w) for l in w.leaves), repr(w.leaves))
    return Case("length of the burn-in, %s" % which, case, vtargets(which))


def has_fetch(c, leaf, w):
    """is the tensor one of the fed mass estimates?"""
    ents = [x for x in w.ip.rd(w.fd, "ent") if isinstance(x, Bulk)]
    q = z3.Int("q_leaf")
    c.assume(z3.And(q >= 0, q < w.P))
    n = leaf.fn(q) if isinstance(leaf, TF.Fam) else leaf
    if not isinstance(n, TF.TNode):
        raise Unsupported("fetching %r" % (n,))
    return any(isinstance(b.key(q), TF.TNode) and b.key(q).uid == n.uid for b in ents)


CASES["S07"] = [f(w) for w in ("SGHMC", "SGLD") for f in (burning_case, lambda w: fetch_case(w, False), lambda w: fetch_case(w, True), noburn_case, steps_case)]


# ------------------------------------------------------------------ S08
def constant_schedule(c, ip):
    v = z3.Real("value")
    s = ip.call(ip.get(SCH, "ConstantStepsizeSchedule"), [Sym(v)], {})
    iv = ip.getattr_(s, "initial_value")
    if not c.check("the initial value is a number", is_num(iv), repr(iv)):
        raise PathEnd()
    c.prove_eq("the initial value is the given one", rterm(iv), v)
    before = dict(s.d)

    def fresh_check():
        x = ip.call(ip.getattr_(s, "__next__"), [], {})
        if c.check("the schedule yields a number", is_num(x), repr(x)):
            c.prove_eq("the schedule yields the given value", rterm(x), v)
    fresh_check()
    same = lambda: set(s.d) == set(before) and all(ip.same(s.d[k], before[k]) is True or s.d[k] is before[k] for k in before)
    c.check("advancing leaves the schedule as it was", same(), repr(s.d))
    ip.call(ip.getattr_(s, "update"), [Opaque("sample"), Opaque("cost")], {})
    c.check("informing leaves the schedule as it was", same(), repr(s.d))
    fresh_check()
    ip.call(ip.getattr_(s, "update"), [], {"params": Opaque("sample"), "cost": Opaque("cost")})
    c.check("informing leaves the schedule as it was", same(), repr(s.d))
    c.check("the schedule is its own iterator", ip.call(ip.getattr_(s, "__iter__"), [], {}) is s)
    c.note("a schedule whose state no call changes yields the same value forever (induction over calls)")


CASES["S08"] = [Case("constant schedule", constant_schedule, [SCH + ".ConstantStepsizeSchedule.__next__", SCH + ".ConstantStepsizeSchedule.update", SCH + ".StepsizeSchedule.__init__"])]
