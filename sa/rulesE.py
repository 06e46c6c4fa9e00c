"""Rules: rewards, sampling front ends, data model, random generators."""
import math, statistics
from rulesD import *

STATE = "state"


def disc(x):
    return vfld(x, "Discrete", 0)


def prefer(c, key, where, actual, forms, detail):
    """actual must be one of several equivalent normal forms"""
    for f in forms:
        if actual is f:
            return c.ok(key, where, detail)
    return c.equal(key, where, actual, forms[0], detail)


# ------------------------------------------------------------------ C25
def C25(c):
    def call():
        p = c.find("FactoredRewardFunction", "call", "RewardFunction")
        s = c.sm(p, names=("self", "cur", "prev"))
        w = c.where(p)
        cur, prev = P("cur"), P("prev")
        pr = unwrap(prev)
        n = mk("len", cur, 0)
        IR, TR = fld(NET, "instantaneous_reward"), fld(NET, "transition_reward")
        norm = lambda t: rewrite(t, {mk("len", pr, 0): n, mk("len", IR, 0): n, mk("len", TR, 0): n})
        k = fresh_bv("idx")
        inst = close_sum(k, ZERO, n, at(at(IR, (k,)), (disc(at(cur, (k,))),)))
        c.equal("instantaneous", w, norm(fld(s.ret, "instantaneous_reward")), inst, "the instantaneous reward is the sum over nodes of the node's table at its current state")
        t = norm(fld(s.ret, "transition_reward"))
        t0 = assume(t, Not(isSome(prev)))
        t1 = assume(t, isSome(prev))
        c.equal("no-previous", w, t0, ZERO, "without a previous state the transition reward is zero")
        k = fresh_bv("idx")
        a, b = disc(at(pr, (k,))), disc(at(cur, (k,)))
        ne = Not(ieq(a, b))
        val = at(at(TR, (k,)), (a, b))
        f1 = ite(close_exists(k, ZERO, n, ne), close_first(k, ZERO, n, ne, val), ZERO)
        # one variable changes between consecutive states: any selection of the changed variable is the same
        d, v = mk("param", "changed"), mk("param", "old")
        rng = And(ile(ZERO, d), ilt(d, n))

        def single(t):
            def f(x):
                if x.op == "vfld" and x.args[1] == "Discrete" and x.args[0].op == "at" and x.args[0].args[0] is pr:
                    i = single(x.args[0].args[1][0])
                    return ite(ieq(i, d), v, disc(at(cur, (i,))))
            return rw(t, f)

        if t1 is f1 or at_first(t1) is at_first(f1):
            return c.ok("transition", w, "the transition reward is the changed node's table entry for (previous, current)")
        A, B = single(t1), single(f1)
        if dirty(A):
            return c.undet("transition", w, "not in closed form %s" % dirty(A))
        r = c.separated(A, B, assume=rng)
        if r is False:
            return c.undet("transition", w, "differs from the reference form only for several simultaneous changes")
        c.viol("transition", w, "the transition reward must be the changed node's table entry for (previous, current), zero if nothing changed; found %s" % show_cut(t1))

    c.guard("call", call)

    def init():
        p = c.find("FactoredRewardFunction", "initialize_from_network_process", "RewardFunction")
        s = c.sm(p, names=("p",))
        w = c.where(p)
        net = P("p")
        ix = tcall("get_node_indices", net)
        i, x, y = fresh_bv("idx"), fresh_bv("idx"), fresh_bv("idx")
        card = lambda i: gcard(net, at(ix, (i,)))
        for f, nd in (("instantaneous_reward", 1), ("transition_reward", 2)):
            v = fld(s.ret, f)
            c.equal("init:%s:len" % f, w, length(v, 0), mk("len", ix, 0), "one table per node")
            e = at(v, (i,))
            for k in range(nd):
                c.equal("init:%s:dim%d" % (f, k), w, length(e, k), card(i), "every axis of a node's table has one entry per state")
            c.equal("init:%s:zero" % f, w, at(e, (x, y)[:nd]), ZERO, "tables start at zero")

    c.guard("init", init)

    def getters():
        for f in ("transition_reward", "instantaneous_reward"):
            for suf in ("", "_mut"):
                p = c.find("FactoredRewardFunction", "get_" + f + suf)
                s = c.sm(p, names=("self", "node_idx"))
                r = s.ret
                if suf:
                    continue
                c.equal("get:" + f, c.where(p), r, at(fld(NET, f), (P("node_idx"),)), "the accessor returns the node's own table")

    c.guard("getters", getters)


# ------------------------------------------------------------------ C28
def C28(c):
    p = c.find("NeighborhoodRelativeReward", "evaluate_state_space", "RewardEvaluation")
    s = c.sm(p, names=("self", "net", "rf"))
    w = c.where(p)
    A = tcall("evaluate_state_space", fld(NET, "inner_reward"), P("net"), P("rf"))
    r = s.ret
    if r.op != "comp" or r.args[5] != "map":
        return c.add("shape", "UNDETERMINED", w, "result is not a map built entry by entry: %s" % show_cut(r))
    k, lo, hi, f, e, kind = r.args
    i, j, q = fresh_bv("idx"), fresh_bv("idx"), fresh_bv("idx")
    e = subst(e, {mk("b", k): i})
    f = subst(f, {mk("b", k): i})
    N = mk("len", A, 0)
    c.equal("all-states:lo", w, lo, ZERO, "every evaluated state gets an entry")
    c.equal("all-states:hi", w, hi, N, "every evaluated state gets an entry")
    c.equal("all-states:filter", w, f, TRUE, "every evaluated state gets an entry")
    key = lambda x: fld(at(A, (x,)), "0")
    val = lambda x: fld(at(A, (x,)), "1")
    n = mk("len", key(i), 0)

    def norm(t):
        def g(x):
            if x.op == "len" and x.args[1] == 0 and x.args[0].op == "fld" and x.args[0].args[1] == "0" and x.args[0].args[0].op == "at" and x.args[0].args[0].args[0] is A:
                return n
        return rw(t, g)

    c.equal("key", w, fld(e, "0"), key(i), "the entry is stored under the state it is about")
    v = norm(fld(e, "1"))
    ham = close_sum(q, ZERO, n, ite(ieq(disc(at(key(j), (q,))), disc(at(key(i), (q,)))), ZERO, ONE))
    near = ilt(ham, num(2))
    want = close_maxof(j, ZERO, N, ONE, "max", ite(near, div(val(i), val(j)), mk("neutral")))
    c.equal("value", w, v, norm(want), "the relative reward is the largest quotient of the state's reward and the reward of a state differing in at most one variable, at least one")

    def ctor():
        p = c.find("NeighborhoodRelativeReward", "new")
        s = c.sm(p, names=("inner",))
        c.equal("new", c.where(p), fld(s.ret, "inner_reward"), P("inner"), "the evaluation wrapped is the one given")

    c.guard("new", ctor)


# ------------------------------------------------------------------ C29
def sites(c, pred):
    """(function, block, statement) of the crate's MIR satisfying pred"""
    out = []
    for p, f in c.F.fns.items():
        for b, blk in enumerate(f.blocks):
            for st_ in blk["st"]:
                if pred(f, st_):
                    out.append((p, b, st_))
    return out


def C29(c):
    def traj():
        p = c.find("Trajectory", "new")
        s = c.sm(p, names=("time", "events"))
        w = c.where(p)
        tm, ev = P("time"), P("events")
        c.equal("trajectory:accepts", w, s.cond, ieq(mk("len", tm, 0), mk("len", ev, 0)), "a trajectory is accepted exactly when it has one row of events per instant")
        c.equal("trajectory:time", w, fld(s.ret, "time"), tm, "instants kept as given")
        c.equal("trajectory:events", w, fld(s.ret, "events"), ev, "events kept as given")
        for f in ("time", "events"):
            g = c.find("Trajectory", "get_" + f)
            c.equal("get:" + f, c.where(g), c.sm(g).ret, fld(NET, f), "the accessor returns the stored data")

    c.guard("Trajectory", traj)

    def ds():
        p = c.find("Dataset", "new")
        s = c.sm(p, names=("trajectories",))
        w = c.where(p)
        tr = P("trajectories")
        k = fresh_bv("idx")
        m = lambda i: mk("len", fld(at(tr, (i,)), "events"), 1)
        c.equal("dataset:accepts", w, s.cond, Not(close_exists(k, ZERO, mk("len", tr, 0), Not(ieq(m(ZERO), m(k))))), "a dataset is accepted exactly when all trajectories have the same number of variables")
        c.equal("dataset:trajectories", w, fld(s.ret, "trajectories"), tr, "trajectories kept as given, in order")
        g = c.find("Dataset", "get_trajectories")
        c.equal("get:trajectories", c.where(g), c.sm(g).ret, fld(NET, "trajectories"), "the accessor returns the stored data")

    c.guard("Dataset", ds)

    def closed():
        for nm in ("Trajectory", "Dataset"):
            a = adt_of(c, nm)
            for f in a["variants"][0]["fields"]:
                if f["vis"] in ("pub", "public", "crate", ""):
                    c.viol("private:%s.%s" % (nm, f["name"]), "%s:%s" % tuple(a["span"][:2]), "field %s is visible as '%s': the shape invariant can be bypassed" % (f["name"], f["vis"]))
                else:
                    c.ok("private:%s.%s" % (nm, f["name"]), "%s:%s" % tuple(a["span"][:2]), "only the constructor decides the field's value")

        rows = lambda v: sub(mk("len", fld(v, "time"), 0), mk("len", fld(v, "events"), 0))
        width = lambda v, k: mk("len", fld(at(fld(v, "trajectories"), (k,)), "events"), 1)
        for p, f in sorted(c.F.fns.items()):
            sig = f.j.get("sig") or ""
            if "{closure" in p or f.j.get("derived") or p.startswith("<tools::Trajectory as core::clone") or p.startswith("<tools::Dataset as core::clone"):
                continue
            head, _, ret = sig.rpartition(" -> ")
            for nm in ("Trajectory", "Dataset"):
                takes = re.search(r"&('\w+ )?mut tools::%s\b" % nm, sig)
                gives = re.fullmatch(r"(core::option::Option<|core::result::Result<)?tools::%s\b.*" % nm, ret)
                if takes and re.search(r"&('\w+ )?mut ", ret):
                    c.viol("mut:%s:%s" % (nm, p), c.where(p), "hands out a mutable reference into a %s: its shape can change after construction" % nm)
                elif gives and nm == "Trajectory" and p.split("::")[-1] != "new":
                    s = c.sm(p)
                    v = s.ret
                    if v.op != "adt":
                        c.undet("builds:" + p, c.where(p), "result is not built in closed form")
                    else:
                        c.equal("builds:" + p, c.where(p), assume(ite(s.cond, ieq(length(fld(v, "time"), 0), length(fld(v, "events"), 0)), TRUE), TRUE), TRUE, "a trajectory built outside the constructor has one row of events per instant")

    c.guard("closed", closed)


# ------------------------------------------------------------------ sampler-driven loops (C15, C26)
def sampler_paths(c):
    return (c.find("ForwardSampler", "new"), c.find("ForwardSampler", "next", "Iterator"), c.find("ForwardSampler", "reset", "Sampler"))


def mu_of(l, q):
    return mk("mu", l.uid, q.cell, q.path)


def is_call(t, name):
    """value (call!) or receiver (eff) of an opaque effectful call"""
    return t.op in ("call!", "eff") and t.args[0] == name


def mus(t):
    return [x for x in subterms(t) if x.op == "mu"]


class SampleLoop:
    """the loop that pulls samples from an opaque sampler until a time is reached, and the loop around it"""

    def __init__(self, c, s, w):
        self.ok = False
        inner = [l for l in s.loops if getattr(l, "parent", None) is not None
                 and any(is_call(q.step, "next") and q.step.op == "eff" for q in l.leafs if q.step is not None)]
        if len(inner) != 1:
            c.undet("loop", w, "%d loops drawing samples until a time is reached" % len(inner))
            return
        W = self.W = inner[0]
        O = self.O = W.parent
        self.sampler = [q for q in W.leafs if q.step.op == "eff" and q.step.args[0] == "next"]
        if len(self.sampler) != 1:
            return c.undet("loop", w, "no single sampler")
        sq = self.sampler[0]
        smu = self.smu = mu_of(W, sq)
        self.cur, self.prev = mk("param", "CUR"), mk("param", "PREV")
        # the sample drawn by one iteration, the sample drawn before the loop
        steps = sorted(set(x for q in W.leafs for x in subterms(q.step) if x.op == "call!" and x.args[0] == "next"), key=lambda x: x.id)
        inits = sorted(set(x for q in W.leafs for x in subterms(q.init) if x.op == "call!" and x.args[0] == "next"), key=lambda x: x.id)
        if len(steps) != 1 or len(inits) != 1:
            return c.undet("loop", w, "more than one sample per iteration")
        S1, S0 = unwrap(steps[0]), unwrap(inits[0])
        self.m = {S1: self.cur}
        self.prevs, self.others = [], []
        for q in W.leafs:
            if q is sq:
                continue
            hit = False
            for comp in (lambda z: z, lambda z: fld(z, "t"), lambda z: fld(z, "state")):
                if q.step is comp(S1) and q.init is comp(S0):
                    self.m[mu_of(W, q)] = comp(self.prev)
                    self.prevs.append(q)
                    hit = True
            if not hit:
                self.others.append(q)
        self.ok = True
        self.call0, self.call1, self.S0, self.S1 = inits[0], steps[0], S0, S1

    def norm(self, t):
        return rewrite(t, self.m)

    def chain(self, c, w, net, seed, init):
        """provenance of the sampler: built from (net, seed, init); reset before every trajectory; then only next()"""
        W, O, q = self.W, self.O, self.sampler[0]
        oq = [x for x in O.leafs if x.cell == q.cell and x.path == q.path]
        if len(oq) != 1:
            return c.undet("sampler", w, "the sampler does not live across trajectories: %s" % show_cut(q.init))
        oq = oq[0]
        new = tcall("new", net, seed, init)
        omu = mu_of(O, oq)
        c.equal("sampler:new", w, oq.init, new, "the sampler is built once, for the given network, seed and start")
        b = q.init
        if not (b.op == "eff" and b.args[0] == "next"):
            return c.undet("sampler", w, "first sample not drawn before the loop")
        b = b.args[2][0]
        early = b.op == "eff" and b.args[0] == "reset" and b.args[2][0] is omu
        a = oq.step
        fin = lambda t: t.op == "rec" and t.args[1] == W.uid
        late = a.op == "eff" and a.args[0] == "reset" and fin(a.args[2][0])
        if early and (fin(a) or late) or late and b is omu:
            c.ok("sampler:reset", w, "the sampler is reset between any two trajectories")
        elif b is omu and fin(a):
            c.viol("sampler:reset", w, "the sampler is never reset: a trajectory would continue the one before it")
        else:
            c.undet("sampler:reset", w, "reset not recognised: %s / %s" % (show_cut(b), show_cut(a)))
        if q.step.args[2][0] is self.smu:
            c.ok("sampler:next", w, "every further sample is the sampler's next one")
        else:
            c.undet("sampler:next", w, show_cut(q.step))

    def until(self, c, w, end):
        """the loop goes on exactly while the current sample lies before `end`"""
        W = self.W
        if not W.exits:
            return c.undet("until", w, "no way to leave the sampling loop")
        # a vector that grows by one element per iteration has one element per iteration
        m = {}
        for q in self.others:
            if q.step is not None and q.step.op == "push" and q.step.args[0] is mu_of(W, q) and len(W.binders) == 1:
                m[mk("len", mu_of(W, q), 0)] = add(length(q.init, 0), W.binders[0][0])
        go = Not(Or(*[rewrite(self.norm(x[1]), m) for x in W.exits]))
        if W.kind != "while":
            go = And(go, W.filt, *[Not(ge0(sub(b, self.norm(hi)))) for b, _, hi in W.binders])
        t = fld(self.prev, "t")
        for x in (flt(t, end), fle(t, end)):
            if go is x:
                return c.ok("until", w, "samples are drawn while the time is before the end")
        c.equal("until", w, go, flt(t, end), "samples are drawn while the time is before the end")


# ------------------------------------------------------------------ C15
def C15_contract(c, s, w):
    """whole trajectories, against the contract of the sampler"""
    new = tcall("new", P("net"), P("seed"), NONE)
    te, n = P("t_end"), P("n")

    def runs():
        for seed in range(48 * interp.DEPTH):
            world = interp.World(seed, width=1 + seed % 3, gap=(1.0, 0.3, 3.0)[seed % 3])
            yield seed, world, {new: interp.Samp(world), te: (0.4000137, 1.1000137, 2.7000137, 4.3000137, 0.0100137)[seed % 5], n: seed % 4}

    def expect(m, world, bind):
        want = []
        for k in range(bind[n]):
            ts, st, i = [], [], 0
            while world.sample(k, i)["t"] < bind[te]:
                ts.append(world.sample(k, i)["t"])
                st.append([x["#p"][0] for x in world.sample(k, i)["state"]])
                i += 1
            want.append((ts + [bind[te]], st + [st[-1]]))

        def differs(got):
            if len(got) != len(want):
                return "%d trajectories instead of %d" % (len(got), len(want))
            for k, ((t1, s1), (t2, s2)) in enumerate(zip(got, want)):
                if len(t1) != len(t2) or not all(map(close_to, t1, t2)):
                    return "trajectory %d lists the instants %s instead of %s" % (k, [round(x, 3) for x in t1[:8]], [round(x, 3) for x in t2[:8]])
                if s1 != s2:
                    return "trajectory %d lists other states than the ones sampled" % k
        return differs

    def read(m):
        tr = m.ev(fld(s.ret, "trajectories"), {})
        out = []
        for k in range(m.len_(tr, 0)):
            T = m.at_(tr, (k,))
            if not isinstance(T, dict):
                raise interp.Unsupported("trajectory")
            tm, ev = T["time"], T["events"]
            a = [m.num(m.at_(tm, (i,))) for i in range(m.len_(tm, 0))]
            b = [[m.int_(m.at_(ev, (i, j))) for j in range(m.len_(ev, 1))] for i in range(m.len_(ev, 0))]
            out.append((a, b))
        return out

    bad = refute([s.ret], runs(), expect, read)
    if bad:
        c.viol("contract", w, "every sample before the end is listed, then the end: %s" % bad)


def C15(c):
    p = c.find("tools", "trajectory_generator")
    s = c.sm(p, noinline=sampler_paths(c), names=("net", "n", "t_end", "seed"))
    w = c.where(p)
    c.guard("contract", lambda: C15_contract(c, s, w))
    L = SampleLoop(c, s, w)
    if not L.ok:
        return
    L.chain(c, w, P("net"), P("seed"), NONE)
    L.until(c, w, P("t_end"))
    SM = mk("param", "SAMPLES")
    pool = set(y for z in [s.ret] + [q.step for q in L.O.leafs if q.step is not None] for y in subterms(z) if y.op == "rec")
    m, N = {}, mk("len", SM, 0)
    for q in L.others:
        x = L.norm(q.step)
        if q.init.op == "emptyvec" and x.op == "push" and x.args[0] is mu_of(L.W, q):
            e = x.args[1]
            if mus(e):
                c.undet("record:%s" % (q.cell,), w, show_cut(e))
                continue
            i = fresh_bv("idx")
            v = close_comp(i, ZERO, N, TRUE, subst(e, {P("PREV"): at(SM, (i,))}), "vec")
            for y in pool:
                if y.op == "rec" and y.args[1] == L.W.uid and y.args[2] == str(q.cell) and y.args[3] == q.path:
                    m[y] = v
    for q in L.prevs:        # the first sample at or past the end
        for y in pool:
            if y.op == "rec" and y.args[1] == L.W.uid and y.args[2] == str(q.cell) and y.args[3] == q.path:
                m[y] = subst(L.m[mu_of(L.W, q)], {P("PREV"): P("AFTER")})
    r = rewrite(s.ret, m)
    for q in L.O.leafs:
        x = rewrite(q.step, m) if q.step is not None else None
        if x is None or q.init.op != "emptyvec" or x.op != "push" or x.args[0] is not mu_of(L.O, q) or mus(x.args[1]) or len(L.O.binders) != 1:
            continue
        b, lo, hi = L.O.binders[0]
        v = close_comp(b, lo, hi, TRUE, x.args[1], "vec")
        r = rewrite(r, {y: v for y in subterms(r) if y.op == "rec" and y.args[1] == L.O.uid and y.args[2] == str(q.cell) and y.args[3] == q.path})
    tr = fld(r, "trajectories")
    k, i, j = fresh_bv("idx"), fresh_bv("idx"), fresh_bv("idx")
    c.equal("count", w, length(tr, 0), P("n"), "as many trajectories as asked for")
    T = at(tr, (k,))
    tm, ev = fld(T, "time"), fld(T, "events")
    S = lambda i: at(SM, (i,))
    c.equal("instants", w, length(tm, 0), add(N, ONE), "one instant per sample and the end")
    last = ieq(i, N)
    c.equal("times", w, at(tm, (i,)), ite(last, P("t_end"), fld(S(i), "t")), "the instants are the times of the samples followed by the end time")
    c.equal("rows", w, length(ev, 0), add(N, ONE), "one row of states per instant")
    row = lambda i: disc(at(fld(S(i), "state"), (j,)))
    rowlen = lambda x: mk("len", fld(S(x), "state"), 0)
    n0 = rowlen(sub(N, ONE))

    def same_width(t):
        return rw(t, lambda x: n0 if x.op == "len" and x.args[1] == 0 and x.args[0].op == "fld" and x.args[0].args[1] == "state" and x.args[0].args[0].op == "at" and x.args[0].args[0].args[0] is SM else None)

    c.equal("columns", w, same_width(length(ev, 1)), n0, "one column per variable")
    c.equal("states", w, at(ev, (i, j)), ite(last, row(sub(N, ONE)), row(i)), "every row is the state of its sample; the end repeats the last one")


# ------------------------------------------------------------------ C26
def C26(c):
    c.guard("new", lambda: C26_new(c))
    c.guard("evaluate_state", lambda: C26_eval(c))


def C26_contract(c, s, w):
    """the returned value against the contract of the sampler: mean over the runs of their returns"""
    rf, state = P("rf"), P("state")
    F_ = lambda f: fld(NET, f)
    new = tcall("new", P("net"), F_("seed"), some(state))
    a, b = fresh_bv("idx"), fresh_bv("idx")
    inst = fld(tcall("call", rf, fld(a, "state"), NONE), "instantaneous_reward")
    trans = fld(tcall("call", rf, fld(b, "state"), some(fld(a, "state"))), "transition_reward")

    def runs():
        for seed in range(48 * interp.DEPTH):
            world = interp.World(seed, width=1 + seed % 2, gap=(1.0, 0.3, 3.0)[seed % 3])
            crit = interp.adt_("FiniteHorizon") if seed % 2 else interp.adt_("InfiniteHorizon", discount_factor=(0.3, 1.0, 2.5)[seed % 3])
            n, stop = ((1, -1.0), (2, -1.0), (3, 100.0), (4, -1.0), (7, 100.0), (7, -1.0))[seed % 6]
            yield seed, world, {new: interp.Samp(world), F_("end_time"): (0.4000137, 1.1000137, 2.7000137, 4.3000137, 0.0100137)[seed % 5], F_("max_iterations"): n, F_("alpha_stop"): stop, F_("reward_criteria"): crit}

    def expect(m, world, bind):
        end, crit = bind[F_("end_time")], bind[F_("reward_criteria")]
        n = min(bind[F_("max_iterations")], 4) if bind[F_("alpha_stop")] > 0 else bind[F_("max_iterations")]
        g = None if crit["#v"] == "FiniteHorizon" else crit["#p"][0]
        tot = 0.0
        for k in range(n):
            i = 0
            while world.sample(k, i)["t"] < end:
                x, y = world.sample(k, i), world.sample(k, i + 1)
                env = {a: x, b: y}
                t0, t1 = x["t"], min(y["t"], end)
                span = t1 - t0 if g is None else (math.exp(-g * t0) - math.exp(-g * t1)) / g
                tot += span * m.num(m.ev(inst, env))
                if y["t"] <= end:
                    tot += (1.0 if g is None else math.exp(-g * y["t"])) * m.num(m.ev(trans, env))
                i += 1
        want = tot / n
        return lambda got: None if close_to(got, want) else "%s instead of %s (%d runs, end %s, %s)" % (round(got, 6), round(want, 6), n, end, "finite horizon" if g is None else "discount %s" % g)

    bad = refute([s.ret], runs(), expect, lambda m: m.num(m.ev(s.ret, {})))
    if bad:
        c.viol("contract", w, "the mean of the returns of the simulated trajectories: %s" % bad)

    # the stopping rule, with the values of the normal distribution: the bound is just met or just missed at a chosen run
    def stops():
        for seed in range(120 * interp.DEPTH):
            world = interp.World(seed, width=1 + seed % 2, gap=(1.0, 0.3, 3.0)[seed % 3])
            crit = interp.adt_("FiniteHorizon") if seed % 2 else interp.adt_("InfiniteHorizon", discount_factor=(0.3, 1.0, 2.5)[seed % 3])
            yield seed, world, {new: interp.Samp(world), F_("end_time"): (0.4000137, 1.1000137, 2.7000137)[seed % 3], F_("max_iterations"): (4, 6, 9, 12)[seed // 2 % 4], F_("alpha_stop"): (0.05, 0.3, 0.9)[seed % 3], F_("max_err_stop"): 1.0, F_("reward_criteria"): crit}

    def expect_stop(m, world, bind):
        m.normal = True
        nd = statistics.NormalDist()
        end, crit = bind[F_("end_time")], bind[F_("reward_criteria")]
        g = None if crit["#v"] == "FiniteHorizon" else crit["#p"][0]
        N, alpha = bind[F_("max_iterations")], bind[F_("alpha_stop")]
        m1 = m2 = 0.0
        seq = []
        for k in range(N):
            i, r = 0, 0.0
            while world.sample(k, i)["t"] < end:
                x, y = world.sample(k, i), world.sample(k, i + 1)
                env = {a: x, b: y}
                t0, t1 = x["t"], min(y["t"], end)
                r += (t1 - t0 if g is None else (math.exp(-g * t0) - math.exp(-g * t1)) / g) * m.num(m.ev(inst, env))
                if y["t"] <= end:
                    r += (1.0 if g is None else math.exp(-g * y["t"])) * m.num(m.ev(trans, env))
                i += 1
            m1, m2 = m1 * k / (k + 1) + r / (k + 1), m2 * k / (k + 1) + r * r / (k + 1)
            var = (k + 1) / k * (m2 - m1 * m1) if k else 0.0
            if k > 2 and var < 1e-6 * (1 + m2):
                raise interp.Skip
            seq.append((k, m1, var))
        k, _, var = seq[3 + m.seed % (N - 3)]
        bind[F_("max_err_stop")] = m.bind[F_("max_err_stop")] = -math.sqrt(var / (k + 1)) * nd.inv_cdf((alpha - (1e-4, -1e-4, 0.03, -0.03)[m.seed // 3 % 4]) / 2)
        e, want, at_ = m.bind[F_("max_err_stop")], seq[-1][1], None
        for k, mean, var in seq[3:]:
            d = alpha - 2 * nd.cdf(-math.sqrt(k + 1) * e / math.sqrt(var))
            if abs(d) < 1e-6:
                raise interp.Skip
            if d > 0:
                want, at_ = mean, k + 1
                break
        return lambda got: None if close_to(got, want) else "%s instead of %s (at most %d runs, error bound %.6g at level %g met %s)" % (round(got, 6), round(want, 6), N, e, alpha, "after %d" % at_ if at_ else "never")

    bad = refute([s.ret], stops(), expect_stop, lambda m: m.num(m.ev(s.ret, {})))
    if bad:
        c.viol("stopping", w, "the simulation stops at the requested maximum or as soon as the error bound of the mean is met: %s" % bad)


def C26_eval(c):
    p = c.find("MonteCarloReward", "evaluate_state", "RewardEvaluation")
    s = c.sm(p, noinline=sampler_paths(c), names=("self", "net", "rf", "state"))
    w = c.where(p)
    c.guard("contract", lambda: C26_contract(c, s, w))
    net, rf, state = P("net"), P("rf"), P("state")
    end = fld(NET, "end_time")
    L = SampleLoop(c, s, w)
    if not L.ok:
        return
    L.chain(c, w, net, fld(NET, "seed"), some(state))
    L.until(c, w, end)
    cur, prev = P("CUR"), P("PREV")
    ct, pt = fld(cur, "t"), fld(prev, "t")
    acc = [q for q in L.others if any(is_rf(x, rf) for x in subterms(q.step))]
    if not acc:
        return c.undet("accumulator", w, "no accumulated reward")
    D = ZERO
    for q in acc:
        c.equal("start:%s" % (q.cell,), w, q.init, ZERO, "the return of a trajectory starts at zero")
        D = add(D, sub(L.norm(q.step), mu_of(L.W, q)))
    if mus(D) or dirty(D):
        c.undet("contribution", w, "not in closed form: %s" % (dirty(D),))
    else:
        crit = fld(NET, "reward_criteria")
        inf = isv(crit, "InfiniteHorizon", ("FiniteHorizon", "InfiniteHorizon"))
        g = vfld(crit, "InfiniteHorizon", 0)
        inst = fld(tcall("call", rf, fld(prev, "state"), NONE), "instantaneous_reward")
        trans = fld(tcall("call", rf, fld(cur, "state"), some(fld(prev, "state"))), "transition_reward")
        ex = lambda t: mapterm("exp", neg(mul(g, t)))
        disc_ = lambda a, b: div(sub(ex(a), ex(b)), g)
        D = assume(assume(D, flt(pt, end)), fle(pt, end))
        for nm, cond in (("before-end", (flt(ct, end), fle(ct, end), Not(flt(end, ct)), Not(fle(end, ct)))), ("past-end", (flt(end, ct), fle(end, ct), Not(flt(ct, end)), Not(fle(ct, end))))):
            d = D
            for x in cond:
                d = assume(d, x)
            gv = And(flt(pt, end), flt(pt, ct), cond[0])
            fin = assume(d, Not(inf))
            infd = assume(d, inf)
            if nm == "before-end":
                e1 = add(mul(sub(ct, pt), inst), trans)
                e2 = add(mul(disc_(pt, ct), inst), mul(ex(ct), trans))
            else:
                e1, e2 = mul(sub(end, pt), inst), mul(disc_(pt, end), inst)
            c.equal("finite:" + nm, w, fin, e1, "finite horizon: time spent in the state held since the previous sample times its reward, plus the transition's reward", given=gv)
            c.equal("infinite:" + nm, w, infd, e2, "infinite horizon: the same, discounted continuously", given=gv)
    # ---- aggregation
    def rr(x):
        if x.op == "rec" and x.args[1] == L.W.uid:
            for n, q in enumerate(acc):
                if x.args[2] == str(q.cell) and x.args[3] == q.path:
                    ix = [a for a in x.args[5] if isinstance(a, Term)]
                    if len(ix) == 1:
                        return mk("call", "RETURN", P("RUN"), (num(n), ix[0]))
        return None

    r = rw(s.ret, rr)
    if dirty(r):
        return c.undet("mean", w, "not in closed form: %s" % (dirty(r),))
    N = fld(NET, "max_iterations")
    R = lambda i: sum_terms([mk("call", "RETURN", P("RUN"), (num(n), i)) for n in range(len(acc))])

    def moments(n):
        i = fresh_bv("idx")
        m1 = div(close_sum(i, ZERO, n, R(i)), n)
        i = fresh_bv("idx")
        m2 = div(close_sum(i, ZERO, n, powi(R(i), num(2))), n)
        return m1, m2

    i = fresh_bv("idx")
    n = add(i, ONE)
    m1, m2 = moments(n)
    var = mul(div(n, i), sub(m2, mul(m1, m1)))
    nd = vfld(stat("Normal::new", ZERO, ONE), "Ok", 0)
    z = neg(div(mul(sqrt(n), fld(NET, "max_err_stop")), sqrt(var)))
    stop = And(ge0(sub(i, num(3))), flt(ZERO, sub(fld(NET, "alpha_stop"), mul(num(2), stat("ContinuousCDF::cdf", nd, z)))))
    want = ite(close_exists(i, ZERO, N, stop), close_first(i, ZERO, N, stop, m1), moments(N)[0])
    r1 = c.separated(r, want, assume=ge0(sub(N, ONE)))
    if r1 is False:
        c.ok("mean", w, "the value is the mean of the returns of the trajectories run until the stopping rule first accepts")
    elif r1 is None:
        c.undet("mean", w, "cannot be evaluated")
    else:
        c.viol("mean", w, "the value must be the mean of the returns of the trajectories run until the stopping rule first accepts; found %s" % show_cut(r))


def C26_new(c):
    p = c.find("MonteCarloReward", "new")
    names = ("max_iterations", "max_err_stop", "alpha_stop", "end_time", "reward_criteria", "seed")
    s = c.sm(p, names=names)
    for f in names:
        c.equal("new:" + f, c.where(p), fld(s.ret, f), P(f), "the configuration is the one given")


def is_rf(x, rf):
    return x.op == "call" and x.args[0] == "call" and x.args[1] is rf


def sum_terms(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


# ------------------------------------------------------------------ C27
def is_card(q, net, ix):
    """the cardinality of the node with some index of the network"""
    try:
        g = q.args[0].args[0].args[0]
        return q.op == "len" and g.op == "call" and g.args[0] == "get_node" and g.args[1] is net and g.args[2][0].op == "at" and g.args[2][0].args[0] is ix
    except (AttributeError, IndexError, TypeError):
        return False


def C27(c):
    es = c.find("MonteCarloReward", "evaluate_state", "RewardEvaluation")
    p = c.find("MonteCarloReward", "evaluate_state_space", "RewardEvaluation")
    s = c.sm(p, noinline=(es,), names=("self", "net", "rf"))
    w = c.where(p)
    net, rf = P("net"), P("rf")
    ix = tcall("get_node_indices", net)
    n = mk("len", ix, 0)
    card = lambda j: gcard(net, at(ix, (j,)))
    st_, j, q, q2 = [fresh_bv("idx") for _ in range(4)]
    digit = irem(idiv(st_, close_prod(q, ZERO, j, card(q))), card(j))
    sv = close_comp(j, ZERO, n, TRUE, adt("params::StateType", "Discrete", ("0",), (digit,)), "vec")
    want = close_comp(st_, ZERO, close_prod(q2, ZERO, n, card(q2)), TRUE, tup(sv, tcall("evaluate_state", NET, net, rf, sv)), "map")
    ok = c.equal("states", w, s.ret, want, "exactly the joint states of the network are evaluated, each once, and stored under itself")
    if not ok and s.ret.op == "comp":
        # a bound on the number of states evaluated: fewer entries than joint states
        for n_ in (10, 14, 18, 22, 26, 31):
            two = lambda x: rw(x, lambda q: num(2) if is_card(q, net, ix) else None)
            try:
                m = interp.Model(n_, interp.int_heads([s.ret, want]), bind={ix: list(range(n_))})
                x, y = (m.ev(sub(two(t.args[2]), two(t.args[1])), {}) for t in (s.ret, want))
                if isinstance(x, (int, float)) and isinstance(y, (int, float)) and x < y:
                    return c.viol("bounded", w, "with %d variables of two states at most %s of the %s joint states are evaluated" % (n_, x, y))
            except (interp.Skip, interp.Unsupported, RecursionError, KeyError, TypeError, AttributeError, IndexError) as e:
                c.notes.append(("bounded", "%s %s" % (type(e).__name__, e)))
                break
    if not ok:
        # many variables, nearly all of a single state
        for n_ in (5, 9, 13, 17, 21, 33, 65):
            one = lambda x: rw(x, lambda q: ite(ge0(sub(q.args[0].args[0].args[0].args[2][0].args[1][0], num(n_ - 2))), num(2), ONE) if is_card(q, net, ix) else None)
            try:
                a, b = one(s.ret), one(want)
                m = interp.Model(n_, interp.int_heads([a, b]), bind={ix: list(range(n_))})
                m.steps = 0
                x, y = m.ev(a, {}), m.ev(b, {})
                if not m.eqv(x, y):
                    c.viol("many", w, "with %d variables, all but the last two of one state, the states evaluated are not the joint states: %s entries instead of %s" % (n_, len(x) if hasattr(x, "__len__") else "?", len(y)))
                    break
            except (interp.Skip, interp.Unsupported, RecursionError, KeyError, TypeError, AttributeError, IndexError) as e:
                c.notes.append(("many", "%s %s" % (type(e).__name__, e)))
                break
