"""Rules: parameter learning."""
from rulesA import *

SS_PATH = "parameter_learning::sufficient_statistics"


def gcard(net, j):
    """number of states of node j of a network reached through the NetworkProcess interface"""
    return mk("len", fld(payload(tcall("get_node", net, j)), "domain"), 0)


def reserved(t):
    """get_reserved_space_as_parent of an opaque node is the size of its domain"""
    return t


def expected_ss(net, ds, node, ps):
    tr = fld(ds, "trajectories")
    r, i, p, q = [fresh_bv("idx") for _ in range(4)]
    u, x, y = [fresh_bv("idx") for _ in range(3)]
    T = at(tr, (r,))
    ev = lambda t, v: at(fld(T, "events"), (t, v))
    tm = lambda t: at(fld(T, "time"), (t,))
    n = mk("len", ps, 0)
    pr = close_prod(q, ZERO, p, gcard(net, at(ps, (q,))))
    idx = close_sum(p, ZERO, n, mul(pr, ev(i, at(ps, (p,)))))
    steps = sub(mk("len", fld(T, "time"), 0), ONE)
    nxt = add(i, ONE)
    moved = Not(ieq(ev(i, node), ev(nxt, node)))
    M = And(moved, ieq(idx, u), ieq(ev(i, node), x), ieq(ev(nxt, node), y))
    R = And(ieq(idx, u), ieq(ev(i, node), x))
    m = close_sum(r, ZERO, mk("len", tr, 0), close_sum(i, ZERO, steps, ite(M, ONE, ZERO)))
    t = close_sum(r, ZERO, mk("len", tr, 0), close_sum(i, ZERO, steps, ite(R, sub(tm(nxt), tm(i)), ZERO)))
    q2 = fresh_bv("idx")
    K = close_prod(q2, ZERO, n, gcard(net, at(ps, (q2,))))
    return (u, x, y), m, t, K


def C16(c):
    p = c.find("parameter_learning", "sufficient_statistics")
    s = c.sm(p, names=("net", "dataset", "node", "parent_set"))
    w = c.where(p)
    net, ds, node, ps = P("net"), P("dataset"), P("node"), P("parent_set")
    (u, x, y), m, t, K = expected_ss(net, ds, node, ps)
    M, T = fld(s.ret, "0"), fld(s.ret, "1")
    tr = fld(ds, "trajectories")

    # a trajectory has one row of events per instant
    def norm(z):
        z = rw(z, lambda q: mk("len", fld(q.args[0].args[0], "time"), 0) if q.op == "len" and q.args[1] == 0 and q.args[0].op == "fld" and q.args[0].args[1] == "events" else None)

        # the elements of a set differ from each other
        def distinct(q):
            if q.op == "eq0":
                d = poly_dict(q.args[0])
                if len(d) == 2 and sorted(d.values()) == [-1, 1] and all(len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op == "at" and mo[0][0].args[0] is ps for mo in d):
                    i, j = [mo[0][0].args[1][0] for mo in d]
                    return ieq(i, j)
            return None

        return rw(z, distinct) if "parent_set" in str(z) else z

    c.equal("transitions", w, norm(at(M, (u, x, y))), m,
            "M[u,x,y] counts the consecutive instants between which the node moves from x to y while its parents are in configuration u")
    c.equal("residence", w, norm(at(T, (u, x))), t,
            "T[u,x] is the total time between consecutive instants spent in x while the parents are in configuration u")
    # a step adds to a cell what does not depend on how much the cell already holds
    if any(o["key"] in ("transitions", "residence") and o["status"] == "UNDETERMINED" for o in c.obl):
        A, B = P("heldA"), P("heldB")
        held = {str(X.args[2]) for X in (M, T) if X.op == "rec"}
        for l in s.loops:
            for q in l.leafs:
                if str(q.cell) not in held:
                    continue
                mu = mk("mu", l.uid, q.cell, q.path)
                ix = [z.args[1] for z in subterms(q.step) if z.op == "st" and z.args[0] is mu and at(mu, z.args[1]) in set(subterms(z.args[2]))]
                for k in ix[:4]:
                    if any(mu in t.fv for t in k if isinstance(t, Term)) or set(dirty(q.step)) - {"mu", "bv"}:
                        continue
                    inc = lambda X: sub(at(subst(q.step, {mu: X}), k), at(X, k))
                    if c.separated(inc(A), inc(B)):
                        c.viol("increment", w, "what a step adds to a count or a duration depends on what was counted before: %s" % show_cut(q.step))
    card = gcard(net, node)
    for nm, a, dims in (("transitions", M, (K, card, card)), ("residence", T, (K, card))):
        for k, d in enumerate(dims):
            c.equal("shape:%s:%d" % (nm, k), w, length(a, k), d, "one cell per configuration and state")


def fit_terms(c, who):
    p = c.find(who, "fit", "ParameterLearning")
    s = c.sm(p, noinline=(SS_PATH,), names=("self", "net", "dataset", "node", "parent_set"))
    return p, s


def given_set():
    pset = P("parent_set")
    return ite(isSome(pset), unwrap(pset), tcall("get_parent_set", P("net"), P("node")))


def ss_call(ps):
    return mk("call", "sufficient_statistics", P("net"), (P("dataset"), P("node"), ps))


def C17(c):
    net, node = P("net"), P("node")

    def one(who):
        p, s = fit_terms(c, who)
        w = c.where(p)
        cim = unwrap(fld(payload(s.ret), "cim"))
        c.leaves(who + ":some", w, isSome(fld(payload(s.ret), "cim")), lambda l: l is TRUE, "a learnt node carries a table")
        SS = [x for x in subterms(cim) if x.op == "call" and x.args[0] == "sufficient_statistics"]
        if len(SS) != 1:
            return c.undet(who + ":stats", w, "%d distinct statistics used" % len(SS))
        SS = SS[0]
        M, T = fld(SS, "0"), fld(SS, "1")
        # the statistics have shape (K, n, n) / (K, n) and a node never moves to the state it is in
        K, n = mk("len", M, 0), mk("len", M, 1)
        m = {mk("len", M, 2): n, mk("len", T, 0): K, mk("len", T, 1): n}
        cim = rewrite(cim, m)
        u, x, y = sym(), sym(), sym()

        def z(t):
            """drop the diagonal counts, which are zero"""
            return t

        if who == "MLE":
            rate = lambda y_: div(at(M, (u, x, y_)), at(T, (u, x)))
        else:
            al, ta = fld(NET, "alpha"), fld(NET, "tau")
            rate = lambda y_: div(add(at(M, (u, x, y_)), div(al, K)), add(at(T, (u, x)), div(ta, K)))
        off = prove(at(cim, (u, x, y)), eq_decider([(x, y)]))
        c.equal(who + ":off-diagonal", w, off, rate(y), "q(x,y|u) is the (smoothed) ratio of the transition count to the residence time")
        j = fresh_bv("idx")
        full = neg(close_sum(j, ZERO, n, ite(ieq(j, x), ZERO, rate(j))))
        alts = [full]
        if who == "MLE":
            j2 = fresh_bv("idx")
            alts.append(neg(close_sum(j2, ZERO, n, rate(j2))))
        d = at(cim, (u, x, x))
        want = d if any(d is a for a in alts) else full
        c.equal(who + ":diagonal", w, d, want, "the diagonal is minus the sum of the other entries of its row")
        for k, dim in enumerate((K, n, n)):
            c.equal("%s:shape%d" % (who, k), w, rewrite(length(cim, k), m), dim, "one matrix per configuration")

    c.guard("MLE", lambda: one("MLE"))
    c.guard("BayesianApproach", lambda: one("BayesianApproach"))


def C18(c):
    net, node = P("net"), P("node")

    def one(who):
        p, s = fit_terms(c, who)
        w = c.where(p)
        has = isSome(P("parent_set"))
        for nm, h, ps in (("given", True, unwrap(P("parent_set"))), ("default", False, tcall("get_parent_set", net, node))):
            r = payload(with_lits(s.ret, [(has, h)]))
            SS = ss_call(ps)
            c.equal("%s:%s:transitions" % (who, nm), w, fld(r, "transitions"), some(fld(SS, "0")), "the learnt node reports the counts it was learnt from (%s parents)" % nm)
            c.equal("%s:%s:residence" % (who, nm), w, fld(r, "residence_time"), some(fld(SS, "1")), "the learnt node reports the residence times it was learnt from (%s parents)" % nm)
            used = set(x for x in subterms(fld(r, "cim")) if x.op == "call" and x.args[0] == "sufficient_statistics")
            c.add("%s:%s:table" % (who, nm), "OK" if used == {SS} else ("UNDETERMINED" if dirty(fld(r, "cim")) else "VIOLATION"), w,
                  "the table is computed from the statistics of the %s parent set: %s" % (nm, [show_cut(x, 120) for x in used]))
            for f in ("label", "domain"):
                c.equal("%s:%s:%s" % (who, nm, f), w, fld(r, f), fld(payload(tcall("get_node", net, node)), f), "the learnt node keeps the %s of the node it was learnt for" % f)

    c.guard("MLE", lambda: one("MLE"))
    c.guard("BayesianApproach", lambda: one("BayesianApproach"))
