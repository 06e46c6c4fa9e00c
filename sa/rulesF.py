"""Rules: random draws of a node, random generators, amalgamation, contracts of the process types, effects."""
from rulesE import *

DSP = "DiscreteStatesContinousTimeParams"


def draws_of(*ts):
    return sorted({x for t in ts for x in subterms(t) if x.op == "draw"})


def one_draw(c, key, w, t, kind, bounds, rng, what):
    """t must consume exactly one draw, uniform over the given range, from the given generator; t with the draw named r"""
    ds = draws_of(t)
    if len(ds) != 1:
        c.add(key, "UNDETERMINED" if ds or dirty(t) or opaque_calls(t, "sample") or any(x.op in ("call!", "call") for x in subterms(t)) else "VIOLATION", w, "%s: %d random draws" % (what, len(ds)))
        return None
    d = ds[0]
    good = d.args[0] == kind and tuple(d.args[1]) == tuple(bounds)
    if not good:
        und = dirty(d) or d.args[0] not in ("range", "rangeinc", "bool")
        sep = True
        if not und and d.args[0] in ("range", "rangeinc") and kind in ("range", "rangeinc"):
            sep = c.separated(tup(*d.args[1]), tup(*bounds))
            if sep is not True and d.args[0] != kind and kind == "range":
                sep = True      # an inclusive bound reaches one value more
        c.add(key, "UNDETERMINED" if und or not sep else "VIOLATION", w, "%s: drawn from %s%s" % (what, d.args[0], "(%s)" % ", ".join(show_cut(x, 80) for x in d.args[1])))
    else:
        c.ok(key, w, what)
    c.add(key + ":rng", "OK" if d.args[2] is rng else ("UNDETERMINED" if dirty(d.args[2]) else "VIOLATION"), w, "the draw comes from the caller's generator: %s" % show_cut(d.args[2], 120))
    return subst(t, {d: P("r")})


# ------------------------------------------------------------------ C14
def C14(c):
    CIM = fld(P("self"), "cim")
    has = isSome(CIM)
    M = unwrap(CIM)
    st_, u = P("state"), P("u")

    def outcome(s, w, key):
        """(payload when parameters are present, error leaves when absent)"""
        t1, t0 = assume(s.ret, has), assume(s.ret, Not(has))
        ls = leafset(t0)
        good = all(l.op == "adt" and l.args[1] == "Err" for l in ls)
        c.add(key + ":none", "OK" if good and s.cond is TRUE else ("UNDETERMINED" if dirty(t0) or any(l.op not in ("adt",) for l in ls) else "VIOLATION"), w, "without parameters an error is returned: %s" % show_cut(t0, 200))
        errs = [l for l in leafset(t1) if l.op == "adt" and l.args[1] == "Err"]
        if errs:
            c.add(key + ":some", "VIOLATION" if not any(dirty(a) for p_, l in paths(t1) if l in errs for a, _ in p_) else "UNDETERMINED", w, "an error although the parameters are there: %s" % show_cut(t1, 200))
            return None
        c.ok(key + ":some", w, "with parameters a value is returned")
        return vfld(t1, "Ok", 0)

    def uniform():
        p = c.find(DSP, "get_random_state_uniform", "ParamsTrait")
        s = c.sm(p, names=("self", "rng"))
        w = c.where(p)
        n = mk("len", fld(P("self"), "domain"), 0)
        v = vfld(s.ret, "Discrete", 0)
        t = one_draw(c, "uniform:draw", w, v, "range", (ZERO, n), P("rng"), "the initial state is uniform over the node's domain")
        if t is not None:
            c.equal("uniform", w, t, P("r"), "the drawn index is the state")

    def residence():
        p = c.find(DSP, "get_random_residence_time", "ParamsTrait")
        s = c.sm(p, names=("self", "state", "u", "rng"))
        w = c.where(p)
        v = outcome(s, w, "residence")
        if v is None:
            return
        t = one_draw(c, "residence:draw", w, v, "rangeinc", (ZERO, ONE), P("rng"), "one uniform number in the unit interval is consumed")
        if t is not None:
            q = at(M, (u, st_, st_))
            c.equal("residence", w, t, div(mk("ln", P("r")), q), "the residence time is exponential with the exit rate of the current state and configuration: -ln(r) / q", given=flt(q, ZERO))

    def nxt():
        p = c.find(DSP, "get_random_state", "ParamsTrait")
        s = c.sm(p, names=("self", "state", "u", "rng"))
        w = c.where(p)
        v = outcome(s, w, "next")
        if v is None:
            return
        v = vfld(v, "Discrete", 0)
        t = one_draw(c, "next:draw", w, v, "rangeinc", (ZERO, ONE), P("rng"), "one uniform number in the unit interval is consumed")
        if t is None:
            return
        n = mk("len", M, 2)
        card = mk("len", fld(P("self"), "domain"), 0)
        t = rewrite(t, {mk("len", M, 1): n, card: n})
        rate = lambda i: at(M, (u, st_, i))
        q = at(M, (u, st_, st_))
        pos = lambda i: flt(ZERO, rate(i))
        i, j = fresh_bv("idx"), fresh_bv("idx")
        part = lambda k: ite(pos(k), div(neg(rate(k)), q), ZERO)
        hit = And(pos(i), fle(P("r"), add(close_sum(j, ZERO, i, part(j)), div(neg(rate(i)), q))))
        zero1 = lambda k: ite(pos(k), ZERO, ONE)
        last = add(mul(st_, close_prod(i, ZERO, n, zero1(i))), close_sum(i, ZERO, n, ite(pos(i), mul(i, close_prod(j, add(i, ONE), n, zero1(j))), ZERO)))
        ref = ite(close_exists(i, ZERO, n, hit), close_first(i, ZERO, n, hit, i), last)
        d1 = "the next state is the first one whose share of the exit rate, added to those of the states before it, covers the uniform number"
        d2 = "a state with null intensity is never drawn, however the sums are rounded"
        if t is ref:
            c.ok("next", w, d1)
            return c.ok("next:reachable", w, d2)
        if dirty(t):
            c.undet("next", w, "%s: not in closed form (%s)" % (d1, ",".join(dirty(t))))
            return c.undet("next:reachable", w, d2)
        # tables that pass validation: non-negative rates E off the diagonal, minus their sum on it
        x_ = lambda k: at(P("rate"), (k,))
        E = lambda k: ite(flt(x_(k), num(Fraction(1, 4))), tmax(ZERO, x_(k)), tmax(ZERO, sub(x_(k), num(Fraction(5, 4)))))

        def valid(x, seen={}):
            if x.op == "at" and x.args[0] is M and len(x.args[1]) == 3 and x.args[1][:2] == (u, st_):
                k, z = x.args[1][2], fresh_bv("idx")
                tot = close_sum(z, ZERO, n, ite(ieq(z, st_), ZERO, E(z)))
                return ite(ieq(k, st_), neg(tot), E(k))
            return None

        A, B = rw(t, valid), rw(ref, valid)
        dom = And(ge0(st_), ilt(st_, n))
        unit = {P("r"): tmax(ZERO, tmin(ONE, div(sub(at(P("unit"), (ZERO,)), num(Fraction(1, 4))), num(Fraction(5, 2)))))}
        z = fresh_bv("idx")
        some_ = close_exists(z, ZERO, n, And(Not(ieq(z, st_)), flt(ZERO, E(z))))
        r = c.separated(subst(A, unit), subst(B, unit), And(dom, some_))
        if not r:
            # numbers just beside the sum of the shares of the states up to some state
            k = P("upto")
            y = fresh_bv("idx")
            pk = lambda i: ite(Or(ieq(i, st_), Not(flt(ZERO, E(i)))), ZERO, div(E(i), close_sum(y, ZERO, n, ite(ieq(y, st_), ZERO, E(y)))))
            upto = close_sum(z, ZERO, add(k, ONE), pk(z))
            for e in (Fraction(1, 10 ** 3), Fraction(1, 10 ** 6), -Fraction(1, 10 ** 6)):
                near = {P("r"): tmax(ZERO, tmin(ONE, add(upto, num(e))))}
                # a scale on which the distance is not lost in the comparisons of the evaluation
                apart = flt(num(Fraction(1, 20)), close_sum(y, ZERO, n, ite(ieq(y, st_), ZERO, E(y))))
                r = c.separated(subst(A, near), subst(B, near), And(And(dom, And(apart, And(ge0(k), ilt(k, n)))), some_))
                if r:
                    break
        c.add("next", "VIOLATION" if r else "UNDETERMINED", w, "%s: found %s" % (d1, show_cut(t)))
        bad = None
        for rv in (ZERO, ONE, num(Fraction(1001, 1000))):
            x = subst(A, {P("r"): rv})
            # is the state drawn one of positive rate?
            z = fresh_bv("idx")
            okz = close_exists(z, ZERO, n, And(ieq(z, x), And(Not(ieq(z, st_)), flt(ZERO, E(z)))))
            b = c.separated(okz, TRUE, And(dom, some_))
            bad = bad or (b and rv)
        c.add("next:reachable", "VIOLATION" if bad else "UNDETERMINED", w, d2 + (": fails for the uniform number %s" % show_cut(bad) if bad else ""))

    c.guard("uniform", uniform)
    c.guard("residence", residence)
    c.guard("next", nxt)


# ------------------------------------------------------------------ C32, C33
def seed_rule(c, key, w, rng, cond):
    """a requested seed is the one used; without one the stream is not a fixed one"""
    hs = isSome(P("seed"))
    rng = assume(rng, cond)
    c.equal(key + ":seeded", w, with_lits(rng, [(hs, True)]), mk("rngseed", unwrap(P("seed"))), "a requested seed is the one used", given=hs)
    un = with_lits(rng, [(hs, False)])
    if un.op == "rngentropy" or (un.op == "rngseed" and un.args[0].op == "rngentropy"):
        c.ok(key + ":unseeded", w, "without a seed the stream comes from entropy")
    else:
        c.add(key + ":unseeded", "VIOLATION" if un.op == "rngseed" and not dirty(un) and not un.fv else "UNDETERMINED", w, "without a seed the stream must not be a fixed one: %s" % show_cut(un))


def accepts(c, key, w, cond, want, detail, bounds):
    """the constructor returns exactly when `want`; bounds: {term: values} tried exactly"""
    import itertools
    if cond is want:
        return c.ok(key, w, detail)
    if dirty(cond):
        return c.undet(key, w, "%s: not in closed form (%s)" % (detail, ",".join(dirty(cond))))
    ts = list(bounds)
    for vs in itertools.product(*[bounds[x] for x in ts]):
        b = dict(zip(ts, vs))
        x, y = interp.witness(subst(cond, {k: P("#v%d" % i) for i, k in enumerate(ts)}), {P("#v%d" % i): b[k] for i, k in enumerate(ts)}), \
            interp.witness(subst(want, {k: P("#v%d" % i) for i, k in enumerate(ts)}), {P("#v%d" % i): b[k] for i, k in enumerate(ts)})
        if x is not None and y is not None and bool(x) != bool(y):
            return c.viol(key, w, "%s: for %s it is %s" % (detail, vs, "accepted" if x else "refused"))
    c.equal(key, w, cond, want, detail)


def node_range(l, net=None):
    """the loop visits every node: its binder when it runs over 0..number of nodes"""
    if l.kind not in ("seq", "range") or not l.binders or len(l.binders) != 1 or l.exits:
        return None
    b, lo, hi = l.binders[0]
    return b if lo is ZERO and strip_idx(hi) is mk("param", "#nodes") and l.filt is TRUE else None


def flat_loops(e):
    """binders of the loops around an event: [(binder, lo, hi, loop)]"""
    return [(b, lo, hi, l) for l in e.loops for b, lo, hi in (l.binders or [])]


def C32(c):
    ty = "UniformGraphGenerator"

    def new():
        p = c.find(ty, "new", "RandomGraphGenerator")
        s = c.sm(p, names=("density", "seed"))
        w = c.where(p)
        d = P("density")
        accepts(c, "new:accepts", w, s.cond, And(Not(flt(d, ZERO)), Not(flt(ONE, d))), "a generator is built exactly when the density is not below 0 and not above 1", {d: (-1.0, -0.001, 0.0, 0.001, 0.5, 0.999, 1.0, 1.001, 2.0)})
        c.equal("new:density", w, assume(fld(s.ret, "density"), s.cond), d, "the density is the one given", given=s.cond)
        seed_rule(c, "new", w, fld(s.ret, "rng"), s.cond)

    def gen():
        p = c.find(ty, "generate_graph", "RandomGraphGenerator")
        s = c.sm(p, names=("self", "net"))
        w = c.where(p)
        init = [e for e in s.events if e.kind == "call" and e.name == "initialize_adj_matrix"]
        adds = [e for e in s.events if e.kind == "call" and e.name == "add_edge"]
        closed = not s.unknown
        if len(init) != 1:
            c.add("reset", "VIOLATION" if not init and closed else "UNDETERMINED", w, "the previous structure is discarded once (%d resets)" % len(init))
        else:
            e = init[0]
            c.add("reset", "OK" if e.args[0] is P("net") and e.cond is TRUE and not e.loops else
                  ("VIOLATION" if (not dirty(e.cond) and e.cond is not TRUE and not e.loops) or any(x.op == "eff" and x.args[0] == "add_edge" for x in subterms(e.args[0])) else "UNDETERMINED"), w,
                  "the previous structure is discarded before any arc is added: reset of %s when %s" % (show_cut(e.args[0]), show_cut(e.cond)))
        if len(adds) != 1:
            return c.add("arcs", "VIOLATION" if not adds and closed else "UNDETERMINED", w, "%d places add arcs" % len(adds))
        e = adds[0]
        loc = "%s (%s:%s)" % (p, e.span[0], e.span[1]) if e.span else w
        bs = flat_loops(e)
        a, b = strip_idx(e.args[1]), strip_idx(e.args[2])
        by = {x[0]: x for x in bs}
        if len(bs) != 2 or a not in by or b not in by or a is b:
            und = dirty(a) or dirty(b) or len(bs) != 2 or any(l.kind == "while" for *_, l in bs)
            return c.add("pairs", "VIOLATION" if not und and a is b else "UNDETERMINED", loc, "arcs are added from %s to %s" % (show_cut(a), show_cut(b)))
        n = mk("param", "#nodes")
        for x, nm in ((a, "parents"), (b, "children")):
            _, lo, hi, l = by[x]
            lo, hi, filt = strip_idx(lo), strip_idx(hi), strip_idx(l.filt)
            full = lo is ZERO and hi is n and l.kind in ("seq", "range") and not l.exits
            # a range that leaves out part of the nodes, decided on concrete sizes
            short = False
            if not full and not l.exits and l.kind in ("seq", "range") and not dirty(lo) and not dirty(hi):
                other = b if x is a else a
                for nv in range(2, 5):
                    for ov in range(nv):
                        l1, h1 = subst(lo, {n: num(nv), other: num(ov)}), subst(hi, {n: num(nv), other: num(ov)})
                        if is_num(l1) and is_num(h1):
                            need = {z for z in range(nv) if z != ov}
                            if not need <= set(range(int(l1.args[1]), int(h1.args[1]))):
                                short = True
            c.add("pairs:" + nm, "OK" if full else "VIOLATION" if short else "UNDETERMINED", loc, "every ordered pair of nodes is a candidate arc: %s..%s" % (show_cut(lo), show_cut(hi)))
        cond = And(strip_idx(And(*[l.filt for *_, l in bs])), strip_idx(e.cond))
        eq = ieq(a, b)
        t1, t0 = with_lits(cond, [(eq, True)]), with_lits(cond, [(eq, False)])
        c.add("no-loops", "OK" if t1 is FALSE else ("UNDETERMINED" if dirty(t1) else "VIOLATION"), loc, "no node becomes its own parent: arc (i, i) added when %s" % show_cut(t1))
        ds = draws_of(t0)
        den = fld(P("self"), "density")
        if len(ds) != 1:
            return c.add("density", "VIOLATION" if t0 in (TRUE, FALSE) else "UNDETERMINED", loc, "an arc is added when %s" % show_cut(t0))
        d = ds[0]
        r = P("r")
        t = subst(t0, {d: r})
        bad = graph_refuted(s.out.get("net"), a, b, d if d.args[0] == "bool" else flt(d, den), e.args[1:3]) if {a, b} <= set(d.args[4]) else None
        if bad:
            return c.viol("density", loc, "each arc is present exactly when its own draw says so: %s" % bad)
        if d.args[0] == "bool" and t is r:
            c.equal("density", loc, d.args[1][0], den, "each arc is present with the requested probability")
        elif d.args[0] in ("unit", "range", "rangeinc") and (d.args[0] == "unit" or tuple(d.args[1]) == (ZERO, ONE)):
            c.add("density", "OK" if t in (flt(r, den), fle(r, den), Not(fle(den, r)), Not(flt(den, r))) else ("UNDETERMINED" if dirty(t) else "VIOLATION"), loc, "each arc is present with the requested probability: added when %s" % show_cut(t))
        else:
            c.add("density", "VIOLATION" if d.args[0] == "bool" and t is Not(r) and d.args[1][0] is den else "UNDETERMINED", loc, "an arc is added when %s" % show_cut(t0))
        it = set(d.args[4])
        c.add("independent", "OK" if {a, b} <= it else ("VIOLATION" if all(x.op == "bv" for x in it) else "UNDETERMINED"), loc, "every ordered pair has a draw of its own")
        c.add("rng", "OK" if d.args[2] is fld(P("self"), "rng") else "UNDETERMINED" if dirty(d.args[2]) else "VIOLATION", loc, "draws come from the generator's own stream: %s" % show_cut(d.args[2]))

    c.guard("new", new)
    c.guard("generate", gen)


def graph_refuted(out, a, b, succ, arc):
    """a network and draws for which the arcs left by the loops are not those whose draw succeeds"""
    if out is None or dirty_eq(out) - set(interp.LOOPOPS) - {"eff"}:
        return None
    for seed in range(60 * interp.DEPTH):
        n = 2 + seed % 7
        net = interp.Net(n, {(0, 1)} if seed % 3 == 0 else {(n - 1, 0)} if seed % 3 == 1 else ())
        m = interp.Model(seed, interp.int_heads([out]), bind={P("net"): net})
        try:
            got = m.ev(out, {})
            want = set()
            for i in range(n):
                for j in range(n):
                    en = {a: i, b: j}
                    if i != j and m.truth(m.ev(succ, en)):
                        want.add((m.int_(m.ev(arc[0], en)), m.int_(m.ev(arc[1], en))))
        except (interp.Skip, interp.Unsupported, RecursionError) as e:
            graph_refuted.why = str(e)
            return None
        if not isinstance(got, interp.Net):
            return None
        if got.arcs != want:
            x = sorted(got.arcs ^ want)[0]
            return "%d nodes: arc %s is %s although its draw %s" % (n, x, "present" if x in got.arcs else "missing", "succeeds" if x in want else "fails")
    return None


def C33(c):
    ty = "UniformParametersGenerator"

    def new():
        p = c.find(ty, "new", "RandomParametersGenerator")
        s = c.sm(p, names=("interval", "seed"))
        w = c.where(p)
        iv = P("interval")
        a, b = fld(iv, "start"), fld(iv, "end")
        vals = (-2.0, -0.001, 0.0, 0.001, 0.5, 7.0)
        accepts(c, "new:accepts", w, s.cond, And(Not(flt(a, ZERO)), Not(flt(b, ZERO))), "a generator is built exactly when no bound of the interval is negative", {a: vals, b: vals})
        got = assume(fld(s.ret, "interval"), s.cond)
        if got is iv:
            c.ok("new:interval", w, "the interval is the one given")
        else:
            c.equal("new:interval", w, tup(fld(got, "start"), fld(got, "end")), tup(a, b), "the interval is the one given")
        seed_rule(c, "new", w, fld(s.ret, "rng"), s.cond)

    def gen():
        p = c.find(ty, "generate_parameters", "RandomParametersGenerator")
        s = c.sm(p, names=("self", "net"))
        w = c.where(p)
        cand = [(l, q) for l in s.loops for q in l.leafs if q.cell == ("P", "net") and any(x.op == "upd" for x in subterms(q.step))]
        if len(cand) != 1:
            out = s.out.get("net")
            return c.add("nodes", "VIOLATION" if out is P("net") or (not cand and not s.unknown and not dirty(out or UNIT)) else "UNDETERMINED", w, "no single traversal that updates the nodes")
        l, q = cand[0]
        loc = "%s (%s:%s)" % (p, l.span[0], l.span[1]) if l.span else w
        node = l.binders[0][0] if l.binders and len(l.binders) == 1 else None
        if node is None or l.kind not in ("seq", "range"):
            return c.undet("nodes", loc, "the nodes are visited by a %s loop" % l.kind)
        lo, hi = l.binders[0][1], strip_idx(l.binders[0][2])
        full = lo is ZERO and hi is mk("param", "#nodes") and l.filt is TRUE and not l.exits
        c.add("nodes", "OK" if full else ("VIOLATION" if not dirty(hi) and not l.exits and l.filt is TRUE and c.separated(tup(lo, hi), tup(ZERO, mk("param", "#nodes"))) else "UNDETERMINED"), loc, "every node gets parameters: %s..%s" % (show_cut(lo), show_cut(hi)))
        mu = mk("mu", l.uid, q.cell, q.path)
        c.add("base", "OK" if q.init is P("net") else "UNDETERMINED", loc, "the nodes of the given network are updated")
        step = strip_idx(q.step)
        ls = leafset(step)
        if any(x is mu for x in ls):
            return c.add("unconditional", "VIOLATION" if not any(dirty(a) for pth, x in paths(step) if x is mu for a, _ in pth if set(dirty(a)) - {"mu"}) else "UNDETERMINED", loc, "some node is left without new parameters: %s" % show_cut(step))
        if len(ls) != 1 or ls[0].op != "upd" or ls[0].args[0] is not mu or ls[0].args[1] != "get_node":
            return c.undet("update", loc, "update is %s" % show_cut(step))
        u_ = ls[0]
        c.equal("target", loc, u_.args[2][0], node, "the node updated is the one visited")
        oldn = tcall("get_node", mu, node)
        V = "DiscreteStatesContinousTime"
        new_, old = vfld(u_.args[3], V, 0), vfld(oldn, V, 0)
        for f in ("label", "domain", "transitions", "residence_time"):
            c.equal("keeps:" + f, loc, fld(new_, f), fld(old, f), "generating parameters changes nothing else of a node", clean=not (set(dirty(fld(new_, f))) - {"mu"}))
        cim = fld(new_, "cim")
        if cim.op != "adt" or cim.args[1] != "Some":
            return c.add("present", "VIOLATION" if cim is NONE or cim is fld(old, "cim") else "UNDETERMINED", loc, "the table stored is %s" % show_cut(cim))
        M = cim.args[3][0]
        card = lambda i: at(P("card"), (i,))
        PS = P("parents")
        # cardinalities and parents do not change while parameters are generated
        netish = (mu, P("net"))

        def sym_(x):
            if x.op == "call" and x.args[0] in ("get_children_set", "get_node_indices", "get_number_of_nodes") and x.args[1] in netish:
                return mk("call", x.args[0], P("net"), tuple(rw(y, sym_) for y in x.args[2]))
            if x.op == "call" and x.args[0] == "get_parent_set" and x.args[1] in netish and x.args[2] == (node,):
                return PS
            if x.op == "len" and x.args[1] == 0 and x.args[0].op == "fld" and x.args[0].args[1] == "domain":
                g = x.args[0].args[0]
                if g.op == "vfld" and g.args[0].op == "call" and g.args[0].args[0] == "get_node" and g.args[0].args[1] in netish:
                    return card(rw(g.args[0].args[2][0], sym_))
            return None

        z = fresh_bv("idx")
        ncfg = close_prod(z, ZERO, mk("len", PS, 0), card(at(PS, (z,))))
        n = card(node)
        M = rw(M, sym_)
        for k, want, d in ((0, ncfg, "one matrix per configuration of the parents"), (1, n, "one row per state"), (2, n, "one column per state")):
            c.equal("shape:%d" % k, loc, length(M, k), want, d)
        u, x, y = fresh_bv("idx"), fresh_bv("idx"), fresh_bv("idx")
        el = at(M, (u, x, y))
        off, diag = with_lits(el, [(ieq(x, y), False)]), subst(el, {y: x})
        inb = And(And(ile(ZERO, u), ilt(u, ncfg)), And(And(ile(ZERO, x), ilt(x, n)), And(ile(ZERO, y), ilt(y, n))))
        off, diag = assume(off, inb), assume(diag, subst(inb, {y: x}))
        ds = draws_of(off)
        ws = [d for d in ds if d.args[0] == "unit" or d.args[0] in ("range", "rangeinc") and tuple(d.args[1]) == (ZERO, ONE)]
        iv = fld(P("self"), "interval")
        qs = [d for d in ds if (d.args[0].startswith("range") and tuple(d.args[1]) in ((iv,), (fld(iv, "start"), fld(iv, "end"))))]
        other = [d for d in ds if d not in ws and d not in qs]
        if set(dirty(off)) | set(dirty(diag)):
            return c.undet("table", loc, "the table is not in closed form: %s" % (set(dirty(off)) | set(dirty(diag))))
        if other or not ws or not qs:
            return c.add("draws", "UNDETERMINED" if not other and False else "VIOLATION" if all(d.args[0] in ("unit", "range", "rangeinc", "range?", "bool") for d in ds) else "UNDETERMINED", loc,
                         "an entry is made of weights drawn from the unit interval and an exit rate drawn from the requested interval: %s" % [show_cut(d, 160) for d in ds])
        for d in ws + qs:
            c.add("rng:%s" % d.args[0], "OK" if d.args[2] is fld(P("self"), "rng") else "UNDETERMINED" if dirty(d.args[2]) else "VIOLATION", loc, "draws come from the generator's own stream")
        wy = [d for d in ws if y in d.args[4]]
        if len(qs) > 1:
            # draws chosen by the number of states: each choice is looked at
            for N in (2, 3, 5, 9, 17, 33, 65, 129, 257, 1025):
                oN = subst(off, {n: num(N)})
                qN = [d for d in draws_of(oN) if d.args[0].startswith("range") and tuple(d.args[1]) in ((iv,), (fld(iv, "start"), fld(iv, "end")))]
                if len(qN) == 1 and x not in qN[0].args[4] and all(b.op == "bv" for b in qN[0].args[4]):
                    return c.add("draws", "VIOLATION", loc, "with %d states the rows share one exit rate: %s" % (N, show_cut(qN[0], 160)))
        if not wy or len(qs) != 1:
            return c.add("draws", "VIOLATION" if all(b.op == "bv" for d in ws for b in d.args[4]) and len(qs) == 1 else "UNDETERMINED", loc, "every entry has a weight of its own")
        wd, qd = wy[0], qs[0]
        for d, need, nm in ((wd, {node, u, x, y}, "weights"), (qd, {node, u, x}, "exit rates")):
            have = set(d.args[4])
            c.add("independent:" + nm, "OK" if need <= have else ("VIOLATION" if all(b.op == "bv" for b in have) else "UNDETERMINED"), loc, "%s are drawn anew for every node, configuration and state" % nm)
        Wn, Qn = P("W"), P("Q")
        W = lambda k: at(Wn, tuple(subst(t, {y: k}) for t in wd.args[4]))
        Q = at(Qn, tuple(qd.args[4]))

        def dr(t):
            if t.op == "draw" and t.args[:4] == wd.args[:4]:
                return at(Wn, t.args[4])
            if t.op == "draw" and t.args[:4] == qd.args[:4]:
                return at(Qn, t.args[4])
            return None

        off, diag = rw(off, dr), rw(diag, dr)
        z = fresh_bv("idx")
        tot = close_sum(z, ZERO, n, ite(ieq(z, x), ZERO, W(z)))
        want = div(mul(Q, W(y)), tot)
        # the configuration compared may be the last one
        top = {u: sub(ncfg, ONE)}

        def last_differs(a, b, g):
            g = subst(g, top)
            return not dirty(a) and a is not b and c.separated(subst(a, top), subst(b, top), g)

        offd, offg = "off-diagonal entries share the exit rate in proportion to the weights", And(inb, Not(ieq(x, y)))
        if last_differs(off, want, offg):
            c.viol("off-diagonal", loc, "%s: found %s" % (offd, show_cut(off)))
        else:
            c.equal("off-diagonal", loc, off, want, offd, given=offg)
        z = fresh_bv("idx")
        wantd = neg(close_sum(z, ZERO, n, ite(ieq(z, x), ZERO, subst(want, {y: z}))))
        dd, dg = "the diagonal is minus the sum of the other entries of the row", subst(inb, {y: x})
        if diag is not neg(Q) and last_differs(diag, wantd, dg):
            c.viol("diagonal", loc, "%s: found %s" % (dd, show_cut(diag)))
        else:
            prefer2(c, "diagonal", loc, diag, (wantd, neg(Q)), dd, dg)

    c.guard("new", new)
    c.guard("generate", gen)


def prefer2(c, key, where, actual, forms, detail, given):
    for f in forms:
        if actual is f:
            return c.ok(key, where, detail)
    return c.equal(key, where, actual, forms[0], detail, given=given)
