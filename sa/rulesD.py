"""Rules on the loops of the structure learners (invariants decided on one generic iteration)."""
from rulesC import *
from engine import is_numlike

IDXN = "get_node_indices"


def is_idx(t):
    """the node indices of some view of the network"""
    return t.op == "call" and t.args[0] == IDXN


def strip_idx(t):
    """the i-th node index of a network is i; its number of node indices is its number of nodes"""
    m = {}
    n = mk("param", "#nodes")
    for x in subterms(t):
        if x.op == "at" and is_idx(x.args[0]):
            m[x] = x.args[1][0]
        elif x.op == "len" and is_idx(x.args[0]):
            m[x] = n
        elif x.op == "call" and x.args[0] == "get_number_of_nodes":
            m[x] = n
    return rewrite(t, m) if m else t


def learner(c, who, noinline=()):
    p = c.find(who, "fit_transform", "StructuralLearningAlgorithm")
    s = c.sm(p, noinline=noinline, names=("self", "net", "dataset"))
    return p, s, c.where(p)


def tests_path(c):
    return tuple(c.find(t, "call", "HypothesisTest") for t in ("F", "ChiSquare"))


def learners(c):
    yield "CTPC", tests_path(c)
    yield "HillClimbing", ()


def chain_root(t, names):
    """follow an opaque-effect chain down to the value before the first of the named calls"""
    seen = []
    while t.op == "eff" and t.args[0] in names:
        seen.append(t.args[0])
        t = t.args[2][t.args[1]]
    return t, seen


def loops_by_mu(s):
    return {l.uid: l for l in s.loops}


# ------------------------------------------------------------------ C19
def C19(c):
    def one(who, ni):
        p, s, w = learner(c, who, ni)
        ev = [e for e in s.events if e.kind == "call" and e.name == "add_edge"]
        if not ev:
            return c.add(who + ":arcs", "VIOLATION" if not any(e.kind not in ("pure", "maypanic", "panic", "call", "par", "log", "mapinsert") for e in s.events) and not s.unknown else "UNDETERMINED", w, "the learner never adds an arc")
        init = [e for e in s.events if e.kind == "call" and e.name == "initialize_adj_matrix"]
        L = loops_by_mu(s)
        net1 = None
        if len(init) == 1:
            e = init[0]
            c.equal(who + ":reset", w, e.args[0], P("net"), "the structure of the given network is discarded first")
            c.bool_(who + ":reset-always", w, with_lits(e.cond, [(a, True) for a in atoms_of(s.cond) if a.op == "eq0"]), "the structure is discarded whenever learning proceeds")
        else:
            c.add(who + ":reset", "VIOLATION" if not init else "UNDETERMINED", w, "the given network's arcs must be discarded once (%d resets)" % len(init))
        # what is returned is the network the arcs were added to
        roots = set()
        for e in ev:
            t = e.args[0]
            for _ in range(6):
                if t.op == "mu" and t.args[0] in L:
                    q = [x for x in L[t.args[0]].leafs if x.cell == t.args[1] and x.path == t.args[2]]
                    if not q:
                        break
                    t = q[0].init
                elif t.op == "eff" and t.args[0] == "add_edge":
                    t = t.args[2][t.args[1]]
                else:
                    break
            roots.add(t)
        if len(roots) == 1 and len(init) == 1:
            r, names = chain_root(list(roots)[0], ("initialize_adj_matrix",))
            c.add(who + ":base", "OK" if r is P("net") and names == ["initialize_adj_matrix"] else ("UNDETERMINED" if r.op in ("mu", "rec", "unk", "eff") else "VIOLATION"), w, "arcs are added to the network whose structure was just discarded: %s" % show_cut(list(roots)[0]))
        ret, names = s.ret, []
        for _ in range(8):
            if ret.op == "rec" and len(ret.args) > 4:
                ret = ret.args[4]
            elif ret.op == "eff":
                ret = ret.args[2][ret.args[1]]
            else:
                break
        c.add(who + ":returned", "OK" if ret is P("net") else ("UNDETERMINED" if dirty(ret) or ret.op == "mu" else "VIOLATION"), w, "the network given is the one returned: %s" % show_cut(ret))
        if len(ev) != 1:
            return c.undet(who + ":one-site", w, "%d places add arcs" % len(ev))
        e = ev[0]
        loc = "%s (%s:%s)" % (p, e.span[0], e.span[1]) if e.span else w
        par, child = e.args[1], e.args[2]
        if e.cond is not TRUE:
            # a condition may be part of finding the learnt parents, or lose some of them: the result decides
            bad = None
            try:
                bad = learnt_contract(c, who, s)
            except Exception:  # no verdict from the contract
                pass
            if bad:
                c.viol(who + ":unconditional", loc, "a learnt parent does not become an arc: arcs are added under %s; %s" % (show_cut(e.cond), bad))
            else:
                c.undet(who + ":unconditional", loc, "arcs are added under %s" % show_cut(e.cond))
        # child = index i of the outer loop, parent = element j of the set learnt for i
        if len(e.loops) != 2 or any(l.kind != "seq" or not l.binders or len(l.binders) != 1 for l in e.loops):
            return c.undet(who + ":loops", loc, "arcs are not added by two nested traversals")
        lo, li = e.loops
        if li.binders[0][0] in lo.binders[0][2].fv:
            lo, li = li, lo
        bi, bj = lo.binders[0][0], li.binders[0][0]
        ch = strip_idx(child)
        # which set?
        def elem_of_set(t):
            return t.op == "at" and t.args[1] == (bj,) and bj not in t.args[0].fv

        if elem_of_set(ch) and not elem_of_set(strip_idx(par)):
            return c.viol(who + ":direction", loc, "the learnt parent is recorded as the child: add_edge(%s, %s)" % (show_cut(par), show_cut(child)))
        if not elem_of_set(par):
            ls = [l for _, l in paths(par) if l is not BOT]
            if all(elem_of_set(l) for l in ls):
                base = {l.args[0] for l in ls}
                cut = [x for x in base if x.op == "srem" and x.args[0] in base and x.args[1].op == "at" and x.args[1].args[0] is x.args[0]]
                if cut:
                    return c.viol(who + ":parent", loc, "a parent that was learnt is dropped from the set: %s" % show_cut(par))
            return c.undet(who + ":parent", loc, "the parent added is %s" % show_cut(par))
        SET = par.args[0]
        c.add(who + ":child", "OK" if ch is bi else ("UNDETERMINED" if dirty(ch) or is_num(ch) is False and ch.op not in ("bv", "poly", "const") else "VIOLATION"), loc, "the child of the arc is the node the set was learnt for: %s" % show_cut(ch))
        for l, nm, hi in ((lo, "nodes", mk("param", "#nodes")), (li, "parents", mk("len", SET, 0))):
            b, l0, h0 = l.binders[0]
            okr = l0 is ZERO and strip_idx(h0) is strip_idx(hi) and l.filt is TRUE and not l.exits
            if not okr and nm == "parents" and l.filt is TRUE and not l.exits:
                q = P("#set")
                m = {SET: q}
                l1, h1, w1 = subst(l0, m), subst(h0, m), mk("len", q, 0)
                if not dirty(l1) and not dirty(h1) and c.separated(tup(l1, h1), tup(ZERO, w1)):
                    c.viol("%s:all-%s" % (who, nm), loc, "not every learnt parent becomes an arc: traversal of %s..%s" % (show_cut(l1), show_cut(h1)))
                    continue
            c.add("%s:all-%s" % (who, nm), "OK" if okr else ("VIOLATION" if not l.exits and strip_idx(h0).op in ("poly", "param", "const") and not dirty(l.filt) and nm == "nodes" and l.filt is TRUE else "UNDETERMINED"), loc,
                  "every learnt parent of every node becomes an arc: traversal of %s..%s if %s" % (show_cut(l0), show_cut(h0), show_cut(l.filt)))
        # the set belongs to that node: the calls that decide on it are made for the node of the same iteration
        calls_ = [x for x in s.events if x.kind == "call" and x.name == "call"]
        pure = set()
        for l in s.loops:
            for q in l.leafs:
                for t in (q.init, q.step):
                    pure |= {x for x in subterms(t) if x.op == "call" and x.args[0] == "call" and len(x.args[2]) >= 4}
        if not calls_ and not pure:
            return c.undet(who + ":deciding", w, "no score or test call seen")
        deps = SET.fv & {bi}
        c.add(who + ":own-set", "OK" if deps else ("VIOLATION" if not SET.fv and not dirty(SET) else "UNDETERMINED"), loc, "the set whose elements become parents of node i is the one learnt for node i: %s" % show_cut(SET))
        pars = [x for x in s.events if x.kind == "par" and x.name == "map" and x.args[0].op == "seq"]
        for x in sorted(pure):
            nd = strip_idx(x.args[2][1])
            loc2 = w
            k = "%s:decided-for" % who
            own = [e_ for e_ in pars if nd in [b_ for b_, _, _ in e_.args[0].args[0]]]
            if nd in [b_ for l in s.loops for b_, lo_, hi_ in (l.binders or []) if lo_ is ZERO and strip_idx(hi_) is mk("param", "#nodes")] or own:
                c.ok(k, loc2, "scores are computed for the node being learnt: %s" % show_cut(nd))
                used = [b_ for b_ in (x.args[2][2].fv if len(x.args[2]) > 2 else ())]
            else:
                c.add(k, "VIOLATION" if nd.op in ("const", "poly") else "UNDETERMINED", loc2, "scores are computed for %s" % show_cut(nd))
            c.add("%s:decided-on" % who, "OK" if x.args[2][3] is P("dataset") else ("UNDETERMINED" if dirty(x.args[2][3]) else "VIOLATION"), loc2, "scores use the given dataset: %s" % show_cut(x.args[2][3]))
        for x in calls_:
            outer = x.loops[0] if x.loops else None
            loc2 = "%s (%s:%s)" % (p, x.span[0], x.span[1]) if x.span else w
            nd = strip_idx(x.args[2])
            if outer is None or not outer.binders:
                c.undet(who + ":decided-for", loc2, "score or test call outside the traversal of the nodes")
                continue
            b = outer.binders[0][0]
            c.add("%s:decided-for:%s" % (who, show_cut(x.args[0], 40)), "OK" if nd is b else ("VIOLATION" if nd.op in ("bv", "const", "poly") else "UNDETERMINED"), loc2,
                  "scores and tests are computed for the node being learnt: %s" % show_cut(nd))
            c.equal("%s:decided-on:%s" % (who, show_cut(x.args[0], 40)), loc2, x.args[4] if who == "HillClimbing" else x.args[5], P("dataset"), "scores and tests use the given dataset")
            h0 = strip_idx(outer.binders[0][2])
            c.add("%s:every-node:%s" % (who, show_cut(x.args[0], 40)), "OK" if outer.binders[0][1] is ZERO and h0 is mk("param", "#nodes") and outer.filt is TRUE else ("VIOLATION" if h0.op in ("poly", "const") and not dirty(h0) else "UNDETERMINED"), loc2, "a parent set is learnt for every node")

    for who, ni in learners(c):
        c.guard(who, lambda: one(who, ni))


# ------------------------------------------------------------------ C21
def C21(c):
    def one(who, ni):
        p, s, w = learner(c, who, ni)
        cols = mk("len", fld(at(fld(P("dataset"), "trajectories"), (ZERO,)), "events"), 1)
        eq = ieq(tcall("get_number_of_nodes", P("net")), cols)
        eq2 = ieq(mk("len", tcall(IDXN, P("net")), 0), cols)
        for v, nm in ((False, "mismatch"), (True, "match")):
            t = with_lits(s.cond, [(eq, v), (eq2, v)] if eq is not eq2 else [(eq, v)])
            want = boolc(v)
            if t is want:
                c.ok("%s:%s" % (who, nm), w, "a dataset over another number of variables is refused before anything is learnt" if not v else "a matching dataset is accepted")
            else:
                c.add("%s:%s" % (who, nm), "UNDETERMINED" if dirty(t) else "VIOLATION", w, "completes when %s (%s)" % (show_cut(t), nm))
        for e in s.events:
            if e.kind == "call" and e.name in ("initialize_adj_matrix", "add_edge") and not e.loops:
                t = with_lits(e.cond, [(eq, False), (eq2, False)])
                c.add("%s:before:%s" % (who, e.name), "OK" if t is FALSE else ("UNDETERMINED" if dirty(t) else "VIOLATION"), w, "nothing is edited before the refusal")

    def result(who, ni):
        """shapes the rules above do not recognise are decided by what is learnt"""
        mine = [o for o in c.obl if o["key"].startswith(who + ":")]
        if any(o["status"] == "VIOLATION" for o in mine) or not any(o["status"] == "UNDETERMINED" and o["key"].split(":")[1] in ("one-site", "loops", "parent", "child", "own-set", "all-nodes", "all-parents", "deciding", "base") for o in mine):
            return
        p, s, w = learner(c, who, ni)
        bad = learnt_contract(c, who, s)
        if bad:
            c.viol(who + ":learnt", w, "the arcs of the network returned are not the parents learnt: %s" % bad)

    for who, ni in learners(c):
        c.guard(who, lambda: one(who, ni))
        c.guard(who, lambda: result(who, ni))


# ------------------------------------------------------------------ C20
def inner_atom(ts):
    """the condition of some conditional inside the terms, chosen free of conditionals itself"""
    best = None
    for t in ts:
        for x in subterms(t):
            if x.op == "ite" and not any(y.op == "ite" for y in subterms(x.args[0])) and (best is None or x.args[0].id < best.id):
                best = x.args[0]
    return best


def split_all(ts, limit=4000):
    """all (literals, terms) cases of a tuple of terms, conditionals decided at every depth"""
    out, todo = [], [((), tuple(ts))]
    while todo:
        lits, cur = todo.pop()
        while True:
            d = [decision(t) for t in cur if decision(t) is not None and not isinstance(decision(t), bool) and t.op != "ite"]
            a = inner_atom(cur)
            if a is None and d:
                a = d[0]
            break
        if a is None:
            out.append((lits, cur))
            if len(out) > limit:
                raise ValueError("too many cases")
            continue
        for v in (True, False):
            l2 = lits + ((a, v),)
            if feasible([x for x in l2 if x[0].op in ("eq0", "ge0")]):
                todo.append((l2, tuple(assume_lits(t, {a: v}) for t in cur)))
    return out


def C20_contract(c, s, w):
    bad = C20_refuted(s)
    if bad:
        c.viol("contract", w, "the search stops only when no single change scores higher: %s" % bad)


def C20_refuted(s):
    """where the search may stop, for opaque scores and small networks"""
    ret = assume(s.ret, s.cond)
    F_ = lambda f: fld(NET, f)
    sf, ds, mx = F_("score_function"), P("dataset"), F_("max_parent_set")
    nd, st_ = fresh_bv("idx"), fresh_bv("idx")
    nt = fresh_bv("idx")
    score = mk("call", "call", sf, (nt, nd, st_, ds))

    def runs():
        for seed in range(40 * interp.DEPTH):
            n = 1 + seed % 6
            net = interp.Net(n, {(i, (i + 1) % n) for i in range(n) if n > 1 and (seed >> i) & 1})
            lim = (None, 1, 2, 3, n, 0, n + 2)[seed % 7]
            yield seed, n, {P("net"): net, mx: interp.adt_("None") if lim is None else interp.adt_("Some", lim)}

    def expect(m, n, bind):
        lim = bind[mx]["#p"][0] if bind[mx]["#v"] == "Some" else n

        def differs(got):
            if not isinstance(got, interp.Net) or got.n != n:
                raise interp.Unsupported("network")
            val = lambda i, S: m.num(m.ev(score, {nt: interp.Net(n), nd: i, st_: frozenset(S)}))
            for i in range(n):
                S = {a for a, b in got.arcs if b == i}
                if i in S:
                    return "node %d becomes its own parent" % i
                if len(S) > lim:
                    return "%d parents where %d are allowed" % (len(S), lim)
                v = val(i, S)
                if v < val(i, ()) - 1e-9:
                    return "the set found scores less than the empty set"
                for j in range(n):
                    if j == i or j not in S and len(S) >= lim:
                        continue
                    if val(i, S ^ {j}) > v + 1e-9:
                        return "%d nodes, at most %d parents: the search stops at %s for node %d although %s %d would score higher" % (n, lim, sorted(S), i, "removing" if j in S else "adding", j)
            return None
        return differs

    return refute([ret], runs(), expect, lambda m: m.ev(ret, {}))


def C20(c):
    p, s, w = learner(c, "HillClimbing")
    c.guard("contract", lambda: C20_contract(c, s, w))
    L = loops_by_mu(s)
    sf = fld(NET, "score_function")

    def is_score(x):
        return x.op == "call" and x.args[0] == "call" and x.args[1] is sf

    # state: the set that starts empty and the score that starts as the score of the empty set
    outer = inner = None
    for l in s.loops:
        if l.kind == "while":
            st_ = [q for q in l.leafs if q.init is mk("emptyset")]
            if len(st_) == 1:
                outer, oset = l, st_[0]
    if outer is None:
        # sweeps that are counted as well
        for l in s.loops:
            if l.kind == "range" and l.exits and any(is_score(q.init) for q in l.leafs):
                st_ = [q for q in l.leafs if q.init is mk("emptyset")]
                if len(st_) == 1:
                    outer, oset = l, st_[0]
    if outer is None:
        for l in s.loops:
            a = [q for q in l.leafs if q.init is mk("emptyset") and any(x.op in ("sins", "srem") for x in subterms(q.step))]
            b = [q for q in l.leafs if is_score(q.init) and q.init.args[2][2] is mk("emptyset")]
            if l.kind == "seq" and a and b and not l.exits and not any(x.kind == "while" for x in s.loops):
                return c.viol("shape", "%s (%s:%s)" % (p, l.span[0], l.span[1]) if l.span else w, "the candidates are swept only once, whether or not the sweep brought an improvement")
        return c.undet("shape", w, "no search loop over a set that starts empty")
    osc = [q for q in outer.leafs if is_score(q.init)]
    loc = "%s (%s:%s)" % (p, outer.span[0], outer.span[1]) if outer.span else w
    if len(osc) != 1:
        return c.undet("score-state", loc, "no running score that starts as the score of the empty set: %s" % [show_cut(q.init, 80) for q in outer.leafs])
    osc = osc[0]
    c.equal("start", loc, osc.init.args[2][2], mk("emptyset"), "the running score starts as the score of the set it starts from")
    for l in s.loops:
        if l.kind == "seq" and getattr(l, "parent", None) is outer:
            a = [q for q in l.leafs if q.cell == oset.cell and q.path == oset.path]
            b = [q for q in l.leafs if q.cell == osc.cell and q.path == osc.path]
            if a and b:
                inner, iset, isc = l, a[0], b[0]
    if inner is None:
        return c.undet("sweep", loc, "no sweep over candidate parents inside the search loop")
    S, C = mk("mu", inner.uid, iset.cell, iset.path), mk("mu", inner.uid, isc.cell, isc.path)
    bp, lo, hi = inner.binders[0]
    loc = "%s (%s:%s)" % (p, inner.span[0], inner.span[1]) if inner.span else w
    c.add("sweep:range", "OK" if lo is ZERO and strip_idx(hi) is mk("param", "#nodes") and inner.filt is TRUE and not inner.exits and len(inner.binders) == 1 else
          ("VIOLATION" if not dirty(strip_idx(hi)) and strip_idx(hi).op in ("poly", "const", "param") and inner.filt is TRUE and not inner.exits else "UNDETERMINED"), loc, "every sweep tries every node as a parent: %s..%s if %s" % (show_cut(lo), show_cut(strip_idx(hi)), show_cut(inner.filt)))
    node = strip_idx(osc.init.args[2][1])
    # learning goes on only under the literals the completion condition needs
    must = [(a, v) for a in atoms_of(s.cond) for v in (True, False) if with_lits(s.cond, [(a, not v)]) is FALSE]
    steps = split_all((strip_idx(with_lits(iset.step, must)), strip_idx(with_lits(isc.step, must))))
    eqn = ieq(bp, node)
    inS = mk("in", bp, S)
    n = mk("param", "#nodes")
    mx = fld(NET, "max_parent_set")
    has = isSome(mx)

    def mem(e, v):
        """is the candidate in the set expression e, which agrees with S elsewhere?"""
        if e is S:
            return v
        if e.op in ("sins", "srem") and len(e.args) == 2 and e.args[1] is bp:
            return None if mem(e.args[0], v) is None and e.args[0] is not S and e.args[0].op not in ("sins", "srem") else e.op == "sins"
        return None

    def known(e):
        while e.op in ("sins", "srem") and e.args[1] is bp:
            e = e.args[0]
        return e is S

    pend = []
    for path, (S2, C2) in steps:
        lits = dict(path)
        desc = "set %s, score %s when %s" % (show_cut(S2, 120), show_cut(C2, 200), show_path(path)[:300])
        v = lits.get(inS)
        selfc = lits.get(eqn)
        bad = lambda k, d: pend.append((k, d, bool(dirty(S2) and not known(S2) or any(dirty(a, ()) for a in lits if a.op not in ("flt", "fle", "feq") and not is_mu_only(a, L)))))
        if selfc is True:
            if v is not True and not (known(S2) and (S2 is S or (v is False and mem(S2, v) is False))):
                bad("self", "a node becomes its own parent: " + desc)
            continue
        if not known(S2):
            bad("moves", "the set changes by something else than the candidate: " + desc)
            continue
        m2 = mem(S2, v)
        if v is None and S2 is not S:
            # membership unknown: the path must still be sound for both cases
            cases = (True, False)
        else:
            cases = (v,)
        for vv in cases:
            check_case(lits, vv, S2, C2, mem, known, S, C, bp, is_score, selfc, has, mx, n, bad, desc, node)
    seen = set()
    for k in ("self", "moves", "size", "score", "worse", "missed", "args"):
        ps = [x for x in pend if x[0] == k]
        d = {"self": "a node is never its own parent", "moves": "each move adds or removes the candidate only", "size": "an addition respects the maximum number of parents",
             "score": "the running score stays the score of the current set", "worse": "a change is kept only if its score is not lower", "missed": "a change that scores higher is always kept",
             "args": "candidate sets are scored for the node being learnt on the given dataset"}[k]
        if not ps:
            c.ok(k, loc, d)
        elif all(x[2] for x in ps):
            c.undet(k, loc, ps[0][1])
        else:
            c.viol(k, loc, [x for x in ps if not x[2]][0][1])
    # the sweep starts from the current set and score, and its results are the next ones
    for nm, q, o in (("set", iset, oset), ("score", isc, osc)):
        muo = mk("mu", outer.uid, o.cell, o.path)
        edited = q.init is not muo and root_of(q.init) in (muo, mk("emptyset"), osc.init)
        c.add("sweep:from:" + nm, "OK" if q.init is muo else ("VIOLATION" if edited else "UNDETERMINED"), loc, "a sweep starts from the %s the last one ended with: %s" % (nm, show_cut(q.init)))
        edited = o.step is not q.fin and root_of(o.step) in (q.fin, muo)
        c.add("sweep:to:" + nm, "OK" if o.step is q.fin else ("VIOLATION" if edited else "UNDETERMINED"), loc, "the %s a sweep ends with is kept: %s" % (nm, show_cut(o.step)))
    # the search stops only after a sweep without strict improvement
    oloc = "%s (%s:%s)" % (p, outer.span[0], outer.span[1]) if outer.span else w
    cur = mk("mu", outer.uid, osc.cell, osc.path)
    if outer.kind == "range":
        # the search goes through at most exponentially many sets, one improvement per sweep at worst
        hi = strip_idx(sub(outer.binders[0][2], outer.binders[0][1]))
        six = subst(hi, {mk("param", "#nodes"): num(6)})
        small = is_num(six) and six.args[1] < 16
        c.add("stop", "VIOLATION" if small else "UNDETERMINED", oloc, "the search must stop exactly when a whole sweep brought no strict improvement: it also stops after %s sweeps" % show_cut(hi))
    if len(outer.exits) == 1:
        t = outer.exits[0][1]
        used = [q for q in outer.leafs if q is not osc and mk("mu", outer.uid, q.cell, q.path) in subterms(t)]
        old = [q for q in used if q.step is cur]
        if len(old) == 1 and len(used) == 1:
            prev = mk("mu", outer.uid, old[0].cell, old[0].path)
            got = {o: order_eval(t, cur, prev, o) for o in (0, 1)}
            by = {d: subst(t, {cur: add(prev, num(Fraction(d)))}) for d in ("0", "1/1000", "1/10", "1", "1000")}
            if got == {0: TRUE, 1: FALSE}:
                c.ok("stop", oloc, "the search stops exactly when a whole sweep brought no strict improvement")
            else:
                wrong = all(x in (TRUE, FALSE) for x in got.values()) or any((by[d] is TRUE) if d != "0" else by[d] is FALSE for d in by)
                c.add("stop", "VIOLATION" if wrong else "UNDETERMINED", oloc,
                      "the search must stop exactly when a whole sweep brought no strict improvement: stops when %s" % show_cut(t))
        elif len(used) == 1 and order_eval(t, cur, mk("mu", outer.uid, used[0].cell, used[0].path), 0) is TRUE:
            q = used[0]
            m = {cur: P("#cur"), mk("mu", outer.uid, q.cell, q.path): P("#prev")}
            f, run = subst(q.step, m), Not(subst(t, m))
            r = c.separated(f, P("#cur"), run) if not dirty(f) else None
            c.add("stop", "VIOLATION" if r else "UNDETERMINED", oloc, "the score a sweep is compared with must be the one it started from: %s" % show_cut(q.step))
        else:
            c.undet("stop", oloc, "the condition to stop is %s" % show_cut(t))
    else:
        c.undet("stop", oloc, "%d exits" % len(outer.exits))


def root_of(t):
    while t.op in ("sins", "srem", "setminus") and t.args:
        t = t.args[0]
    return t


def order_eval(t, x, y, o):
    """value of the condition t when x - y has sign o"""
    m = {}
    d = sub(x, y)
    for a in atoms_of(t):
        if a.op in ("flt", "fle", "feq"):
            p = a.args[0]
            z = o if p is d else -o if p is neg(d) else None
            if z is not None:
                m[a] = boolc({"flt": z > 0, "fle": z >= 0, "feq": z == 0}[a.op])
    return subst(t, m) if m else t


def is_mu_only(a, L):
    return all(x.op != "unk" and x.op != "rec" for x in subterms(a))


def check_case(lits, v, S2, C2, mem, known, S, C, bp, is_score, selfc, has, mx, n, bad, desc, node):
    m2 = mem(S2, v)
    toggled = (m2 != v) if v is not None and m2 is not None else False
    # orderings of the toggled set's score relative to the running score allowed by the path
    order = {"lt", "eq", "gt"}
    compared = False
    for a, val in lits.items():
        if a.op not in ("flt", "fle", "feq"):
            continue
        d = poly_dict(a.args[0])
        sc = [(m, k) for m, k in d.items() if len(m) == 1 and is_score(m[0][0])]
        cc = [(m, k) for m, k in d.items() if len(m) == 1 and m[0][0] is C]
        if len(sc) == 1 and len(cc) == 1 and len(d) == 2 and sc[0][1] == -cc[0][1]:
            x = sc[0][0][0][0]
            arg = x.args[2][2]
            if not known(arg) or mem(arg, v) == v:
                continue
            compared = True
            sg = 1 if sc[0][1] > 0 else -1      # sign of (score - running)
            for o in list(order):
                z = {"lt": -1, "eq": 0, "gt": 1}[o] * sg
                tv = {"flt": z > 0, "fle": z >= 0, "feq": z == 0}[a.op]
                if tv != val:
                    order.discard(o)
            if x.args[2][1] is not node or x.args[2][3] is not P("dataset"):
                bad("args", "scored for %s on %s" % (show_cut(x.args[2][1]), show_cut(x.args[2][3])))
    if toggled:
        if not (is_score(C2) and known(C2.args[2][2]) and mem(C2.args[2][2], v) == m2):
            bad("score", "the running score is not that of the new set: " + desc)
        if "lt" in order:
            bad("worse", "a change is kept although it may score lower: " + desc)
        if v is False:
            lim = [(a, val) for a, val in lits.items() if a.op == "ge0" and size_bound(a, val, S, known, mem, v, mx, n, lits.get(has))]
            if lits.get(has) is not False and not lim:
                bad("size", "a parent is added without room for it: " + desc)
    else:
        if not (C2 is C or (is_score(C2) and known(C2.args[2][2]) and mem(C2.args[2][2], v) == v)):
            bad("score", "the running score is not that of the kept set: " + desc)
        if "gt" in order and not (v is False and any(a.op == "ge0" and full(a, val, S, known, mem, v, mx, n, lits.get(has)) for a, val in lits.items())):
            bad("missed", "a change that scores higher is not kept: " + desc)


def size_poly(a, S, known, mem, v, mx, n):
    """a is ge0(limit - 1 - len(S) + k): returns (limit term, k) or None"""
    d = dict(poly_dict(a.args[0]))
    k = d.pop((), Fraction(0))
    ln = [m for m in d if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "len" and known(m[0][0].args[0])]
    if len(ln) != 1 or len(d) != 2:
        return None
    e = ln[0][0][0].args[0]
    sg = d.pop(ln[0])
    me = mem(e, v) if v is not None else None
    off = 0 if (me == v or me is None) else (1 if me else -1)
    (m, kk), = d.items()
    if kk != -sg or len(m) != 1 or m[0][1] != 1:
        return None
    # sg*(len(S)+off) - sg*limit + k >= 0
    return m[0][0], sg, off, k


def size_bound(a, val, S, known, mem, v, mx, n, hasmax):
    r = size_poly(a, S, known, mem, v, mx, n)
    if r is None:
        return False
    lim, sg, off, k = r
    if lim is not unwrap(mx):
        return False
    # want: implies len(S) <= limit - 1
    if sg == -1:      # limit - len - off + k >= 0
        return val and (k - off) <= -1
    # len + off - limit + k >= 0 ; negated: len <= limit - off - k - 1
    return (not val) and (-off - k - 1) <= -1


def full(a, val, S, known, mem, v, mx, n, hasmax):
    """the literal says there is no room: len(S) >= limit"""
    r = size_poly(a, S, known, mem, v, mx, n)
    if r is None:
        return False
    lim, sg, off, k = r
    if hasmax is False and lim is n:
        return True
    if lim is not unwrap(mx):
        return False
    if sg == -1:      # not(limit - len - off + k >= 0): len >= limit - off + k + 1
        return (not val) and (k - off + 1) >= 0
    return val and (-off - k) >= 0


# ------------------------------------------------------------------ C23
def learnt_contract(c, who, s):
    """the contract of the learner's result: why it fails, or None"""
    if who == "CTPC":
        recv = {fld(NET, f["name"]): f["ty"] for f in adt_of(c, "CTPC")["variants"][0]["fields"] if re.search(r"\b(F|ChiSquare)$", f["ty"])}
        return C23_refuted(s, recv)
    return C20_refuted(s)


def C23_contract(c, s, w, recv):
    bad = C23_refuted(s, recv)
    if bad:
        c.viol("contract", w, "the candidates left by the tests are the parents learnt: %s" % bad)


def C23_refuted(s, recv):
    """the arcs learnt, for opaque tests and small networks"""
    import itertools
    ret = assume(s.ret, s.cond)

    def truth(seed, n, late):
        """answers of the two tests; `late`: only one node is hard, and only one separating element helps"""
        def ans(k, child, parent, sep):
            if late is not None:
                if child != late[0]:
                    return True
                return late[1] in sep and len(sep) >= late[2]
            h = interp.stable((seed, k, child, parent, tuple(sorted(sep))))
            p = (55, 75, 35, 90)[seed % 4] if k else 75
            if seed % 3 == 2:
                # most candidates stay: dense networks with arcs both ways
                p = (20, 35, 12, 90)[seed // 3 % 4] if k else 30
            return h % 100 < p
        return ans

    def runs():
        for seed in range(40 * interp.DEPTH):
            n = 2 + seed % 5
            late = None
            if seed % 10 == 7:
                n = 12
                late = (0, n - 1, 1)
            elif seed % 10 == 3:
                n = 7
                late = (seed % n, (seed + 3) % n, 4 + seed // 20)
            ans = truth(seed, n, late)
            net = interp.Net(n, {(i, (i + 1) % n) for i in range(n) if (seed >> i) & 1})
            bind = {P("net"): net}
            for k, r in enumerate(sorted(recv, key=str)):
                bind[r] = interp.Oracle(str(r), (lambda k: lambda c_, p_, s_: ans(k, c_, p_, frozenset(s_)))(k), (1, 2, 3))
            yield seed, (n, ans), bind

    def expect(m, na, bind):
        n, ans = na
        arcs = set()
        for ch in range(n):
            cand = [x for x in range(n) if x != ch]
            size = 0
            while size < len(cand):
                cand = [p for p in cand if not any(ans(0, ch, p, frozenset(S)) and ans(1, ch, p, frozenset(S)) for S in itertools.combinations([x for x in cand if x != p], size))]
                size += 1
            arcs |= {(p, ch) for p in cand}

        def differs(got):
            if not isinstance(got, interp.Net) or got.n != n:
                raise interp.Unsupported("network")
            if got.arcs != arcs:
                return "%d nodes: learns the arcs %s where the tests leave %s" % (n, sorted(got.arcs), sorted(arcs))
            return None
        return differs

    return refute([ret], runs(), expect, lambda m: m.ev(ret, {}))


def C23(c):
    ft = tests_path(c)
    p, s, w = learner(c, "CTPC", ft)
    recv = {fld(NET, f["name"]): f["ty"] for f in adt_of(c, "CTPC")["variants"][0]["fields"] if re.search(r"\b(F|ChiSquare)$", f["ty"])}
    c.guard("contract", lambda: C23_contract(c, s, w, recv))
    evs = [e for e in s.events if e.kind == "call" and e.name == "call" and e.args and e.args[0] in recv]
    by = {}
    for e in evs:
        by.setdefault(e.args[0], []).append(e)
    for r in recv:
        if r not in by:
            c.add("both-tests:" + str(r), "VIOLATION" if not s.unknown and not any(e.kind == "par" and any(t[0] == "map" for t in ()) for e in s.events) else "UNDETERMINED", w, "the %s test is never consulted" % recv[r].split("::")[-1])
    if len(by) != len(recv) or any(len(v) != 1 for v in by.values()) or len(recv) != 2:
        return c.undet("shape", w, "%d test calls" % len(evs))
    e1, e2 = sorted([v[0] for v in by.values()], key=lambda e: e.cond is not TRUE)
    loc = "%s (%s:%s)" % (p, e1.span[0], e1.span[1])
    names = ("net", "child", "parent", "separation set", "dataset")
    for i, nm in enumerate(names, 1):
        if e1.args[i] is not e2.args[i]:
            c.add("same:" + nm, "UNDETERMINED" if dirty(e1.args[i], ()) and e1.args[i].op not in ("at", "comp") else "VIOLATION", loc, "the two tests disagree on the %s: %s, %s" % (nm, show_cut(e1.args[i]), show_cut(e2.args[i])))
        else:
            c.ok("same:" + nm, loc, "both tests are asked about the same " + nm)
    if len(e1.loops) < 3 or [l.uid for l in e1.loops] != [l.uid for l in e2.loops]:
        return c.undet("loops", loc, "the tests are called in %d loops" % len(e1.loops))
    lnode, lsize = e1.loops[0], e1.loops[-3]
    lpar, lsep = e1.loops[-2], e1.loops[-1]
    L = loops_by_mu(s)
    # the level loop: candidate set and separation set size
    if lsize.kind in ("seq", "range") and lpar.binders and lsep.binders and len(lsize.binders or ()) == 1 and lsize.filt is TRUE and is_num(lsize.binders[0][2]):
        return c.viol("levels", loc, "separation sets grow up to a fixed size only: levels %s..%s" % tuple(lsize.binders[0][1:]))
    if lsize.kind != "while" or not lpar.binders or not lsep.binders:
        return c.undet("levels", loc, "no level loop around the sweep over candidates")
    leafs = [q for q in lsize.leafs]
    muof = lambda l, q: mk("mu", l.uid, q.cell, q.path)
    par = e1.args[3]
    if par.op != "at" or par.args[1] != (lpar.binders[0][0],):
        return c.undet("parent", loc, "the parent tested is %s" % show_cut(par))
    cand = par.args[0]
    qc = [q for q in leafs if muof(lsize, q) is cand]
    if len(qc) != 1:
        tgt = [muof(l, q) for l in s.loops for q in l.leafs]
        return c.add("frozen", "UNDETERMINED", loc, "the parents tested come from %s" % show_cut(cand))
    qc = qc[0]
    b, lo, hi = lpar.binders[0]
    c.add("all-candidates", "OK" if lo is ZERO and hi is mk("len", cand, 0) and lpar.filt is TRUE and not lpar.exits else "UNDETERMINED" if lpar.filt is not TRUE or hi.op not in ("poly", "len", "const") else "VIOLATION", loc, "every candidate of the level is tested: %s..%s" % (show_cut(lo), show_cut(hi)))
    # initial candidates: all nodes but the child
    child = e1.args[2]
    init = qc.init
    if init.op == "comp" and init.args[5] == "set":
        z = fresh_bv("idx")
        el = strip_idx(subst(init.args[4], {mk("b", init.args[0]): z}))
        fl = strip_idx(subst(init.args[3], {mk("b", init.args[0]): z}))
        okc = el is z and strip_idx(init.args[2]) is mk("param", "#nodes") and init.args[1] is ZERO and fl is Not(ieq(z, strip_idx(child)))
        c.add("start", "OK" if okc else ("UNDETERMINED" if dirty(fl) or dirty(el) else "VIOLATION"), loc, "the candidates start as all other nodes: %s if %s" % (show_cut(el), show_cut(fl)))
    elif init.op == "srem" and init.args[0].op == "comp":
        z = fresh_bv("idx")
        i0 = init.args[0]
        el = strip_idx(subst(i0.args[4], {mk("b", i0.args[0]): z}))
        okc = el is z and strip_idx(i0.args[2]) is mk("param", "#nodes") and i0.args[1] is ZERO and i0.args[3] is TRUE and strip_idx(init.args[1]) is strip_idx(child)
        c.add("start", "OK" if okc else "UNDETERMINED", loc, "the candidates start as all other nodes: %s" % show_cut(init))
    else:
        c.undet("start", loc, "the candidates start as %s" % show_cut(init))
    # separation sets
    sep = e1.args[4]
    combos = [x for x in subterms(sep) if x.op == "combo"]
    bs = lsep.binders[0][0]
    if len(combos) != 1:
        c.undet("separation", loc, "separation sets are not the combinations of a collection: %s" % show_cut(sep))
    else:
        src, size, k = combos[0].args[:3]
        x, y = fresh_bv("idx"), fresh_bv("idx")
        full = sep.op == "comp" and sep.args[5] == "set" and sep.args[3] is TRUE and subst(sep.args[4], {mk("b", sep.args[0]): x}) is at(combos[0], (x,)) and sep.args[1] is ZERO and sep.args[2] is mk("len", combos[0], 0)
        if not full:
            c.add("separation", "UNDETERMINED", loc, "the separation set is not a whole combination: %s" % show_cut(sep))
        else:
            h0 = lsep.binders[0][2]
            part = lsep.binders[0][1] is ZERO and lsep.filt is TRUE and h0.op == "min" and any(is_num(x) for x in h0.args) and any(x.op == "ncomb" for x in h0.args)
            c.add("separation", "VIOLATION" if part else "OK" if k is bs and lsep.binders[0][1] is ZERO and lsep.binders[0][2].op == "ncomb" and lsep.binders[0][2].args[:2] == (src, size) and lsep.filt is TRUE else "UNDETERMINED", loc, "every combination of the level's size is tried")
        early = [muof(lpar, q) for q in lpar.leafs if q.init is cand]
        if any(x in early or x.op == "broke" and x.args[0] == lsep.uid for x in subterms(src)):
            c.viol("separation:from", loc, "separation sets are drawn from a set that the same level already shrinks: %s" % show_cut(src))
        elif src.op == "comp":
            f_ = subst(src.args[3], {mk("b", src.args[0]): x})
            el = subst(src.args[4], {mk("b", src.args[0]): x})
            okk = src.args[2] is mk("len", cand, 0) and src.args[1] is ZERO and el is at(cand, (x,)) and f_ is Not(ieq(at(cand, (x,)), par))
            c.add("separation:from", "OK" if okk else ("UNDETERMINED" if set(dirty(f_)) - {"mu"} or set(dirty(el)) - {"mu"} else "VIOLATION"), loc, "separation sets are drawn from the current candidates without the tested parent: %s if %s" % (show_cut(el), show_cut(f_)))
        elif src is cand or (src.op in ("setminus", "srem") and src.args[0] is cand):
            okk = src.op == "srem" and src.args[1] is par
            c.add("separation:from", "OK" if okk else ("VIOLATION" if src is cand else "UNDETERMINED"), loc, "separation sets are drawn from %s" % show_cut(src))
        elif src.op == "asarr" and src.args[0] is cand:
            c.viol("separation:from", loc, "separation sets may contain the tested parent itself: drawn from %s" % show_cut(src))
        else:
            c.undet("separation:from", loc, "separation sets are drawn from %s" % show_cut(src))
        # level size
        def counts(q):
            """the size is this counter of the level loop: init + k * iteration"""
            if muof(lsize, q) is size:
                return True
            k = sub(q.step, muof(lsize, q)) if is_numlike(q.step) else None
            return k is not None and is_num(k) and is_num(q.init) and size is add(q.init, mul(k, lsize.binders[0][0]))

        qs = [q for q in leafs if counts(q)]
        if len(qs) != 1:
            c.undet("levels", loc, "the size of the separation sets is %s" % show_cut(size))
        else:
            q = qs[0]
            okk = q.init is ZERO and q.step is add(muof(lsize, q), ONE)
            c.add("levels", "OK" if okk else ("VIOLATION" if is_num(q.init) and not set(dirty(q.step)) - {"mu"} else "UNDETERMINED"), loc, "separation sets grow from the empty set by one element per level: from %s, then %s" % (show_cut(q.init), show_cut(q.step)))
            if len(lsize.exits) == 1:
                t = lsize.exits[0][1]
                want = Not(ilt(size, mk("len", cand, 0)))
                # sizes larger than the candidates admit no separation set: stopping one level early or late is harmless
                n_ = mk("len", cand, 0)
                alt = [want, Not(ile(size, n_)), Not(ilt(size, sub(n_, ZERO))), Not(ilt(add(size, ONE), add(n_, ONE)))]
                good = t in alt
                lits = [a for a in atoms_of(t)]
                early = len(lits) == 1 and lits[0].op == "ge0" and set(x for x in lits[0].fv) <= set(size.fv | cand.fv) and all(m == () or (len(m) == 1 and m[0][0] in (size, n_)) for m in poly_dict(lits[0].args[0]))
                c.add("all-levels", "OK" if good else ("VIOLATION" if early and stops_early(t, size, n_) else "UNDETERMINED"), loc, "levels go on while a separation set of the size can exist: stops when %s" % show_cut(t))
            else:
                fin = [x.fin for x in lpar.leafs if x.init is cand]
                m = {size: P("#size"), cand: P("#before")}
                m.update({f: P("#after") for f in fin})
                more = And(ge0(P("#size")), Not(ile(mk("len", P("#after"), 0), add(P("#size"), ONE))))
                for x in lsize.exits:
                    t = subst(x[1], m)
                    if t is FALSE or P("#after") not in subterms(t) or dirty(t):
                        continue
                    if c.separated(And(t, more), FALSE):
                        c.viol("all-levels", loc, "levels stop although a separation set of the next size can exist: when %s" % show_cut(x[1]))
                        break
                else:
                    c.undet("all-levels", loc, "%d exits" % len(lsize.exits))
    # decision: both tests must accept
    r1 = is_test(e1)
    if lsep.exits:
        t = Or(*[x[1] for x in lsep.exits])
        ats = {x for x in atoms_of(t) if x.op == "call!" and x.args[0] == "call"}
        a1 = [x for x in ats if x.args[1][0] is e1.args[0]]
        a2 = [x for x in ats if x.args[1][0] is e2.args[0]]
        tab = {}
        for v1 in (True, False):
            for v2 in (True, False):
                tab[v1, v2] = with_lits(t, [(x, v1) for x in a1] + [(x, v2) for x in a2])
        want = {(True, True): TRUE, (True, False): FALSE, (False, True): FALSE, (False, False): FALSE}
        c.add("decision", "OK" if tab == want else ("VIOLATION" if all(x in (TRUE, FALSE) for x in tab.values()) else "UNDETERMINED"), loc, "a separation set separates exactly when both tests accept independence: %s" % {k: show_cut(v, 60) for k, v in tab.items()})
    else:
        c.undet("decision", loc, "%d ways to leave the search for a separation set" % len(lsep.exits))
    # removal: exactly the separated parent, deferred to the end of the level
    qr = [q for q in lpar.leafs if q.init is cand]
    if len(qr) == 1:
        q = qr[0]
        m = muof(lpar, q)
        br = ([x for x in subterms(q.step) if x.op == "broke" and x.args[0] == lsep.uid] or [mk("broke", lsep.uid)])[0]
        want = ite(br, mk("srem", m, par), m)
        rec_ok = q.step is want
        badshape = q.step in (ite(br, m, mk("srem", m, par)), m, mk("srem", m, par)) or (q.step.op == "ite" and q.step.args[0] is br and q.step.args[2] is m and q.step.args[1].op == "srem" and par not in subterms(q.step.args[1].args[1]) and not {"unk", "rec", "unkmut"} & set(dirty(q.step.args[1].args[1])))
        c.add("removal", "OK" if rec_ok else ("VIOLATION" if badshape else "UNDETERMINED"), loc, "exactly the candidates separated at this level are removed: %s" % show_cut(q.step))
        c.add("removal:deferred", "OK" if qc.step is q.fin else "UNDETERMINED", loc, "removals take effect at the end of the level")
    else:
        c.undet("removal", loc, "the candidates of the next level are not built from the current ones")
    # every child starts from an empty cache
    cq = [q for q in lsize.leafs if q.init.op == "adt" and q.init.args[0].split("::")[-1].startswith("Cache")]
    for q in cq:
        bad = [x for x in q.init.args[3] if x.op not in ("emptymap", "fld", "const", "num")]
        c.add("cache", "OK" if not bad else "UNDETERMINED", loc, "the cache of fitted parameters starts empty for every child")
    if not cq:
        root = e1.args[6]
        seen = 0
        while root.op == "mu" and root.args[0] in L and seen < 8:
            q = [x for x in L[root.args[0]].leafs if muof(L[root.args[0]], x) is root]
            root, seen = (q[0].init if q else mk("unk", "x")), seen + 1
        c.add("cache", "VIOLATION" if root.op == "adt" and lnode.uid not in (root.args[3] and [lnode.uid]) and seen >= len(e1.loops) else "UNDETERMINED", loc, "the cache must start empty for every child, since entries do not name the child: %s" % show_cut(root))


def is_test(e):
    return e.res


def stops_early(t, size, n):
    """does the condition hold for some size <= n - 1?"""
    for nv in range(1, 5):
        for sv in range(0, nv):
            if subst(t, {size: num(sv), n: num(nv)}) is TRUE:
                return True
    return False
