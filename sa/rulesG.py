"""Rules: amalgamation, contracts of the process types, error discipline."""
from rulesF import *
from engine import eq_atoms


# ------------------------------------------------------------------ C24
def C24(c):
    p = c.find("CtbnNetwork", "amalgamation")
    inv = shape_inv(NET)

    def run():
        s = c.sm(p, names=("self",))
        w = c.where(p)
        ps = fld(s.ret, "param")
        if any(l.op == "adt" and l.args[1] == "None" for l in leafset(ps)):
            c.add("process", "VIOLATION" if not dirty(ps) else "UNDETERMINED", w, "the amalgamated process has its one node: %s" % show_cut(ps))
            return
        c.ok("process", w, "the amalgamated process has its one node")
        node = payload(unwrap(ps))
        dom, cim = fld(node, "domain"), fld(node, "cim")
        # tables reached when the checked setter accepts (a refusal panics)
        tabs = {l.args[3][0] for l in leafset(cim) if l.op == "adt" and l.args[1] == "Some"}
        if len(tabs) != 1:
            return c.add("table", "VIOLATION" if not tabs and not dirty(cim) else "UNDETERMINED", w, "%d tables stored: %s" % (len(tabs), show_cut(cim, 200)))
        M = rewrite(tabs.pop(), inv)
        dom = rewrite(dom, inv)
        n = mk("len", fld(NET, "nodes"), 0)
        card = lambda i: card_of(NET, i)
        z = fresh_bv("idx")
        S = close_prod(z, ZERO, n, card(z))
        for k, want, d in ((0, ONE, "a process without parents has one configuration"), (1, S, "one row per joint state"), (2, S, "one column per joint state")):
            c.equal("shape:%d" % k, w, length(M, k), want, d)
        # one label per joint state
        if dom.op == "comp" and len(dom.args) == 6 and dom.args[5] == "set":
            k, lo, hi, f, e, _ = dom.args
            inj = e.op == "str" and e.args[0] == "to_string" and e.args[1] == (mk("b", k),)
            good = lo is ZERO and hi is S and f is TRUE and inj
            short = not dirty(hi) and inj and f is TRUE and c.separated(sub(hi, lo), S)
            c.add("domain", "OK" if good else "VIOLATION" if short else "UNDETERMINED", w, "one label per joint state: %s" % show_cut(dom))
        else:
            c.undet("domain", w, "labels are %s" % show_cut(dom))
        a, b = fresh_bv("idx"), fresh_bv("idx")
        el = at(M, (ZERO, a, b))
        d_ = set(dirty(el))
        if d_:
            d_ |= dirty_eq(el)
        if d_ - set(interp.LOOPOPS):
            return c.undet("entries", w, "the table is not in closed form (%s)" % ",".join(d_))
        inb = And(And(ge0(a), ilt(a, S)), And(ge0(b), ilt(b, S)))

        def pre(i):
            j = fresh_bv("idx")
            return close_prod(j, ZERO, i, card(j))

        digit = lambda x, i: irem(idiv(x, pre(i)), card(i))
        A = adj(NET)
        isp = lambda x, i: ge0(sub(at(A, (x, i)), ONE))

        def conf(i):
            j, k = fresh_bv("idx"), fresh_bv("idx")
            pr = close_prod(k, ZERO, j, ite(isp(k, i), card(k), ONE))
            return close_sum(j, ZERO, n, ite(isp(j, i), mul(digit(a, j), pr), ZERO))

        def target(i, v):
            j = fresh_bv("idx")
            return close_sum(j, ZERO, n, ite(ieq(j, i), mul(v, pre(j)), mul(digit(a, j), pre(j))))

        cimof = lambda i: unwrap(fld(payload(at(fld(NET, "nodes"), (i,))), "cim"))
        i, v = fresh_bv("idx"), fresh_bv("idx")
        entry = lambda i, v: at(cimof(i), (conf(i), digit(a, i), v))
        ref = close_sum(i, ZERO, n, close_sum(v, ZERO, card(i), ite(ieq(b, target(i, v)), entry(i, v), ZERO)))
        el = assume(el, inb)
        doc = "the intensity from one joint state to another is the sum, over the nodes and their states, of the node's own intensity under the first joint state, whenever changing that node alone yields the second"

        def collapse(t):
            """sum over x in lo..hi of [x == j] f(x) with j in range"""
            def f(x):
                if x.op == "sum":
                    k, lo, hi, body = x.args
                    q = fresh_bv("idx")
                    bd = rw(subst(body, {mk("b", k): q}), f)
                    for at_ in sorted(eq_atoms(bd)):
                        j = solve_eq(at_, q)
                        if j in (a, b) and restrict1(bd, at_, False) is ZERO and lo is ZERO and hi is S:
                            return subst(restrict1(bd, at_, True), {q: j})
                return None
            return rw(t, f)

        if not d_:
            el = rw(collapse(el), lambda x: None)
        if el is ref:
            return c.ok("entries", w, doc)
        # tables that pass validation: rows sum to zero
        E = lambda i, u, x, y: tmax(ZERO, sub(at(P("rate"), (i, u, x, y)), num(Fraction(5, 4))))

        def valid(x):
            if x.op == "at" and len(x.args[1]) == 3 and x.args[0].op == "vfld" and x.args[0].args[0].op == "fld" and x.args[0].args[0].args[1] == "cim":
                q = x.args[0].args[0].args[0]
                nd = q.args[0] if q.op == "vfld" else q
                if nd.op == "at" and nd.args[0] is fld(NET, "nodes"):
                    i = rw(nd.args[1][0], valid)
                    u, x_, y_ = [rw(t, valid) for t in x.args[1]]
                    k = fresh_bv("idx")
                    tot = close_sum(k, ZERO, card(i), ite(ieq(k, x_), ZERO, E(i, u, x_, k)))
                    return ite(ieq(x_, y_), neg(tot), E(i, u, x_, y_))
            return None

        if c.separated(rw(el, valid), rw(ref, valid), inb):
            c.viol("entries", w, "%s: found %s" % (doc, show_cut(el)))
        else:
            c.undet("entries", w, "%s: a different normal form that no interpretation separates from the required one" % doc)

    c.guard("amalgamation", run)


# ------------------------------------------------------------------ C30
def C30(c):
    ty, tr = "CtmpProcess", "NetworkProcess"
    ME = P("self")
    has = isSome(fld(ME, "param"))

    def m(name, *names):
        p = c.find(ty, name, tr)
        return c.sm(p, names=("self",) + names), c.where(p)

    def new():
        p = c.find(ty, "new")
        s = c.sm(p)
        c.equal("new", c.where(p), isSome(fld(s.ret, "param")), FALSE, "a new process has no node")

    def insert():
        s, w = m("add_node", "n")
        c.equal("insert:returns", w, s.cond, TRUE, "an insertion is always answered")
        out = s.out.get("self", ME)
        first, later = assume(s.ret, Not(has)), assume(s.ret, has)
        c.equal("insert:first", w, first, adt_ok(ZERO), "the first node becomes node 0")
        op = fld(out, "param")
        c.equal("insert:first:stored", w, assume(op, Not(has)), some_(P("n")), "the node stored is the one given", given=Not(has))
        c.leaves("insert:later", w, later, lambda l: l.op == "adt" and l.args[1] == "Err", "any further node is refused with an error")
        c.equal("insert:later:kept", w, assume(op, has), fld(ME, "param"), "a refused insertion leaves the process as it was", given=has)

    def counts():
        for nm, h in (("empty", False), ("filled", True)):
            s, w = m("get_number_of_nodes")
            k = num(1 if h else 0)
            c.equal("count:" + nm, w, with_lits(assume(s.ret, s.cond), [(has, h)]), k, "number of nodes of an %s process" % nm, given=And(s.cond, has if h else Not(has)))
            s, w = m("get_node_indices")
            r = with_lits(s.ret, [(has, h)])
            c.equal("indices:" + nm, w, tmax(ZERO, sub(fld(r, "end"), fld(r, "start"))), k, "number of node indices of an %s process" % nm)
            if h:
                c.equal("indices:first", w, fld(r, "start"), ZERO, "the only index is 0")

    def node():
        s, w = m("get_node", "node")
        z = {P("node"): ZERO}
        c.equal("node:0", w, with_lits(subst(s.ret, z), [(has, True)]), unwrap(fld(ME, "param")), "node 0 is the node stored", given=has)
        c.equal("node:0:returns", w, with_lits(subst(s.cond, z), [(has, True)]), TRUE, "node 0 is always available", given=has)
        other(s, w, "node")
        s, w = m("get_node_mut", "node")
        other(s, w, "node-mut")

    def other(s, w, key):
        one = {P("node"): add(P("k"), ONE)}
        c.equal(key + ":other", w, with_lits(assume(subst(s.cond, one), ge0(P("k"))), [(has, True)]), FALSE, "asking for any other node never succeeds", given=And(has, ge0(P("k"))))

    def relatives():
        for nm in ("get_parent_set", "get_children_set"):
            s, w = m(nm, "node")
            z = {P("node"): ZERO}
            c.equal(nm, w, length(with_lits(subst(s.ret, z), [(has, True)]), 0), ZERO, "the node has no relatives", given=has)
            c.equal(nm + ":returns", w, with_lits(subst(s.cond, z), [(has, True)]), TRUE, "the question about node 0 is answered", given=has)
            other(s, w, nm)

    def arcs():
        s, w = m("add_edge", "parent", "child")
        c.equal("arcs", w, s.cond, FALSE, "adding an arc never succeeds")

    for nm, f in (("new", new), ("insert", insert), ("counts", counts), ("node", node), ("relatives", relatives), ("arcs", arcs)):
        c.guard(nm, f)


def adt_ok(x):
    return mk_res("Ok", x)


def mk_res(v, x):
    import lib
    return lib.ok(x)


def some_(x):
    import lib
    return lib.some(x)


# ------------------------------------------------------------------ C31
def C31(c):
    has = isSome(fld(P("self"), "cim"))

    def err_kind(l):
        if l.op != "adt" or l.args[1] != "Err":
            return None
        ks = {x.args[1] if x.op == "adt" else "?" for _, x in leaves(l.args[3][0]) if x is not BOT}
        return ks.pop() if len(ks) == 1 else "?"

    def reachable(cond):
        return interp.satisfiable(cond) not in (None, False) or any(interp.witness(cond, {P("self"): nd}) is True for _, _, _, _, nd in C07_nodes())

    def kinds(key, w, t, want, detail):
        wrong, und = [], []
        for path, l in paths(t):
            if l is BOT or (l.op == "adt" and l.args[1] == "Ok"):
                continue
            if l.op != "adt" or l.args[1] != "Err":
                und.append(l)
                continue
            for sub_path, x in paths(l.args[3][0]):
                if x is BOT or (x.op == "adt" and x.args[1] == want):
                    continue
                (wrong if x.op == "adt" and reachable(conj(list(path) + list(sub_path))) else und).append(x)
        if wrong:
            return c.viol(key, w, "%s: %s" % (detail, show_cut(wrong[0], 120)))
        if und:
            return c.undet(key, w, "%s: %s" % (detail, show_cut(und[0], 200)))
        c.ok(key, w, detail)

    def absent(name, *names):
        p = c.find(DSP, name, "ParamsTrait")
        s = c.sm(p, names=("self",) + names)
        w = c.where(p)
        t = assume(s.ret, Not(has))
        c.leaves(name + ":absent", w, t, lambda l: err_kind(l) == "ParametersNotInitialized", "absent parameters are reported as such")
        c.equal(name + ":answers", w, assume(s.cond, Not(has)), TRUE, "absent parameters never stop the program", given=Not(has))
        return s, w, assume(s.ret, has)

    def validate():
        s, w, t = absent("validate_params")
        kinds("validate_params:present", w, t, "InvalidCIM", "a malformed table is reported as such")

    def draw():
        for nm, names in (("get_random_residence_time", ("state", "u", "rng")), ("get_random_state", ("state", "u", "rng"))):
            s, w, t = absent(nm, *names)

    def setter():
        p = c.find(DSP, "set_cim")
        s = c.sm(p, names=("self", "cim"))
        w = c.where(p)
        kinds("set_cim", w, s.ret, "InvalidCIM", "a refused table is reported as malformed")
        c.equal("set_cim:answers", w, s.cond, TRUE, "a malformed table never stops the program")

    def insert():
        for ty in ("CtbnNetwork", "CtmpProcess"):
            p = c.find(ty, "add_node", "NetworkProcess")
            s = c.sm(p, names=("self", "n"))
            c.leaves("add_node:" + ty, c.where(p), s.ret, lambda l: l.op == "adt" and (l.args[1] == "Ok" or err_kind(l) == "NodeInsertionError"), "a refused node is reported as such")

    c.guard("validate", validate)
    c.guard("draw", draw)
    c.guard("setter", setter)
    c.guard("insert", insert)
