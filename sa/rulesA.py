"""Rules: network structure, configuration index, CIM validation, forward sampler."""
from core import *

DS = "DiscreteStatesContinousTimeParams"
PV = "DiscreteStatesContinousTime"
PARAM_FIELDS = ("cim", "transitions", "residence_time")
NET = P("self")


def payload(node):
    return vfld(node, PV, 0)


def adj(net):
    return unwrap(fld(net, "adj_matrix"))


def shape_inv(net):
    """type invariant of CtbnNetwork: the adjacency matrix is square with one row per node"""
    n = mk("len", fld(net, "nodes"), 0)
    a = adj(net)
    return {mk("len", a, 0): n, mk("len", a, 1): n}


# ------------------------------------------------------------------ generic proving
def prove(t, decide, wit=(), depth=0):
    """simplify a decision diagram: `decide(atom)` -> True/False/None; quantifiers are proved true by a witness
    and false by a generic element"""
    memo = {}

    def go(t):
        if t in memo:
            return memo[t]
        a = decision(t)
        if a is None:
            r = t
        else:
            th, el = branches(t)
            v = dec(a)
            if v is not None:
                r = go(th if v else el)
            else:
                tt, ee = go(th), go(el)
                r = tt if tt is ee else ite(a, tt, ee)
        memo[t] = r
        return r

    def dec(a):
        v = decide(a)
        if v is not None:
            return v
        if a.op == "exists" and depth < 6:
            k, lo, hi, b = a.args
            for w in wit:
                if prove(And(in_range(w, lo, hi), subst(b, {mk("b", k): w})), decide, wit, depth + 1) is TRUE:
                    return True
            x = fresh_bv("idx")
            if prove(split_eq(subst(b, {mk("b", k): x}), x), decide, wit, depth + 1) is FALSE:
                return False
        return None

    return go(t)


def split_eq(b, x):
    """in the true branch of an equation x == e use e"""
    return b


def eq_decider(pairs_distinct=(), inrange=True):
    d = set()
    for x, y in pairs_distinct:
        d.add((x, y))
        d.add((y, x))

    def f(a):
        if a.op == "eq0":
            for x, y in d:
                if ieq(x, y) is a:
                    return False
        return None

    return f


# ------------------------------------------------------------------ C01
def C01(c):
    p_edge = c.find("CtbnNetwork", "add_edge")
    p_init = c.find("CtbnNetwork", "initialize_adj_matrix")
    p_add = c.find("CtbnNetwork", "add_node")
    p_reset = c.find(DS, "reset_params")

    def fields_after(c_key, where, node_new, node_old, want, label):
        new, old = payload(node_new), payload(node_old)
        for f in PARAM_FIELDS:
            v = fld(new, f)
            if want == "none":
                c.leaves("%s:%s" % (c_key, f), where, v, lambda l: l is NONE, "%s: the node's %s must be discarded" % (label, f))
            else:
                c.equal("%s:%s" % (c_key, f), where, v, fld(old, f), "%s: the node's %s must be kept" % (label, f))
        for f in ("label", "domain"):
            c.equal("%s:%s" % (c_key, f), where, fld(new, f), fld(old, f), "%s: %s must be kept" % (label, f))

    def edge():
        s = c.sm(p_edge, names=("self", "parent", "child"))
        w = c.where(p_edge)
        out = s.out["self"]
        pa, ch, k = P("parent"), P("child"), sym()
        nodes, old = fld(out, "nodes"), fld(NET, "nodes")
        has = isSome(fld(NET, "adj_matrix"))
        edge0 = at(adj(NET), (pa, ch))
        for nm, lits, m in (("no-adjacency", [(has, False)], {}), ("new-edge", [(has, True)], {edge0: ZERO})):
            t = with_lits(subst(at(nodes, (ch,)), m), lits)
            fields_after("add_edge:%s:child" % nm, w, t, at(old, (ch,)), "none", "new arc, child")
        # nodes other than the child: unchanged, unless the adjacency matrix is being (re)created
        t = with_lits(at(nodes, (k,)), [(has, True)])
        t = prove(t, eq_decider([(k, ch)]))
        fields_after("add_edge:other", w, t, at(old, (k,)), "keep", "node that is not the child")

    def init():
        s = c.sm(p_init, names=("self",))
        w = c.where(p_init)
        reset_rules("initialize", w, fld(s.out["self"], "nodes"))

    def reset_rules(tag, w, nodes):
        old = fld(NET, "nodes")
        has = isSome(fld(NET, "adj_matrix"))
        k, u = sym(), sym()
        A = adj(NET)
        one = at(A, (u, k))
        n = mk("len", old, 0)

        def dec(a):
            if a.op == "ge0" or a.op == "eq0":
                if a is ieq(k, n) or a is ge0(sub(k, n)):
                    return False
                if a is ge0(sub(sub(n, k), ONE)) or a is ge0(sub(sub(n, u), ONE)):
                    return True
                if a is ge0(sub(u, n)):
                    return False
                b = subst(a, {one: ONE})
                if b in (TRUE, FALSE):
                    return b is TRUE
            return None

        t = with_lits(at(nodes, (k,)), [(has, True)])
        t = rewrite(t, shape_inv(NET))
        tp = prove(t, dec, wit=(u,))
        fields_after(tag + ":with-parents", w, tp, at(old, (k,)), "none", "node that had a parent")

        def dec0(a):
            m = {x: ZERO for x in subterms(a) if x.op == "at" and x.args[0] is A and x.args[1][1] is k}
            if a.op in ("ge0", "eq0"):
                if a is ieq(k, n):
                    return False
                b = subst(a, m)
                if b in (TRUE, FALSE):
                    return b is TRUE
            return None

        fields_after(tag + ":without-parents", w, prove(t, dec0), at(old, (k,)), "keep", "node without parents")

    def add():
        s = c.sm(p_add, names=("self", "n"))
        w = c.where(p_add)
        out = s.out["self"]
        nodes = fld(out, "nodes")
        n = mk("len", fld(NET, "nodes"), 0)
        okc = isv(s.ret, "Ok", ("Ok", "Err"))
        t = assume(at(nodes, (n,)), okc)
        fields_after("add_node:new", w, t, P("n"), "none", "inserted node")
        c.leaves("add_node:adjacency", w, fld(out, "adj_matrix"), lambda l: l is NONE, "the adjacency of the smaller network must not survive")
        reset_rules("add_node", w, nodes)

    def rst():
        s = c.sm(p_reset, names=("self",))
        for f in PARAM_FIELDS:
            c.leaves("reset:" + f, c.where(p_reset), fld(s.out["self"], f), lambda l: l is NONE, "reset must clear " + f)
        for f in ("label", "domain"):
            c.equal("reset:" + f, c.where(p_reset), fld(s.out["self"], f), fld(NET, f), "reset must keep " + f)

    c.guard("reset", rst)
    c.guard("add_edge", edge)
    c.guard("initialize", init)
    c.guard("add_node", add)


# ------------------------------------------------------------------ C02
def member(t, i):
    """membership condition of i in a set term"""
    def f(l):
        if l.op == "comp":
            k, lo, hi, filt, elem, kind = l.args
            if elem is mk("b", k):
                return And(in_range(i, lo, hi), subst(filt, {mk("b", k): i}))
            x = fresh_bv("idx")
            return close_exists(x, lo, hi, And(subst(filt, {mk("b", k): x}), ieq(subst(elem, {mk("b", k): x}), i)))
        if l.op in ("emptyset", "emptyvec"):
            return FALSE
        if l.op == "sins":
            return Or(member(l.args[0], i), ieq(l.args[1], i))
        if l.op == "srem":
            return And(member(l.args[0], i), Not(ieq(l.args[1], i)))
        return mk("in", i, l)
    return lift(f, t)


def C02(c):
    pp = c.find("CtbnNetwork", "get_parent_set")
    pc = c.find("CtbnNetwork", "get_children_set")
    pe = c.find("CtbnNetwork", "add_edge")
    pi = c.find("CtbnNetwork", "initialize_adj_matrix")
    inv = shape_inv(NET)
    n = mk("len", fld(NET, "nodes"), 0)

    def views():
        sp, sc = c.sm(pp, names=("self", "node")), c.sm(pc, names=("self", "node"))
        A = adj(NET)
        x, y = sym(), sym()
        rng = lambda t: prove(rewrite(t, inv), lambda a: True if a in (ge0(sub(sub(n, x), ONE)), ge0(sub(sub(n, y), ONE))) else (False if a in (ge0(sub(x, n)), ge0(sub(y, n))) else None))
        mp = rng(member(subst(sp.ret, {P("node"): y}), x))
        mc = rng(member(subst(sc.ret, {P("node"): x}), y))
        cell = at(A, (x, y))
        here = And(And(ile(ZERO, x), ilt(x, n)), And(ile(ZERO, y), ilt(y, n)))
        c.equal("agree", c.where(pp) + " / " + c.where(pc), mp, mc, "x is a parent of y exactly when y is a child of x", given=here)
        for v, nm in ((ZERO, "absent"), (ONE, "present")):
            want = boolc(v is ONE)
            c.equal("parents:" + nm, c.where(pp), subst(mp, {cell: v}), want, "membership of an %s arc in the parents" % nm, given=And(here, ieq(cell, v)))
            c.equal("children:" + nm, c.where(pc), subst(mc, {cell: v}), want, "membership of an %s arc in the children" % nm, given=And(here, ieq(cell, v)))

    def edge():
        s = c.sm(pe, names=("self", "parent", "child"))
        w = c.where(pe)
        A2 = adj(s.out["self"])
        has = isSome(fld(NET, "adj_matrix"))
        x, y, pa, ch = sym(), sym(), P("parent"), P("child")
        c.leaves("edge:some", w, isSome(fld(s.out["self"], "adj_matrix")), lambda l: l is TRUE, "the network must hold an adjacency matrix afterwards")
        for nm, h in (("existing", True), ("fresh", False)):
            t = with_lits(at(A2, (pa, ch)), [(has, h)])
            bad = Not(ge0(sub(t, ONE)))
            if not dirty(bad) and not all(is_num(l) for _, l in paths(t)) and interp.satisfiable(bad) is False:
                c.undet("edge:%s:set" % nm, w, "no interpretation leaves the arc out")
            else:
                c.leaves("edge:%s:set" % nm, w, t, lambda l: is_num(l) and l.args[1] > 0, "the arc parent->child must be recorded")
            o = with_lits(at(A2, (x, y)), [(has, h)])
            old = at(adj(NET), (x, y)) if h else ZERO
            for d, nm2 in ((eq_decider([(x, pa)]), "row"), (eq_decider([(y, ch)]), "column")):
                c.equal("edge:%s:other-%s" % (nm, nm2), w, prove(o, d), old, "no other arc may change")
        A3 = adj(c.sm(pi, names=("self",)).out["self"])
        c.leaves("init:empty", c.where(pi), at(A3, (x, y)), lambda l: l is ZERO, "a fresh adjacency has no arc")
        for ax in (0, 1):
            c.equal("init:shape%d" % ax, c.where(pi), length(A3, ax), n, "adjacency has one row and column per node")

    c.guard("views", views)
    c.guard("edge", edge)


# ------------------------------------------------------------------ C03
def card_of(net, j):
    return mk("len", fld(payload(at(fld(net, "nodes"), (j,))), "domain"), 0)


def mixed_radix_parents(net, node, state):
    """sum over parents i of state[i] * product of the cardinalities of the parents before i"""
    A = adj(net)
    n = mk("len", fld(net, "nodes"), 0)
    i, j = fresh_bv("idx"), fresh_bv("idx")
    isp = lambda x: ge0(sub(at(A, (x, node)), ONE))
    pr = close_prod(j, ZERO, i, ite(isp(j), card_of(net, j), ONE))
    return close_sum(i, ZERO, n, ite(isp(i), mul(vfld(at(state, (i,)), "Discrete", 0), pr), ZERO))


def mixed_radix_set(net, state, ps):
    i, j = fresh_bv("idx"), fresh_bv("idx")
    pr = close_prod(j, ZERO, i, card_of(net, at(ps, (j,))))
    return close_sum(i, ZERO, mk("len", ps, 0), mul(vfld(at(state, (at(ps, (i,)),)), "Discrete", 0), pr))


def C03(c):
    p1 = c.find("CtbnNetwork", "get_param_index_network")
    p2 = c.find("CtbnNetwork", "get_param_index_from_custom_parent_set")
    inv = shape_inv(NET)

    def net():
        s = c.sm(p1, names=("self", "node", "current_state"))
        t = rewrite(s.ret, {**inv, mk("len", P("current_state"), 0): mk("len", fld(NET, "nodes"), 0)})
        c.equal("network", c.where(p1), t, mixed_radix_parents(NET, P("node"), P("current_state")), "index of the configuration of a node's parents")

    def custom():
        s = c.sm(p2, names=("self", "current_state", "parent_set"))
        c.equal("custom", c.where(p2), rewrite(s.ret, inv), mixed_radix_set(NET, P("current_state"), P("parent_set")), "index of the configuration of a custom parent set")

    def ctmp():
        p = c.find("CtmpProcess", "get_param_index_network")
        s = c.sm(p, names=("self", "node", "current_state"))
        t = with_lits(s.ret, [(ge0(sub(P("node"), ONE)), False)])
        # the recorded finding is this value and no other
        state = vfld(at(P("current_state"), (ZERO,)), "Discrete", 0)
        found = t is state or c.separated(t, state) is False
        c.equal("ctmp:state" if found else "ctmp", c.where(p), t, ZERO, "a process without parents has a single configuration, index 0")

    c.guard("network", net)
    c.guard("custom", custom)
    c.guard("ctmp", ctmp)


# ------------------------------------------------------------------ C04
def C04(c):
    p = c.find("CtbnNetwork", "idx_to_state")
    s = c.sm(p, names=("variables_domain", "state"))
    d, x = P("variables_domain"), P("state")
    i, j = sym(), fresh_bv("idx")
    pr = close_prod(j, ZERO, i, at(d, (j,)))
    v = at(s.ret, (i,))
    want = irem(idiv(x, pr), at(d, (i,)))
    j2 = fresh_bv("idx")
    alt = idiv(irem(x, close_prod(j2, ZERO, add(i, ONE), at(d, (j2,)))), pr)
    c.equal("decode", c.where(p), v, alt if v is alt else want, "component i of the decoded state is (index / product of the previous cardinalities) mod its cardinality")
    c.equal("decode-length", c.where(p), length(s.ret, 0), mk("len", d, 0), "one component per variable")


# ------------------------------------------------------------------ C06 / C07
CLASSES = ("neg", "zero", "pos", "nan")


def sign_decide(a, cls):
    """truth of the float comparison atom `a` when the listed elements have the given sign classes.
    cls: term -> class"""
    if a.op not in ("flt", "fle", "feq"):
        return None
    p = a.args[0]
    d = poly_dict(p)
    if len(d) == 1 and () not in d:
        (m, k), = d.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in cls:
            s = cls[m[0][0]]
            if s == "nan":
                return False
            v = {"neg": -1, "zero": 0, "pos": 1}[s] * (1 if k > 0 else -1)
            return {"flt": v > 0, "fle": v >= 0, "feq": v == 0}[a.op]
    if len(d) == 2 and () in d and len([m for m in d if m]) == 1:
        # element against a constant: only NaN is decided
        m = [m for m in d if m][0]
        if len(m) == 1 and m[0][0] in cls and cls[m[0][0]] == "nan":
            return False
    return None


def const_value(t):
    """numeric value of a constant float expression, None if it is not constant"""
    v = 0.0
    for m, k in poly_dict(t).items():
        x = float(k)
        for a, e in m:
            if a.op == "sqrt" and const_value(a.args[0]) is not None:
                x *= const_value(a.args[0]) ** (0.5 * float(e))
            elif is_num(a):
                x *= float(a.args[1]) ** float(e)
            else:
                return None
        v += x
    return v


def row_decide(a, is_row, value):
    """truth of a comparison between constants and a row sum (or its absolute value) that equals `value`"""
    if a.op not in ("flt", "fle", "feq"):
        return None
    v, seen = 0.0, False
    for m, k in poly_dict(a.args[0]).items():
        x = float(k)
        for t, e in m:
            if t.op == "abs" and is_row(t.args[0]):
                seen = True
                y = None if value is None else abs(value)
            elif is_row(t):
                seen = True
                y = value
            else:
                y = const_value(from_dict({((t, Fraction(1)),): Fraction(1)}))
                if y is None:
                    return None
                x *= y ** float(e)
                continue
            if y is None:
                return False      # NaN compares false
            if y == 0 and e < 0:
                return None
            x *= y ** float(e)
        v += x
    if not seen:
        return None
    return {"flt": v > 0, "fle": v >= 0, "feq": v == 0}[a.op]


def C07(c):
    p = c.find(DS, "validate_params")
    s = c.sm(p, names=("self",))
    w = c.where(p)
    okc = isv(s.ret, "Ok", ("Ok", "Err"))
    cim = unwrap(fld(NET, "cim"))
    has = isSome(fld(NET, "cim"))
    n = mk("len", fld(NET, "domain"), 0)
    dims = [mk("len", cim, k) for k in range(3)]
    c.bool_("missing", w, Not(with_lits(okc, [(has, False)])), "a table that was never set must be rejected")
    t = with_lits(okc, [(has, True)])
    for k in (1, 2):
        c.bool_("shape%d" % k, w, Not(with_lits(t, [(ieq(n, dims[k]), False)])) if ieq(n, dims[k]).op == "eq0" else boolc(False),
                "a table whose axis %d differs from the number of states must be rejected" % k)
    t = rewrite(t, {dims[1]: n, dims[2]: n})
    U, I, J = sym(), sym(), sym()
    K = mk("len", cim, 0)

    def is_row(x):
        """the sum of one row of one configuration"""
        if x.op != "sum" or x.args[1] is not ZERO or x.args[2] is not n:
            return False
        b = x.args[3]
        return b.op == "at" and b.args[0] is cim and len(b.args[1]) == 3 and b.args[1][2] is mk("b", x.args[0]) and not any(mk("b", x.args[0]) in i.fv for i in b.args[1][:2])

    def idx_dec(a):
        """the witness indices are in range and I != J"""
        if a.op == "eq0" and a in (ieq(I, J),):
            return False
        for q, h in ((U, K), (I, n), (J, n)):
            if a is ge0(sub(sub(h, q), ONE)):
                return True
            if a is ge0(sub(q, h)):
                return False
        for q in (K, n):
            if a is ge0(sub(q, ONE)):
                return True
        return None

    def scenario(special, row):
        """elements: `special` maps index triples to a class; every other off-diagonal element may be anything"""
        cls = {at(cim, ix): v for ix, v in special.items()}

        def dec(a):
            v = idx_dec(a)
            if v is None:
                v = sign_decide(a, cls)
            if v is None and row != "any":
                v = row_decide(a, is_row, row)
            return v
        return dec

    # accepted: every well-formed table
    def dec_valid(a, total=0.0):
        v = row_decide(a, is_row, total)
        if v is not None:
            return v
        v = None
        if a.op in ("flt", "fle", "feq"):
            els = [x for x in subterms(a) if x.op == "at" and x.args[0] is cim]
            if len(els) == 1 and len(els[0].args[1]) == 3:
                e = els[0]
                if e.args[1][1] is e.args[1][2]:
                    return sign_decide(a, {e: "neg"})
                vs = {sign_decide(a, {e: "zero"}), sign_decide(a, {e: "pos"})}
                if len(vs) == 1:
                    return vs.pop()
        for q in (K, n):
            if a is ge0(sub(q, ONE)):
                return True
        return v

    def rejects(key, dec1, detail):
        """the defect described by dec1 is reported whatever the rest of the table, or else a table that is
        fine everywhere else slips through"""
        r = prove(t, dec1, wit=(U, I, J))
        if r is not FALSE and r is not TRUE:
            r2 = prove_eqsplit(r, dec_valid)
            if r2 is TRUE and not dirty(r):
                r = TRUE
        c.bool_(key, w, Not(r), detail)

    # rejected: a non-negative or undefined diagonal, a negative or undefined off-diagonal, a row that does not sum to 0
    for cl in ("zero", "pos"):
        rejects("diagonal:" + cl, scenario({(U, I, I): cl}, 0.0), "a diagonal entry that is %s must be rejected, in any configuration" % cl)
    for cl in ("neg", "nan"):
        r = None if cl == "nan" else 0.0
        rejects("off-diagonal:" + cl, scenario({(U, I, J): cl}, r), "an off-diagonal entry that is %s must be rejected, in any configuration" % cl)
    for nm, v in (("large", 1e9), ("large-negative", -1e9), ("moderate", 1e-3), ("moderate-negative", -1e-3), ("small", 1e-6), ("small-negative", -1e-6), ("undefined", None)):
        rejects("row-sum:" + nm, rowdec(idx_dec, is_row, v), "a row whose sum is %s must be rejected" % nm)

    c.bool_("accepts-valid", w, prove_eqsplit(t, dec_valid), "a table with negative diagonal, non-negative off-diagonal and null row sums must be accepted")
    for e in (1e-12, -1e-12):
        c.bool_("accepts-rounding:%g" % e, w, prove_eqsplit(t, lambda a: dec_valid(a, e)), "row sums that are null up to rounding must be accepted")
    C07_witnesses(c, w, okc)


def C07_tables():
    """(description, acceptable, table or None, cardinality): small tables of every defect class"""
    nan = float("nan")

    def base(K, n, z=0):
        t = [[[0.0 if (u + 2 * x + 3 * y + z) % 4 == 0 and n > 2 and (y != (x + 1) % n) else 0.5 + ((u + x + 2 * y) % 3) for y in range(n)] for x in range(n)] for u in range(K)]
        for m in t:
            for x in range(n):
                m[x][x] = -sum(m[x][y] for y in range(n) if y != x)
        return t

    yield "no table", False, None, 2
    for K, n in ((1, 2), (2, 2), (2, 3), (3, 3)):
        for z in range(3):
            yield "a well-formed table", True, base(K, n, z), n
        t = [[[1.0] * n for _ in range(n)] for _ in range(K)]
        for m in t:
            for x in range(n):
                m[x][x] = -(n - 1.0)
        yield "a uniform table", True, t, n
        for d in (1, -1):
            if n + d > 1:
                t = base(K, n)
                yield "%d columns for %d states" % (n + d, n), False, [[(r + [0.0])[: n + d] for r in m] for m in t], n
                yield "%d rows for %d states" % (n + d, n), False, [(m + [m[0]])[: n + d] for m in t], n
        yield "a table for other states", False, base(K, n + 1), n
        for u in range(K):
            for x in range(n):
                where = "configuration %d of %d, state %d of %d" % (u, K, x, n)
                t = base(K, n)
                t[u][x] = [0.0] * n
                yield "a null diagonal entry at " + where, False, t, n
                for v in (1.0, nan):
                    t = base(K, n)
                    t[u][x] = [-v / (n - 1)] * n
                    t[u][x][x] = v
                    yield "a %s diagonal entry at %s" % ("positive" if v == 1.0 else "NaN", where), False, t, n
                for e in (1e9, -1e9, 1e-3, -1e-3, 1e-6, -1e-6):
                    t = base(K, n)
                    t[u][x][x] -= e if e > 0 else 0
                    t[u][x][(x + 1) % n] += -e if e < 0 else 0
                    yield "a row of sum %g at %s" % (-e, where), False, t, n
                    for k in range(K):
                        for y in range(n):
                            if (k, y) != (u, x) and e > 0:
                                q = [[list(r) for r in m] for m in t]
                                q[k][y][(y + 1) % n] += e
                                yield "rows of opposite sums at %s and %d,%d" % (where, k, y), False, q, n
                                if k == u:
                                    for z in range(n):
                                        if z not in (x, y):
                                            q = base(K, n)
                                            q[u][x][z] += e
                                            q[u][y][z] = q[u][y][z] - e
                                            if q[u][y][z] >= 0:
                                                yield "rows of opposite sums with balanced columns at %s" % where, False, q, n
                for y in range(n):
                    if y != x:
                        t = base(K, n)
                        t[u][x][y] = nan
                        yield "a NaN entry at " + where, False, t, n
                        t = base(K, n)
                        t[u][x][y] = -0.25
                        if n > 2:
                            t[u][x][3 - x - y] += 4.0
                        else:
                            t[u][x][x] = 0.25
                        t[u][x][x] = -sum(t[u][x][z] for z in range(n) if z != x)
                        yield "a negative entry at " + where, False, t, n


def C07_nodes():
    for what, good, tab, n in C07_tables():
        lam = None
        if tab is not None:
            lam = interp.Lam([len(tab), len(tab[0]), len(tab[0][0])], lambda ix, tab=tab: tab[ix[0]][ix[1]][ix[2]])
        opt = {"#v": "Some", "#t": "Option", "0": lam, "#p": [lam]} if tab is not None else {"#v": "None", "#t": "Option", "#p": []}
        yield what, good, tab, n, {"#v": "", "#t": "", "cim": opt, "domain": frozenset(range(n)), "label": interp.Obj("label"), "#p": []}


def C07_witnesses(c, w, okc):
    """refutation only: the validity condition evaluated at small tables of every defect class"""
    bad, seen = None, 0
    for what, good, tab, n, node in C07_nodes():
        v = interp.witness(okc, {NET: node})
        if v is None or isinstance(v, interp.Obj):
            continue
        seen += 1
        if bool(v) != good:
            bad = "%s is %s: %s" % (what, "rejected" if good else "accepted", tab)
            break
    if bad:
        c.viol("witness", w, bad)
    elif seen:
        # the tables exclude what the generic argument only failed to recognise
        for o in c.obl:
            if o["status"] == "VIOLATION" and seen > 300:
                o["status"] = "UNDETERMINED"
                o["detail"] = "not confirmed by any of %d tables: %s" % (seen, o["detail"])
    c.notes.append(("witness tables", seen, getattr(interp.witness, "why", "")))


def rowdec(idx_dec, is_row, v):
    def dec(a):
        r = idx_dec(a)
        return row_decide(a, is_row, v) if r is None else r
    return dec


def prove_eqsplit(t, decide):
    """`prove` that also substitutes the solution of an equation between indices in its true branch"""
    def go(t, depth=0):
        a = decision(t)
        if a is None:
            return t
        th, el = branches(t)
        v = decide(a)
        if v is None and a.op == "exists" and depth < 8:
            k, lo, hi, b = a.args
            x = fresh_bv("idx")
            if go(subst(b, {mk("b", k): x}), depth + 1) is FALSE:
                v = False
        if v is not None:
            return go(th if v else el, depth)
        if a.op == "eq0":
            for q in sorted(a.fv):
                sol = solve_eq(a, q)
                if sol is not None:
                    th = subst(th, {q: sol})
                    break
        x, y = go(th, depth), go(el, depth)
        return x if x is y else ite(a, x, y)
    return go(t)


def C06(c):
    p = c.find(DS, "set_cim")
    pv = c.find(DS, "validate_params")
    pu = c.find(DS, "set_cim_unchecked")

    def main():
        # validation is judged through the checking routine applied to the table just stored
        s = c.sm(p, names=("self", "cim"))
        v = c.sm(pv, names=("self",))
        w = c.where(p)
        new = fld(s.out["self"], "cim")
        okc = isv(s.ret, "Ok", ("Ok", "Err"))
        valid = subst(isv(v.ret, "Ok", ("Ok", "Err")), {NET: with_(NET, "cim", some(P("cim")))})
        c.equal("validated", w, okc, valid, "a table is accepted exactly when it passes validation")
        c.equal("accepted", w, assume_all(new, okc), some(P("cim")), "an accepted table is the one stored")
        c.leaves("rejected", w, assume_all(new, Not(okc)), lambda l: l is NONE, "a rejected table must not stay stored")
        c.leaves("ok-cases", w, ite(okc, new, some(P("cim"))), lambda l: l is some(P("cim")), "acceptance must come with the table")
        c.leaves("err-cases", w, ite(okc, NONE, new), lambda l: l is NONE, "rejection must leave no table")
        for f in ("label", "domain", "transitions", "residence_time"):
            c.equal("kept:" + f, w, fld(s.out["self"], f), fld(NET, f), "setting a table must not touch " + f)

    c.guard("set_cim", main)


def assume_all(t, cond):
    return ite(cond, t, BOT)


# ------------------------------------------------------------------ C12 / C13: forward sampler
DRAWS = ("get_random_state", "get_random_residence_time", "get_random_state_uniform")


def calls(t, name):
    return [x for x in subterms(t) if x.op in ("call", "call!") and x.args[0] == name]


def call_args(x):
    """(receiver, other arguments...) of an opaque call"""
    if x.op == "call":
        a = x.args[1]
        rest = x.args[2] if len(x.args) > 2 else ()
        return (a,) + tuple(rest)
    return tuple(x.args[1])


def tcall(name, recv, *args):
    return mk("call", name, recv, tuple(args))


def C12(c):
    p = c.find("ForwardSampler", "next")
    s = c.sm(p, noinline=DRAWS, names=("self",))
    w = c.where(p)
    out = s.out["self"]
    S = lambda f: fld(NET, f)
    copied = mk("rngcopy", S("rng"))
    if fld(out, "rng") is copied:
        # worked on a copy of the generator and put it back
        out = subst(out, {copied: S("rng")})
    net, cs, ct, nt = S("net"), S("current_state"), S("current_time"), S("next_transitions")
    k = sym()

    # what the caller sees: the state and time before the step
    def ret():
        r = unwrap(s.ret)
        c.leaves("always-some", w, isSome(s.ret), lambda l: l is TRUE, "the sampler never ends by itself")
        c.equal("returned-state", w, fld(r, "state"), cs, "the sample carries the state occupied before the step")
        c.equal("returned-time", w, fld(r, "t"), ct, "the sample carries the instant that state was entered")

    def step():
        n = {mk("len", cs, 0): mk("len", nt, 0), mk("len", tcall("get_node_indices", net), 0): mk("len", nt, 0),
             tcall("get_number_of_nodes", net): mk("len", nt, 0)}
        o = rewrite(out, n)
        J = [x for x in find_ops(o, {"argext"})]
        if len(J) != 1:
            return c.undet("earliest", w, "%d arg-min selections found in the new state" % len(J))
        J = J[0]
        kk, lo, hi, filt, kind, key, elem = J.args
        keyf = lambda i: subst(key, {mk("b", kk): i})
        c.add("earliest:min", "OK" if kind == "min" else "VIOLATION", w, "the next transition is the earliest pending one (selection is `%s`)" % kind)
        c.equal("earliest:range", w, And(ieq(lo, ZERO), ieq(hi, mk("len", nt, 0))), TRUE, "every node competes")
        if filt is not TRUE:
            f = subst(filt, {mk("b", kk): k})
            c.bool_("earliest:all", w, f, "every node competes")
        c.equal("earliest:node", w, elem, mk("b", kk), "the selected element is the node itself")
        j = sym("idx")
        o = subst(o, {J: j})
        # pending instant of a node: kept if drawn, otherwise drawn now from the current state and configuration
        pend = keyf(k)
        has = isSome(at(nt, (k,)))
        c.equal("pending:kept", w, with_lits(pend, [(has, True)]), unwrap(at(nt, (k,))), "a transition already drawn keeps its instant", given=has)
        fresh = with_lits(pend, [(has, False)])
        cl = calls(fresh, "get_random_residence_time")
        if len(cl) != 1:
            c.add("pending:drawn", "UNDETERMINED" if dirty(fresh) else "VIOLATION", w, "a missing transition instant must be drawn once: %s" % show_cut(fresh))
        else:
            x = cl[0]
            c.equal("pending:offset", w, sub(fresh, vfld(x, "Ok", 0)), ct, "a drawn residence time starts at the current instant")
            drawn_by("pending", x, k)
        # the step
        t2 = fld(o, "current_time")
        c.equal("time", w, t2, keyf(j), "the clock moves to the earliest pending instant")
        s2 = at(fld(o, "current_state"), (k,))
        stay = prove(s2, eq_decider([(k, j)]))
        c.equal("state:others", w, stay, at(cs, (k,)), "only the node whose transition is due changes state")
        mv = prove(subst(s2, {k: j}), lambda a: None)
        cl = calls(mv, "get_random_state")
        if len(cl) != 1:
            c.add("state:drawn", "UNDETERMINED" if dirty(mv) else "VIOLATION", w, "the new state of the due node must be drawn once: %s" % show_cut(mv))
        else:
            c.equal("state:value", w, mv, vfld(cl[0], "Ok", 0), "the due node takes the drawn state")
            drawn_by("state", cl[0], j)
        # invalidation
        n2 = at(fld(o, "next_transitions"), (k,))
        c.leaves("invalidate:self", w, subst(n2, {k: j}), lambda l: l is NONE, "the node that moved must draw a new transition")
        ch = tcall("get_children_set", net, j)
        q = sym()
        child = at(ch, (q,))

        def dec(a):
            if a is ge0(sub(sub(mk("len", ch, 0), q), ONE)):
                return True
            if a is ge0(sub(q, mk("len", ch, 0))):
                return False
            if a.op == "in" and a.args[0] is child and a.args[1] is ch:
                return True
            return None
        c.leaves("invalidate:children", w, prove(subst(n2, {k: child}), dec, wit=(q,)), lambda l: l is NONE, "every child of the node that moved must draw a new transition")

        def dec_other(a):
            if a.op == "eq0" and a is ieq(k, j):
                return False
            if a.op == "in" and a.args[0] is k and a.args[1] is ch:
                return False
            if a.op == "exists" and any(x is ch for x in subterms(a)):
                return False
            if a.op == "eq0" and any(x is ch for x in subterms(a)):
                return False
            return None
        kept = prove(n2, dec_other)
        c.leaves("invalidate:kept", w, isSome(kept), lambda l: l is TRUE, "every other node keeps a pending transition")
        c.equal("invalidate:instant", w, unwrap(kept), keyf(k), "every other node keeps its pending transition")

    def drawn_by(tag, x, node):
        a = call_args(x)
        c.equal(tag + ":node", w, a[0], tcall("get_node", net, node), "drawn from the parameters of that node")
        c.equal(tag + ":from", w, a[1], vfld(at(cs, (node,)), "Discrete", 0), "drawn for the state the node occupies")
        c.equal(tag + ":configuration", w, a[2], tcall("get_param_index_network", net, node, cs), "drawn for the configuration its parents are in")
        c.equal(tag + ":rng", w, a[3], S("rng"), "drawn from the sampler's own generator")

    def frame():
        for f in ("net", "initial_state", "rng"):
            c.equal("frame:" + f, w, fld(out, f), S(f), "a step must not replace the sampler's " + f)

    c.guard("returned", ret)
    c.guard("step", step)
    c.guard("frame", frame)


def C13(c):
    pn = c.find("ForwardSampler", "new")
    pr = c.find("ForwardSampler", "reset")

    def init(tag, w, o, net, given, rng):
        idx = tcall("get_node_indices", net)
        n = mk("len", idx, 0)
        k = sym()
        c.equal(tag + ":time", w, fld(o, "current_time"), ZERO, "a trajectory starts at time zero")
        st_ = fld(o, "current_state")
        has = isSome(given)
        c.equal(tag + ":given", w, with_lits(st_, [(has, True)]), unwrap(given), "a requested initial state is the one used", given=has)
        free = with_lits(st_, [(has, False)])
        el = at(free, (k,))
        cl = calls(el, "get_random_state_uniform")
        if len(cl) == 1 and el is cl[0]:
            a = call_args(cl[0])
            c.equal(tag + ":node", w, nodeidx(a[0], idx), tcall("get_node", net, k), "the initial state of a node is drawn from that node")
            c.equal(tag + ":rng", w, a[1], rng, "drawn from the sampler's own generator")
        else:
            c.add(tag + ":drawn", "UNDETERMINED" if dirty(el) or el.op not in ("const", "adt", "param") else "VIOLATION", w, "the free initial state of a node must be drawn: %s" % show_cut(el))
        nt = fld(o, "next_transitions")
        c.leaves(tag + ":pending", w, at(nt, (k,)), lambda l: l is NONE, "no transition is pending at the start")
        for nm, t in (("pending", nt), ("state", free)):
            L = rewrite(length(t, 0), {tcall("get_number_of_nodes", net): n})
            c.equal(tag + ":length:" + nm, w, L, n, "one entry per node")

    def nodeidx(t, idx):
        """the i-th node index of a network is i"""
        return subst(t, {at(idx, (i,)): i for i in [x.args[1][0] for x in subterms(t) if x.op == "at" and x.args[0] is idx]})

    def new():
        s = c.sm(pn, noinline=DRAWS, names=("net", "seed", "initial_state"))
        o, w = s.ret, c.where(pn)
        c.equal("new:net", w, fld(o, "net"), P("net"), "the sampler keeps its network")
        c.equal("new:kept", w, fld(o, "initial_state"), P("initial_state"), "the requested initial state is remembered for later restarts")
        rng = fld(o, "rng")
        hs = isSome(P("seed"))
        c.equal("new:seeded", w, with_lits(rng, [(hs, True)]), mk("rngseed", unwrap(P("seed"))), "a requested seed is the one used", given=hs)
        unseeded = with_lits(rng, [(hs, False)])
        if unseeded.op == "rngseed" and unseeded.args[0].op != "rngentropy" and (not dirty(unseeded) and not unseeded.fv):
            c.viol("new:unseeded", w, "without a requested seed the random stream must not be a fixed one: %s" % show_cut(unseeded))
        else:
            c.ok("new:unseeded", w, "without a requested seed the stream is not a fixed one")
        init("new", w, o, P("net"), P("initial_state"), rng)

    def reset():
        s = c.sm(pr, noinline=DRAWS, names=("self",))
        o, w = s.out["self"], c.where(pr)
        for f in ("net", "initial_state", "rng"):
            c.equal("reset:kept:" + f, w, fld(o, f), fld(NET, f), "a restart must not replace " + f)
        init("reset", w, o, fld(NET, "net"), fld(NET, "initial_state"), fld(NET, "rng"))

    c.guard("new", new)
    c.guard("reset", reset)
