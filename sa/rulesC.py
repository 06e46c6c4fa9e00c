"""Rules: hypothesis tests, scores, cache, structure learners."""
from rulesB import *

def flt0(x):
    return flt(ZERO, x)


def ln_(x):
    return lift(lambda y: mapterm("ln", y), x)

FIT = "structure_learning::constraint_based_algorithm::Cache::<'a, P>::fit"


def cache_fit(c):
    return c.find("Cache", "fit")


def stat(name, *a):
    return mk("stat", name, tuple(a))


def opaque_calls(t, name):
    """opaque effectful calls by name, outermost last"""
    return sorted([x for x in subterms(t) if x.op == "call!" and x.args[0] == name], key=lambda x: x.id)


# ------------------------------------------------------------------ C05
def set_with(s, x):
    return mk("sins", s, x)


def C05(c):
    def one(who):
        p = c.find(who, "call", "HypothesisTest")
        pc = c.find(who, "compare_matrices")
        s = c.sm(p, noinline=(cache_fit(c), pc), names=("self", "net", "child_node", "parent_node", "separation_set", "dataset", "cache"))
        w = c.where(p)
        net, child, par, sep, ds = P("net"), P("child_node"), P("parent_node"), P("separation_set"), P("dataset")
        ret = s.ret
        big_ps = some(set_with(sep, par))
        npar = Not(mk("in", par, sep))      # the parent under test is not in the separation set
        sm_ps = some(sep)
        fits = opaque_calls(ret, "fit")
        m, seen = {}, {}
        for x in fits:
            a = call_args(x)
            ps = a[4]
            nm = "SMALL" if ps is sm_ps else "BIG" if ps is big_ps else None
            if nm is None:
                nm = "SMALL" if c.separated(ps, sm_ps, npar) is False else "BIG" if c.separated(ps, big_ps, npar) is False else None
                if nm is not None:
                    c.undet(who + ":fit-set:" + nm, w, "parameters fitted for the parent set %s" % show_cut(ps))
            if nm is None:
                c.add(who + ":fit-set", "UNDETERMINED" if dirty(ps) else "VIOLATION", w, "parameters fitted for the parent set %s, neither the separation set nor the separation set with the tested parent" % show_cut(ps))
                return
            seen[nm] = a
            m[x] = mk("param", nm)
        for nm in ("SMALL", "BIG"):
            if nm not in seen:
                return c.add("%s:fit-%s" % (who, nm), "UNDETERMINED" if dirty(ret) else "VIOLATION", w, "the test never uses the parameters of the %s parent set: %s" % (nm, show_cut(ret)))
            a = seen[nm]
            c.equal("%s:fit-%s:net" % (who, nm), w, a[1], net, "fitted on the given network")
            c.equal("%s:fit-%s:dataset" % (who, nm), w, a[2], ds, "fitted on the given dataset")
            c.equal("%s:fit-%s:node" % (who, nm), w, a[3], child, "fitted for the child")
        for _ in range(4):      # the receiver of one fit is the cache after the other
            ret = subst(ret, m)
        S, B = payload(P("SMALL")), payload(P("BIG"))
        tr = lambda z: unwrap(fld(z, "transitions"))
        ci = lambda z: unwrap(fld(z, "cim"))
        ret = rewrite(ret, {mk("len", ci(z), k): mk("len", tr(z), k) for z in (S, B) for k in range(3)})
        ret = rewrite(ret, {mk("len", unwrap(fld(z, "residence_time")), k): mk("len", tr(z), k) for z in (S, B) for k in range(2)})
        exp = []
        for base in (set_with(sep, par), sep):
            q, k = fresh_bv("idx"), fresh_bv("idx")
            e = at(base, (q,))
            cp = close_prod(q, ZERO, mk("len", base, 0), ite(ge0(sub(sub(par, e), ONE)), gcard(net, e), ONE))
            pj = add(irem(k, cp), mul(idiv(k, mul(cp, gcard(net, par))), cp))
            args = (pj, tr(S), ci(S), k, tr(B), ci(B)) if who == "F" else (pj, tr(S), k, tr(B))
            exp.append(Not(close_exists(k, ZERO, mk("len", tr(B), 0), Not(mk("call", "compare_matrices", P("self"), args)))))
        want = exp[1] if ret is exp[1] else exp[0]
        c.equal(who + ":projection", w, ret, want, "independence is accepted exactly when every configuration of the larger parent set agrees with the configuration of the separation set obtained by dropping the tested parent", given=npar)

    c.guard("F", lambda: one("F"))
    c.guard("ChiSquare", lambda: one("ChiSquare"))


# ------------------------------------------------------------------ C36
def C36(c):
    al = fld(NET, "alpha")
    M1, M2 = P("M1"), P("M2")
    n = mk("len", M1, 1)

    def norm(t, others=()):
        return rewrite(t, {mk("len", z, k): n for z in (M1, M2) + tuple(others) for k in (1, 2)})

    def rowsum(M, i, x):
        y = fresh_bv("idx")
        return close_sum(y, ZERO, n, at(M, (i, x, y)))

    def f():
        p = c.find("F", "compare_matrices")
        s = c.sm(p, names=("self", "i", "M1", "cim_1", "j", "M2", "cim_2"))
        x = fresh_bv("idx")
        q = lambda nm, i: at(P(nm), (i, x, x))
        dist = vfld(stat("FisherSnedecor::new", rowsum(M1, P("i"), x), rowsum(M2, P("j"), x)), "Ok", 0)
        cdf = stat("ContinuousCDF::cdf", dist, div(q("cim_2", P("j")), q("cim_1", P("i"))))
        half = div(al, num(2))
        out = Or(flt0(sub(half, cdf)), flt0(sub(cdf, sub(ONE, half))))
        want = Not(close_exists(x, ZERO, n, out))
        c.equal("F", c.where(p), norm(s.ret, (P("cim_1"), P("cim_2"))), want, "the exit rates of every state are compared by a two-sided F test with the numbers of departures as degrees of freedom")

    def chi():
        p = c.find("ChiSquare", "compare_matrices")
        s = c.sm(p, names=("self", "i", "M1", "j", "M2"))
        x, y = fresh_bv("idx"), fresh_bv("idx")
        a, b = at(M1, (P("i"), x, y)), at(M2, (P("j"), x, y))
        r1, r2 = rowsum(M1, P("i"), x), rowsum(M2, P("j"), x)
        # (K b - L a)^2 / (a + b) with K = sqrt(r1/r2), L = 1/K
        term = div(add(sub(mul(div(r1, r2), mul(b, b)), mul(num(2), mul(a, b))), mul(div(r2, r1), mul(a, a))), add(a, b))
        X2 = close_sum(y, ZERO, n, ite(ieq(x, y), ZERO, term))
        dist = vfld(stat("ChiSquared::new", sub(n, ONE)), "Ok", 0)
        want = Not(close_exists(x, ZERO, n, Not(flt0(sub(sub(ONE, al), stat("ContinuousCDF::cdf", dist, X2))))))
        c.equal("ChiSquare", c.where(p), norm(s.ret), want, "the destinations of every state are compared by a two-sample chi-square statistic with as many degrees of freedom as other states")

    def unobserved():
        """states never left and transitions never made have no statistic: they must not be divided by"""
        p = c.find("F", "compare_matrices")
        s = c.sm(p, names=("self", "i", "M1", "cim_1", "j", "M2", "cim_2"))
        bad = und = None
        for e in s.events:
            if e.kind not in ("maypanic", "panic"):
                continue
            ds = [x for x in subterms(e.cond) if x.op == "stat" and x.args[0].startswith("FisherSnedecor")]
            for d in ds:
                cond = e.cond
                for r in d.args[1]:
                    cond = And(cond, Not(flt0(sub(ZERO, r))))
                if cond is FALSE:
                    continue
                rest = with_lits(e.cond, [(x, True) for x in atoms_of(e.cond) if any(y is d for y in subterms(x))])
                bad, und = (e, und) if rest is TRUE else (bad, e)
        if bad is None and und is None:
            c.ok("unobserved:F", c.where(p), "a state never left does not stop the comparison")
        else:
            e = bad or und
            c.add("unobserved:F", "VIOLATION" if bad else "UNDETERMINED", "%s:%s" % tuple(e.span[:2]) if e.span else c.where(p), "the distribution of the statistic does not exist when a state was never left: %s" % show_cut(e.cond, 200))
        p = c.find("ChiSquare", "compare_matrices")
        s = c.sm(p, names=("self", "i", "M1", "j", "M2"))
        den = set()
        for t in subterms(s.ret):
            if t.op == "poly":
                for m, _ in t.args[0]:
                    den |= {b for b, e in m if e < 0 and {y.args[0] for y in subterms(b) if y.op == "at"} >= {M1, M2} and b.op == "poly"}
        guarded = {y for t in subterms(s.ret) if t.op == "ite" and not any(z.op == "stat" for z in subterms(t.args[0])) for y in subterms(t.args[0])}
        free = [b for b in den if b not in guarded]
        if free and not dirty(s.ret):
            c.viol("unobserved:ChiSquare", c.where(p), "a transition never made is divided by: %s" % show_cut(free[0]))
        else:
            c.add("unobserved:ChiSquare", "UNDETERMINED" if dirty(s.ret) else "OK", c.where(p), "a transition never made does not decide the comparison")

    c.guard("F", f)
    c.guard("ChiSquare", chi)
    c.guard("unobserved", unobserved)

    def ctor():
        for who in ("F", "ChiSquare"):
            p = c.find(who, "new")
            s = c.sm(p, names=("alpha",))
            c.equal(who + ":alpha", c.where(p), fld(s.ret, "alpha"), P("alpha"), "the significance level is the one given")

    c.guard("new", ctor)


# ------------------------------------------------------------------ C35
def lgam(x):
    return stat("gamma::ln_gamma", x)


def ll_formula(SS, alpha, tau):
    M, T = fld(SS, "0"), fld(SS, "1")
    K, n = mk("len", M, 0), mk("len", M, 1)
    a, t0 = div(alpha, K), div(tau, K)
    u, x, y = [fresh_bv("idx") for _ in range(3)]
    y2 = fresh_bv("idx")
    m = close_sum(y2, ZERO, n, at(M, (u, x, y2)))
    t = at(T, (u, x))
    q = sub(add(lgam(add(add(a, m), ONE)), mul(add(a, ONE), ln_(t0))), add(lgam(add(a, ONE)), mul(add(add(a, m), ONE), ln_(add(t0, t)))))
    inner = close_sum(y, ZERO, n, sub(lgam(add(a, at(M, (u, x, y)))), lgam(a)))
    th = add(sub(lgam(a), lgam(add(a, m))), inner)
    return close_sum(u, ZERO, K, close_sum(x, ZERO, n, add(q, th)))


def ss_norm(t, SS):
    M, T = fld(SS, "0"), fld(SS, "1")
    K, n = mk("len", M, 0), mk("len", M, 1)
    return rewrite(t, {mk("len", M, 2): n, mk("len", T, 0): K, mk("len", T, 1): n})


def C35(c):
    SS = ss_call(P("parent_set"))

    def one(who, f):
        p = c.find(who, "call", "ScoreFunction")
        s = c.sm(p, noinline=(SS_PATH,), names=("self", "net", "node", "parent_set", "dataset"))
        w = c.where(p)
        f(w, ss_norm(s.ret, SS))

    def ll(w, t):
        c.equal("loglikelihood", w, t, ll_formula(SS, fld(NET, "alpha"), fld(NET, "tau")), "the score is the marginal log-likelihood of the sufficient statistics under the shared prior")

    def bic(w, t):
        L = fld(NET, "ll")
        M = fld(SS, "0")
        K, n = mk("len", M, 0), mk("len", M, 1)
        tr = fld(P("dataset"), "trajectories")
        r = fresh_bv("idx")
        size = close_sum(r, ZERO, mk("len", tr, 0), sub(mk("len", fld(at(tr, (r,)), "time"), 0), ONE))
        pen = mul(div(ln_(size), num(2)), mul(K, mul(n, sub(n, ONE))))
        pl = sub(ll_formula(SS, fld(L, "alpha"), fld(L, "tau")), pen)
        c.equal("bic", w, t, pl, "the score is the log-likelihood minus half the number of free parameters times the logarithm of the sample size")

    c.guard("LogLikelihood", lambda: one("LogLikelihood", ll))
    c.guard("BIC", lambda: one("BIC", bic))

    def ctor():
        p = c.find("LogLikelihood", "new")
        s = c.sm(p, names=("alpha", "tau"))
        for f in ("alpha", "tau"):
            c.equal("ll:" + f, c.where(p), fld(s.ret, f), P(f), "the hyper-parameter is the one given")
        p = c.find("BIC", "new")
        s = c.sm(p, names=("alpha", "tau"))
        for f in ("alpha", "tau"):
            c.equal("bic:" + f, c.where(p), fld(fld(s.ret, "ll"), f), P(f), "the hyper-parameter is the one given")

    c.guard("new", ctor)


# ------------------------------------------------------------------ C22
def leaf_under(path, l):
    """the leaf of a decision diagram, its inner conditions decided by the path"""
    for _ in range(3):
        l2 = assume_lits(l, {a: v for a, v in path})
        if l2 is l:
            break
        l = l2
    return l


def adt_of(c, name):
    xs = [a for p, a in c.F.adts.items() if p.split("::")[-1] == name]
    if len(xs) != 1:
        raise Missing("type %s" % name)
    return xs[0]


def C22(c):
    p, pn = cache_fit(c), c.find("Cache", "new")
    maps = [f["name"] for f in adt_of(c, "Cache")["variants"][0]["fields"] if re.search(r"Map<", f["ty"])]
    ps = P("parent_set")
    FITC = tcall("fit", fld(NET, "parameter_learning"), P("net"), P("dataset"), P("node"), ps)
    fresh = lambda x: x is FITC
    own = [fld(NET, f) for f in maps]

    def hit(path, l):
        """an entry found under the requested key in one of the cache's own maps"""
        if l.op != "vfld" or l.args[1] != "Some" or l.args[0].op != "mapget":
            return False
        m, k = l.args[0].args[:2]
        return m in own and k is ps

    def fit():
        s = c.sm(p, names=("self", "net", "dataset", "node", "parent_set"))
        w = c.where(p)
        out = s.out["self"]

        def good(t, pred, key, detail):
            bad, und = [], []
            for path, l in paths(t):
                if l is BOT:
                    continue
                l = leaf_under(path, l)
                if not pred(path, l):
                    (und if dirty(l) or any(dirty(a) for a, _ in path) else bad).append((path, l))
            if bad:
                return c.viol(key, w, "%s: %s" % (detail, "; ".join("%s when %s" % (show_cut(l), show_path(q)) for q, l in bad[:3])))
            if und:
                return c.undet(key, w, "%s: %s" % (detail, show_cut(und[0][1])))
            return c.ok(key, w, detail)

        good(s.ret, lambda q, l: fresh(l) or hit(q, l), "answer", "the answer is the fit of the requested parent set, or the entry stored under that very parent set")

        def stored(q, l):
            if l in own or l.op == "emptymap":
                return True
            if l.op == "mins" and len(l.args) == 3:
                return l.args[1] is ps and (fresh(l.args[2]) or hit(q, l.args[2])) and stored(q, leaf_under(q, l.args[0]))
            if l.op == "ite":
                return stored(q, l.args[1]) and stored(q, l.args[2])
            return False

        for f in maps:
            good(fld(out, f), stored, "store:" + f, "the only entry a request may add is the fit of the requested parent set under that parent set")
        c.equal("learner", w, fld(out, "parameter_learning"), fld(NET, "parameter_learning"), "the estimator never changes")

    def new():
        s = c.sm(pn, names=("parameter_learning",))
        for f in maps:
            c.leaves("new:" + f, c.where(pn), fld(s.ret, f), lambda l: l.op == "emptymap", "a new cache is empty")
        c.equal("new:learner", c.where(pn), fld(s.ret, "parameter_learning"), P("parameter_learning"), "the estimator is the one given")
        if not maps:
            c.undet("maps", c.where(pn), "no map-typed field")

    c.guard("fit", fit)
    c.guard("new", new)
