"""Rule framework: obligations over value-flow summaries.

Every obligation ends OK, VIOLATION or UNDETERMINED.  UNDETERMINED (the summary contains a loop or call
the engine could not put in closed form) never raises an alarm; on the reviewed tree every obligation is OK,
which `--strict` asserts."""
import json, os, re, signal, time, traceback
from terms import *
from engine import Engine, Facts, Summary
import interp

DIRTY = {"rec", "loopval", "unk", "unkmut", "eff", "broke", "via", "mu", "iterfix", "libcall", "un", "agg", "oob", "upd",
         "lastw", "seqrest", "seqdone", "hasnext", "iters", "bot", "flat", "refm", "discr", "ordrev", "ncomb", "combo"}


class Missing(Exception):
    pass


class Timeout(Exception):
    pass


def dirty(t, extra=()):
    """operators of t the engine has no closed meaning for"""
    return sorted(set(x.op for x in subterms(t)) & (DIRTY | set(extra)))


def dirty_eq(t):
    """dirty operators of t and of the equations of its loops (whose own variables are no obstacle)"""
    return set(x.op for x in interp.allsub(t)) & DIRTY - {"mu"}


def at_first(t):
    """every value taken at a first index, written through that index"""
    def f(x):
        if x.op == "first" and x.args[4] is not mk("b", x.args[0]):
            (i,), (lo, hi, c, e) = open1(x)
            lo, hi, c, e = (at_first(z) for z in (lo, hi, c, e))
            return subst(e, {i: close_first(i, lo, hi, c, i)})
        return None
    return rw(t, f) if any(x.op == "first" for x in subterms(t)) else t


def canon(t):
    """t with every loop named by its equations (two loops with the same equations become the same term)"""
    def key(x, ts, exits):
        i = 5 if x.op == "rec" else len(x.args) - 3
        deps, raw, sn = x.args[i], x.args[i + 1], x.args[-1]
        m = {s: mk("mu", "dep", k) for k, s in enumerate(raw.v)}
        m.update({b: mk("mu", "bnd", k) for k, (b, _, _) in enumerate(sn.binders)})
        order = sn.closure(list(ts) + (list(sn.exits) if exits else []))
        m.update({v: mk("mu", "var", k) for k, v in enumerate(order)})
        f = lambda y: None if y is None else canon(subst(y, m))
        eqs = tuple((f(sn.todo[v][0]), f(sn.todo[v][1])) for v in order)
        dom = tuple((f(lo), f(hi)) for _, lo, hi in sn.binders)
        used = set().union(*[y.fv for y in [z for e in eqs for z in e if z is not None] + [z for d in dom for z in d] + [f(sn.filt)] + [f(z) for z in ts]]) if True else ()
        if exits:
            used |= set().union(set(), *[f(z).fv for z in sn.exits])
        ds = tuple(canon(d) if mk("mu", "dep", k) in used else ZERO for k, d in enumerate(deps))
        return ds, (sn.kind, sn.rev, dom, f(sn.filt), eqs, tuple(f(z) for z in sn.exits) if exits else (), tuple(f(z) for z in ts))

    def f(x):
        if x.op == "rec" and len(x.args) == 9:
            return mk("Crec", *key(x, [x.args[7].v[0]], x.args[8].kind == "while"))
        if x.op in ("broke", "iters") and len(x.args) > 2:
            return mk("C" + x.op, *key(x, [], True))
        if x.op == "via" and len(x.args) > 2:
            return mk("Cvia", x.args[1], *key(x, [], True))
        if x.op == "loopval" and len(x.args) > 2:
            return mk("Cloopval", *key(x, [x.args[1].args[0].v], True))
        return None

    return rw(t, f)


def P(n):
    return mk("param", n)


def sym(tag="idx"):
    return fresh_bv(tag)


def isSome(t):
    return isv(t, "Some", ("None", "Some"))


def unwrap(t, v="Some", i=0):
    return vfld(t, v, i)


class Check:
    def __init__(self, pid, facts, known=()):
        self.pid, self.F = pid, facts
        self.obl = []
        self.memo = {}
        self.known = known
        self.fnset = set()
        self.t0 = time.time()
        self.notes = []

    # ---- anchors
    def find(self, ty, method, trait=None):
        """resolved path of method `method` of type `ty` (or the free function module::method)"""
        out = []
        for p in self.F.fns:
            if "{" in p:
                continue
            m = re.match(r"^<(.+) as (.+)>::(\w+)$", p)
            if m:
                t, tr, nm = m.groups()
                t = re.sub(r"<.*$", "", t).split("::")[-1]
                tr = re.sub(r"<.*$", "", tr).split("::")[-1]
                if t == ty and nm == method and (trait is None or tr == trait):
                    out.append(p)
            else:
                q = re.sub(r"::<[^>]*>", "", p).split("::")
                if q[-1] == method and len(q) >= 2 and q[-2] == ty and trait is None:
                    out.append(p)
        if len(out) != 1:
            raise Missing("%s::%s (%d candidates)" % (ty, method, len(out)))
        return out[0]

    def sm(self, path, noinline=(), args=None, names=None, hashorder=False):
        key = (path, tuple(sorted(noinline)), tuple(args or ()), tuple(names or ()), hashorder)
        if key not in self.memo:
            en = Engine(self.F, noinline=noinline)
            en.hashorder = hashorder
            f = self.F.fns[path]
            if names:
                old = dict(f.argnames)
                f.argnames = dict(old)
                for i, n in enumerate(names):
                    f.argnames[i] = n
            try:
                s = en.run(path, args)
            finally:
                if names:
                    f.argnames = old
            s.path, s.engine = path, en
            self.memo[key] = s
            self.fnset |= set(en.visited) | {path}
        return self.memo[key]

    def where(self, path):
        f = self.F.fns.get(path)
        sp = getattr(f, "span", None) if f else None
        return "%s (%s:%s)" % (path, sp[0], sp[1]) if sp else str(path)

    # ---- obligations
    def add(self, key, status, where, detail=""):
        self.obl.append({"key": key, "status": status, "where": where, "detail": str(detail)[:1500]})
        return status == "OK"

    def ok(self, key, where, detail=""):
        return self.add(key, "OK", where, detail)

    def viol(self, key, where, detail=""):
        return self.add(key, "VIOLATION", where, detail)

    def undet(self, key, where, detail=""):
        return self.add(key, "UNDETERMINED", where, detail)

    def bool_(self, key, where, t, detail="", allow=()):
        """t must be TRUE; FALSE on some feasible path is a violation"""
        if t is TRUE:
            return self.ok(key, where, detail)
        d = [x for x in dirty(t) if x not in allow]
        if t is FALSE:
            return self.viol(key, where, detail)
        return self.undet(key, where, "%s: left with %s %s" % (detail, show_cut(t), d))

    def equal(self, key, where, actual, expected, detail="", clean=True, given=None):
        if actual is expected or any(x.op == "first" for x in subterms(actual)) and at_first(actual) is at_first(expected):
            return self.ok(key, where, detail)
        d = dirty(actual)
        if clean and (d or dirty(expected)) and canon(actual) is canon(expected):
            return self.ok(key, where, detail)
        if d:
            d = sorted(set(d) | dirty_eq(actual))
        if set(d) - set(interp.LOOPOPS) or not clean:
            return self.undet(key, where, "%s: not in closed form (%s)" % (detail, ",".join(d)))
        if d:
            # loops without a closed form: only a difference that an interpretation of their equations shows counts
            if self.separated(actual, expected, given):
                return self.viol(key, where, "%s: found a value that differs from the required %s (loop equations: %s)" % (detail, show_cut(expected), show_cut(actual)))
            return self.undet(key, where, "%s: not in closed form (%s)" % (detail, ",".join(d)))
        if self.separated(actual, expected, given) is False:
            return self.undet(key, where, "%s: a different normal form that no interpretation separates from the required one" % detail)
        return self.viol(key, where, "%s: found %s, required %s" % (detail, show_cut(actual), show_cut(expected)))

    def separated(self, a, b, assume=None):
        r = interp.separate(a, b, assume=assume)
        self.notes.append(("separate", r if r is not None else "unevaluated: " + str(getattr(interp.separate, "why", ""))))
        return r

    def leaves(self, key, where, t, pred, detail=""):
        """every feasible leaf of the decision diagram t satisfies pred"""
        bad, und = [], []
        for path, l in paths(t):
            if l is BOT:
                continue
            if pred(l):
                continue
            (und if (dirty(l) or any(dirty(a) for a, _ in path)) else bad).append((path, l))
        if bad:
            real = [(p, l) for p, l in bad if interp.satisfiable(conj(p)) is not False]
            if not real:
                return self.undet(key, where, "%s: %s under a condition that no interpretation meets" % (detail, show_cut(bad[0][1])))
            bad = real
            return self.viol(key, where, "%s: %s" % (detail, "; ".join("%s when %s" % (show_cut(l), show_path(p)) for p, l in bad[:3])))
        if und:
            return self.undet(key, where, "%s: %s" % (detail, show_cut(und[0][1])))
        return self.ok(key, where, detail)

    def guard(self, key, f):
        """run a rule; missing anchors fail closed, engine limits are undetermined"""
        try:
            f()
        except Missing as e:
            self.viol(key + ":anchor", "crate", "public anchor not found: %s" % e)
        except Timeout:
            raise
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError, MemoryError, AssertionError, NotImplementedError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undet(key + ":engine", "engine", "%s: %s at %s:%s" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undet(key + ":engine", "engine", "%s: %s at %s:%s" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))


def show_cut(t, n=420):
    s = str(t)
    return s if len(s) <= n else s[:n] + "…"


def conj(path):
    r = TRUE
    for a, v in path:
        r = And(r, a if v else Not(a))
    return r


def show_path(p):
    return " and ".join(("" if v else "not ") + show_cut(a, 160) for a, v in p) or "always"


def paths(t, pre=()):
    """(path condition literals, leaf) of a decision diagram, infeasible paths dropped"""
    out = []

    def go(t, pre):
        if t.op == "ite":
            a = t.args[0]
            go(t.args[1], pre + ((a, True),))
            go(t.args[2], pre + ((a, False),))
        elif feasible(pre):
            out.append((pre, t))

    go(t, pre)
    return out


def lin(a):
    """interval view of an integer atom: (poly-without-constant, kind, const)"""
    if a.op not in ("eq0", "ge0"):
        return None
    d = dict(poly_dict(a.args[0]))
    c = d.pop((), Fraction(0))
    return tuple(sorted(((m, k) for m, k in d.items()), key=lambda x: (tuple((y.id, e) for y, e in x[0]), x[1]))), a.op, c


def feasible(lits):
    """difference-constraint sanity of a set of literals (sound: False only when contradictory)"""
    box = {}
    for a, v in lits:
        l = lin(a)
        if l is None:
            continue
        m, k, c = l
        negm = tuple((x, -y) for x, y in m)
        for mm, sgn in ((m, 1), (negm, -1)):
            lo, hi, ne = box.setdefault(mm, [None, None, set()])
            if k == "eq0" and v:      # m + c == 0
                x = -c * sgn
                nlo, nhi = x, x
            elif k == "eq0":
                box[mm][2].add(-c * sgn)
                continue
            elif v:                   # m + c >= 0
                nlo, nhi = (-c, None) if sgn == 1 else (None, c)
            else:                     # m + c <= -1
                nlo, nhi = (None, -c - 1) if sgn == 1 else (c + 1, None)
            b = box[mm]
            if nlo is not None and (b[0] is None or nlo > b[0]):
                b[0] = nlo
            if nhi is not None and (b[1] is None or nhi < b[1]):
                b[1] = nhi
            if b[0] is not None and b[1] is not None and (b[0] > b[1] or (b[0] == b[1] and b[0] in b[2])):
                return False
    return True


def with_lits(t, lits):
    """t under literals {atom: bool}"""
    return assume_lits(t, {a: v for a, v in lits})


def rewrite(t, m):
    """replace sub-terms (e.g. one array length by another that the type's invariant makes equal)"""
    return subst(t, m)


def rw(t, f):
    """replace every sub-term x with f(x) is not None, binders opened (bound variables appear as fresh indices)"""
    memo = {}

    def go_any(a):
        if isinstance(a, Term):
            return go(a)
        if isinstance(a, tuple):
            return tuple(go_any(x) for x in a)
        if hasattr(a, "mapped"):
            return a.mapped(go)
        return a

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = f(x)
        if r is None:
            if x.op in VAROPS or x.op == "const" or not x.args:
                r = x
            elif x.op in BINDERS:
                r = rebuild_binder(x, go, go_any)
            else:
                a = tuple(go_any(y) for y in x.args)
                r = x if a == x.args else rebuild(x.op, a)
            if r is not x:
                r = reloop(x, r)
        memo[x] = r
        return r

    return go(t)


def instantiate_exists(t, make_true):
    """Replace every quantified atom of t that `make_true(body, k)` proves: existential introduction"""
    m = {}
    for x in subterms(t):
        if x.op == "exists":
            r = make_true(x)
            if r is not None:
                m[x] = boolc(r)
    return subst(t, m) if m else t


def ex_body(x, *vals):
    """body of exists-term x with its bound variable replaced"""
    k, lo, hi, b = x.args
    return subst(b, {mk("b", k): vals[0]})


def close_to(x, y):
    return abs(x - y) <= 1e-7 * max(1, abs(x), abs(y))


def refute(terms, runs, expect, read):
    """expect(run) against read(model) of the summary's terms, the loops' equations unfolded; a description of the first
    difference, None if there is none or the terms cannot be evaluated.  Nothing is accepted on the strength of this."""
    for t in terms:
        if t is None or dirty_eq(t) - set(interp.LOOPOPS) - {"eff", "combo", "ncomb"}:
            return None
    ints = interp.int_heads(terms)
    for run in runs:
        seed, world, bind = run
        m = interp.Model(seed, ints, bind=bind)
        try:
            want = expect(m, world, bind)
            got = read(m)
            d = want(got) if callable(want) else want != got
        except (interp.Skip, interp.Unsupported, RecursionError, KeyError, TypeError) as e:
            refute.why = "%s %s" % (type(e).__name__, e)
            if isinstance(e, interp.Skip):
                continue
            return None
        if d:
            return d
    return None
