"""Hash-consed value terms and their normal forms.

The analyses abstract every MIR value by a *term* (gated-SSA value number).  Terms are interned,
so equality of normal forms is pointer equality.

  * numbers are polynomials with rational coefficients over atoms (floats are treated as reals,
    machine integers as mathematical integers);
  * conditional values are decision diagrams ("ite" over ordered atoms); boolean terms are decision
    diagrams with leaves TRUE/FALSE, hence canonical up to propositional equivalence;
  * bound variables (sums, products, quantifiers, comprehensions, array lambdas) are numbered by
    binder height, so alpha-equivalent terms are identical.
"""
import sys
from fractions import Fraction
from math import gcd

sys.setrecursionlimit(200000)

EMPTY = frozenset()


class Term:
    __slots__ = ("op", "args", "id", "h", "fv", "_k")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_cnt = [0]

# op -> index positions: binder ops have args[0] = k (int) or tuple of ks
BINDERS = {"sum", "prod", "exists", "comp", "first", "argext", "lam", "lastw", "rec", "iterfix", "maxof"}
VAROPS = {"bv", "mu", "b", "bm"}


def _walk(a):
    if isinstance(a, Term):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            yield from _walk(x)


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is not None:
        return t
    t = Term()
    t.op, t.args = op, args
    _cnt[0] += 1
    t.id = _cnt[0]
    h = 0
    fv = EMPTY
    if op in VAROPS:
        fv = frozenset((t,))
    else:
        subs = list(_walk(args))
        for s in subs:
            if s.h > h:
                h = s.h
            if s.fv:
                fv = fv | s.fv if fv else s.fv
        if op in BINDERS:
            ks = args[0] if isinstance(args[0], tuple) else (args[0],)
            h = max((h,) + ks)
            if fv:
                fv = frozenset(
                    v
                    for v in fv
                    if not (v.op in ("b", "bm") and v.args[0] in ks)
                )
    t.h, t.fv = h, fv
    t._k = None
    _tab[key] = t
    return t


# ---------------------------------------------------------------- constants
TRUE = mk("const", "bool", True)
FALSE = mk("const", "bool", False)
BOT = mk("bot")
UNIT = mk("tup", ())
INF = mk("const", "inf", 1)


def num(x):
    return mk("const", "num", Fraction(x))


ZERO, ONE = num(0), num(1)


def boolc(b):
    return TRUE if b else FALSE


def string(s):
    return mk("const", "str", s)


def is_num(t):
    return t.op == "const" and t.args[0] == "num"


def numval(t):
    return t.args[1] if is_num(t) else None


_fresh = [0]


def fresh_bv(tag=""):
    _fresh[0] += 1
    return mk("bv", _fresh[0], tag)


# ---------------------------------------------------------------- decision diagrams
BOOLATOMS = {"is", "ge0", "eq0", "flt", "fle", "feq", "fltx", "flex", "feqx", "ge0x", "exists", "same", "in", "hasnext",
             "via", "broke", "isnan", "ordis"}


def isb(t):
    """a boolean atom in leaf position"""
    return t.op in BOOLATOMS or (t._k is True and t.op != "const")


def decision(t):
    if t.op == "ite":
        return t.args[0]
    if t.op in BOOLATOMS or (t._k is True and t.op != "const"):
        return t
    return None


def branches(t):
    if t.op == "ite":
        return t.args[1], t.args[2]
    return TRUE, FALSE


def top_atom(ts):
    best = None
    for t in ts:
        a = decision(t)
        if a is not None and (best is None or a.id < best.id):
            best = a
    return best


def cof(t, a, v):
    """cofactor of the decision diagram t on top-level atom a"""
    if t is a:
        return boolc(v)
    if t.op == "ite" and t.args[0] is a:
        return t.args[1] if v else t.args[2]
    return t


_ite_memo = {}


def node(a, t, e):
    if t is e:
        return t
    if t is BOT:
        return e
    if e is BOT:
        return t
    if t is TRUE and e is FALSE:
        return a
    if t.op in RECOPS:
        t = rec_restrict(t, a, True)
    if e.op in RECOPS:
        e = rec_restrict(e, a, False)
    if t is e:
        return t
    # field-wise merge of equal constructors
    if t.op == e.op and t.op in ("adt", "tup"):
        if t.op == "tup" and len(t.args[0]) == len(e.args[0]):
            return mk("tup", tuple(ite(a, x, y) for x, y in zip(t.args[0], e.args[0])))
        if t.op == "adt" and t.args[:3] == e.args[:3]:
            return mk("adt", *t.args[:3], tuple(ite(a, x, y) for x, y in zip(t.args[3], e.args[3])))
    if "with" in (t.op, e.op):
        tb, tf = (t.args[0], dict(t.args[1])) if t.op == "with" else (t, {})
        eb, ef = (e.args[0], dict(e.args[1])) if e.op == "with" else (e, {})
        if tb is eb:
            r = tb
            for n in sorted(set(tf) | set(ef)):
                r = with_(r, n, ite(a, tf[n] if n in tf else fld(tb, n), ef[n] if n in ef else fld(eb, n)))
            return r
    if t.op == "st" and e.op == "st" and t.args[:2] == e.args[:2]:
        return st(t.args[0], t.args[1], ite(a, t.args[2], e.args[2]))
    return mk("ite", a, t, e)


RECOPS = {"with", "withv", "adt", "tup", "st"}


def rec_restrict(t, a, v):
    """simplify the components of a record under the assumption that atom a is v"""
    if t.op == "ite":
        return restrict1(t, a, v)
    if t.op not in RECOPS or a.id > t.id:
        return t
    if t.op == "tup":
        xs = tuple(rec_restrict(x, a, v) for x in t.args[0])
        return t if xs == t.args[0] else mk("tup", xs)
    if t.op == "adt":
        xs = tuple(rec_restrict(x, a, v) for x in t.args[3])
        return t if xs == t.args[3] else mk("adt", *t.args[:3], xs)
    if t.op == "with":
        r = rec_restrict(t.args[0], a, v)
        for n, x in t.args[1]:
            r = with_(r, n, rec_restrict(x, a, v))
        return r
    if t.op == "withv":
        return withv(rec_restrict(t.args[0], a, v), t.args[1], t.args[2], rec_restrict(t.args[3], a, v))
    if t.op == "st":
        return st(rec_restrict(t.args[0], a, v), t.args[1], rec_restrict(t.args[2], a, v))
    return t


def ite(c, t, e):
    """general if-then-else over decision diagrams"""
    if c is TRUE:
        return t
    if c is FALSE:
        return e
    if c is BOT:
        return BOT
    if t is e:
        return t
    key = (c, t, e)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    if c.op != "ite":
        # plain atom
        a = c
        if c._k is None:
            c._k = True
        tt, ee = t, e
        m = top_atom((t, e))
        if m is None or a.id < m.id:
            r = node(a, t, e)
        elif m is a:
            r = node(a, cof(t, a, True), cof(e, a, False))
        else:
            r = node(m, ite(c, cof(t, m, True), cof(e, m, True)), ite(c, cof(t, m, False), cof(e, m, False)))
    else:
        m = top_atom((c, t, e))
        r = node(
            m,
            ite(cof(c, m, True), cof(t, m, True), cof(e, m, True)),
            ite(cof(c, m, False), cof(t, m, False), cof(e, m, False)),
        )
    _ite_memo[key] = r
    return r


def Not(c):
    return ite(c, FALSE, TRUE)


def And(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def Or(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def Implies(a, b):
    return ite(a, b, TRUE)


def guard(c, t):
    """t where c holds, unreachable elsewhere"""
    if c is TRUE:
        return t
    return _guard(c, t)


def _guard(c, t):
    return ite(c, t, BOT)


def merge2(c1, v1, c2, v2):
    """value that is v1 under c1, v2 under c2 (disjoint), unreachable elsewhere"""
    if v1 is v2:
        return v1
    return ite(c1, v1, ite(c2, v2, BOT))


def leaves(t, acc=None):
    """(condition, leaf) pairs of a decision diagram"""
    out = []

    def go(t, c):
        a = decision(t)
        if a is not None:
            x, y = branches(t)
            go(x, And(c, a))
            go(y, And(c, Not(a)))
        else:
            out.append((c, t))

    go(t, TRUE)
    # merge equal leaves
    d = {}
    for c, l in out:
        d[l] = Or(d[l], c) if l in d else c
    return [(c, l) for l, c in d.items()]


def leafset(t):
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if decision(x) is not None:
            st.extend(branches(x)[::-1])
        else:
            out.append(x)
    return out


def lift(f, *ts):
    """apply f to decision diagrams leaf-wise"""
    m = top_atom(ts)
    if m is None:
        return f(*ts)
    memo = {}

    def go(ts):
        if ts in memo:
            return memo[ts]
        m = top_atom(ts)
        if m is None:
            if any(t is BOT for t in ts):
                r = BOT
            else:
                r = f(*ts)
        else:
            r = ite(
                m,
                go(tuple(cof(t, m, True) for t in ts)),
                go(tuple(cof(t, m, False) for t in ts)),
            )
        memo[ts] = r
        return r

    return go(ts)


def assume(t, c):
    """simplify t under the assumption c (a boolean diagram): cofactor on the literals c implies"""
    lits = implied_literals(c)
    return assume_lits(t, lits)


def prune_under(t, c):
    """t on the cases that satisfy c: branches of t that contradict c are cut"""
    if t.op != "ite" or c is FALSE:
        return t
    a = t.args[0]
    c1, c0 = And(c, a), And(c, Not(a))
    if c1 is FALSE:
        return prune_under(t.args[2], c)
    if c0 is FALSE:
        return prune_under(t.args[1], c)
    return ite(a, prune_under(t.args[1], c1), prune_under(t.args[2], c0))


def implied_literals(c):
    """atoms whose value is forced by c"""
    lits = {}
    atoms = set()
    seen, st = set(), [c]
    while st:
        x = st.pop()
        a = decision(x)
        if x in seen or a is None:
            continue
        seen.add(x)
        atoms.add(a)
        st.extend(branches(x))
    if c.op != "ite" and c not in (TRUE, FALSE):
        return {c: True}
    for a in atoms:
        if And(c, a) is FALSE:
            lits[a] = False
        elif And(c, Not(a)) is FALSE:
            lits[a] = True
    return lits


def assume_lits(t, lits):
    if not lits:
        return t
    return subst(t, {a: boolc(v) for a, v in lits.items()})


# ---------------------------------------------------------------- polynomials
def poly_dict(t):
    if is_num(t):
        return {(): t.args[1]} if t.args[1] != 0 else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, Fraction(1)),): Fraction(1)}


def from_dict(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: (len(mc[0]), tuple((a.id, e) for a, e in mc[0])))
    return mk("poly", tuple(items))


def _arith_guard(ts):
    return any(t is INF or (t.op == "const" and t.args[0] not in ("num",)) for t in ts)


def _add2(a, b):
    if _arith_guard((a, b)):
        return mk("addx", *sorted((a, b)))
    d = poly_dict(a)
    for m, c in poly_dict(b).items():
        d[m] = d.get(m, 0) + c
    return from_dict(d)


def add(a, b):
    return lift(_add2, a, b)


def sub(a, b):
    return add(a, neg(b))


def neg(a):
    return mul(num(-1), a)


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


def _mono_expand(m):
    """poly-valued atoms with positive exponent are expanded"""
    for a, e in m:
        if a.op == "poly" and e > 0 and e.denominator == 1:
            return True
    return False


def _mul2(a, b):
    if is_num(a) and a.args[1] == 1:
        return b
    if is_num(b) and b.args[1] == 1:
        return a
    if _arith_guard((a, b)):
        if is_num(a) and a.args[1] < 0 and b is INF:
            return mk("const", "inf", -1)
        return mk("mulx", *sorted((a, b)))
    da, db = poly_dict(a), poly_dict(b)
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    # cancel  P * P^-1 when a whole polynomial meets its own inverse
    if any(_mono_expand(m) for m in d):
        r = ZERO
        for m, c in d.items():
            t = num(c)
            for at_, e in m:
                if at_.op == "poly" and e > 0 and e.denominator == 1:
                    for _ in range(int(e)):
                        t = _mul2(t, at_)
                else:
                    t = _mul2(t, from_dict({((at_, e),): Fraction(1)}))
            r = _add2(r, t)
        return r
    return from_dict(d)


def mul(a, b):
    return lift(_mul2, a, b)


def _inv(a):
    if is_num(a):
        if a.args[1] == 0:
            return mk("divzero")
        return num(1 / a.args[1])
    if _arith_guard((a,)):
        return mk("invx", a)
    d = poly_dict(a)
    if len(d) == 1:
        ((m, c),) = d.items()
        return from_dict({tuple((t, -e) for t, e in m): 1 / c})
    # scale so that the leading coefficient is 1
    lead = a.args[0][-1][1]
    p = from_dict({m: c / lead for m, c in d.items()})
    return from_dict({((p, Fraction(-1)),): 1 / lead})


def div(a, b):
    """real division"""
    return mul(a, lift(_inv, b))


def _sqrt(a):
    d = poly_dict(a) if not _arith_guard((a,)) else None
    if d is not None and len(d) == 1:
        ((m, c),) = d.items()
        if c > 0:
            from math import isqrt

            n, q = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and q * q == c.denominator:
                return from_dict({tuple((t, e / 2) for t, e in m): Fraction(n, q)})
    if d is not None and len(d) > 1:
        return from_dict({((a, Fraction(1, 2)),): Fraction(1)})
    return mk("sqrt", a)


def sqrt(a):
    return lift(_sqrt, a)


def powi(a, n):
    v = numval(n)
    if v is not None and v.denominator == 1 and 0 <= v <= 8:
        r = ONE
        for _ in range(int(v)):
            r = mul(r, a)
        return r
    if v is not None and v.denominator == 1 and -8 <= v < 0:
        return div(ONE, powi(a, num(-v)))
    return mk("pow", a, n)


def factors(t):
    """monomial list [(coeff, mono)]"""
    return [(c, m) for m, c in poly_dict(t).items()]


def is_zero(t):
    """zero test for rational expressions: clears polynomial denominators"""
    if t is ZERO:
        return True
    for _ in range(6):
        dens = set()
        d = poly_dict(t)
        for m in d:
            for a, e in m:
                if a.op == "poly" and e < 0:
                    dens.add(a)
        if not dens:
            return t is ZERO
        p = sorted(dens)[0]
        # multiply by p^k
        k = max(-e for m in d for a, e in m if a is p)
        r = {}
        acc = ZERO
        for m, c in d.items():
            e = Fraction(0)
            rest = []
            for a, x in m:
                if a is p:
                    e = x
                else:
                    rest.append((a, x))
            up = e + k
            term = from_dict({tuple(rest): c})
            if up.denominator != 1:
                return False
            for _i in range(int(up)):
                term = _mul2(term, p)
            acc = _add2(acc, term)
        t = acc
    return t is ZERO


# integer division
def idiv(a, b):
    return lift(_idiv, a, b)


def _idiv(a, b):
    if b is ONE:
        return a
    if is_num(a) and is_num(b) and b.args[1] > 0 and a.args[1] >= 0:
        return num(a.args[1] // b.args[1])
    if a is ZERO:
        return ZERO
    if a.op == "idiv":
        return _idiv(a.args[0], mul(a.args[1], b)) if mul(a.args[1], b).op != "ite" else mk("idiv", a, b)
    return mk("idiv", a, b)


def irem(a, b):
    return lift(_irem, a, b)


def _irem(a, b):
    if b is ONE or a is ZERO:
        return ZERO
    if is_num(a) and is_num(b) and b.args[1] > 0 and a.args[1] >= 0:
        return num(a.args[1] % b.args[1])
    return mk("irem", a, b)


# ---------------------------------------------------------------- comparisons
def _scale_int(p):
    d = poly_dict(p)
    g = 0
    l = 1
    for c in d.values():
        l = l * c.denominator // gcd(l, c.denominator)
    for m, c in d.items():
        if m != ():
            g = gcd(g, int(c * l))
    return d, l, g


def ge0(p):
    """integer p >= 0"""
    return lift(_ge0, p)


UNSIGNED_OPS = {"len", "card"}


def _ge0(p):
    if is_num(p):
        return boolc(p.args[1] >= 0)
    if _arith_guard((p,)):
        return mk("ge0x", p)
    d, l, g = _scale_int(p)
    if g:
        # divide by gcd of the non-constant coefficients, floor the constant
        c0 = d.get((), Fraction(0)) * l
        d = {m: c * l / g for m, c in d.items() if m != ()}
        c0 = Fraction(int((c0 / g).__floor__()))
        if c0:
            d[()] = c0
        p = from_dict(d)
    # canonical sign
    lead = _lead(p)
    if lead < 0:
        q = from_dict(_dsub_one(_dneg(poly_dict(p))))
        return Not(_ge0_atom(q))
    return _ge0_atom(p)


def _ge0_atom(p):
    # provably non-negative: all non-constant coefficients positive over unsigned atoms
    d = poly_dict(p)
    if len(d) == 2 and d.get((), None) == -1:
        e = _one_counted([m for m in d if m != ()][0], [c for m, c in d.items() if m != ()][0])
        if e is not None:
            return e
    if all(c >= 0 for c in d.values()) and all(_nonneg_mono(m) for m in d):
        return TRUE
    return mk("ge0", p)


def _one_counted(m, c):
    """a count of the indices that meet a condition is at least one exactly when some index meets it"""
    if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].op != "sum":
        return None
    k, lo, hi, b = m[0][0].args
    if b.op != "ite" or not (b.args[1] is ONE and b.args[2] is ZERO or b.args[1] is ZERO and b.args[2] is ONE):
        return None
    i = fresh_bv("idx")
    b = subst(b, {mk("b", k): i})
    if b.op != "ite":
        return None
    return close_exists(i, lo, hi, b.args[0] if b.args[1] is ONE else Not(b.args[0]))


def nonneg(t):
    return t.op in ("len", "idiv", "irem", "mod", "card", "unsigned", "count") or (
        t.op == "bv" and t.args[1] == "idx"
    ) or (t.op == "b") or is_num(t) and t.args[1] >= 0


def _nonneg_mono(m):
    return all(nonneg(a) for a, e in m)


def _dneg(d):
    return {m: -c for m, c in d.items()}


def _dsub_one(d):
    d = dict(d)
    d[()] = d.get((), Fraction(0)) - 1
    return d


def _lead(p):
    """sign of the canonical leading (non-constant) coefficient"""
    d = poly_dict(p)
    items = [(m, c) for m, c in d.items() if m != ()]
    if not items:
        return 1
    items.sort(key=lambda mc: (len(mc[0]), tuple((a.id, e) for a, e in mc[0])))
    return 1 if items[0][1] > 0 else -1


def ilt(a, b):
    return ge0(sub(sub(b, a), ONE))


def ile(a, b):
    return ge0(sub(b, a))


def ieq(a, b, unsigned=False):
    return lift(lambda x, y: _ieq(x, y, unsigned), a, b)


def _ieq(a, b, unsigned):
    if a is b:
        return TRUE
    p = _add2(a, _mul2(num(-1), b))
    if is_num(p):
        return boolc(p.args[1] == 0)
    if unsigned and (a is ZERO or b is ZERO):
        x = b if a is ZERO else a
        return Not(_ge0(_add2(x, num(-1))))
    if _lead(p) < 0:
        p = from_dict(_dneg(poly_dict(p)))
    if p.op == "sum":
        e = _one_counted(((p, 1),), 1)
        if e is not None:
            return Not(e)
    return mk("eq0", p)


def _fnorm(p):
    d = poly_dict(p)
    items = sorted(d.items(), key=lambda mc: (len(mc[0]), tuple((a.id, e) for a, e in mc[0])))
    s = abs(items[-1][1])
    return from_dict({m: c / s for m, c in d.items()})


def flt(a, b):
    """float a < b"""
    return lift(_flt, a, b)


def _flt(a, b):
    if _arith_guard((a, b)):
        return mk("fltx", a, b)
    p = _add2(b, _mul2(num(-1), a))
    if is_num(p):
        return boolc(p.args[1] > 0)
    return mk("flt", _fnorm(p))


def fle(a, b):
    return lift(_fle, a, b)


def _fle(a, b):
    if _arith_guard((a, b)):
        return mk("flex", a, b)
    p = _add2(b, _mul2(num(-1), a))
    if is_num(p):
        return boolc(p.args[1] >= 0)
    return mk("fle", _fnorm(p))


def feq(a, b):
    return lift(_feq, a, b)


def _feq(a, b):
    if _arith_guard((a, b)):
        return mk("feqx", *sorted((a, b)))
    p = _add2(b, _mul2(num(-1), a))
    if is_num(p):
        return boolc(p.args[1] == 0)
    p = _fnorm(p)
    if _lead(p) < 0:
        p = from_dict(_dneg(poly_dict(p)))
    return mk("feq", p)


def same(a, b):
    return lift(_same, a, b)


def _same(a, b):
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        return FALSE
    if a.op == "tup" and b.op == "tup" and len(a.args[0]) == len(b.args[0]):
        return And(*[same(x, y) for x, y in zip(a.args[0], b.args[0])])
    if a.op == "adt" and b.op == "adt" and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]:
            return FALSE
        return And(*[same(x, y) for x, y in zip(a.args[3], b.args[3])])
    return mk("same", *sorted((a, b)))


def tmin(a, b):
    def f(a, b):
        if a is b:
            return a
        if a.op == "unbounded":
            return b
        if b.op == "unbounded":
            return a
        p = _add2(a, _mul2(num(-1), b))
        if is_num(p):
            return a if p.args[1] <= 0 else b
        if a.op == "min" or b.op == "min":
            xs = set(a.args if a.op == "min" else (a,)) | set(b.args if b.op == "min" else (b,))
            return mk("min", *sorted(xs))
        return mk("min", *sorted((a, b)))

    return lift(f, a, b)


def tmax(a, b):
    def f(a, b):
        if a is b:
            return a
        if not _arith_guard((a, b)):
            p = _add2(a, _mul2(num(-1), b))
            if is_num(p):
                return a if p.args[1] >= 0 else b
        xs = set(a.args if a.op == "max" else (a,)) | set(b.args if b.op == "max" else (b,))
        return mk("max", *sorted(xs))

    return lift(f, a, b)


# ---------------------------------------------------------------- records
def adt(path, variant, names, vals):
    return mk("adt", path, variant, tuple(names), tuple(vals))


def tup(*xs):
    return mk("tup", tuple(xs))


def some(x):
    return adt("core::option::Option", "Some", ("0",), (x,))


NONE = adt("core::option::Option", "None", (), ())


def ok(x):
    return adt("core::result::Result", "Ok", ("0",), (x,))


def err(x):
    return adt("core::result::Result", "Err", ("0",), (x,))


def fld(base, name):
    return lift(lambda b: _fld(b, name), base)


def _fld(b, name):
    if b.op == "adt":
        if name in b.args[2]:
            return b.args[3][b.args[2].index(name)]
        return BOT
    if b.op == "tup":
        return b.args[0][int(name)]
    if b.op == "first":
        return _of_first(b, lambda e: _fld(e, name))
    if b.op == "with":
        for n, v in b.args[1]:
            if n == name:
                return v
        return fld(b.args[0], name)
    return mk("fld", b, name)


def _of_first(b, f):
    """a part of the value taken at the first index"""
    (i,), (lo, hi, c, e) = open1(b)
    return close_first(i, lo, hi, c, f(e))


def with_(base, name, val):
    return lift(lambda b: _with(b, name, val), base)


def _with(b, name, val):
    if b.op == "adt" and name in b.args[2]:
        i = b.args[2].index(name)
        return mk("adt", *b.args[:3], b.args[3][:i] + (val,) + b.args[3][i + 1 :])
    if b.op == "tup":
        i = int(name)
        return mk("tup", b.args[0][:i] + (val,) + b.args[0][i + 1 :])
    if b.op == "with":
        d = dict(b.args[1])
        inner = b.args[0]
    else:
        d = {}
        inner = b
    d[name] = val
    # writing back the field's own value is a no-op
    d = {n: v for n, v in d.items() if v is not fld(inner, n)}
    if not d:
        return inner
    return mk("with", inner, tuple(sorted(d.items())))


def vfld(base, variant, i):
    return lift(lambda b: _vfld(b, variant, i), base)


def _vfld(b, variant, i):
    if b.op == "adt":
        if b.args[1] != variant:
            return BOT
        return b.args[3][i]
    if b.op == "first":
        return _of_first(b, lambda e: _vfld(e, variant, i))
    if b.op == "withv":
        if b.args[1] == variant and b.args[2] == i:
            return b.args[3]
        return vfld(b.args[0], variant, i)
    return mk("vfld", b, variant, i)


def withv(base, variant, i, val):
    def f(b):
        if b.op == "adt":
            if b.args[1] != variant:
                return BOT
            return mk("adt", *b.args[:3], b.args[3][:i] + (val,) + b.args[3][i + 1 :])
        if b.op == "withv" and b.args[1] == variant and b.args[2] == i:
            b = b.args[0]
        if val is vfld(b, variant, i):
            return b
        return mk("withv", b, variant, i, val)

    return lift(f, base)


TWO = {
    "Option": ("None", "Some"),
    "Result": ("Ok", "Err"),
}


def isv(x, variant, variants=None):
    """x is of the given variant"""
    if variants is not None and len(variants) == 1:
        return TRUE

    def f(b):
        if b.op == "adt":
            return boolc(b.args[1] == variant)
        if b.op == "withv":
            return isv(b.args[0], variant, variants)
        if variant == "None":
            return Not(mk("is", b, "Some"))
        if variant == "Ok":
            return Not(mk("is", b, "Err"))
        if variants is not None and len(variants) == 2 and variant == variants[0] and variant not in ("Some", "Err"):
            return Not(mk("is", b, variants[1]))
        return mk("is", b, variant)

    return lift(f, x)


# ---------------------------------------------------------------- arrays
def length(a, k):
    return lift(lambda x: _len(x, k), a)


def _len(a, k):
    op = a.op
    if op in ("st", "stv"):
        return length(a.args[0], k)
    if op == "lam":
        return a.args[1][k] if k < len(a.args[1]) else mk("len", a, k)
    if op == "view":
        base, spec = a.args
        for ax, s in enumerate(spec):
            if s[0] == "ax" and s[1] == k:
                off = s[2] if len(s) > 2 else None
                return length(base, ax)
        return mk("len", a, k)
    if op == "comp" and a.args[3] is TRUE and k == 0 and a.args[5] in ("vec", "arr1"):
        return sub(a.args[2], a.args[1])
    if op == "push":
        return add(length(a.args[0], 0), ONE)
    if op == "vec":
        return num(len(a.args[0]))
    if op == "emptyvec" or op == "emptyset" or op == "emptymap":
        return ZERO
    if op == "opt_empty":
        return ZERO
    if op == "asarr":
        return length(a.args[0], k)
    return mk("len", a, k)


def spec_compose(outer, inner):
    """view(view(b, outer), inner): spec is a tuple per base axis of ('ix', t) | ('ax', k)"""
    out = []
    for s in outer:
        if s[0] == "ix":
            out.append(s)
        else:
            out.append(inner[s[1]])
    return tuple(out)


def view(base, spec):
    def f(b):
        if b.op == "view":
            return view(b.args[0], spec_compose(b.args[1], spec))
        if all(s == ("ax", i) for i, s in enumerate(spec)):
            return b
        if b.op == "lam":
            # beta-reduce into a smaller lambda
            nax = 1 + max([s[1] for s in spec if s[0] == "ax"], default=-1)
            if nax == 0:
                return at(b, tuple(s[1] for s in spec))
            vs = [fresh_bv("idx") for _ in range(nax)]
            idx = tuple(s[1] if s[0] == "ix" else vs[s[1]] for s in spec)
            lens = []
            for k in range(nax):
                ax = [i for i, s in enumerate(spec) if s == ("ax", k)][0]
                lens.append(length(b, ax))
            return close_lam(vs, lens, at(b, idx))
        return mk("view", b, spec)

    return lift(f, base)


def at(base, idx):
    """element of an array/vector at a full index tuple"""
    idx = tuple(idx)
    m = top_atom((base,) + idx)
    if m is None:
        return _at(base, idx)
    return lift(lambda b, *ix: _at(b, ix), base, *idx)


def eq_idx(a, b):
    return ieq(a, b)


def _at(b, idx):
    op = b.op
    if op == "st":
        base, j, v = b.args
        if len(j) == len(idx):
            c = And(*[eq_idx(x, y) for x, y in zip(j, idx)])
            return ite(c, v, at(base, idx)) if c is not TRUE else v
    if op == "stv":
        base, spec, v = b.args
        if len(spec) == len(idx):
            conds = []
            rem = {}
            for s, i in zip(spec, idx):
                if s[0] == "ix":
                    conds.append(eq_idx(s[1], i))
                elif s[1] in rem:
                    conds.append(eq_idx(rem[s[1]], i))
                else:
                    rem[s[1]] = i
            sub_idx = tuple(rem[k] for k in sorted(rem))
            return ite(And(*conds), at(v, sub_idx), at(base, idx))
    if op == "view":
        base, spec = b.args
        nax = 1 + max([s[1] for s in spec if s[0] == "ax"], default=-1)
        if nax == len(idx):
            return at(base, tuple(s[1] if s[0] == "ix" else idx[s[1]] for s in spec))
    if op == "lam":
        ks, lens, body = b.args
        if len(ks) == len(idx):
            return subst(body, {mk("b", k): i for k, i in zip(ks, idx)})
    if op == "comp" and b.args[3] is TRUE and len(idx) == 1 and b.args[5] in ("vec", "arr1"):
        k, lo, hi, filt, elem, kind = b.args
        return subst(elem, {mk("b", k): add(lo, idx[0])})
    if op == "vec" and len(idx) == 1:
        v = numval(idx[0])
        if v is not None and 0 <= v < len(b.args[0]):
            return b.args[0][int(v)]
    if op == "push" and len(idx) == 1:
        return ite(eq_idx(idx[0], length(b.args[0], 0)), b.args[1], at(b.args[0], idx))
    if op == "asarr":
        return at(b.args[0], idx)
    if op == "const":
        return b  # broadcast scalar
    return mk("at", b, idx)


def st(base, idx, val):
    def f(b):
        if b.op == "st" and b.args[1] == tuple(idx):
            b = b.args[0]
        if val is at(b, idx):
            return b
        return mk("st", b, tuple(idx), val)

    return lift(f, base)


def stv(base, spec, val):
    return lift(lambda b: mk("stv", b, spec, val), base)


def ndim(a):
    """number of axes if known from the term itself"""
    if a.op == "ite":
        for l in leafset(a):
            n = ndim(l)
            if n:
                return n
        return None
    if a.op == "lam":
        return len(a.args[0])
    if a.op == "st":
        return len(a.args[1])
    if a.op == "stv":
        return len(a.args[1])
    if a.op == "view":
        return 1 + max([s[1] for s in a.args[1] if s[0] == "ax"], default=-1)
    if a.op in ("comp", "vec", "push", "emptyvec"):
        return 1
    return None


# ---------------------------------------------------------------- binders
def close(bvs, parts):
    """replace the bvs by height-numbered bound variables in parts; returns (ks, new parts)"""
    h = max([p.h for p in parts if isinstance(p, Term)], default=0)
    m = {}
    ks = []
    for i, v in enumerate(reversed(bvs)):
        k = h + 1 + i
        m[v] = mk("b", k)
        ks.append(k)
    ks.reverse()
    return tuple(ks), [subst_raw(p, m) for p in parts]


def subst_raw(t, m):
    return subst(t, m)


def split_inv(t, bv):
    """decision-diagram atoms of t that do not depend on bv (top-level)"""
    return t


def _lift_invariant(t, bv, f):
    """t is a diagram; pull atoms independent of bv outside of f"""
    seen = set()
    stck = [t]
    inv = None
    while stck:
        x = stck.pop()
        a = decision(x)
        if x in seen or a is None:
            continue
        seen.add(x)
        if bv not in a.fv:
            if inv is None or a.id < inv.id:
                inv = a
        stck.extend(branches(x))
    if inv is None:
        return f(t)
    return ite(
        inv,
        _lift_invariant(restrict1(t, inv, True), bv, f),
        _lift_invariant(restrict1(t, inv, False), bv, f),
    )


def restrict1(t, a, v):
    memo = {}

    def go(t):
        if t is a:
            return boolc(v)
        if t.op != "ite":
            return t
        if t in memo:
            return memo[t]
        if t.args[0] is a:
            r = go(t.args[1] if v else t.args[2])
        else:
            r = ite(t.args[0], go(t.args[1]), go(t.args[2]))
        memo[t] = r
        return r

    return go(t)


def close_sum(bv, lo, hi, body):
    if is_num(lo) and lo is not ZERO:
        w = {bv: add(bv, lo)}
        body, hi, lo = subst(body, w), sub(hi, lo), ZERO
    def f(body):
        if body is ZERO:
            return ZERO
        if body is BOT:
            return BOT
        if body.op == "ite":
            return _sum_atom(bv, lo, hi, body)
        if _arith_guard((body,)):
            return _sum_atom(bv, lo, hi, body)
        r = ZERO
        for m, c in poly_dict(body).items():
            inv = [(a, e) for a, e in m if bv not in a.fv]
            dep = [(a, e) for a, e in m if bv in a.fv]
            k = from_dict({tuple(inv): c})
            sw = _swap_sum(bv, lo, hi, dep) if len(dep) > 0 else None
            if not dep:
                n = sub(hi, lo)
                r = add(r, mul(k, n))
            elif sw is not None:
                r = add(r, mul(k, sw))
            else:
                r = add(r, mul(k, _sum_atom(bv, lo, hi, from_dict({tuple(dep): Fraction(1)}))))
        return r

    return _lift_invariant(body, bv, f)


def _swap_sum(bv, lo, hi, dep):
    """sum_j c_j * sum_i [S_i == j] v_i  =  sum_i c_(S_i) * v_i   (S_i an element used as an index)"""
    for n, (a, e) in enumerate(dep):
        if a.op != "sum" or e != 1 or bv in a.args[1].fv or bv in a.args[2].fv:
            continue
        k, l, h, b = a.args
        if b.op != "ite" or b.args[2] is not ZERO:
            continue
        i = fresh_bv("idx")
        b = subst(b, {mk("b", k): i})
        if b.op != "ite" or b.args[2] is not ZERO:
            continue
        s = solve_eq(b.args[0], bv)
        if s is None or s.op not in ("at", "bv"):
            continue
        rest = from_dict({tuple(x for m, x in enumerate(dep) if m != n): Fraction(1)})
        v = subst(mul(b.args[1], rest), {bv: s})
        return close_sum(i, l, h, v)
    return None


def _delta(bv, lo, hi, body):
    """sum of  ite(eq0(bv - j), x, 0): a single element"""
    if body.op == "ite" and body.args[2] is ZERO:
        s = solve_eq(body.args[0], bv)
        if s is not None and in_range(s, lo, hi) is TRUE:
            return subst(body.args[1], {bv: s})
    return None


def in_range(j, lo, hi):
    """condition lo <= j < hi.  Indices into an array are assumed in bounds elsewhere."""
    return And(ile(lo, j), ilt(j, hi))


def _sum_atom(bv, lo, hi, body):
    d = _delta(bv, lo, hi, body)
    if d is not None:
        return d
    (k,), (b,) = close((bv,), (body,))
    return mk("sum", k, lo, hi, b)


def close_prod(bv, lo, hi, body):
    if is_num(lo) and lo is not ZERO:
        w = {bv: add(bv, lo)}
        body, hi, lo = subst(body, w), sub(hi, lo), ZERO
    def f(body):
        if body is ONE:
            return ONE
        if body is BOT:
            return BOT
        (k,), (b,) = close((bv,), (body,))
        if hi is lo:
            return ONE
        return mk("prod", k, lo, hi, b)

    return _lift_invariant(body, bv, f)


def close_exists(bv, lo, hi, cond):
    if is_num(lo) and lo is not ZERO:
        w = {bv: add(bv, lo)}
        cond, hi, lo = subst(cond, w), sub(hi, lo), ZERO
    def f(c):
        if c is FALSE:
            return FALSE
        if c is TRUE:
            return ge0(sub(sub(hi, lo), ONE))
        (k,), (b,) = close((bv,), (c,))
        return mk("exists", k, lo, hi, b)

    return _lift_invariant(cond, bv, f)


def close_comp(bv, lo, hi, filt, elem, kind):
    if is_num(lo) and lo is not ZERO:
        w = {bv: add(bv, lo)}
        filt, elem, hi, lo = subst(filt, w), subst(elem, w), sub(hi, lo), ZERO
    (k,), (f, e) = close((bv,), (filt, elem))
    if f is FALSE:
        return {"vec": mk("emptyvec"), "set": mk("emptyset"), "map": mk("emptymap")}.get(
            kind, mk("comp", k, lo, hi, f, e, kind)
        )
    # identity: collecting every element of a vector in order
    if kind == "vec" and f is TRUE and lo is ZERO and e.op == "at" and e.args[1] == (mk("b", k),):
        base = e.args[0]
        if mk("b", k) not in base.fv and hi is length(base, 0):
            return mk("asarr", base) if base.op not in ("param",) else mk("asarr", base)
    # collecting every element of a set into a set
    if kind == "set" and f is TRUE and lo is ZERO and e.op == "at" and e.args[1] == (mk("b", k),):
        base = e.args[0]
        if mk("b", k) not in base.fv and hi is length(base, 0) and (base.op in ("sins", "srem", "setminus") or (base.op == "comp" and base.args[5] == "set")):
            return base
    return mk("comp", k, lo, hi, f, e, kind)


def close_first(bv, lo, hi, cond, val):
    if is_num(lo) and lo is not ZERO:
        w = {bv: add(bv, lo)}
        cond, val, hi, lo = subst(cond, w), subst(val, w), sub(hi, lo), ZERO
    if bv not in val.fv:
        return val
    def f(v):
        if bv not in v.fv:
            return v
        (k,), (c, vv) = close((bv,), (cond, v))
        return mk("first", k, lo, hi, c, vv)
    if cond is not TRUE and isbool(val):
        if And(cond, val) is FALSE:
            return FALSE
        if And(cond, Not(val)) is FALSE:
            return TRUE
    return f(val)


def merge_first(t):
    """values taken at the same first index are one value taken at that index"""
    if t.op != "ite":
        return t
    groups, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "first":
            groups.setdefault(x.args[:4], set()).add(x)
        a = decision(x)
        if a is not None:
            if a.op == "first":
                groups.setdefault(a.args[:4], set()).add(a)
            st.extend(branches(x))
    for g, xs in groups.items():
        if len(xs) < 2:
            continue
        k, lo, hi, c = g
        bv = fresh_bv("idx")
        m = {mk("b", k): bv}
        cc = subst(c, m)
        t2 = subst(t, {x: subst(x.args[4], m) for x in xs})
        ex = close_exists(bv, lo, hi, cc)

        def f(v):
            return close_first(bv, lo, hi, cc, v)

        t3 = _lift_invariant(t2, bv, lambda v: f(v) if isbool(v) else v)
        if isbool(t3):
            t = t3
    return t


BOOLOPS = {"eq0", "ge0", "flt", "fle", "feq", "in", "exists", "is", "true", "false"}


def isbool(t):
    if t is TRUE or t is FALSE or t.op in BOOLOPS:
        return True
    return t.op == "ite" and isbool(t.args[1]) and isbool(t.args[2])


def close_argext(bv, lo, hi, filt, kind, key, elem):
    (k,), (f, ke, e) = close((bv,), (filt, key, elem))
    return mk("argext", k, lo, hi, f, kind, ke, e)


def close_maxof(bv, lo, hi, init, kind, elem):
    (k,), (e,) = close((bv,), (elem,))
    return mk("maxof", k, lo, hi, init, kind, e)


def close_lam(bvs, lens, body):
    ks, (b,) = close(tuple(bvs), (body,))
    # eta: lam(i.. -> at(A, i..)) is A
    if b.op == "at" and b.args[1] == tuple(mk("b", k) for k in ks):
        base = b.args[0]
        if not any(mk("b", k) in base.fv for k in ks) and all(
            length(base, i) is l for i, l in enumerate(lens)
        ):
            return base
    return mk("lam", ks, tuple(lens), b)


def close_lastw(bv, lo, hi, cond, val, init):
    (k,), (c, v) = close((bv,), (cond, val))
    return mk("lastw", k, lo, hi, c, v, init)


def solve_eq(atom, bv):
    """if atom is eq0(p) with p = bv - j (j free of bv), return j"""
    if atom.op != "eq0":
        return None
    d = poly_dict(atom.args[0])
    c = None
    rest = {}
    for m, x in d.items():
        if len(m) == 1 and m[0][0] is bv and m[0][1] == 1:
            c = x
        elif any(bv in a.fv for a, _ in m):
            return None
        else:
            rest[m] = x
    if c is None:
        return None
    return from_dict({m: -x / c for m, x in rest.items()})


# ---------------------------------------------------------------- substitution
def subst(t, m):
    if not m:
        return t
    keys_vars = all(k.op in VAROPS for k in m)
    memo = {}
    keys = frozenset(m)

    def go_any(a):
        if isinstance(a, Term):
            return go(a)
        if isinstance(a, tuple):
            return tuple(go_any(x) for x in a)
        if not keys_vars and hasattr(a, "mapped"):
            return a.mapped(go)
        return a

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        if keys_vars and not (t.fv & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if not t.args or t.op in VAROPS or t.op == "const":
            return t
        if t.op in BINDERS:
            r = rebuild_binder(t, go, go_any)
        else:
            args = tuple(go_any(a) for a in t.args)
            r = t if args == t.args else rebuild(t.op, args)
        if not keys_vars and r is not t:
            r = reloop(t, r)
        memo[t] = r
        return r

    return go(t)


def reloop(t, r):
    """a loop term whose equations were rewritten: symbols the rewriting brought into the equations become parameters"""
    if t.op not in ("rec", "broke", "via", "iters", "loopval") or r.op != t.op or r.args[-1] is t.args[-1] and t.op != "loopval":
        return r
    i = 5 if t.op == "rec" else len(t.args) - 3
    raw, sn = r.args[i + 1], r.args[-1]
    extra = sn.free([r.args[1].args[0].v] if t.op == "loopval" else []) - set(raw.v)
    if not extra:
        return r
    extra = tuple(sorted(extra))
    a = list(r.args)
    a[i] = tuple(a[i]) + extra
    a[i + 1] = type(raw)(raw.v + extra)
    return mk(r.op, *a)


def open1(t):
    """open a binder node: (bvs, args with bound variables replaced by fresh bvs)"""
    ks = t.args[0] if isinstance(t.args[0], tuple) else (t.args[0],)
    bvs = [fresh_bv("idx") for _ in ks]
    mp = {mk("b", k): v for k, v in zip(ks, bvs)}

    def go(a):
        if isinstance(a, Term):
            return subst(a, mp)
        if isinstance(a, tuple):
            return tuple(go(x) for x in a)
        return a

    return bvs, tuple(go(a) for a in t.args[1:])


def rebuild_binder(t, go, go_any):
    if t.op == "rec":
        return mk("rec", *[t.args[0]] + [go_any(a) for a in t.args[1:]])
    bvs, args = open1(t)
    args = tuple(go_any(a) for a in args)
    op = t.op
    if op == "sum":
        return close_sum(bvs[0], *args)
    if op == "prod":
        return close_prod(bvs[0], *args)
    if op == "exists":
        return close_exists(bvs[0], *args)
    if op == "comp":
        return close_comp(bvs[0], *args)
    if op == "first":
        return close_first(bvs[0], *args)
    if op == "argext":
        return close_argext(bvs[0], *args)
    if op == "maxof":
        return close_maxof(bvs[0], *args)
    if op == "lam":
        return close_lam(bvs, *args)
    if op == "lastw":
        lo, hi, c, v, init = args
        return lastwrite(bvs[0], lo, hi, c, v, init)
    raise Exception("binder " + op)


def lastwrite(bv, lo, hi, cond, val, init):
    """final value of  x := init; for bv in lo..hi { if cond { x = val } }"""
    def f(c):
        if c is FALSE:
            return init
        # unique solution
        s = None
        for l in implied_literals(c):
            if implied_literals(c)[l]:
                s = solve_eq(l, bv)
                if s is not None:
                    break
        if s is not None:
            c2 = subst(c, {bv: s})
            rng = in_range_b(s, lo, hi)
            return ite(And(c2, rng), subst(val, {bv: s}), init)
        if bv not in val.fv:
            return ite(close_exists(bv, lo, hi, c), val, init)
        return close_lastw(bv, lo, hi, c, val, init)

    return _lift_invariant(cond, bv, f)


_bounds_hook = [None]


def in_range_b(s, lo, hi):
    """range condition of an index"""
    return in_range(s, lo, hi)


def rebuild(op, a):
    if op == "poly":
        r = ZERO
        for m, c in a[0]:
            t = num(c)
            for x, e in m:
                if e == 1:
                    t = mul(t, x)
                elif e.denominator == 1 and e > 0:
                    t = mul(t, powi(x, num(e)))
                elif e.denominator == 1:
                    t = mul(t, div(ONE, powi(x, num(-e))))
                elif e == Fraction(1, 2):
                    t = mul(t, sqrt(x))
                elif e == Fraction(-1, 2):
                    t = mul(t, div(ONE, sqrt(x)))
                else:
                    t = mul(t, from_dict({((x, e),): Fraction(1)}))
            r = add(r, t)
        return r
    f = REBUILD.get(op)
    if f:
        return f(*a)
    # lift opaque operators over diagrams found in direct Term arguments
    return mk(op, *a)


def opaque(op, *args):
    return mk(op, *args)


def mapterm(op, *args):
    """build op(args) lifting ite over direct term args"""
    ts = [x for x in args if isinstance(x, Term)]
    if top_atom(ts) is None:
        return mk(op, *args)
    pos = [i for i, x in enumerate(args) if isinstance(x, Term)]

    def f(*xs):
        a = list(args)
        for i, x in zip(pos, xs):
            a[i] = x
        return mk(op, *a)

    return lift(f, *ts)


def tup_proj(t, i):
    return fld(t, str(i))


def _rb_is(x, v):
    return isv(x, v)


REBUILD = {
    "ite": ite,
    "idiv": idiv,
    "irem": irem,
    "ge0": ge0,
    "eq0": lambda p: ieq(p, ZERO),
    "flt": lambda p: flt(ZERO, p),
    "fle": lambda p: fle(ZERO, p),
    "feq": lambda p: feq(ZERO, p),
    "same": same,
    "min": lambda *xs: _fold(tmin, xs),
    "max": lambda *xs: _fold(tmax, xs),
    "fld": fld,
    "vfld": vfld,
    "withv": withv,
    "is": _rb_is,
    "len": length,
    "view": view,
    "at": at,
    "st": st,
    "stv": stv,
    "sqrt": sqrt,
    "with": lambda b, fs: _rb_with(b, fs),
    "exp": lambda x: mapterm("exp", x),
    "ln": lambda x: mapterm("ln", x),
    "addx": lambda a, b: add(a, b),
    "mulx": lambda a, b: mul(a, b),
}


def _rb_with(b, fs):
    for n, v in fs:
        b = with_(b, n, v)
    return b


def _fold(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


# ---------------------------------------------------------------- queries
def subterms(t):
    seen = set()
    stck = [t]
    while stck:
        x = stck.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in _walk(x.args):
            stck.append(a)


def contains_op(t, ops):
    return any(x.op in ops for x in subterms(t))


def find_ops(t, ops):
    return [x for x in subterms(t) if x.op in ops]


def atoms_of(c):
    out = set()
    seen, stck = set(), [c]
    while stck:
        x = stck.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            out.add(x.args[0])
            stck.extend(x.args[1:])
        elif x not in (TRUE, FALSE):
            out.add(x)
    return out


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
        return str(t)
    if depth > 40:
        return "…"
    d = depth + 1
    op, a = t.op, t.args
    if op == "const":
        return repr(a[1]) if a[0] == "str" else (str(a[1]).lower() if a[0] == "bool" else ("inf" if a[0] == "inf" else str(a[1])))
    if op == "sitekey":
        return "@%s" % (a[1],)
    if op == "poly":
        out = []
        for m, c in a[0]:
            fs = [show(x, d) + ("" if e == 1 else "^" + str(e)) for x, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if op == "ite":
        if a[1] is TRUE and a[2] is FALSE:
            return show(a[0], d)
        if a[1] is FALSE and a[2] is TRUE:
            return "!" + show(a[0], d)
        return "if(%s){%s}else{%s}" % (show(a[0], d), show(a[1], d), show(a[2], d))
    if op == "param":
        return a[0]
    if op == "fld":
        return show(a[0], d) + "." + a[1]
    if op == "vfld":
        return "%s.%s%d" % (show(a[0], d), a[1], a[2])
    if op == "at":
        return "%s[%s]" % (show(a[0], d), ",".join(show(x, d) for x in a[1]))
    if op == "len":
        return "len%d(%s)" % (a[1], show(a[0], d))
    if op == "adt":
        n = a[1]
        if not a[3]:
            return n
        return n + "{" + ", ".join("%s:%s" % (k, show(v, d)) if not k.isdigit() else show(v, d) for k, v in zip(a[2], a[3])) + "}"
    if op == "tup":
        return "(" + ", ".join(show(x, d) for x in a[0]) + ")"
    if op == "with":
        return "%s{%s}" % (show(a[0], d), ", ".join("%s:=%s" % (n, show(v, d)) for n, v in a[1]))
    if op == "bv":
        return "i%d" % a[0]
    if op == "b":
        return "$%d" % a[0]
    if op == "mu":
        return "mu%s" % (a,)[0:1] if False else "mu<%s>" % ",".join(map(str, a))
    if op in ("sum", "prod", "exists"):
        return "%s($%d in %s..%s: %s)" % (op, a[0], show(a[1], d), show(a[2], d), show(a[3], d))
    if op == "comp":
        return "[%s | $%d in %s..%s%s]%s" % (
            show(a[4], d), a[0], show(a[1], d), show(a[2], d),
            "" if a[3] is TRUE else " if " + show(a[3], d), a[5])
    if op == "lam":
        return "\\%s.%s" % (",".join("$%d<%s" % (k, show(l, d)) for k, l in zip(a[0], a[1])), show(a[2], d))
    if op in ("ge0", "eq0", "flt", "fle", "feq"):
        return {"ge0": "%s>=0", "eq0": "%s==0", "flt": "%s>.0", "fle": "%s>=.0", "feq": "%s==.0"}[op] % show(a[0], d)
    if op == "is":
        return "%s is %s" % (show(a[0], d), a[1])
    return op + "(" + ", ".join(show(x, d) for x in a) + ")"
