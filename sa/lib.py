"""Summaries of the library functions the crate uses (core/alloc/std collections and iterators,
ndarray, rand, rayon, statrs).  A function without a summary is treated as unknown: its result and
everything reachable through its `&mut` arguments become opaque."""
import re

from terms import *
import terms as T
from engine import (DIM_RE, Engine, State, const_array, is_numlike, leafset, map_leaves, short, strip_ref)

PANIC = ("core::panicking::", "std::panicking::", "std::rt::begin_panic", "core::option::unwrap_failed",
         "core::result::unwrap_failed", "core::option::expect_failed")


def prefix(path, *ps):
    return any(path.startswith(p) for p in ps)


def category(path, callee):
    if prefix(path, "rayon::"):
        return "it"
    if prefix(path, "core::iter::", "itertools::", "std::iter::"):
        return "it"
    if prefix(path, "core::option::"):
        return "opt"
    if prefix(path, "core::result::"):
        return "res"
    if prefix(path, "ndarray::"):
        return "nd"
    if prefix(path, "alloc::collections::btree::set", "std::collections::hash::set"):
        return "set"
    if prefix(path, "std::collections::hash::map", "alloc::collections::btree::map"):
        return "map"
    if prefix(path, "alloc::vec", "core::slice", "alloc::slice", "core::array"):
        return "vec"
    if prefix(path, "core::ops::arith", "core::ops::bit"):
        return "arith"
    if prefix(path, "core::cmp"):
        return "cmp"
    if re.match(r"^(std|core)::(f64|f32|num|math)", path):
        return "num"
    if prefix(path, "rand::", "rand_core::", "rand_chacha::", "rand_distr::", "getrandom"):
        return "rng"
    if prefix(path, "core::mem", "std::mem"):
        return "mem"
    if prefix(path, "core::fmt", "alloc::fmt", "alloc::string", "core::str", "alloc::str", "core::hint"):
        return "str"
    if prefix(path, "log::"):
        return "log"
    if prefix(path, "statrs::"):
        return "statrs"
    return "misc"


HASH_TABLE = re.compile(r"std::collections::hash::(map::HashMap|set::HashSet)<")
HASH_WALK = {"iter", "into_iter", "drain", "keys", "values", "into_keys", "into_values", "par_iter", "into_par_iter"}


def dispatch(en, callee, a, s, span, dty, argty, site):
    path = callee["path"]
    name = callee["name"] or path.split("::")[-1]
    if prefix(path, *PANIC):
        en.emit(s, "panic", name, [], span)
        return None
    cat = category(path, callee)
    f = globals().get("%s_%s" % (cat, name))
    cx = Cx(en, callee, s, span, dty, argty, site, path, name)
    a = [peel_view(en, s, x, argty[i] if i < len(argty) else "") for i, x in enumerate(a)]
    if f is None:
        f = globals().get("cat_" + cat)
    if callee.get("local"):
        return NotImplemented
    if f is None and name in MISC and not callee.get("local"):
        f = MISC[name]
    if f is None:
        return NotImplemented
    if prefix(path, "rayon::") and name not in ("into_par_iter", "par_iter"):
        en.emit(s, "par", name, [en.rv(s, x) for x in a], span)
    hp = None
    if en.hashorder and name in HASH_WALK and argty and HASH_TABLE.match(strip_ref(argty[0])):
        hp = cx.v(a[0])
    if en.hashorder and name in ("extend", "from_iter", "chain", "zip"):
        for i, ty in enumerate(argty):
            if (i > 0 or name == "from_iter") and HASH_TABLE.match(strip_ref(ty)):
                v = cx.v(a[i])
                b = fresh_bv("idx")
                a[i] = en.seq([(b, ZERO, _size(v))], at(mk("hperm", v), (b,)))
    r = f(cx, *a)
    if r is NotImplemented:
        return r
    if hp is not None and isinstance(r, Term):
        # the elements in the order of the table, which is not fixed
        h = mk("hperm", hp)
        b = fresh_bv("idx")
        e = at(h, (b,))
        r = en.seq([(b, ZERO, _size(hp))], fld(e, "0") if "keys" in name else fld(e, "1") if "values" in name else e)
    en.used_models[cat + "." + name] = en.used_models.get(cat + "." + name, 0) + 1
    if r is None:
        return None
    if isinstance(r, tuple):
        return r
    return r, cx.s


def peel_view(en, s, x, ty):
    """a reference to a variable that itself holds a mutable array view denotes the viewed storage"""
    if "ViewRepr<&" not in ty:
        return x
    for _ in range(4):
        if not isinstance(x, Term) or x.op != "refm":
            return x
        y = en.load_ref(s, x)
        if y.op != "refm":
            return x
        x = y
    return x


class Cx:
    def __init__(self, en, callee, s, span, dty, argty, site, path, name):
        self.en, self.callee, self.s, self.span, self.dty = en, callee, s, span, dty
        self.argty, self.site, self.path, self.name = argty, site, path, name

    def v(self, x):
        return self.en.rv(self.s, x)

    def self_ty(self):
        return self.callee.get("self_ty") or self.callee.get("impl_self") or ""

    def nd(self, x=None, i=0):
        """number of axes of the array argument"""
        if i < len(self.argty):
            m = DIM_RE.search(strip_ref(self.argty[i])) if "ArrayBase" in self.argty[i] else None
            if m:
                return int(m.group(1))
        if i == 0:
            for t in [self.self_ty()] + list(self.callee.get("args", [])):
                m = DIM_RE.search(t)
                if m:
                    return int(m.group(1))
        if x is not None:
            return ndim(x)
        return None

    def callc(self, clos, *args):
        r = self.en.call_closure(self.s, clos, list(args))
        if r is None:
            return None
        v, self.s = r
        return v

    def cond_call(self, cond, f, other):
        """v = cond ? f() : other, with the effects of f guarded by cond"""
        if cond is FALSE:
            return other
        if cond is TRUE:
            return f(self)
        base = self.s
        self.s = State(dict(base.store), And(base.cond, cond))
        if self.s.cond is FALSE:
            self.s = base
            return other
        v = f(self)
        if v is None:
            self.s = State(dict(base.store), And(base.cond, Not(cond)))
            return other
        no = State(dict(base.store), And(base.cond, Not(cond)))
        r = merge2(self.s.cond, v, no.cond, other)
        self.s = self.en.merge([self.s, no]) if no.cond is not FALSE else self.s
        return r

    def closref(self, clos):
        """keep closure state in a cell so that FnMut state survives between calls"""
        if clos.op == "adt" and clos.args[0] == "closure":
            return self.en.new_cell(self.s, clos)
        return clos

    def maypanic(self, cond, what):
        if cond is not FALSE:
            self.en.emit(State(self.s.store, And(self.s.cond, cond)), "maypanic", what, [], self.span)

    def unk(self, *args):
        return self.en.havoc_call(self.path, list(args), self.s, self.span, "model")


# ================================================================ identity-like
def ident(cx, x, *r):
    return x


def ident_v(cx, x, *r):
    return cx.v(x)


def do_index(cx, base, idx):
    """Index/IndexMut"""
    en = cx.en
    mut = cx.name == "index_mut"
    i = cx.v(idx)
    if i.op == "vec":
        ix = i.args[0]
    elif i.op == "tup":
        ix = i.args[0]
    elif i.op == "adt" and "Range" in i.args[1] or i.op == "adt" and "range" in i.args[0]:
        b = cx.v(base)
        return range_view(cx, b, i)
    else:
        ix = (i,)
    st_ = cx.self_ty()
    st_ = re.sub(r"^&(mut )?", "", st_).split("<")[0]
    if "HashMap" in st_ or "BTreeMap" in st_:
        g = mapget(cx.v(base), i)
        cx.maypanic(Not(isv(g, "Some")), "index")
        return vfld(g, "Some", 0)
    cx.maypanic(mk("oob", *ix) if False else FALSE, "index")
    if mut and any(l.op == "refm" for l in leafset(base)):
        return en.ref_ext(base, ("at", tuple(ix)))
    return at(cx.v(base), tuple(ix))


def range_bounds(i, n):
    v = i.args[1]
    if v == "Range":
        return fld(i, "start"), fld(i, "end")
    if v == "RangeFrom":
        return fld(i, "start"), n
    if v == "RangeTo":
        return ZERO, fld(i, "end")
    if v == "RangeFull":
        return ZERO, n
    if v == "RangeInclusive":
        return fld(i, "start"), add(fld(i, "end"), ONE)
    if v == "RangeToInclusive":
        return ZERO, add(fld(i, "end"), ONE)
    return None


def range_view(cx, b, i):
    r = range_bounds(i, length(b, 0))
    if r is None:
        return cx.unk(b, i)
    lo, hi = r
    if lo is ZERO and hi is length(b, 0):
        return b
    j = fresh_bv("idx")
    return close_lam([j], [sub(hi, lo)], at(b, (add(lo, j),)))


def closure_call(cx, f, args):
    t = cx.v(args)
    xs = list(t.args[0]) if t.op == "tup" else [t]
    r = cx.en.call_closure(cx.s, f, xs)
    return r


def op_branch(cx, x):
    """Try::branch"""
    x = cx.v(x)

    def f(b):
        def mkc(v, p):
            return adt("core::ops::control_flow::ControlFlow", v, ("0",), (p,))
        if "Option" in cx.self_ty():
            return ite(isv(b, "Some"), mkc("Continue", vfld(b, "Some", 0)), mkc("Break", NONE))
        return ite(isv(b, "Ok"), mkc("Continue", vfld(b, "Ok", 0)), mkc("Break", err(vfld(b, "Err", 0))))

    return lift(f, x)


def from_conv(cx, x):
    t = cx.self_ty() + " " + " ".join(cx.callee.get("args", []))
    if "SliceInfoElem" in t:
        if "RangeFull" in t:
            return adt("SIE", "Full", (), ())
        if "core::ops::range" in t or "Range" in t:
            v = cx.v(x)
            return adt("SIE", "Slice", ("0",), (v,))
        if "::Slice" in t.replace("::SliceInfo", "") or cx.v(x).op == "adt" and "SLICE" in str(cx.v(x).args[0]):
            return adt("SIE", "Slice", ("0",), (cx.v(x),))
        return adt("SIE", "Index", ("0",), (cx.v(x),))
    d = cx.dty
    if "BTreeSet" in d.split("<")[0] or "HashSet" in d.split("<")[0]:
        v = cx.v(x)
        if v.op == "vec":
            r = mk("emptyset")
            for e in v.args[0]:
                r = set_add(r, e)
            return r
        return cx.unk(x)
    if "String" in d or "str" in d or "alloc::boxed" in d:
        return cx.v(x)
    if re.match(r"^([ui](\d+|size)|f64|f32)$", d):
        if "bool" in cx.callee.get("args", []):
            return ite(cx.v(x), num(1), num(0))
        return cx.v(x)
    if "Vec" in d or "ArrayBase" in d:
        return cx.v(x)
    return cx.v(x) if cx.name == "into" and False else mk("conv", d, cx.v(x))


def misc_clone(cx, x):
    v = ident_v(cx, x)
    if re.search(r"\b(ChaCha\w*|StdRng|SmallRng)\b", cx.dty) and not re.search(r"[<(]", cx.dty):
        # a copy of a generator repeats its draws
        return mk("rngcopy", v)
    return v


MISC = {
    "clone": misc_clone, "deref": ident, "deref_mut": ident, "as_ref": ident, "as_mut": ident, "borrow": ident,
    "borrow_mut": ident, "to_owned": ident_v, "index": do_index, "index_mut": do_index, "call": closure_call,
    "call_mut": closure_call, "call_once": closure_call, "branch": op_branch, "from": from_conv, "into": from_conv,
    "must_use": ident, "black_box": ident, "as_slice": ident, "as_mut_slice": ident, "cloned": ident_v,
    "identity": ident, "into_boxed_slice": ident, "as_deref": ident, "as_str": ident,
    "into_vec": ident, "box_new": ident, "cast": ident,
}


def misc_new(cx, *a):
    if "Box" in cx.path or "boxed" in cx.path or "Rc" in cx.path or "Arc" in cx.path and "atomic" not in cx.path:
        return a[0]
    if "RangeInclusive" in cx.path:
        return adt("core::ops::range::RangeInclusive", "RangeInclusive", ("start", "end"), (cx.v(a[0]), cx.v(a[1])))
    return NotImplemented


def misc_from_residual(cx, x):
    v = cx.v(x)
    if "Option" in cx.dty:
        return NONE
    return v


def misc_from_output(cx, x):
    if "Option" in cx.dty:
        return some(x)
    return ok(x)


def misc_default(cx):
    d = cx.dty.split("<")[0]
    if re.match(r"^([ui](\d+|size)|f64|f32)$", d):
        return ZERO
    if "BTreeSet" in d or "HashSet" in d:
        return mk("emptyset")
    if d.startswith("alloc::vec::Vec"):
        return mk("emptyvec")
    if "HashMap" in d or "BTreeMap" in d:
        return mk("emptymap")
    if d.startswith("core::option::Option"):
        return NONE
    if d == "bool":
        return FALSE
    return NotImplemented


def misc_contains(cx, r, x):
    v = cx.v(r)
    if v.op == "adt" and "Range" in v.args[1]:
        x = cx.v(x)
        tys = " ".join([cx.self_ty()] + list(cx.callee.get("args", [])) + list(cx.argty[:1]))
        if re.search(r"\bf(32|64)\b", tys):
            if v.args[1] not in ("Range", "RangeInclusive"):
                return NotImplemented
            lo, hi = fld(v, "start"), fld(v, "end")
            return And(fle(lo, x), (flt if v.args[1] == "Range" else fle)(x, hi))
        b = range_bounds(v, None)
        return And(ile(b[0], x), ilt(x, b[1]))
    return NotImplemented


def misc_end(cx, r):
    return NotImplemented


def misc_start_bound(cx, r):
    return NotImplemented


# ================================================================ log / strings
def cat_log(cx, *a):
    if cx.name == "max_level":
        return mk("loglevel")
    return UNIT


def cat_str(cx, *a):
    vs = []
    for x in a:
        vs.append(cx.v(x))
    return mapterm("str", cx.name, tuple(v for v in vs if isinstance(v, Term)))


def str_to_string(cx, x):
    return mk("str", "to_string", (cx.v(x),))


def str_must_use(cx, x):
    return x


def str_black_box(cx, x):
    return x


# ================================================================ comparisons
def cmp_kind(cx):
    t = strip_ref(cx.self_ty())
    return t


def local_cmp(cx, name, a, b):
    """derived comparison of a local type"""
    t = cmp_kind(cx)
    tr = "core::cmp::PartialEq" if name in ("eq", "ne") else "core::cmp::PartialOrd"
    p = "<%s as %s>::%s" % (t, tr, name)
    fn = cx.en.fns.get(p)
    if fn is not None:
        return cx.en.call_fn(fn, [a, b], cx.s)
    if name == "ne":
        r = local_cmp(cx, "eq", a, b)
        if r is not None and r is not NotImplemented:
            return Not(r[0]), r[1]
    return NotImplemented


def do_cmp(op):
    def f(cx, a, b):
        t = cmp_kind(cx)
        if "log::Level" in t or "LevelFilter" in t:
            return FALSE
        x, y = cx.v(a), cx.v(b)
        if re.match(r"^([ui](\d+|size)|f64|f32|char|bool)$", t):
            if t == "bool":
                return cx.en.binop(op, x, y, "bool")
            return cx.en.compare(op, x, y, t)
        r = local_cmp(cx, op.lower(), x, y)
        if r is not NotImplemented:
            return r
        if op == "Eq":
            return same_deep(cx, x, y)
        if op == "Ne":
            return Not(same_deep(cx, x, y))
        if t.startswith("core::option::Option<f64>") or t.startswith("(") :
            return mapterm("cmp" + op, x, y)
        return mapterm("cmp" + op, x, y)

    return f


def same_deep(cx, x, y):
    return same(x, y)


cmp_eq, cmp_ne, cmp_lt, cmp_le, cmp_gt, cmp_ge = (do_cmp(o) for o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"))


def cmp_partial_cmp(cx, a, b):
    return some(mapterm("ord", cx.v(a), cx.v(b), "f" if strip_ref(cx.self_ty()) in ("f64", "f32") else "i"))


def cmp_cmp(cx, a, b):
    return mapterm("ord", cx.v(a), cx.v(b), "i")


def cmp_total_cmp(cx, a, b):
    return mapterm("ord", cx.v(a), cx.v(b), "f")


num_total_cmp = cmp_total_cmp


def cmp_reverse(cx, a):
    return lift(lambda o: mk("ord", o.args[1], o.args[0], o.args[2]) if o.op == "ord" else mk("ordrev", o), cx.v(a))


def cmp_max(cx, a, b):
    return tmax(cx.v(a), cx.v(b))


def cmp_min(cx, a, b):
    return tmin(cx.v(a), cx.v(b))


def _ordis(which):
    def f(cx, a):
        a = cx.v(a)
        def g(o):
            if o.op == "ord":
                lt, le, eq = (flt, fle, feq) if o.args[2] == "f" else (ilt, ile, ieq)
                x, y = o.args[0], o.args[1]
                return {"is_lt": lt(x, y), "is_le": le(x, y), "is_gt": lt(y, x), "is_ge": le(y, x), "is_eq": eq(x, y), "is_ne": Not(eq(x, y))}[which]
            return mk("ordis", which, o)
        return lift(g, a)
    return f


cmp_is_lt, cmp_is_le, cmp_is_gt, cmp_is_ge, cmp_is_eq, cmp_is_ne = (_ordis(w) for w in ("is_lt", "is_le", "is_gt", "is_ge", "is_eq", "is_ne"))


# ================================================================ numbers
def num_abs(cx, x):
    return mapterm("abs", cx.v(x))


def num_sqrt(cx, x):
    return sqrt(cx.v(x))


def num_ln(cx, x):
    return lift(lambda v: ZERO if v is ONE else mk("ln", v), cx.v(x))


def num_exp(cx, x):
    return lift(lambda v: ONE if v is ZERO else mk("exp", v), cx.v(x))


def num_powf(cx, b, e):
    b, e = cx.v(b), cx.v(e)
    if b.op == "E":
        return lift(lambda v: ONE if v is ZERO else mk("exp", v), e)
    if is_num(e):
        q = e.args[1]
        if q == 2:
            return mul(b, b)
        if q.denominator == 1:
            return powi(b, e)
        if q * 2 == 1:
            return sqrt(b)
    return mapterm("pow", b, e)


def num_powi(cx, b, n):
    return powi(cx.v(b), cx.v(n))


num_pow = num_powi


def num_max(cx, a, b):
    return tmax(cx.v(a), cx.v(b))


def num_min(cx, a, b):
    return tmin(cx.v(a), cx.v(b))


def num_recip(cx, a):
    return div(ONE, cx.v(a))


def num_mul_add(cx, a, b, c):
    return add(mul(cx.v(a), cx.v(b)), cx.v(c))


def num_abs_diff(cx, a, b):
    return mapterm("abs", sub(cx.v(a), cx.v(b)))


def num_is_nan(cx, a):
    return mapterm("isnan", cx.v(a))


def num_saturating_sub(cx, a, b):
    d = sub(cx.v(a), cx.v(b))
    return ite(ge0(d), d, ZERO)


def num_wrapping_add(cx, a, b):
    return add(cx.v(a), cx.v(b))


def num_wrapping_mul(cx, a, b):
    return mul(cx.v(a), cx.v(b))


def num_checked_div(cx, a, b):
    return ite(ieq(cx.v(b), ZERO, True), NONE, some(idiv(cx.v(a), cx.v(b))))


def num_rem_euclid(cx, a, b):
    return irem(cx.v(a), cx.v(b))


def num_div_euclid(cx, a, b):
    return idiv(cx.v(a), cx.v(b))


def cat_num(cx, *a):
    return mapterm("num." + cx.name, *[cx.v(x) for x in a])


# ================================================================ arithmetic traits
OPS = {"add": add, "sub": sub, "mul": mul, "div": div}


def is_arr_ty(t):
    return "ArrayBase" in t


def elementwise(cx, f, x, y, nx, ny):
    n = max(nx or 0, ny or 0)
    js = [fresh_bv("idx") for _ in range(n)]

    def get(a, na):
        if not na:
            return a
        idx = []
        for k, j in enumerate(js[n - na:]):
            idx.append(ZERO if length(a, k) is ONE else j)
        return at(a, tuple(idx))

    lens = []
    for k in range(n):
        l = ONE
        for a, na in ((x, nx), (y, ny)):
            if na and k - (n - na) >= 0:
                q = length(a, k - (n - na))
                if q is not ONE and l is ONE:
                    l = q
        lens.append(l)
    return close_lam(js, lens, f(get(x, nx), get(y, ny)))


def arith_ty(cx, i):
    t = cx.argty[i] if i < len(cx.argty) else ""
    if not t and i == 0:
        t = cx.self_ty()
    if not t and i == 1:
        ar = cx.callee.get("args", [])
        t = ar[1] if len(ar) > 1 else ""
    return t


def ty_nd(t):
    if "ArrayBase" not in t:
        return 0
    m = DIM_RE.search(t)
    return int(m.group(1)) if m else None


def scalar_op(op, t):
    if op == "div":
        return div if re.search(r"f64|f32", t) else idiv
    if op == "rem":
        return irem
    return OPS[op]


def arith_bin(op):
    def f(cx, a, b):
        x, y = cx.v(a), cx.v(b)
        ta, tb = arith_ty(cx, 0), arith_ty(cx, 1)
        gen = cx.callee.get("args", [])
        if len(gen) > 0 and not is_arr_ty(ta):
            ta = ta if is_arr_ty(ta) or not is_arr_ty(gen[0]) else gen[0]
        if len(gen) > 1 and not is_arr_ty(tb) and is_arr_ty(gen[1]):
            tb = gen[1]
        na, nb = ty_nd(ta), ty_nd(tb)
        if na is None:
            na = ndim(x)
        if nb is None:
            nb = ndim(y)
        sop = scalar_op(op, ta + tb)
        if na or nb:
            return elementwise(cx, sop, x, y, na, nb)
        return sop(x, y)

    return f


def arith_assign(op):
    g = arith_bin(op)

    def f(cx, a, b):
        r = g(cx, a, b)
        cx.en.store_ref(cx.s, a, r)
        return UNIT

    return f


for _o in ("add", "sub", "mul", "div", "rem"):
    globals()["arith_" + _o] = arith_bin(_o)
    globals()["arith_" + _o + "_assign"] = arith_assign(_o)


def arith_neg(cx, a):
    x = cx.v(a)
    t = arith_ty(cx, 0)
    n = ty_nd(t) if is_arr_ty(t) else (ty_nd(cx.self_ty()) if is_arr_ty(cx.self_ty()) else 0)
    if n:
        js = [fresh_bv("idx") for _ in range(n)]
        return close_lam(js, [length(x, k) for k in range(n)], neg(at(x, tuple(js))))
    return neg(x)


def arith_not(cx, a):
    return Not(cx.v(a))


# ================================================================ mem
def mem_swap(cx, a, b):
    x, y = cx.en.load_ref(cx.s, a), cx.en.load_ref(cx.s, b)
    cx.en.store_ref(cx.s, a, y)
    cx.en.store_ref(cx.s, b, x)
    return UNIT


def mem_replace(cx, a, b):
    x = cx.en.load_ref(cx.s, a)
    cx.en.store_ref(cx.s, a, b)
    return x


def mem_take(cx, a):
    x = cx.en.load_ref(cx.s, a)
    d = misc_default(cx)
    if d is NotImplemented:
        return NotImplemented
    cx.en.store_ref(cx.s, a, d)
    return x


def mem_drop(cx, a):
    return UNIT


# ================================================================ Option / Result
def opt_unwrap(cx, x, *r):
    x = cx.v(x)
    cx.maypanic(Not(isv(x, "Some")), cx.name)
    return vfld(x, "Some", 0)


opt_expect = opt_unwrap_unchecked = opt_unwrap


def opt_is_some(cx, x):
    return isv(cx.v(x), "Some")


def opt_is_none(cx, x):
    return Not(isv(cx.v(x), "Some"))


def _payload(cx, x, variant="Some"):
    """payload of an Option that may be behind &mut"""
    return vfld(cx.v(x), variant, 0)


def opt_as_ref(cx, x):
    return cx.v(x)


opt_as_deref = opt_cloned = opt_copied = opt_as_ref


def opt_as_mut(cx, x):
    v = cx.v(x)
    if any(l.op == "refm" for l in leafset(x)):
        return ite(isv(v, "Some"), some(cx.en.ref_ext(x, ("v", "Some", 0))), NONE)
    return v


opt_as_deref_mut = opt_as_mut


def opt_map(cx, x, f):
    v = cx.v(x)
    c = isv(v, "Some")
    return cx.cond_call(c, lambda cx: _w(some, cx.callc(f, vfld(v, "Some", 0))), NONE)


def _w(g, x):
    return None if x is None else g(x)


def opt_and_then(cx, x, f):
    v = cx.v(x)
    return cx.cond_call(isv(v, "Some"), lambda cx: cx.callc(f, vfld(v, "Some", 0)), NONE)


def opt_is_some_and(cx, x, f):
    v = cx.v(x)
    return cx.cond_call(isv(v, "Some"), lambda cx: cx.callc(f, vfld(v, "Some", 0)), FALSE)


def opt_is_none_or(cx, x, f):
    v = cx.v(x)
    return cx.cond_call(isv(v, "Some"), lambda cx: cx.callc(f, vfld(v, "Some", 0)), TRUE)


def opt_filter(cx, x, f):
    v = cx.v(x)
    c = isv(v, "Some")
    r = cx.cond_call(c, lambda cx: cx.callc(f, vfld(v, "Some", 0)), FALSE)
    return ite(r, v, NONE)


def opt_unwrap_or(cx, x, d):
    v = cx.v(x)
    return ite(isv(v, "Some"), vfld(v, "Some", 0), d)


def opt_unwrap_or_default(cx, x):
    v = cx.v(x)
    d = misc_default(cx)
    if d is NotImplemented:
        return d
    return ite(isv(v, "Some"), vfld(v, "Some", 0), d)


def opt_unwrap_or_else(cx, x, f):
    v = cx.v(x)
    return cx.cond_call(Not(isv(v, "Some")), lambda cx: cx.callc(f), vfld(v, "Some", 0))


def opt_map_or(cx, x, d, f):
    v = cx.v(x)
    return cx.cond_call(isv(v, "Some"), lambda cx: cx.callc(f, vfld(v, "Some", 0)), d)


def opt_map_or_else(cx, x, d, f):
    v = cx.v(x)
    c = isv(v, "Some")
    r = cx.cond_call(Not(c), lambda cx: cx.callc(d), BOT)
    q = cx.cond_call(c, lambda cx: cx.callc(f, vfld(v, "Some", 0)), BOT)
    return ite(c, q, r)


def opt_ok_or(cx, x, e):
    v = cx.v(x)
    return ite(isv(v, "Some"), ok(vfld(v, "Some", 0)), err(e))


def opt_ok_or_else(cx, x, f):
    v = cx.v(x)
    c = isv(v, "Some")
    return cx.cond_call(Not(c), lambda cx: _w(err, cx.callc(f)), ok(vfld(v, "Some", 0)))


def opt_or(cx, x, y):
    v = cx.v(x)
    return ite(isv(v, "Some"), v, cx.v(y))


def opt_or_else(cx, x, f):
    v = cx.v(x)
    return cx.cond_call(Not(isv(v, "Some")), lambda cx: cx.callc(f), v)


def opt_take(cx, x):
    v = cx.en.load_ref(cx.s, x)
    cx.en.store_ref(cx.s, x, NONE)
    return v


def opt_replace(cx, x, y):
    v = cx.en.load_ref(cx.s, x)
    cx.en.store_ref(cx.s, x, some(y))
    return v


def opt_insert(cx, x, y):
    cx.en.store_ref(cx.s, x, some(y))
    return cx.en.ref_ext(x, ("v", "Some", 0))


def opt_get_or_insert_with(cx, x, f):
    v = cx.en.load_ref(cx.s, x)
    r = cx.cond_call(Not(isv(v, "Some")), lambda cx: _w(some, cx.callc(f)), v)
    cx.en.store_ref(cx.s, x, r)
    return cx.en.ref_ext(x, ("v", "Some", 0))


def opt_get_or_insert(cx, x, y):
    v = cx.en.load_ref(cx.s, x)
    cx.en.store_ref(cx.s, x, ite(isv(v, "Some"), v, some(y)))
    return cx.en.ref_ext(x, ("v", "Some", 0))


def opt_iter(cx, x):
    return opt_seq(cx.en, cx.v(x))


opt_into_iter = opt_iter


def opt_seq(en, v):
    b = fresh_bv("idx")
    return en.seq([(b, ZERO, ONE)], vfld(v, "Some", 0), isv(v, "Some"))


def res_unwrap(cx, x, *r):
    x = cx.v(x)
    cx.maypanic(Not(isv(x, "Ok")), cx.name)
    return vfld(x, "Ok", 0)


res_expect = res_unwrap


def res_unwrap_err(cx, x, *r):
    x = cx.v(x)
    return vfld(x, "Err", 0)


def res_is_ok(cx, x):
    return isv(cx.v(x), "Ok")


def res_is_err(cx, x):
    return Not(isv(cx.v(x), "Ok"))


def res_ok(cx, x):
    v = cx.v(x)
    return ite(isv(v, "Ok"), some(vfld(v, "Ok", 0)), NONE)


def res_err(cx, x):
    v = cx.v(x)
    return ite(isv(v, "Ok"), NONE, some(vfld(v, "Err", 0)))


def res_as_ref(cx, x):
    return cx.v(x)


res_cloned = res_copied = res_as_ref


def res_map(cx, x, f):
    v = cx.v(x)
    c = isv(v, "Ok")
    return cx.cond_call(c, lambda cx: _w(ok, cx.callc(f, vfld(v, "Ok", 0))), err(vfld(v, "Err", 0)))


def res_map_err(cx, x, f):
    v = cx.v(x)
    c = isv(v, "Ok")
    return cx.cond_call(Not(c), lambda cx: _w(err, cx.callc(f, vfld(v, "Err", 0))), ok(vfld(v, "Ok", 0)))


def res_and_then(cx, x, f):
    v = cx.v(x)
    c = isv(v, "Ok")
    return cx.cond_call(c, lambda cx: cx.callc(f, vfld(v, "Ok", 0)), err(vfld(v, "Err", 0)))


def res_unwrap_or(cx, x, d):
    v = cx.v(x)
    return ite(isv(v, "Ok"), vfld(v, "Ok", 0), d)


def res_unwrap_or_else(cx, x, f):
    v = cx.v(x)
    return cx.cond_call(Not(isv(v, "Ok")), lambda cx: cx.callc(f, vfld(v, "Err", 0)), vfld(v, "Ok", 0))


def res_inspect_err(cx, x, f):
    v = cx.v(x)
    cx.cond_call(Not(isv(v, "Ok")), lambda cx: cx.callc(f, vfld(v, "Err", 0)), UNIT)
    return v


def res_or_else(cx, x, f):
    v = cx.v(x)
    return cx.cond_call(Not(isv(v, "Ok")), lambda cx: cx.callc(f, vfld(v, "Err", 0)), v)


# ================================================================ random numbers
def site_key(cx):
    return mk("sitekey", tuple(cx.en.stack), cx.site or (), tuple(l.uid for l in cx.en.loopstack))


def _draw(cx, kind, rng, *args):
    r = cx.en.rv(cx.s, rng)
    d = mk("draw", kind, tuple(args), r, site_key(cx), cx.en.iter_vars())
    cx.en.emit(cx.s, "draw", kind, list(args) + [r], cx.span, d)
    return d


def rng_gen_range(cx, rng, r):
    r = cx.v(r)
    if r.op == "adt" and r.args[1] == "RangeInclusive":
        return _draw(cx, "rangeinc", rng, fld(r, "start"), fld(r, "end"))
    if r.op == "adt" and r.args[1] == "Range":
        return _draw(cx, "range", rng, fld(r, "start"), fld(r, "end"))
    return _draw(cx, "range?", rng, r)


rng_random_range = rng_gen_range


def rng_gen(cx, rng=None):
    if rng is None:
        return mk("rngentropy", site_key(cx))
    return _draw(cx, "unit", rng)


rng_random = rng_gen


def rng_gen_bool(cx, rng, p):
    return _draw(cx, "bool", rng, cx.v(p))


rng_random_bool = rng_gen_bool


def rng_seed_from_u64(cx, s):
    return mk("rngseed", cx.v(s))


def rng_from_entropy(cx, *a):
    cx.en.emit(cx.s, "entropy", cx.path, [], cx.span)
    return mk("rngentropy", site_key(cx))


rng_thread_rng = rng_from_os_rng = rng_random_seed = rng_from_entropy


def rng_clone(cx, r):
    # a copy repeats the draws of the original
    return mk("rngcopy", cx.v(r))


def cat_rng(cx, *a):
    if cx.name in ("thread_rng", "random", "from_entropy", "getrandom", "from_os_rng", "rng"):
        cx.en.emit(cx.s, "entropy", cx.path, [], cx.span)
        return mk("rngentropy", site_key(cx))
    if cx.name in ("clone",):
        return mk("rngcopy", cx.v(a[0]))
    if cx.name.startswith("set_") and a and a[0].op == "refm":
        # the stream is repositioned: from here on it is another one
        cx.en.store_ref(cx.s, a[0], mk("rngmoved", cx.name, cx.v(a[0]), tuple(cx.v(x) for x in a[1:])))
        return UNIT
    if a and any(l.op == "refm" for x in a for l in leafset(x)):
        rng = [x for x in a if any(l.op == "refm" for l in leafset(x))][-1]
        return _draw(cx, cx.name, rng, *[cx.v(x) for x in a if x is not rng])
    return mapterm("libcall", cx.path, tuple(cx.v(x) for x in a))


# ================================================================ statrs
def cat_statrs(cx, *a):
    """statrs is a library of pure functions: named by type (or module) and function"""
    nm = "::".join(re.sub(r"<.*?>", "", cx.path).split("::")[-2:])
    a = tuple(cx.v(x) for x in a)
    if nm == "ContinuousCDF::sf":
        return sub(ONE, mk("stat", "ContinuousCDF::cdf", a))
    return mk("stat", nm, a)


# ================================================================ collections
def vec_new(cx, *a):
    return mk("emptyvec")


vec_with_capacity = vec_new


def vec_from_elem(cx, v, n):
    return const_array(cx.v(v), (cx.v(n),))


def vec_push(cx, r, x):
    v = cx.en.load_ref(cx.s, r)
    cx.en.store_ref(cx.s, r, lift(lambda b: mk("vec", b.args[0] + (x,)) if b.op == "vec" else mk("push", b, x), v)
                    if v.op != "emptyvec" or cx.en.loopstack else mk("push", v, x))
    return UNIT


def _size(v):
    return lift(lambda b: length(b, 0), v)


def vec_len(cx, x):
    return _size(cx.v(x))


def vec_is_empty(cx, x):
    return ieq(_size(cx.v(x)), ZERO, True)


def vec_iter(cx, x):
    return make_seq(cx.en, cx.s, cx.v(x))


def vec_iter_mut(cx, x):
    return make_seq(cx.en, cx.s, x)


def vec_into_iter(cx, x):
    return make_seq(cx.en, cx.s, x)


def _getopt(cx, v, i):
    n = _size(v)
    return ite(ilt(i, n), some(at(v, (i,))), NONE)


def vec_last(cx, x):
    v = cx.v(x)
    n = _size(v)
    return ite(ieq(n, ZERO, True), NONE, some(at(v, (sub(n, ONE),))))


def vec_last_mut(cx, x):
    v = cx.v(x)
    n = _size(v)
    return ite(ieq(n, ZERO, True), NONE, some(cx.en.ref_ext(x, ("at", (sub(n, ONE),)))))


def vec_first(cx, x):
    v = cx.v(x)
    return ite(ieq(_size(v), ZERO, True), NONE, some(at(v, (ZERO,))))


def vec_get(cx, x, i):
    v, i = cx.v(x), cx.v(i)
    if i.op == "adt":
        return NotImplemented
    return _getopt(cx, v, i)


def vec_get_mut(cx, x, i):
    v, i = cx.v(x), cx.v(i)
    if i.op == "adt":
        return NotImplemented
    return ite(ilt(i, _size(v)), some(cx.en.ref_ext(x, ("at", (i,)))), NONE)


def vec_to_vec(cx, x):
    return cx.v(x)


def vec_contains(cx, x, e):
    v, e = cx.v(x), cx.v(e)
    b = fresh_bv("idx")
    return close_exists(b, ZERO, _size(v), elem_eq(at(v, (b,)), e))


def elem_eq(a, b):
    if is_numlike(a) and is_numlike(b):
        return ieq(a, b)
    return same(a, b)


def vec_clear(cx, r):
    cx.en.store_ref(cx.s, r, mk("emptyvec"))
    return UNIT


def vec_swap(cx, r, i, j):
    i, j = cx.v(i), cx.v(j)
    v = cx.v(r)
    a, b = at(v, (i,)), at(v, (j,))
    cx.en.store_ref(cx.s, r, T.st(T.st(v, (i,), b), (j,), a))
    return UNIT


def vec_fill(cx, r, x):
    v = cx.v(r)
    cx.en.store_ref(cx.s, r, const_array(cx.v(x), (_size(v),)))
    return UNIT


def vec_extend(cx, r, it):
    return extend_into(cx, r, it, "push")


vec_extend_from_slice = vec_extend


def vec_windows(cx, x, n):
    v, n = cx.v(x), cx.v(n)
    k = numval(n)
    if k is None or k > 8:
        return NotImplemented
    k = int(k)
    b = fresh_bv("idx")
    el = mk("vec", tuple(at(v, (add(b, num(j)),)) for j in range(k)))
    return cx.en.seq([(b, ZERO, sub(_size(v), num(k - 1)))], el)


def vec_resize(cx, r, n, x):
    v = cx.v(r)
    if v.op == "emptyvec":
        cx.en.store_ref(cx.s, r, const_array(cx.v(x), (cx.v(n),)))
        return UNIT
    return NotImplemented


def vec_pop(cx, r):
    v = cx.v(r)
    if v.op == "push":
        cx.en.store_ref(cx.s, r, v.args[0])
        return some(v.args[1])
    n = _size(v)
    if v.op in ("mu", "rec"):
        return NotImplemented
    b = fresh_bv("idx")
    z = ieq(n, ZERO, True)
    cx.en.store_ref(cx.s, r, ite(z, v, T.close_comp(b, ZERO, sub(n, ONE), TRUE, at(v, (b,)), "vec")))
    return ite(z, NONE, some(at(v, (sub(n, ONE),))))


def vec_reverse(cx, r):
    v = cx.v(r)
    n = _size(v)
    b = fresh_bv("idx")
    cx.en.store_ref(cx.s, r, T.close_comp(b, ZERO, n, TRUE, at(v, (sub(sub(n, ONE), b),)), "vec"))
    return UNIT


def vec_truncate(cx, r, m):
    v, m = cx.v(r), cx.v(m)
    b = fresh_bv("idx")
    cx.en.store_ref(cx.s, r, T.close_comp(b, ZERO, T.tmin(_size(v), m), TRUE, at(v, (b,)), "vec"))
    return UNIT


def vec_resize(cx, r, n, x):
    v, n, x = cx.v(r), cx.v(n), cx.v(x)
    b = fresh_bv("idx")
    m = _size(v)
    e = x if m is ZERO else ite(ilt(b, m), at(v, (b,)), x)
    cx.en.store_ref(cx.s, r, T.close_comp(b, ZERO, n, TRUE, e, "vec"))
    return UNIT


def vec_split_first(cx, x):
    v = cx.v(x)
    b = fresh_bv("idx")
    n = _size(v)
    return ite(ieq(n, ZERO, True), NONE, some(tup(at(v, (ZERO,)), T.close_comp(b, ZERO, sub(n, ONE), TRUE, at(v, (add(b, ONE),)), "vec"))))


def vec_split_last(cx, x):
    v = cx.v(x)
    b = fresh_bv("idx")
    n = _size(v)
    return ite(ieq(n, ZERO, True), NONE, some(tup(at(v, (sub(n, ONE),)), T.close_comp(b, ZERO, sub(n, ONE), TRUE, at(v, (b,)), "vec"))))


def vec_into_vec(cx, x):
    return cx.v(x)


vec_box_new = vec_as_slice = vec_as_mut_slice = vec_into_boxed_slice = ident
vec_clone = ident_v


def vec_map(cx, x, f):
    """array::map"""
    v = cx.v(x)
    if v.op == "vec":
        out = []
        for e in v.args[0]:
            r = cx.callc(f, e)
            if r is None:
                return None
            out.append(r)
        return mk("vec", tuple(out))
    return NotImplemented


def vec_sum(cx, x):
    return NotImplemented


# sets
def in_set(x, s):
    def f(x, b):
        if b.op == "emptyset":
            return FALSE
        if b.op == "sins":
            return Or(elem_eq(x, b.args[1]), in_set(x, b.args[0]))
        if b.op == "srem":
            return And(Not(elem_eq(x, b.args[1])), in_set(x, b.args[0]))
        if b.op == "comp":
            k, lo, hi, filt, elem, kind = b.args
            if elem is mk("b", k):
                return And(in_range(x, lo, hi), subst(filt, {mk("b", k): x}))
        return mk("in", x, b)

    return lift(f, x, s)


REBUILD["in"] = in_set


def set_add(s, x):
    def f(b, x):
        if b.op == "srem" and b.args[1] is x:
            pass
        if b.op == "sins" and b.args[1] is x:
            return b
        return mk("sins", b, x)

    return lift(f, s, x)


def set_del(s, x):
    def f(b, x):
        if b.op == "emptyset":
            return b
        if b.op == "sins" and b.args[1] is x:
            return set_del(b.args[0], x)
        if b.op == "srem" and b.args[1] is x:
            return b
        return mk("srem", b, x)

    return lift(f, s, x)


REBUILD["sins"] = set_add
REBUILD["srem"] = set_del


def set_new(cx):
    return mk("emptyset")


def set_insert(cx, r, x):
    v = cx.en.load_ref(cx.s, r)
    x = cx.v(x)
    cx.en.store_ref(cx.s, r, set_add(v, x))
    return Not(in_set(x, v))


def set_remove(cx, r, x):
    v = cx.en.load_ref(cx.s, r)
    x = cx.v(x)
    cx.en.store_ref(cx.s, r, set_del(v, x))
    return in_set(x, v)


def set_contains(cx, r, x):
    return in_set(cx.v(x), cx.v(r))


def set_len(cx, x):
    return _size(cx.v(x))


set_is_empty = vec_is_empty
set_iter = vec_iter
set_into_iter = vec_into_iter
set_clone = ident_v


def set_clear(cx, r):
    cx.en.store_ref(cx.s, r, mk("emptyset"))
    return UNIT


def set_extend(cx, r, it):
    return extend_into(cx, r, it, "sins")


def set_range(cx, x, r):
    v, r = cx.v(x), cx.v(r)
    if r.op != "adt":
        return NotImplemented
    sq = make_seq(cx.en, cx.s, v)
    b, filt, elem, stg, rev = sq.args
    c = TRUE
    k = r.args[1]
    if k in ("Range", "RangeFrom", "RangeInclusive"):
        c = And(c, ile(fld(r, "start"), elem))
    if k in ("Range", "RangeTo"):
        c = And(c, ilt(elem, fld(r, "end")))
    if k in ("RangeInclusive", "RangeToInclusive"):
        c = And(c, ile(elem, fld(r, "end")))
    return cx.en.seq(b, elem, And(filt, c), stg, rev)


def _setop(cx, a, b, pred):
    sq = make_seq(cx.en, cx.s, cx.v(a))
    bb, filt, elem, stg, rev = sq.args
    return cx.en.seq(bb, elem, And(filt, pred(elem, cx.v(b))), stg, rev)


def set_difference(cx, a, b):
    return _setop(cx, a, b, lambda e, s: Not(in_set(e, s)))


def set_intersection(cx, a, b):
    return _setop(cx, a, b, lambda e, s: in_set(e, s))


def set_first(cx, x):
    v = cx.v(x)
    return ite(ieq(_size(v), ZERO, True), NONE, some(at(v, (ZERO,))))


def set_last(cx, x):
    return vec_last(cx, x)


def set_retain(cx, r, f):
    v = cx.v(r)
    sq = make_seq(cx.en, cx.s, v)
    b, filt, elem, stg, rev = sq.args
    c = cx.en.is_pure(cx.s, lambda s: cx.en.call_closure(s, f, [elem]))
    if c is None or len(b) != 1:
        return NotImplemented
    cx.en.store_ref(cx.s, r, close_comp(b[0][0], b[0][1], b[0][2], And(filt, c), elem, "set"))
    return UNIT


# maps
def mapget(m, k):
    def f(m, k):
        if m.op == "emptymap":
            return NONE
        if m.op == "mins":
            c = same(m.args[1], k)
            return ite(c, some(m.args[2]), mapget(m.args[0], k))
        if k.op == "fld" and k.args[1] == "0" and k.args[0].op == "at" and k.args[0].args[0] is m:
            return some(fld(k.args[0], "1"))  # a key found by walking over the map
        return mk("mapget", m, k)

    return lift(f, m, k)


REBUILD["mapget"] = mapget


def map_new(cx):
    return mk("emptymap")


map_with_capacity = lambda cx, *a: mk("emptymap")


def map_get(cx, m, k):
    return mapget(cx.v(m), cx.v(k))


def map_contains_key(cx, m, k):
    return isv(mapget(cx.v(m), cx.v(k)), "Some")


def map_insert(cx, r, k, v):
    m = cx.en.load_ref(cx.s, r)
    k, v = cx.v(k), cx.v(v)
    cx.en.store_ref(cx.s, r, mk("mins", m, k, v))
    cx.en.emit(cx.s, "mapinsert", "insert", [m, k, v], cx.span)
    return mapget(m, k)


def map_remove(cx, r, k):
    m = cx.en.load_ref(cx.s, r)
    cx.en.store_ref(cx.s, r, mk("mrem", m, cx.v(k)))
    return mapget(m, cx.v(k))


def map_iter(cx, x):
    return make_seq(cx.en, cx.s, cx.v(x))


map_into_iter = map_iter
map_clone = ident_v
map_len = set_len
map_is_empty = vec_is_empty


def map_keys(cx, x):
    sq = make_seq(cx.en, cx.s, cx.v(x))
    b, filt, elem, stg, rev = sq.args
    return cx.en.seq(b, fld(elem, "0"), filt, stg, rev)


def map_values(cx, x):
    sq = make_seq(cx.en, cx.s, cx.v(x))
    b, filt, elem, stg, rev = sq.args
    return cx.en.seq(b, fld(elem, "1"), filt, stg, rev)


def map_clear(cx, r):
    cx.en.store_ref(cx.s, r, mk("emptymap"))
    return UNIT


def map_entry(cx, r, k):
    return adt("ENTRY", "ENTRY", ("map", "key"), (r, cx.v(k)))


def map_or_insert_with(cx, e, f):
    r, k = fld(e, "map"), fld(e, "key")
    m = cx.en.load_ref(cx.s, r)
    g = mapget(m, k)
    c = isv(g, "Some")
    v = cx.cond_call(Not(c), lambda cx: cx.callc(f), vfld(g, "Some", 0))
    if v is None:
        return None
    m = cx.en.load_ref(cx.s, r)
    newv = restrict_leaf(v, c)
    cx.en.store_ref(cx.s, r, ite(c, m, mk("mins", m, k, newv)))
    cx.en.emit(State(cx.s.store, And(cx.s.cond, Not(c))), "mapinsert", "or_insert_with", [m, k, newv], cx.span)
    return v


def restrict_leaf(v, c):
    """value of v when c is false"""
    return assume(v, Not(c))


def map_or_insert(cx, e, x):
    r, k = fld(e, "map"), fld(e, "key")
    m = cx.en.load_ref(cx.s, r)
    g = mapget(m, k)
    c = isv(g, "Some")
    cx.en.store_ref(cx.s, r, ite(c, m, mk("mins", m, k, x)))
    cx.en.emit(State(cx.s.store, And(cx.s.cond, Not(c))), "mapinsert", "or_insert", [m, k, x], cx.span)
    return cx.en.ref_ext(r, ("mk", k)) if r.op == "refm" else ite(c, vfld(g, "Some", 0), x)


def map_extend(cx, r, it):
    return extend_into(cx, r, it, "mins")


# ================================================================ sequences
def make_seq(en, s, x):
    """iterator over a container value or a mutable reference to one"""
    if x.op == "seq":
        return x
    if x.op == "refm":
        v = en.load_ref(s, x)
        if v.op == "seq":
            return v
        if v.op == "refm":
            return make_seq(en, s, v)
        if v.op == "adt" and "Range" in v.args[1]:
            return make_seq(en, s, v)
        if v.op == "adt" and v.args[0] == "core::option::Option":
            return make_seq(en, s, v)
        b = fresh_bv("idx")
        return en.seq([(b, ZERO, _size(v))], en.ref_ext(x, ("at", (b,))))
    if x.op == "adt":
        if "Range" in x.args[1]:
            r = range_bounds(x, mk("unbounded"))
            b = fresh_bv("idx")
            return en.seq([(b, r[0], r[1])], b)
        if x.args[0] == "core::option::Option":
            return opt_seq(en, x)
    if x.op == "ite":
        # a common shape is iterated pointwise
        ls = leafset(x)
        if all(l.op == "refm" for l in ls):
            b = fresh_bv("idx")
            v = en.load_ref(s, x)
            return en.seq([(b, ZERO, _size(v))], en.ref_ext(x, ("at", (b,))))
        if all(l.op == "adt" and l.args[1] == "Range" for l in ls):
            b = fresh_bv("idx")
            return en.seq([(b, fld(x, "start"), fld(x, "end"))], b)
    if x.op == "flat":
        return flatten_seq(en, s, make_seq(en, s, x.args[0]))
    if x.op == "comp":
        k, lo, hi, filt, elem, kind = x.args
        fusable = kind == "vec" or (kind == "set" and (elem is mk("b", k) or monotone(elem, mk("b", k))))
        if fusable:
            (b,), (lo, hi, filt, elem, kind) = open1(x)
            return en.seq([(b, lo, hi)], elem, filt)
    b = fresh_bv("idx")
    return en.seq([(b, ZERO, _size(x))], at(x, (b,)))


def is_set_term(t):
    return t.op in ("sins", "srem") or (t.op == "call" and "set" in str(t.args[0])) or (t.op == "comp" and t.args[5] == "set") or (
        t.op == "param" and "set" in t.args[0])


def monotone(elem, b):
    """element order follows the index order (sorted source)"""
    if elem is b:
        return True
    if elem.op == "at" and elem.args[1] == (b,) and is_set_term(elem.args[0]):
        return True
    return False


def as_seq(cx, it):
    """the iterator argument of an adaptor/consumer as a seq term"""
    it2 = it
    if it2.op == "refm":
        v = cx.en.load_ref(cx.s, it2)
        if v.op == "seq":
            return v
    v = it2
    if v.op == "seq":
        return v
    if v.op in ("seqdone",):
        return None
    t = strip_ref(cx.argty[0]) if cx.argty else ""
    return make_seq(cx.en, cx.s, it2)


def parts(sq):
    return sq.args


def forward(en, sq):
    """eliminate the reversed flag by reflecting the index"""
    binders, filt, elem, stg, rev = sq.args
    if not rev:
        return sq
    nb, m = [], {}
    for b, lo, hi in binders:
        n = fresh_bv("idx")
        m[b] = sub(add(lo, sub(hi, ONE)), n)
        nb.append((n, lo, hi))
    return en.seq(nb, subst(elem, m), subst(filt, m), tuple(subst_stage(x, m) for x in stg), False)


def subst_stage(x, m):
    return tuple(subst(y, m) if isinstance(y, Term) else y for y in x)


def it_into_iter(cx, x):
    return make_seq(cx.en, cx.s, x)


it_into_par_iter = it_into_iter


def it_par_iter(cx, x):
    return make_seq(cx.en, cx.s, cx.v(x))


def it_iter(cx, x):
    return make_seq(cx.en, cx.s, cx.v(x))


def it_same(cx, x, *a):
    return as_seq(cx, x)


it_copied = it_cloned = it_fuse = it_by_ref = it_peekable = it_with_min_len = it_with_max_len = it_same


def it_rev(cx, x):
    b, f, e, stg, rev = as_seq(cx, x).args
    return cx.en.seq(b, e, f, stg, not rev)


def it_map(cx, x, f):
    return add_stage(cx, as_seq(cx, x), "map", f)


def it_filter(cx, x, f):
    return add_stage(cx, as_seq(cx, x), "filter", f)


def it_filter_map(cx, x, f):
    return add_stage(cx, as_seq(cx, x), "filter_map", f)


def it_inspect(cx, x, f):
    return add_stage(cx, as_seq(cx, x), "inspect", f)


def add_stage(cx, sq, kind, f):
    if sq is None:
        return NotImplemented
    b, filt, elem, stg, rev = sq.args
    f = cx.closref(f) if False else f
    if not stg:
        cx.en.loopstack.append(PureLoop(b))
        try:
            v = cx.en.is_pure(cx.s, lambda s: cx.en.call_closure(s, f, [elem]))
        finally:
            cx.en.loopstack.pop()
        if v is not None:
            if kind == "map":
                return cx.en.seq(b, v, filt, (), rev)
            if kind == "inspect":
                return sq
            if kind == "filter":
                return cx.en.seq(b, elem, And(filt, v), (), rev)
            if kind == "filter_map":
                c = isv(v, "Some")
                return cx.en.seq(b, assume(vfld(v, "Some", 0), c), And(filt, c), (), rev)
    return cx.en.seq(b, elem, filt, stg + ((kind, f),), rev)


class PureLoop:
    """marks evaluation inside a lazy adaptor"""

    def __init__(self, binders):
        self.binders = binders
        self.uid = 0

    def desc(self):
        return "pure"


def it_enumerate(cx, x):
    sq = as_seq(cx, x)
    b, filt, elem, stg, rev = sq.args
    if stg:
        if all(k[0] in ("map", "inspect") for k in stg) and len(b) == 1 and filt is TRUE:
            pos = sub(b[0][0], b[0][1]) if not rev else sub(sub(b[0][2], ONE), b[0][0])
            return cx.en.seq(b, elem, filt, stg + (("enum", pos),), rev) if False else NotImplemented
        return NotImplemented
    if len(b) == 1 and filt is TRUE:
        pos = sub(b[0][0], b[0][1]) if not rev else sub(sub(b[0][2], ONE), b[0][0])
    elif len(b) == 1:
        # rank among the accepted elements
        j = fresh_bv("idx")
        pos = close_sum(j, b[0][1], b[0][0], ite(subst(filt, {b[0][0]: j}), ONE, ZERO))
    elif filt is TRUE:
        pos = ZERO
        for i, (bv, lo, hi) in enumerate(b):
            pos = add(mul(pos, sub(hi, lo)), sub(bv, lo))
    else:
        pos = mk("unk", "rank", cx.en.uid())
    return cx.en.seq(b, tup(pos, elem), filt, stg, rev)


def it_zip(cx, x, y):
    p, q = as_seq(cx, x), make_seq(cx.en, cx.s, y)
    if p is None or q is None or p.args[3] or q.args[3]:
        return NotImplemented
    if p.args[4] and q.args[4]:
        # both reversed: only aligned when the domains coincide
        pass
    p, q = forward(cx.en, p), forward(cx.en, q)
    pb, pf, pe, _, _ = p.args
    qb, qf, qe, _, _ = q.args
    if len(pb) != len(qb):
        if pf is TRUE and qf is TRUE and (len(pb) == 1 or len(qb) == 1):
            return cx.unk(x, y)
        return cx.unk(x, y)
    if pf is not TRUE or qf is not TRUE:
        # the same accepted sub-sequence on both sides
        if len(pb) == 1 and pb[0][1] is qb[0][1] and pb[0][2] is qb[0][2]:
            m = {qb[0][0]: pb[0][0]}
            if subst(qf, m) is pf:
                return cx.en.seq(pb, tup(pe, subst(qe, m)), pf)
        return cx.unk(x, y)
    nb, m1, m2 = [], {}, {}
    for (b1, l1, h1), (b2, l2, h2) in zip(pb, qb):
        if l1 is l2:
            m2[b2] = b1
            nb.append((b1, l1, tmin(h1, h2)))
        else:
            n = fresh_bv("idx")
            m1[b1] = add(l1, n)
            m2[b2] = add(l2, n)
            nb.append((n, ZERO, tmin(sub(h1, l1), sub(h2, l2))))
    return cx.en.seq(nb, tup(subst(pe, m1), subst(qe, m2)))


def it_take_while(cx, x, f):
    sq = as_seq(cx, x)
    b, filt, elem, stg, rev = sq.args
    if stg or len(b) != 1 or rev:
        return NotImplemented
    c = cx.en.is_pure(cx.s, lambda s: cx.en.call_closure(s, f, [elem]))
    if c is None:
        return NotImplemented
    return cx.en.seq(b, elem, And(filt, prefix_cond(b[0], filt, c)))


def prefix_cond(binder, filt, c):
    bv, lo, hi = binder
    j = fresh_bv("idx")
    stop = subst(And(filt, Not(c)), {bv: j})
    return Not(prefix_exists(j, lo, bv, stop))


def prefix_exists(j, lo, bv, stop):
    """exists j in lo..=bv: stop(j)"""
    # sorted source: the first element equal to q splits the sequence
    if stop.op == "eq0":
        d = poly_dict(stop.args[0])
        ats = [(m[0][0], k) for m, k in d.items() if len(m) == 1 and j in m[0][0].fv]
        if len(ats) == 1 and ats[0][0].op == "at" and ats[0][0].args[1] == (j,) and abs(ats[0][1]) == 1:
            A, k = ats[0]
            S = A.args[0]
            q = sub(A, mul(num(k), stop.args[0]))
            if j not in S.fv and in_set(q, S) is TRUE:
                return ile(q, at(S, (bv,)))
    return close_exists(j, lo, add(bv, ONE), stop)


def it_skip_while(cx, x, f):
    sq = as_seq(cx, x)
    b, filt, elem, stg, rev = sq.args
    if stg or len(b) != 1 or rev:
        return NotImplemented
    c = cx.en.is_pure(cx.s, lambda s: cx.en.call_closure(s, f, [elem]))
    if c is None:
        return NotImplemented
    return cx.en.seq(b, elem, And(filt, Not(prefix_cond(b[0], filt, c))))


def it_step_by(cx, x, n):
    b, filt, elem, stg, rev = as_seq(cx, x).args
    if len(b) != 1 or rev or any(s[0] != "map" for s in stg):
        return NotImplemented
    bv, lo, hi = b[0]
    pos = sub(bv, lo) if filt is TRUE else passed(bv, lo, filt)
    return cx.en.seq([(bv, lo, hi)], elem, And(filt, ieq(T.irem(pos, cx.v(n)), ZERO)), stg, rev)


def passed(bv, lo, filt):
    """how many elements of the filtered sequence come before position bv"""
    j = fresh_bv("idx")
    return close_sum(j, lo, mk("b", bv) if not isinstance(bv, Term) else bv, ite(subst(filt, {bv if isinstance(bv, Term) else mk("b", bv): j}), ONE, ZERO))


def it_take(cx, x, n):
    b, filt, elem, stg, rev = as_seq(cx, x).args
    if len(b) != 1 or rev and filt is not TRUE or any(s[0] != "map" for s in stg):
        return NotImplemented
    bv, lo, hi = b[0]
    if rev:
        return cx.en.seq([(bv, lo, hi)], elem, ilt(sub(sub(hi, ONE), bv), cx.v(n)), stg, rev)
    if filt is not TRUE:
        return cx.en.seq([(bv, lo, hi)], elem, And(filt, ilt(passed(bv, lo, filt), cx.v(n))), stg, rev)
    return cx.en.seq([(bv, lo, tmin(hi, add(lo, cx.v(n))))], elem, filt, stg, rev)


def it_skip(cx, x, n):
    b, filt, elem, stg, rev = as_seq(cx, x).args
    if len(b) != 1 or rev and filt is not TRUE or any(s[0] != "map" for s in stg):
        return NotImplemented
    bv, lo, hi = b[0]
    if rev:
        return cx.en.seq([(bv, lo, sub(hi, cx.v(n)))], elem, filt, stg, rev)
    if filt is not TRUE:
        return cx.en.seq([(bv, lo, hi)], elem, And(filt, Not(ilt(passed(bv, lo, filt), cx.v(n)))), stg, rev)
    return cx.en.seq([(bv, add(lo, cx.v(n)), hi)], elem, filt, stg, rev)


def it_chain(cx, x, y):
    return NotImplemented


def it_flatten(cx, x):
    r = flatten_seq(cx.en, cx.s, as_seq(cx, x))
    return NotImplemented if r is None else r


def it_flat_map(cx, x, f):
    sq = add_stage(cx, as_seq(cx, x), "map", f)
    if sq is NotImplemented:
        return sq
    r = flatten_seq(cx.en, cx.s, sq)
    return NotImplemented if r is None else r


def flatten_seq(en, s, sq):
    b, filt, elem, stg, rev = sq.args
    if stg or rev:
        return None
    inner = make_seq(en, s, elem)
    ib, ifl, ie, istg, irev = inner.args
    if istg or irev:
        return None
    return en.seq(tuple(b) + tuple(ib), ie, And(filt, ifl))


def it_combinations(cx, x, n):
    sq = as_seq(cx, x)
    c = collect_seq(cx, sq, "vec")
    if c is None:
        return NotImplemented
    b = fresh_bv("idx")
    n = cx.v(n)
    return cx.en.seq([(b, ZERO, mk("ncomb", c, n))], mk("combo", c, n, b))


def it_next(cx, r):
    """advance an iterator: gives the loop its domain, or peels one element"""
    en = cx.en
    if r.op != "refm":
        return NotImplemented
    cell, path = r.args
    v = en.load_ref(cx.s, r)
    if v.op == "refm":
        return it_next(cx, v)
    if v.op == "seqdone":
        return NONE
    if v.op == "adt" and "Range" in v.args[1]:
        v = make_seq(en, cx.s, v)
    if v.op != "seq":
        return NotImplemented
    ctx = en.loopstack[-1] if en.loopstack else None
    binders, filt, elem, stg, rev = v.args
    if ctx is not None and not isinstance(ctx, PureLoop) and ctx.kind == "while" and ctx.seqcell is None and path == ():
        ctx.seqcell = cell
        ctx.binders, ctx.rev, ctx.kind = list(binders), rev, "seq"
        f = filt
        e = elem
        hn = mk("hasnext", ctx.uid)
        base = cx.s
        cur = State(dict(base.store), base.cond)
        for sg in stg:
            q = en.call_closure(cur, sg[1], [e])
            if q is None:
                return NotImplemented
            val, cur = q
            if sg[0] == "map":
                e = val
            elif sg[0] == "filter":
                f = And(f, val)
            elif sg[0] == "filter_map":
                f = And(f, isv(val, "Some"))
                e = vfld(val, "Some", 0)
        ctx.filt = f
        ctx.elem = e
        cx.s = cur
        return ite(hn, some(e), NONE)
    return peel(cx, r, v, bool(rev))


def peel(cx, r, v, back):
    """straight-line next() and next_back(): take the element at one end"""
    binders, filt, elem, stg, rev = v.args
    if filt is not TRUE or len(binders) != 1 or stg:
        return NotImplemented
    b, lo, hi = binders[0]
    e = subst(elem, {b: sub(hi, ONE) if back else lo})
    rest = mk("seq", ((b, lo, sub(hi, ONE)) if back else (b, add(lo, ONE), hi),), TRUE, elem, stg, rev)
    cx.en.store_ref(cx.s, r, rest)
    return ite(ilt(lo, hi), some(e), NONE)


def it_next_back(cx, r):
    if r.op != "refm":
        return NotImplemented
    v = cx.en.load_ref(cx.s, r)
    if v.op == "refm":
        return it_next_back(cx, v)
    if v.op == "adt" and "Range" in v.args[1]:
        v = make_seq(cx.en, cx.s, v)
    if v.op != "seq":
        return NotImplemented
    return peel(cx, r, v, not v.args[4])


def it_size_hint(cx, *a):
    return mk("libcall", "size_hint", ())


# ---- consumers
def count_of(sq):
    b, filt, elem, stg, rev = sq.args
    r = ite(filt, ONE, ZERO)
    for bv, lo, hi in reversed(b):
        r = close_sum(bv, lo, hi, r)
    return r


def it_len(cx, x):
    sq = as_seq(cx, cx.v(x) if x.op == "refm" else x)
    return count_of(sq)


def it_count(cx, x):
    sq = as_seq(cx, x)
    if sq.args[3]:
        return fold_with(cx, sq, ZERO, lambda acc, e: add(acc, ONE))
    return count_of(sq)


def fold_with(cx, sq, init, f):
    """python-level fold"""
    en = cx.en
    acc = en.new_cell(cx.s, init)

    def k(s, e, ctx):
        en.store_ref(s, acc, f(en.load_ref(s, acc), en.rv(s, e)))
        return [s], []

    return finish_fold(cx, sq, k, acc)


def finish_fold(cx, sq, k, acc):
    res = cx.en.run_seq(cx.s, sq, k, cx.span)
    st = [s for lb, s in res if lb == "normal"]
    if not st:
        return None
    cx.s = cx.en.merge(st)
    r = cx.en.load_ref(cx.s, acc)
    cx.s.store.pop(acc.args[0], None)
    return r


def it_sum(cx, x):
    sq = as_seq(cx, x)
    b, filt, elem, stg, rev = sq.args
    if stg:
        return fold_with(cx, sq, ZERO, add)
    r = ite(filt, cx.v(elem), ZERO)
    for bv, lo, hi in reversed(b):
        r = close_sum(bv, lo, hi, r)
    return r


def it_product(cx, x):
    sq = as_seq(cx, x)
    b, filt, elem, stg, rev = sq.args
    if stg:
        return fold_with(cx, sq, ONE, mul)
    r = ite(filt, cx.v(elem), ONE)
    for bv, lo, hi in reversed(b):
        r = close_prod(bv, lo, hi, r)
    return r


def it_fold(cx, x, init, f):
    sq = as_seq(cx, x)
    en = cx.en
    acc = en.new_cell(cx.s, init)
    f = cx.closref(f)

    def k(s, e, ctx):
        r = en.call_closure(s, f, [en.load_ref(s, acc), e])
        if r is None:
            return [], []
        v, s = r
        en.store_ref(s, acc, v)
        return [s], []

    return finish_fold(cx, sq, k, acc)


def it_for_each(cx, x, f):
    sq = as_seq(cx, x)
    en = cx.en
    acc = en.new_cell(cx.s, UNIT)
    f = cx.closref(f)

    def k(s, e, ctx):
        r = en.call_closure(s, f, [e])
        if r is None:
            return [], []
        return [r[1]], []

    return finish_fold(cx, sq, k, acc)


def pred_seq(cx, sq, f):
    """pure predicate over a stage-less sequence; None if impure"""
    b, filt, elem, stg, rev = sq.args
    if stg:
        return None
    return cx.en.is_pure(cx.s, lambda s: cx.en.call_closure(s, f, [elem]))


def it_any(cx, x, f):
    sq = as_seq(cx, x)
    c = pred_seq(cx, sq, f)
    if c is None:
        return NotImplemented
    r = And(sq.args[1], c)
    for bv, lo, hi in reversed(sq.args[0]):
        r = close_exists(bv, lo, hi, r)
    return r


def it_all(cx, x, f):
    sq = as_seq(cx, x)
    c = pred_seq(cx, sq, f)
    if c is None:
        return NotImplemented
    r = And(sq.args[1], Not(c))
    for bv, lo, hi in reversed(sq.args[0]):
        r = close_exists(bv, lo, hi, r)
    return Not(r)


def find_value(cx, sq, c, val):
    b, filt, elem, stg, rev = sq.args
    if len(b) != 1 or rev:
        return None
    bv, lo, hi = b[0]
    cc = And(filt, c)
    return ite(close_exists(bv, lo, hi, cc), some(map_leaves(lambda v: close_first(bv, lo, hi, cc, v), val)), NONE)


def it_find(cx, x, f):
    sq = as_seq(cx, x)
    c = pred_seq(cx, sq, f)
    if c is None:
        return NotImplemented
    r = find_value(cx, sq, c, sq.args[2])
    return NotImplemented if r is None else r


def it_find_map(cx, x, f):
    sq = as_seq(cx, x)
    v = pred_seq(cx, sq, f)
    if v is None:
        return NotImplemented
    c = isv(v, "Some")
    r = find_value(cx, sq, c, assume(vfld(v, "Some", 0), c))
    return NotImplemented if r is None else r


def it_position(cx, x, f):
    sq = as_seq(cx, x)
    c = pred_seq(cx, sq, f)
    if c is None or sq.args[1] is not TRUE or len(sq.args[0]) != 1:
        return NotImplemented
    b, lo, hi = sq.args[0][0]
    r = find_value(cx, sq, c, sub(b, lo))
    return NotImplemented if r is None else r


def argext(cx, x, kind, f, mode):
    """min_by / max_by / min_by_key"""
    sq = as_seq(cx, x)
    b, filt, elem, stg, rev = sq.args
    if stg or len(b) != 1 or rev:
        return NotImplemented
    bv, lo, hi = b[0]
    en = cx.en
    if mode == "by":
        x_, y = fresh_bv("el"), fresh_bv("el")
        o = en.is_pure(cx.s, lambda s: en.call_closure(s, f, [x_, y]))
        if o is None or o.op != "ord":
            return NotImplemented
        k1, k2 = o.args[0], o.args[1]
        if y in k1.fv:
            k1, k2 = k2, k1
            kind = {"min": "max", "max": "min"}[kind]
        if subst(k2, {y: x_}) is not k1:
            return NotImplemented
        key = subst(k1, {x_: elem})
    elif mode == "key":
        x_ = fresh_bv("el")
        key = en.is_pure(cx.s, lambda s: en.call_closure(s, f, [x_]))
        if key is None:
            return NotImplemented
        key = subst(key, {x_: elem})
    else:
        key = elem
    has = close_exists(bv, lo, hi, filt)
    r = subst(elem, {bv: close_argext(bv, lo, hi, filt, kind, key, bv)})
    return ite(has, some(r), NONE)


def map_elem(e, f):
    if e.op == "tup":
        return mk("tup", tuple(map_elem(x, f) for x in e.args[0]))
    return f(e)


def it_min_by(cx, x, f):
    return argext(cx, x, "min", f, "by")


def it_max_by(cx, x, f):
    return argext(cx, x, "max", f, "by")


def it_min_by_key(cx, x, f):
    return argext(cx, x, "min", f, "key")


def it_max_by_key(cx, x, f):
    return argext(cx, x, "max", f, "key")


def it_min(cx, x, *r):
    if r:
        return tmin(cx.v(x), cx.v(r[0]))
    return argext(cx, x, "min", None, "self")


def it_max(cx, x, *r):
    if r:
        return tmax(cx.v(x), cx.v(r[0]))
    return argext(cx, x, "max", None, "self")


def it_last(cx, x):
    sq = forward(cx.en, as_seq(cx, x))
    b, filt, elem, stg, rev = sq.args
    if stg or filt is not TRUE or len(b) != 1:
        return NotImplemented
    bv, lo, hi = b[0]
    return ite(ilt(lo, hi), some(subst(elem, {bv: sub(hi, ONE)})), NONE)


def it_nth(cx, x, n):
    sq = as_seq(cx, x)
    if sq.args[3] or sq.args[1] is not TRUE or len(sq.args[0]) != 1:
        return NotImplemented
    sq = forward(cx.en, sq)
    bv, lo, hi = sq.args[0][0]
    n = cx.v(n)
    return ite(ilt(add(lo, n), hi), some(subst(sq.args[2], {bv: add(lo, n)})), NONE)


def collect_kind(d):
    d = strip_ref(d)
    if d.startswith("alloc::vec::Vec") or "ArrayBase" in d.split("<")[0] or d.startswith("ndarray::ArrayBase") or d.startswith("alloc::boxed::Box<["):
        return "vec"
    if "BTreeSet" in d.split("<")[0] or "HashSet" in d.split("<")[0]:
        return "set"
    if "HashMap" in d.split("<")[0] or "BTreeMap" in d.split("<")[0]:
        return "map"
    return None


def collect_seq(cx, sq, kind):
    sq = forward(cx.en, sq)
    b, filt, elem, stg, rev = sq.args
    if stg:
        op = {"vec": "push", "set": "sins", "map": "mins"}[kind]
        return collect_fold(cx, sq, op, {"vec": "emptyvec", "set": "emptyset", "map": "emptymap"}[kind])
    elem = cx.v(elem)
    x = None
    for i, (bv, lo, hi) in enumerate(reversed(b)):
        if x is None:
            x = close_comp(bv, lo, hi, filt, elem, kind)
        else:
            x = mk("flat", close_comp(bv, lo, hi, TRUE, x, "vec"))
    return x


def collect_fold(cx, sq, op, empty):
    en = cx.en
    acc = en.new_cell(cx.s, mk(empty))

    def k(s, e, ctx):
        e = en.rv(s, e)
        old = en.load_ref(s, acc)
        en.store_ref(s, acc, grow_coll(op, old, e))
        return [s], []

    return finish_fold(cx, sq, k, acc)


def grow_coll(op, old, e):
    if op == "push":
        return mk("push", old, e)
    if op == "sins":
        return set_add(old, e)
    return mk("mins", old, fld(e, "0"), fld(e, "1"))


def it_collect(cx, x):
    d = cx.dty
    if not collect_kind(d):
        ar = cx.callee.get("args", [])
        d = ar[-1] if ar else d
    kind = collect_kind(d)
    if kind is None:
        return NotImplemented
    return collect_seq(cx, as_seq(cx, x), kind)


def it_collect_vec(cx, x):
    return collect_seq(cx, as_seq(cx, x), "vec")


def it_from_iter(cx, x):
    kind = collect_kind(cx.dty)
    if kind is None:
        return NotImplemented
    return collect_seq(cx, make_seq(cx.en, cx.s, x), kind)


nd_from_iter = it_from_iter


def extend_into(cx, r, it, op):
    en = cx.en
    sq = make_seq(en, cx.s, it)

    def k(s, e, ctx):
        e = en.rv(s, e)
        en.store_ref(s, r, grow_coll(op, en.load_ref(s, r), e))
        return [s], []

    res = en.run_seq(cx.s, sq, k, cx.span)
    st = [s for lb, s in res if lb == "normal"]
    if not st:
        return None
    cx.s = en.merge(st)
    return UNIT


def it_extend(cx, r, it):
    d = cx.self_ty()
    op = "sins" if "Set" in d.split("<")[0] else "mins" if "Map" in d.split("<")[0] else "push"
    return extend_into(cx, r, it, op)


def it_par_extend(cx, r, it):
    return it_extend(cx, r, it)


def it_unzip(cx, x):
    sq = as_seq(cx, x)
    if sq.args[3]:
        return NotImplemented
    b, filt, elem, stg, rev = forward(cx.en, sq).args
    if len(b) != 1:
        return NotImplemented
    bv, lo, hi = b[0]
    kinds = re.findall(r"(Vec|BTreeSet|HashSet)", cx.dty)
    k = ["vec" if q == "Vec" else "set" for q in kinds[:2]] or ["vec", "vec"]
    return tup(close_comp(bv, lo, hi, filt, fld(elem, "0"), k[0]), close_comp(bv, lo, hi, filt, fld(elem, "1"), k[-1]))


def it_eq(cx, x, y):
    p, q = as_seq(cx, x), make_seq(cx.en, cx.s, y)
    z = it_zip(cx, p, q)
    if z is NotImplemented or isinstance(z, tuple):
        return NotImplemented
    r = Not(elem_eq(fld(z.args[2], "0"), fld(z.args[2], "1")))
    for bv, lo, hi in reversed(z.args[0]):
        r = close_exists(bv, lo, hi, r)
    return And(ieq(count_of(p), count_of(q)), Not(r))


def it_tuple_windows(cx, x):
    return NotImplemented


def it_once(cx, x):
    b = fresh_bv("idx")
    return cx.en.seq([(b, ZERO, ONE)], x)


def it_empty(cx):
    b = fresh_bv("idx")
    return cx.en.seq([(b, ZERO, ZERO)], UNIT)


def it_repeat(cx, x):
    b = fresh_bv("idx")
    return cx.en.seq([(b, ZERO, mk("unbounded"))], x)


# ================================================================ ndarray
def axis_no(cx, a):
    n = numval(fld(cx.v(a), "0"))
    return None if n is None else int(n)


def lens_of(cx, sh):
    v = cx.v(sh)
    if v.op == "tup":
        return list(v.args[0])
    if v.op == "vec":
        return list(v.args[0])
    if v.op == "adt":
        return None
    if v.op == "shapef":
        return list(v.args[0])
    if is_numlike(v):
        return [v]
    return None


def nd_f(cx, sh):
    l = lens_of(cx, sh)
    return mk("shapef", tuple(l)) if l is not None else NotImplemented


def _mkconst(val):
    def f(cx, sh, *a):
        l = lens_of(cx, sh)
        if l is None:
            return NotImplemented
        return const_array(val if val is not None else cx.v(a[0]), l)

    return f


nd_zeros = _mkconst(ZERO)
nd_ones = _mkconst(ONE)
nd_from_elem = _mkconst(None)
nd_default = _mkconst(ZERO)


def nd_eye(cx, n):
    n = cx.v(n)
    i, j = fresh_bv("idx"), fresh_bv("idx")
    return close_lam([i, j], [n, n], ite(ieq(i, j), ONE, ZERO))


def nd_from_shape_fn(cx, sh, f):
    l = lens_of(cx, sh)
    if l is None:
        return NotImplemented
    bs = [fresh_bv("idx") for _ in l]
    arg = bs[0] if len(bs) == 1 else mk("tup", tuple(bs))
    f = cx.closref(f)
    got = []
    en = cx.en

    def body(s, ctx):
        r = en.call_closure(s, f, [arg])
        if r is None:
            return [], []
        got.append(r[0])
        return [r[1]], []

    res = en.fix_loop(cx.s, body, cx.span, binders=[(b, ZERO, n) for b, n in zip(bs, l)], normal_label="normal", kind="seq")
    st = [s for lb, s in res if lb == "normal"]
    if not got or not st:
        return None
    cx.s = st[0]
    return close_lam(bs, l, got[-1])


def nd_from_vec(cx, v):
    return cx.v(v)


def nd_from_shape_vec(cx, sh, v):
    l = lens_of(cx, sh)
    if l is None:
        return NotImplemented
    v = cx.v(v)
    bs = [fresh_bv("idx") for _ in l]
    pos = ZERO
    for b, n in zip(bs, l):
        pos = add(mul(pos, n), b)
    el = None
    # rows concatenated: element (i, j) of flatten([row_i]) with the row length as width
    if len(l) == 2 and v.op == "flat" and v.args[0].op == "comp" and v.args[0].args[3] is TRUE:
        outer = v.args[0]
        k, lo, hi, filt, inner, kind = outer.args
        if inner.op in ("comp",) and inner.args[3] is TRUE or inner.op == "asarr":
            row = subst(inner, {mk("b", k): add(lo, bs[0])})
            el = at(row, (bs[1],))
    if el is None:
        el = at(v, (pos,))
    cx.maypanic(FALSE, "")
    okc = mk("shapefit", tuple(l), v)
    return ok(close_lam(bs, l, el))


def shape_vec(v, n):
    return mk("vec", tuple(length(v, i) for i in range(n)))


def nd_shape(cx, x):
    v = cx.v(x)
    n = cx.nd(v)
    return shape_vec(v, n) if n else NotImplemented


def nd_dim(cx, x):
    v = cx.v(x)
    n = cx.nd(v)
    if not n:
        return NotImplemented
    return length(v, 0) if n == 1 else mk("tup", tuple(length(v, i) for i in range(n)))


nd_raw_dim = nd_dim


def nd_len(cx, x):
    v = cx.v(x)
    n = cx.nd(v)
    if not n:
        return NotImplemented
    r = ONE
    for i in range(n):
        r = mul(r, length(v, i))
    return r


def nd_is_empty(cx, x):
    return ieq(nd_len(cx, x), ZERO, True)


def nd_ndim(cx, x):
    return num(cx.nd(cx.v(x)))


def nd_len_of(cx, x, a):
    return length(cx.v(x), axis_no(cx, a))


def nd_nrows(cx, x):
    return length(cx.v(x), 0)


def nd_ncols(cx, x):
    return length(cx.v(x), 1)


def spec_fix(n, k, i):
    sp, c = [], 0
    for ax in range(n):
        if ax == k:
            sp.append(("ix", i))
        else:
            sp.append(("ax", c))
            c += 1
    return tuple(sp)


def do_view(cx, x, spec, mut):
    if mut and any(l.op == "refm" for l in leafset(x)):
        return cx.en.ref_ext(x, ("view", spec))
    return view(cx.v(x), spec)


def _axis_view(kfun, mut):
    def f(cx, x, *a):
        n = cx.nd(cx.v(x))
        if not n:
            return NotImplemented
        k, i = kfun(cx, a)
        if k is None:
            return NotImplemented
        return do_view(cx, x, spec_fix(n, k, i), mut)

    return f


for _m in (False, True):
    _sfx = "_mut" if _m else ""
    globals()["nd_row" + _sfx] = _axis_view(lambda cx, a: (0, cx.v(a[0])), _m)
    globals()["nd_column" + _sfx] = _axis_view(lambda cx, a: (1, cx.v(a[0])), _m)
    globals()["nd_index_axis" + _sfx] = _axis_view(lambda cx, a: (axis_no(cx, a[0]), cx.v(a[1])), _m)
nd_subview = nd_index_axis_move = nd_index_axis


def _diag(mut):
    def f(cx, x):
        n = cx.nd(cx.v(x)) or 2
        return do_view(cx, x, tuple(("ax", 0) for _ in range(n)), mut)

    return f


nd_diag, nd_diag_mut, nd_into_diag = _diag(False), _diag(True), _diag(False)


def nd_t(cx, x):
    n = cx.nd(cx.v(x))
    return do_view(cx, x, tuple(("ax", n - 1 - i) for i in range(n)), False)


nd_reversed_axes = nd_t


def _axis_iter(mut, outer):
    def f(cx, x, *a):
        v = cx.v(x)
        n = cx.nd(v)
        k = 0 if outer else axis_no(cx, a[0])
        if not n or k is None:
            return NotImplemented
        b = fresh_bv("idx")
        if n == 1:
            el = cx.en.ref_ext(x, ("at", (b,))) if mut and x.op == "refm" else at(v, (b,))
        else:
            el = do_view(cx, x, spec_fix(n, k, b), mut)
        return cx.en.seq([(b, ZERO, length(v, k))], el)

    return f


nd_axis_iter, nd_axis_iter_mut = _axis_iter(False, False), _axis_iter(True, False)
nd_outer_iter, nd_outer_iter_mut = _axis_iter(False, True), _axis_iter(True, True)


def nd_rows(cx, x):
    v = cx.v(x)
    n = cx.nd(v)
    if n == 2:
        return nd_outer_iter(cx, x)
    if n == 3:
        b, c = fresh_bv("idx"), fresh_bv("idx")
        return cx.en.seq([(b, ZERO, length(v, 0)), (c, ZERO, length(v, 1))], view(v, (("ix", b), ("ix", c), ("ax", 0))))
    return NotImplemented


nd_genrows = nd_rows


def nd_rows_mut(cx, x):
    v = cx.v(x)
    n = cx.nd(v)
    if n == 2:
        return nd_outer_iter_mut(cx, x)
    return NotImplemented


def nd_columns(cx, x):
    v = cx.v(x)
    if cx.nd(v) != 2:
        return NotImplemented
    b = fresh_bv("idx")
    return cx.en.seq([(b, ZERO, length(v, 1))], view(v, spec_fix(2, 1, b)))


def nd_iter(cx, x):
    v = cx.v(x)
    n = cx.nd(v)
    if not n:
        return NotImplemented
    bs = [fresh_bv("idx") for _ in range(n)]
    return cx.en.seq([(b, ZERO, length(v, i)) for i, b in enumerate(bs)], at(v, tuple(bs)))


def nd_iter_mut(cx, x):
    v = cx.v(x)
    n = cx.nd(v)
    if not n:
        return NotImplemented
    bs = [fresh_bv("idx") for _ in range(n)]
    return cx.en.seq([(b, ZERO, length(v, i)) for i, b in enumerate(bs)], cx.en.ref_ext(x, ("at", tuple(bs))))


def nd_into_iter(cx, x):
    if any(l.op == "refm" for l in leafset(x)) and cx.argty and "mut" in cx.argty[0][:12]:
        return nd_iter_mut(cx, x)
    return nd_iter(cx, x)


def _indexed(mut):
    def f(cx, x):
        v = cx.v(x)
        n = cx.nd(v)
        if not n:
            return NotImplemented
        bs = [fresh_bv("idx") for _ in range(n)]
        ix = bs[0] if n == 1 else mk("tup", tuple(bs))
        el = cx.en.ref_ext(x, ("at", tuple(bs))) if mut else at(v, tuple(bs))
        return cx.en.seq([(b, ZERO, length(v, i)) for i, b in enumerate(bs)], tup(ix, el))

    return f


nd_indexed_iter, nd_indexed_iter_mut = _indexed(False), _indexed(True)


def nd_fill(cx, r, x):
    v = cx.v(r)
    n = cx.nd(v) or ndim(v)
    if not n:
        return NotImplemented
    cx.en.store_ref(cx.s, r, const_array(cx.v(x), [length(v, i) for i in range(n)]))
    return UNIT


def nd_assign(cx, r, x):
    v, y = cx.v(r), cx.v(x)
    n = cx.nd(v)
    m = cx.nd(y, 1) or ndim(y)
    if n and m and m < n:
        js = [fresh_bv("idx") for _ in range(n)]
        y = close_lam(js, [length(v, i) for i in range(n)], at(y, tuple(js[n - m:])))
    cx.en.store_ref(cx.s, r, y)
    return UNIT


def _mapv(cx, x, f):
    v = cx.v(x)
    n = cx.nd(v)
    if not n:
        return NotImplemented
    js = [fresh_bv("idx") for _ in range(n)]
    e = cx.en.is_pure(cx.s, lambda s: cx.en.call_closure(s, f, [at(v, tuple(js))]))
    if e is None:
        return NotImplemented
    return close_lam(js, [length(v, i) for i in range(n)], e)


nd_mapv = nd_map = nd_mapv_into = _mapv


def nd_mapv_inplace(cx, r, f):
    x = _mapv(cx, r, f)
    if x is NotImplemented:
        return x
    cx.en.store_ref(cx.s, r, x)
    return UNIT


def nd_map_inplace(cx, r, f):
    v = cx.v(r)
    n = cx.nd(v)
    if not n:
        return NotImplemented
    return it_for_each(cx, nd_iter_mut(cx, r), f)


def nd_sum_axis(cx, x, a):
    v = cx.v(x)
    n, k = cx.nd(v), axis_no(cx, a)
    if not n or k is None:
        return NotImplemented
    js = [fresh_bv("idx") for _ in range(n - 1)]
    i = fresh_bv("idx")
    idx = js[:k] + [i] + js[k:]
    s_ = close_sum(i, ZERO, length(v, k), at(v, tuple(idx)))
    if n == 1:
        return s_
    return close_lam(js, [length(v, q) for q in range(n) if q != k], s_)


def _full(close, unit):
    def f(cx, x):
        v = cx.v(x)
        n = cx.nd(v)
        if not n:
            return NotImplemented
        js = [fresh_bv("idx") for _ in range(n)]
        r = at(v, tuple(js))
        for i in reversed(range(n)):
            r = close(js[i], ZERO, length(v, i), r)
        return r

    return f


nd_sum = _full(close_sum, ZERO)
nd_product = _full(close_prod, ONE)


def nd_dot(cx, x, y):
    a, b = cx.v(x), cx.v(y)
    na, nb = cx.nd(a), cx.nd(b, 1) or ndim(b) or 1
    j = fresh_bv("idx")
    if na == 1 and nb == 1:
        return close_sum(j, ZERO, length(a, 0), mul(at(a, (j,)), at(b, (j,))))
    if na == 2 and nb == 1:
        i = fresh_bv("idx")
        return close_lam([i], [length(a, 0)], close_sum(j, ZERO, length(a, 1), mul(at(a, (i, j)), at(b, (j,)))))
    if na == 2 and nb == 2:
        i, k = fresh_bv("idx"), fresh_bv("idx")
        return close_lam([i, k], [length(a, 0), length(b, 1)], close_sum(j, ZERO, length(a, 1), mul(at(a, (i, j)), at(b, (j, k)))))
    if na == 1 and nb == 2:
        k = fresh_bv("idx")
        return close_lam([k], [length(b, 1)], close_sum(j, ZERO, length(a, 0), mul(at(a, (j,)), at(b, (j, k)))))
    return NotImplemented


def nd_insert_axis(cx, x, a):
    v = cx.v(x)
    n, k = cx.nd(v), axis_no(cx, a)
    if not n or k is None:
        return NotImplemented
    js = [fresh_bv("idx") for _ in range(n + 1)]
    lens = [length(v, i) for i in range(n)]
    lens.insert(k, ONE)
    return close_lam(js, lens, at(v, tuple(j for q, j in enumerate(js) if q != k)))


def nd_into_shape(cx, x, sh):
    v = cx.v(x)
    n = cx.nd(v)
    l = lens_of(cx, sh)
    if l is None or n != 1:
        return NotImplemented
    js = [fresh_bv("idx") for _ in l]
    if len(l) == 2 and l[1] is ONE:
        return ok(close_lam(js, l, at(v, (js[0],))))
    if len(l) == 2 and l[0] is ONE:
        return ok(close_lam(js, l, at(v, (js[1],))))
    return NotImplemented


nd_into_shape_with_order = nd_to_shape = nd_into_shape


def nd_same(cx, x, *a):
    return cx.v(x)


nd_to_owned = nd_into_owned = nd_view = nd_to_vec = nd_into_raw_vec = nd_into_dyn = nd_clone = nd_reborrow = nd_into_dimensionality_ = nd_same


def nd_view_mut(cx, x):
    return x


def nd_get(cx, x, i):
    v = cx.v(x)
    i = cx.v(i)
    ix = i.args[0] if i.op in ("tup", "vec") else (i,)
    c = And(*[ilt(q, length(v, k)) for k, q in enumerate(ix)])
    return ite(c, some(at(v, tuple(ix))), NONE)


def nd_new_unchecked(cx, x, *a):
    return cx.v(x)


def nd_next_in_dim(cx, *a):
    return UNIT


nd_next_out_dim = nd_next_in_dim


def _slice(mut):
    def f(cx, x, info):
        i = cx.v(info)
        if i.op != "vec":
            return NotImplemented
        sp, c, offs = [], 0, False
        for e in i.args[0]:
            if e.op != "adt":
                return NotImplemented
            if e.args[1] == "Index":
                sp.append(("ix", e.args[3][0]))
            elif e.args[1] == "Full":
                sp.append(("ax", c))
                c += 1
            else:
                return NotImplemented
        return do_view(cx, x, tuple(sp), mut)

    return f


nd_slice, nd_slice_mut = _slice(False), _slice(True)


def nd_from(cx, *a):
    return from_conv(cx, *a)


def nd_all(cx, x, f):
    return it_all(cx, nd_iter(cx, x), f)


def nd_push_row(cx, *a):
    return NotImplemented


# default closures of Range methods
def it_is_empty(cx, x):
    return ieq(count_of(as_seq(cx, cx.v(x))), ZERO, True)


def misc_len(cx, x):
    return it_len(cx, x)


# ================================================================ further methods of the standard library
def cmp_clamp(cx, a, lo, hi):
    return tmax(cx.v(lo), tmin(cx.v(a), cx.v(hi)))


INT_MAX = {"u8": 2 ** 8 - 1, "u16": 2 ** 16 - 1, "u32": 2 ** 32 - 1, "i8": 2 ** 7 - 1, "i16": 2 ** 15 - 1, "i32": 2 ** 31 - 1}


def misc_try_from(cx, x):
    t = re.sub(r"^core::result::Result<", "", cx.dty).split(",")[0].strip(" <>")
    x = cx.v(x)
    if not is_numlike(x) and x.op not in ("param", "bv", "fld", "at", "len", "poly", "const"):
        return NotImplemented
    if t in INT_MAX:
        fits = And(ile(ZERO, x), ile(x, num(INT_MAX[t])))
    elif t in ("usize", "u64", "u128"):
        fits = ile(ZERO, x)
    elif t in ("i64", "i128", "isize"):
        fits = TRUE
    else:
        return NotImplemented
    return ite(fits, ok(x), err(mk("param", "#outofrange")))


misc_try_into = misc_try_from


def misc_then_some(cx, b, x):
    return ite(cx.v(b), some(x), NONE)


def misc_then(cx, b, f):
    if "bool" not in cx.path:
        return NotImplemented
    return cx.cond_call(cx.v(b), lambda cx: _w(some, cx.callc(f)), NONE)


def opt_and(cx, x, y):
    return ite(isv(cx.v(x), "Some"), cx.v(y), NONE)


def opt_xor(cx, x, y):
    x, y = cx.v(x), cx.v(y)
    a, b = isv(x, "Some"), isv(y, "Some")
    return ite(a, ite(b, NONE, x), y)


def opt_zip(cx, x, y):
    x, y = cx.v(x), cx.v(y)
    return ite(And(isv(x, "Some"), isv(y, "Some")), some(tup(vfld(x, "Some", 0), vfld(y, "Some", 0))), NONE)


def _part(v, lo, hi):
    """the elements of a vector from lo up to hi"""
    b = fresh_bv("idx")
    return T.close_comp(b, ZERO, sub(hi, lo), TRUE, at(v, (add(lo, b),)), "vec")


def _grown(cx, v):
    """a vector under construction in a loop has no closed form yet"""
    return any(l.op in ("mu", "rec") for l in leafset(v))


def vec_remove(cx, r, i):
    v, i = cx.v(r), cx.v(i)
    if _grown(cx, v):
        return NotImplemented
    b = fresh_bv("idx")
    cx.en.store_ref(cx.s, r, T.close_comp(b, ZERO, sub(_size(v), ONE), TRUE, ite(ilt(b, i), at(v, (b,)), at(v, (add(b, ONE),))), "vec"))
    return at(v, (i,))


def vec_swap_remove(cx, r, i):
    v, i = cx.v(r), cx.v(i)
    if _grown(cx, v):
        return NotImplemented
    b = fresh_bv("idx")
    n = sub(_size(v), ONE)
    cx.en.store_ref(cx.s, r, T.close_comp(b, ZERO, n, TRUE, ite(ieq(b, i), at(v, (n,)), at(v, (b,))), "vec"))
    return at(v, (i,))


def vec_insert(cx, r, i, x):
    v, i, x = cx.v(r), cx.v(i), cx.v(x)
    if _grown(cx, v):
        return NotImplemented
    b = fresh_bv("idx")
    cx.en.store_ref(cx.s, r, T.close_comp(b, ZERO, add(_size(v), ONE), TRUE, ite(ilt(b, i), at(v, (b,)), ite(ieq(b, i), x, at(v, (sub(b, ONE),)))), "vec"))
    return UNIT


def vec_split_off(cx, r, i):
    v, i = cx.v(r), cx.v(i)
    if _grown(cx, v):
        return NotImplemented
    cx.en.store_ref(cx.s, r, _part(v, ZERO, i))
    return _part(v, i, _size(v))


def vec_drain(cx, r, rg):
    v, rg = cx.v(r), cx.v(rg)
    if _grown(cx, v) or rg.op != "adt":
        return NotImplemented
    p = range_bounds(rg, _size(v))
    if p is None:
        return NotImplemented
    lo, hi = p
    k, b = fresh_bv("idx"), fresh_bv("idx")
    if lo is ZERO and hi is _size(v):
        cx.en.store_ref(cx.s, r, mk("emptyvec"))
    else:
        cx.en.store_ref(cx.s, r, T.close_comp(b, ZERO, sub(_size(v), sub(hi, lo)), TRUE, ite(ilt(b, lo), at(v, (b,)), at(v, (add(b, sub(hi, lo)),))), "vec"))
    return cx.en.seq([(k, lo, hi)], at(v, (k,)))


def vec_split_at(cx, x, i):
    v, i = cx.v(x), cx.v(i)
    return tup(_part(v, ZERO, i), _part(v, i, _size(v)))


def vec_rotate_left(cx, r, k):
    v, k = cx.v(r), cx.v(k)
    if _grown(cx, v):
        return NotImplemented
    b = fresh_bv("idx")
    n = _size(v)
    cx.en.store_ref(cx.s, r, T.close_comp(b, ZERO, n, TRUE, at(v, (ite(ilt(add(b, k), n), add(b, k), sub(add(b, k), n)),)), "vec"))
    return UNIT


def vec_rotate_right(cx, r, k):
    return vec_rotate_left(cx, r, sub(_size(cx.v(r)), cx.v(k)))


def vec_retain(cx, r, f):
    v = cx.v(r)
    if _grown(cx, v):
        return NotImplemented
    sq = make_seq(cx.en, cx.s, v)
    b, filt, elem, stg, rev = sq.args
    if stg or len(b) != 1 or rev:
        return NotImplemented
    c = cx.en.is_pure(cx.s, lambda s: cx.en.call_closure(s, f, [elem]))
    if c is None:
        return NotImplemented
    cx.en.store_ref(cx.s, r, close_comp(b[0][0], b[0][1], b[0][2], And(filt, c), elem, "vec"))
    return UNIT


def vec_chunks(cx, x, n):
    v, n = cx.v(x), cx.v(n)
    b = fresh_bv("idx")
    lo = mul(b, n)
    exact = cx.name.startswith("chunks_exact")
    cnt = T.idiv(_size(v), n) if exact else T.idiv(add(_size(v), sub(n, ONE)), n)
    return cx.en.seq([(b, ZERO, cnt)], _part(v, lo, add(lo, n) if exact else T.tmin(add(lo, n), _size(v))))


vec_chunks_exact = vec_chunks


def vec_starts_with(cx, x, y):
    x, y = cx.v(x), cx.v(y)
    b = fresh_bv("idx")
    return And(ile(_size(y), _size(x)), Not(close_exists(b, ZERO, _size(y), Not(elem_eq(at(x, (b,)), at(y, (b,)))))))


def vec_concat(cx, x):
    return flat_vec(cx, cx.v(x))


def flat_vec(cx, v):
    return NotImplemented


def it_chain(cx, x, y):
    p, q = as_seq(cx, x), make_seq(cx.en, cx.s, y)
    if p is None or q is None or p.args[3] or q.args[3]:
        return NotImplemented
    p, q = forward(cx.en, p), forward(cx.en, q)
    pb, pf, pe, _, _ = p.args
    qb, qf, qe, _, _ = q.args
    if len(pb) != 1 or len(qb) != 1 or pb[0][2].op == "unbounded":
        return cx.unk(x, y)
    (b1, l1, h1), (b2, l2, h2) = pb[0], qb[0]
    n1, k = sub(h1, l1), fresh_bv("idx")
    first = ilt(k, n1)
    m1, m2 = {b1: add(l1, k)}, {b2: add(l2, sub(k, n1))}
    e1, e2 = subst(pe, m1), subst(qe, m2)
    if any(l.op == "refm" for l in list(leafset(e1)) + list(leafset(e2))):
        return cx.unk(x, y)
    hi = h2 if h2.op == "unbounded" else add(n1, sub(h2, l2))
    return cx.en.seq([(k, ZERO, hi)], ite(first, e1, e2), ite(first, subst(pf, m1), subst(qf, m2)))


def it_cycle(cx, x):
    b, filt, elem, stg, rev = as_seq(cx, x).args
    if stg or rev or len(b) != 1 or filt is not TRUE:
        return NotImplemented
    bv, lo, hi = b[0]
    k = fresh_bv("idx")
    return cx.en.seq([(k, ZERO, mk("unbounded"))], subst(elem, {bv: add(lo, T.irem(k, sub(hi, lo)))}))


def it_reduce(cx, x, f):
    sq = as_seq(cx, x)
    b, filt, elem, stg, rev = sq.args
    if stg or rev or len(b) != 1 or filt is not TRUE:
        return NotImplemented
    bv, lo, hi = b[0]
    some_ = ilt(lo, hi)
    first = subst(elem, {bv: lo})
    rest = cx.en.seq([(bv, add(lo, ONE), hi)], elem)
    return cx.cond_call(some_, lambda cx: _w(some, it_fold(cx, rest, cx.v(first), f)), NONE)


def it_map_while(cx, x, f):
    sq = as_seq(cx, x)
    b, filt, elem, stg, rev = sq.args
    if stg or len(b) != 1 or rev:
        return NotImplemented
    v = cx.en.is_pure(cx.s, lambda s: cx.en.call_closure(s, f, [elem]))
    if v is None:
        return NotImplemented
    c = isv(v, "Some")
    keep = And(filt, prefix_cond(b[0], filt, c))
    return cx.en.seq(b, assume(vfld(v, "Some", 0), c), keep)


def it_partition(cx, x, f):
    sq = as_seq(cx, x)
    c = pred_seq(cx, sq, f)
    if c is None:
        return NotImplemented
    b, filt, elem, stg, rev = sq.args
    kind = "set" if "BTreeSet" in cx.dty or "HashSet" in cx.dty else "vec"
    return tup(collect_seq(cx, cx.en.seq(b, elem, And(filt, c), stg, rev), kind), collect_seq(cx, cx.en.seq(b, elem, And(filt, Not(c)), stg, rev), kind))


def set_pop_first(cx, r):
    v = cx.v(r)
    e = at(v, (ZERO,))
    z = ieq(_size(v), ZERO, True)
    cx.en.store_ref(cx.s, r, ite(z, v, set_del(v, e)))
    return ite(z, NONE, some(e))


def set_pop_last(cx, r):
    v = cx.v(r)
    e = at(v, (sub(_size(v), ONE),))
    z = ieq(_size(v), ZERO, True)
    cx.en.store_ref(cx.s, r, ite(z, v, set_del(v, e)))
    return ite(z, NONE, some(e))


def set_take(cx, r, x):
    v, x = cx.v(r), cx.v(x)
    cx.en.store_ref(cx.s, r, set_del(v, x))
    return ite(in_set(x, v), some(x), NONE)


def set_replace(cx, r, x):
    v, x = cx.v(r), cx.v(x)
    cx.en.store_ref(cx.s, r, set_add(v, x))
    return ite(in_set(x, v), some(x), NONE)


def set_is_subset(cx, x, y):
    x, y = cx.v(x), cx.v(y)
    b = fresh_bv("idx")
    return Not(close_exists(b, ZERO, _size(x), Not(in_set(at(x, (b,)), y))))


def set_is_superset(cx, x, y):
    return set_is_subset(cx, y, x)


def set_is_disjoint(cx, x, y):
    x, y = cx.v(x), cx.v(y)
    b = fresh_bv("idx")
    return Not(close_exists(b, ZERO, _size(x), in_set(at(x, (b,)), y)))


def small_set(v):
    """the elements of a set written down one by one"""
    out = []
    while v.op == "sins":
        out.append(v.args[1])
        v = v.args[0]
    return out if v.op == "emptyset" else None


def set_union(cx, x, y):
    x, y = cx.v(x), cx.v(y)
    for a, b in ((x, y), (y, x)):
        es = small_set(b)
        if es is not None:
            for e in reversed(es):
                a = set_add(a, e)
            return make_seq(cx.en, cx.s, a)
    return NotImplemented


def set_append(cx, r, o):
    x, y = cx.v(r), cx.v(o)
    es = small_set(y)
    if es is None:
        return NotImplemented
    for e in reversed(es):
        x = set_add(x, e)
    cx.en.store_ref(cx.s, r, x)
    cx.en.store_ref(cx.s, o, mk("emptyset"))
    return UNIT


def set_symmetric_difference(cx, x, y):
    x, y = cx.v(x), cx.v(y)
    for a, b in ((x, y), (y, x)):
        es = small_set(b)
        if es is not None and len(es) == 1:
            e = es[0]
            return make_seq(cx.en, cx.s, ite(in_set(e, a), set_del(a, e), set_add(a, e)))
    return NotImplemented


def map_get_mut(cx, r, k):
    if r.op != "refm":
        return NotImplemented
    k = cx.v(k)
    c = isv(mapget(cx.en.load_ref(cx.s, r), k), "Some")
    return ite(c, some(cx.en.ref_ext(r, ("mk", k))), NONE)


def map_and_modify(cx, e, f):
    if e.op != "adt" or e.args[0] != "ENTRY" or fld(e, "map").op != "refm":
        return NotImplemented
    r, k = fld(e, "map"), fld(e, "key")
    c = isv(mapget(cx.en.load_ref(cx.s, r), k), "Some")
    got = cx.cond_call(c, lambda cx: cx.callc(f, cx.en.ref_ext(r, ("mk", k))), T.UNIT if hasattr(T, "UNIT") else NONE)
    return e


# ---- arrays
def nd_columns_mut(cx, x):
    v = cx.v(x)
    if cx.nd(v) != 2:
        return NotImplemented
    b = fresh_bv("idx")
    return cx.en.seq([(b, ZERO, length(v, 1))], do_view(cx, x, spec_fix(2, 1, b), True))


nd_gencolumns, nd_gencolumns_mut, nd_genrows_mut = nd_columns, nd_columns_mut, nd_rows_mut


def nd_lanes(cx, x, a):
    v = cx.v(x)
    n, k = cx.nd(v), axis_no(cx, a)
    if n == 2 and k is not None:
        return nd_columns(cx, x) if k == 0 else nd_rows(cx, x)
    return NotImplemented


def nd_lanes_mut(cx, x, a):
    v = cx.v(x)
    n, k = cx.nd(v), axis_no(cx, a)
    if n == 2 and k is not None:
        return nd_columns_mut(cx, x) if k == 0 else nd_rows_mut(cx, x)
    return NotImplemented


def nd_first(cx, x):
    v = cx.v(x)
    n = cx.nd(v)
    if not n:
        return NotImplemented
    c = And(*[ilt(ZERO, length(v, i)) for i in range(n)])
    return ite(c, some(at(v, (ZERO,) * n)), NONE)


def nd_last(cx, x):
    v = cx.v(x)
    n = cx.nd(v)
    if not n:
        return NotImplemented
    c = And(*[ilt(ZERO, length(v, i)) for i in range(n)])
    return ite(c, some(at(v, tuple(sub(length(v, i), ONE) for i in range(n)))), NONE)


def _count_all(v, n):
    r = ONE
    for i in range(n):
        r = mul(r, length(v, i))
    return r


def nd_mean(cx, x):
    v = cx.v(x)
    n = cx.nd(v)
    if not n:
        return NotImplemented
    m = _count_all(v, n)
    return ite(ieq(m, ZERO, True), NONE, some(div(nd_sum(cx, x), m)))


def nd_mean_axis(cx, x, a):
    v = cx.v(x)
    n, k = cx.nd(v), axis_no(cx, a)
    if not n or k is None or n < 2:
        return NotImplemented
    js = [fresh_bv("idx") for _ in range(n - 1)]
    i = fresh_bv("idx")
    s_ = close_sum(i, ZERO, length(v, k), at(v, tuple(js[:k] + [i] + js[k:])))
    return ite(ieq(length(v, k), ZERO, True), NONE, some(close_lam(js, [length(v, q) for q in range(n) if q != k], div(s_, length(v, k)))))


def nd_fold(cx, x, init, f):
    sq = nd_iter(cx, x)
    return sq if sq is NotImplemented else it_fold(cx, sq, init, f)


def nd_for_each(cx, x, f):
    if cx.path.startswith("ndarray::zip"):
        return zip_each(cx, x, f)
    return NotImplemented


def nd_map_axis(cx, x, a, f):
    v = cx.v(x)
    n, k = cx.nd(v), axis_no(cx, a)
    if not n or k is None or n < 2:
        return NotImplemented
    js = [fresh_bv("idx") for _ in range(n - 1)]
    c = iter(js)
    lane = view(v, tuple(("ax", 0) if q == k else ("ix", next(c)) for q in range(n)))
    e = cx.en.is_pure(cx.s, lambda s: cx.en.call_closure(s, f, [lane]))
    if e is None:
        return NotImplemented
    return close_lam(js, [length(v, q) for q in range(n) if q != k], e)


def nd_select(cx, x, a, ix):
    v, ix = cx.v(x), cx.v(ix)
    n, k = cx.nd(v), axis_no(cx, a)
    if not n or k is None:
        return NotImplemented
    js = [fresh_bv("idx") for _ in range(n)]
    lens = [length(v, q) for q in range(n)]
    lens[k] = _size(ix)
    return close_lam(js, lens, at(v, tuple(at(ix, (j,)) if q == k else j for q, j in enumerate(js))))


def nd_swap(cx, r, i, j):
    i, j, v = cx.v(i), cx.v(j), cx.v(r)
    tu = lambda t: t.args[0] if t.op in ("tup", "vec") else (t,)
    a, b = at(v, tuple(tu(i))), at(v, tuple(tu(j)))
    cx.en.store_ref(cx.s, r, T.st(T.st(v, tuple(tu(i)), b), tuple(tu(j)), a))
    return UNIT


def nd_swap_axes(cx, r, i, j):
    i, j = numval(cx.v(i)), numval(cx.v(j))
    v = cx.v(r)
    n = cx.nd(v)
    if not n or i is None or j is None:
        return NotImplemented
    p = list(range(n))
    p[int(i)], p[int(j)] = p[int(j)], p[int(i)]
    cx.en.store_ref(cx.s, r, view(v, tuple(("ax", q) for q in p)))
    return UNIT


def nd_zip_mut_with(cx, r, y, f):
    y = cx.v(y)
    v = cx.v(r)
    n = cx.nd(v)
    m = cx.nd(y, 1) or ndim(y)
    if not n or not m or m > n:
        return NotImplemented
    bs = [fresh_bv("idx") for _ in range(n)]
    sq = cx.en.seq([(b, ZERO, length(v, i)) for i, b in enumerate(bs)], tup(cx.en.ref_ext(r, ("at", tuple(bs))), at(y, tuple(bs[n - m:]))))
    return each_args(cx, sq, f, 2)


def each_args(cx, sq, f, n):
    en = cx.en
    acc = en.new_cell(cx.s, UNIT)
    f = cx.closref(f)

    def k(s, e, ctx):
        r = en.call_closure(s, f, [fld(e, str(i)) for i in range(n)])
        return ([], []) if r is None else ([r[1]], [])

    return finish_fold(cx, sq, k, acc)


def zip_parts(z):
    return list(fld(z, "parts").args[0])


def zip_pure(cx, z, f, js):
    vs = [cx.v(p) for p in zip_parts(z)]
    e = cx.en.is_pure(cx.s, lambda s: cx.en.call_closure(s, f, [at(v, tuple(js)) for v in vs]))
    return vs, e


def zip_each(cx, z, f):
    z = cx.v(z) if z.op != "adt" else z
    if z.op != "adt" or z.args[0] != "ZIP":
        return NotImplemented
    ps = zip_parts(z)
    n = int(numval(fld(z, "nd")))
    bs = [fresh_bv("idx") for _ in range(n)]
    v0 = cx.v(ps[0])
    el = [cx.en.ref_ext(p, ("at", tuple(bs))) if any(l.op == "refm" for l in leafset(p)) else at(cx.v(p), tuple(bs)) for p in ps]
    return each_args(cx, cx.en.seq([(b, ZERO, length(v0, i)) for i, b in enumerate(bs)], tup(*el)), f, len(ps))


def nd_and(cx, z, y):
    if z.op != "adt" or z.args[0] != "ZIP":
        return NotImplemented
    return adt("ZIP", "ZIP", ("parts", "nd"), (mk("tup", tuple(zip_parts(z)) + (y,)), fld(z, "nd")))


nd_and_broadcast = lambda cx, *a: NotImplemented


def nd_map_collect(cx, z, f):
    if z.op != "adt" or z.args[0] != "ZIP":
        return NotImplemented
    n = int(numval(fld(z, "nd")))
    js = [fresh_bv("idx") for _ in range(n)]
    vs, e = zip_pure(cx, z, f, js)
    if e is None:
        return NotImplemented
    return close_lam(js, [length(vs[0], i) for i in range(n)], e)


_nd_from_plain = nd_from


def nd_from(cx, *a):
    if cx.path.startswith("ndarray::zip"):
        n = cx.nd(cx.v(a[0])) or ndim(cx.v(a[0]))
        if not n:
            return NotImplemented
        return adt("ZIP", "ZIP", ("parts", "nd"), (mk("tup", (a[0],)), num(n)))
    return _nd_from_plain(cx, *a)


# slices with bounds and steps
def nd_step_by(cx, x, k):
    """Slice::step_by"""
    x = cx.v(x)
    if x.op == "conv":
        x = x.args[1]
    if x.op == "adt" and "Range" in x.args[1]:
        return adt("NDSLICE", "NDSLICE", ("r", "step"), (x, cx.v(k)))
    if x.op == "adt" and x.args[0] == "NDSLICE":
        return adt("NDSLICE", "NDSLICE", ("r", "step"), (fld(x, "r"), mul(fld(x, "step"), cx.v(k))))
    return NotImplemented


def slice_bounds(e, n):
    """(first, count, step) of one bounded axis, or None"""
    step = ONE
    r = e
    if e.op == "adt" and e.args[0] == "NDSLICE":
        r, step = fld(e, "r"), fld(e, "step")
    if r.op == "conv":
        r = r.args[1]
    if r.op != "adt":
        return None
    p = range_bounds(r, n)
    k = numval(step)
    if p is None or k is None or k == 0:
        return None
    wrapd = lambda t: add(n, t) if is_num(t) and t.args[1] < 0 else t
    lo, hi = wrapd(p[0]), wrapd(p[1])
    m = sub(hi, lo)
    if k == 1:
        return lo, m, ONE
    a = num(abs(k))
    cnt = T.idiv(add(m, sub(a, ONE)), a)
    return (lo, cnt, step) if k > 0 else (sub(hi, ONE), cnt, step)


_nd_slice_plain = nd_slice


def nd_slice(cx, x, info):
    r = _nd_slice_plain(cx, x, info)
    if r is not NotImplemented:
        return r
    i = cx.v(info)
    if i.op != "vec":
        return NotImplemented
    v = cx.v(x)
    js, lens, ix = [], [], []
    for ax, e in enumerate(i.args[0]):
        if e.op == "adt" and e.args[1] == "Index":
            k = e.args[3][0]
            ix.append(add(length(v, ax), k) if is_num(k) and k.args[1] < 0 else k)
            continue
        j = fresh_bv("idx")
        js.append(j)
        if e.op == "adt" and e.args[1] == "Full":
            lens.append(length(v, ax))
            ix.append(j)
            continue
        if e.op != "adt" or e.args[0] != "SIE":
            return NotImplemented
        p = slice_bounds(e.args[3][0], length(v, ax))
        if p is None:
            return NotImplemented
        lens.append(p[1])
        ix.append(add(p[0], mul(j, p[2])))
    if not js:
        return NotImplemented
    return close_lam(js, lens, at(v, tuple(ix)))
