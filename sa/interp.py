"""Random interpretation of normal forms.

Two summaries that differ as normal forms may still denote the same function (the normal forms are not complete).
Before a difference is reported as a violation, both terms are evaluated in randomly chosen finite interpretations
of their uninterpreted symbols (parameters, fields, opaque calls, array lengths).  A difference is only reported
when some interpretation separates the two terms; agreement in all of them silences the alarm.  Nothing is ever
*accepted* on the strength of these evaluations, and no program code is run: only closed terms are evaluated."""
import hashlib, math, time
from fractions import Fraction
from terms import *


class Skip(Exception):
    """interpretation not usable (index out of range, division by zero, ...)"""


class Unsupported(Exception):
    pass


NEUTRAL = object()


class Obj:
    __slots__ = ("key",)

    def __init__(self, *key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Obj) and self.key == o.key

    def __hash__(self):
        return hash(self.key)


class Map(dict):
    pass


def adt_(variant, *vals, **named):
    d = dict(named)
    d["#v"] = variant
    d["#p"] = list(vals) + list(named.values())
    for i, v in enumerate(d["#p"]):
        d.setdefault(str(i), v)
    return d


class Samp:
    """a sampler as its public contract describes it: numbered runs of samples at non-decreasing instants, the first at 0;
    a reset starts the next run"""
    __slots__ = ("world", "run", "k")

    def __init__(self, world, run=0, k=0):
        self.world, self.run, self.k = world, run, k

    def key(self):
        return (self.world.seed, self.run, self.k)

    def __eq__(self, o):
        return isinstance(o, Samp) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def ask(self, name, args):
        if name == "next":
            return adt_("Some", self.world.sample(self.run, self.k))
        if name == "reset":
            return ()
        raise Unsupported("sampler: " + name)

    def do(self, name, args):
        if name == "next":
            return Samp(self.world, self.run, self.k + 1)
        if name == "reset":
            return Samp(self.world, self.run + 1, 0) if self.k else self
        raise Unsupported("sampler: " + name)


class World:
    """the samples of every run"""

    def __init__(self, seed, width=2, card=3, gap=1.0):
        self.seed, self.width, self.card, self.gap, self.memo = seed, width, card, gap, {}

    def h(self, *key):
        return int.from_bytes(hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=8).digest(), "big")

    def sample(self, run, k):
        if (run, k) not in self.memo:
            if k > 3000:
                raise Unsupported("too many samples")
            t = 0.0
            if k:
                t = self.sample(run, k - 1)["t"]
                r = self.h("t", run, k)
                t += 0.0 if r % 9 == 0 else self.gap * (0.03 + (r >> 8) % 1000 / 1500.0)
            if k:       # one variable moves
                st = [x["#p"][0] for x in self.sample(run, k - 1)["state"]]
                j = self.h("j", run, k) % self.width
                st[j] = (st[j] + 1 + self.h("s", run, k) % (self.card - 1)) % self.card
            else:
                st = [self.h("s", run, j) % self.card for j in range(self.width)]
            st = [adt_("Discrete", x) for x in st]
            self.memo[run, k] = adt_("Sample", t=t, state=st)
        return self.memo[run, k]


class Net:
    """a network as its public contract describes it: a number of nodes and the set of arcs added since the last reset"""
    __slots__ = ("n", "arcs")

    def __init__(self, n, arcs=frozenset()):
        self.n, self.arcs = n, frozenset(arcs)

    def __eq__(self, o):
        return isinstance(o, Net) and (self.n, self.arcs) == (o.n, o.arcs)

    def __hash__(self):
        return hash((self.n, self.arcs))

    def ask(self, name, args):
        if name == "get_number_of_nodes":
            return self.n
        if name == "get_node_indices":
            return list(range(self.n))
        if name == "get_parent_set":
            return frozenset(i for i, j in self.arcs if j == args[0])
        if name == "get_children_set":
            return frozenset(j for i, j in self.arcs if i == args[0])
        raise Unsupported("network: " + name)

    def do(self, name, args):
        if name == "initialize_adj_matrix":
            return Net(self.n)
        if name == "add_edge":
            return Net(self.n, self.arcs | {(args[0], args[1])})
        raise Unsupported("network: " + name)


def stable(key):
    """a number fixed by the key"""
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")


class Poison:
    """the value of a loop variable that could not be evaluated"""

    def __init__(self, why):
        self.why = why


class Oracle:
    """an opaque question whose answer is a function of some of its arguments; `skip` names what it may not depend on"""

    def __init__(self, name, answer, use):
        self.name, self.answer, self.use = name, answer, use

    def key(self):
        return (self.name,)


class Lam:
    __slots__ = ("lens", "f", "memo")

    def __init__(self, lens, f):
        self.lens, self.f, self.memo = lens, f, {}

    def __call__(self, ix):
        if ix not in self.memo:
            self.memo[ix] = self.f(ix)
        return self.memo[ix]


INT_CTX = {"ge0", "eq0", "idiv", "irem"}


def head(t):
    """a name for the family of values an opaque numeric term belongs to"""
    if t.op in ("at",):
        return head(t.args[0])
    if t.op == "view":
        return head(t.args[0])
    if t.op in ("fld",):
        return ("f", t.args[1])
    if t.op == "vfld":
        return ("v", t.args[1], t.args[2]) if t.args[1] not in ("Some", "Ok") else head(t.args[0])
    if t.op in ("call", "call!"):
        return ("c", t.args[0])
    if t.op == "param":
        return ("p", t.args[0])
    if t.op in ("stat", "draw"):
        return (t.op, t.args[0] if not isinstance(t.args[0], Term) else t.args[0].op)
    return (t.op,)


def poly_atoms(p):
    if p.op == "poly":
        for m, _ in p.args[0]:
            for a, _ in m:
                yield from poly_atoms(a)
    elif p.op == "ite":
        yield from poly_atoms(p.args[1])
        yield from poly_atoms(p.args[2])
    elif p.op in ("min", "max"):
        for a in p.args:
            yield from poly_atoms(a)
    elif p.op in ("sum", "prod"):
        yield from poly_atoms(p.args[-1])
    else:
        yield p


def allsub(t, seen=None):
    """sub-terms, those of the loop equations and of quoted loop values included"""
    seen = set() if seen is None else seen
    for x in subterms(t):
        yield x
        for a in x.args:
            n = type(a).__name__
            if n == "Snap" and a not in seen:
                seen.add(a)
                for y in a.terms():
                    yield from allsub(y, seen)
            elif n == "OpaqueBox" and a not in seen:
                seen.add(a)
                yield from allsub(a.v, seen)


LOOPOPS = ("rec", "broke", "via", "iters", "loopval")


def int_heads(ts):
    out = set()
    for t in ts:
        for x in allsub(t):
            ps = []
            if x.op in INT_CTX:
                ps = list(x.args)
            elif x.op == "at":
                ps = list(x.args[1])
            elif x.op == "view":
                ps = [s[1] for s in x.args[1] if s[0] == "ix"]
            elif x.op in ("sum", "prod", "exists", "comp", "first", "argext", "maxof", "lastw"):
                ps = [x.args[1], x.args[2]]
            elif x.op == "in":
                ps = [x.args[0]] if x.args and isinstance(x.args[0], Term) else []
            for p in ps:
                for a in poly_atoms(p):
                    out.add(head(a))
    return out


def set_class(t):
    """a name for the family of values an opaque set-valued term belongs to (None: not an opaque term)"""
    if t.op == "fld":
        return ("f", t.args[1])
    if t.op == "vfld":
        return ("v", t.args[1], t.args[2])
    if t.op in ("call", "call!"):
        return ("c", t.args[0])
    if t.op == "param":
        return ("p", t.args[0])
    if t.op == "at":
        c = set_class(t.args[0])
        return c and ("at", c)
    return None


def set_classes(ts):
    out = set()

    def add(t):
        if t.op == "ite":
            add(t.args[1])
            add(t.args[2])
        elif t.op in ("sins", "srem", "setminus", "asarr"):
            add(t.args[0])
        else:
            c = set_class(t)
            if c:
                out.add(c)

    for t in ts:
        for x in allsub(t):
            if x.op in ("sins", "srem", "setminus") and isinstance(x.args[0], Term):
                add(x.args[0])
            elif x.op == "in":
                add(x.args[1])
    return out


class Model:
    def __init__(self, seed, ints, maxlen=3, signed=False, bind=None, sets=()):
        self.seed, self.ints, self.maxlen, self.signed = seed, ints, maxlen, signed
        self.sets = sets
        self.bind, self.nan = bind or {}, bool(bind)
        self.hrev = False  # hash tables are walked backwards
        self.normal = False  # the normal distribution and the special values of floating point by their values
        self.memo, self.steps, self.keep, self.owner = {}, 0, [], {}
        self.contract = any(isinstance(x, (Net, Samp, Oracle)) for x in self.bind.values())
        self.big, self.narrow, self.reals, self.wide = [], False, [], False

    def h(self, *key):
        d = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=8).digest()
        return int.from_bytes(d, "big")

    # ---- coercions
    def kind(self, key):
        return key[-1]

    def num(self, v):
        if isinstance(v, bool):
            raise Unsupported("bool as number")
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, Fraction):
            return int(v) if v.denominator == 1 else float(v)
        if isinstance(v, Obj):
            r = self.h("num", ckey(v))
            if self.head_of(v) in self.ints:
                if self.big and (r >> 20) % 3 == 0:
                    return self.big[(r >> 30) % len(self.big)]
                return r % (2 if self.narrow else 4)
            if self.reals and (r >> 20) % 3 == 0:
                x = self.reals[(r >> 30) % len(self.reals)]
                return -x if self.signed and (r >> 40) % 3 == 0 else x
            x = 0.25 + (r % 100003) / 40000.0
            return -x if self.signed and (r >> 40) % 3 == 0 else x
        raise Unsupported("number " + repr(type(v)))

    def head_of(self, v):
        k = v.key
        while True:
            if k[0] == "at" or k[0] == "view":
                k = k[1].key if isinstance(k[1], Obj) else ("?",)
            elif k[0] == "vfld" and k[2] in ("Some", "Ok"):
                k = k[1].key if isinstance(k[1], Obj) else ("?",)
            else:
                break
        if k[0] == "fld":
            return ("f", k[2])
        if k[0] == "vfld":
            return ("v", k[2], k[3])
        if k[0] in ("call", "call!"):
            return ("c", k[1])
        if k[0] == "param":
            return ("p", k[1])
        if k[0] in ("stat", "draw"):
            return (k[0], k[1])
        return (k[0],)

    def set_class(self, v):
        k = v.key
        if k[0] == "fld":
            return ("f", k[2])
        if k[0] == "vfld":
            return ("v", k[2], k[3])
        if k[0] in ("call", "call!"):
            return ("c", k[1])
        if k[0] == "param":
            return ("p", k[1])
        if k[0] == "at" and isinstance(k[1], Obj):
            c = self.set_class(k[1])
            return c and ("at", c)
        return None

    def set_of(self, v):
        """an opaque set: some set of small numbers"""
        if isinstance(v, frozenset):
            return v
        if isinstance(v, Obj):
            r = self.h("set", ckey(v))
            return frozenset(i for i in range(4) if (r >> i) & 1)
        raise Unsupported("set " + repr(type(v)))

    def elem(self, v):
        """a set element: opaque numbers are compared by value"""
        if isinstance(v, Obj) and self.head_of(v) in self.ints:
            return self.num(v)
        return hashable(v)

    def int_(self, v):
        x = self.num(v)
        if isinstance(x, float):
            if abs(x - round(x)) > 1e-9:
                raise Unsupported("non-integer in integer context")
            return int(round(x))
        return x

    def len_(self, v, k):
        if isinstance(v, list):
            if k == 0:
                return len(v)
            if not v:
                raise Skip
            return self.len_(v[0], k - 1)
        if isinstance(v, Lam):
            return v.lens[k]
        if isinstance(v, Obj) and self.sets and self.set_class(v) in self.sets:
            return len(self.set_of(v))
        if isinstance(v, Obj):
            r = self.h("len", ckey(v), k)
            if self.big and (r >> 20) % 3 == 0:
                return self.big[(r >> 30) % len(self.big)]
            if self.wide:
                return 2 + (r % 3 == 0) if self.head_of(v) == ("f", "domain") else 4 + (r % 7 == 0)
            if self.narrow:
                return self.maxlen - r % 2
            return r % (self.maxlen + 1)
        if isinstance(v, frozenset):
            return len(v)
        raise Unsupported("len")

    def at_(self, b, ix):
        for n, i in enumerate(ix):
            if i < 0:
                raise Skip
            if isinstance(b, list):
                if i >= len(b):
                    raise Skip
                b = b[i]
                continue
            if isinstance(b, frozenset):
                s = sorted(b)
                if i >= len(s):
                    raise Skip
                b = s[i]
                continue
            if isinstance(b, Lam):
                m = len(b.lens)
                if len(ix) - n < m:
                    raise Unsupported("partial index")
                if any(x < 0 or x >= l for x, l in zip(ix[n:], b.lens)):
                    raise Skip
                b = b(tuple(ix[n : n + m]))
                return self.at_(b, ix[n + m :]) if len(ix) > n + m else b
            if isinstance(b, Obj) and self.sets and self.set_class(b) in self.sets:
                b = sorted(self.set_of(b))
                if i >= len(b):
                    raise Skip
                b = b[i]
                continue
            if isinstance(b, Obj):
                return Obj("at", b, tuple(ix[n:]))
            if isinstance(b, (int, float)):
                return b
            raise Unsupported("index")
        return b

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Obj):
            return bool(self.h("bool", ckey(v)) & 1)
        raise Unsupported("truth")

    # ---- evaluation
    def ev(self, t, env):
        memo = self.memo
        if t.fv:
            ks = sorted((k for k in env if not isinstance(k, Term) and mk("b", k) in t.fv))
            key = (t, tuple((k, env[k]) for k in ks), tuple((x.id, self.vid(env[x])) for x in t.fv if x in env))
            if self.contract and any(x.op == "mu" and x not in env for x in t.fv):
                key += (tuple((x.id, self.vid(env[x])) for x in sorted(k for k in env if isinstance(k, Term))),)
        else:
            key = t
        if key in memo:
            r = memo[key]
            if isinstance(r, Exception):
                raise r
            return r
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported("too many steps")
        try:
            r = self.ev_(t, env)
        except (Skip, Unsupported) as e:
            memo[key] = e
            raise
        memo[key] = r
        return r

    def vid(self, v):
        if isinstance(v, (int, float, bool, str, Obj, frozenset, Net, Samp)):
            return (type(v).__name__, v)
        if isinstance(v, Poison):
            return ("poison", v.why)
        self.keep.append(v)
        return ("id", id(v))

    # ---- loops without a closed form: their equations, unfolded in this interpretation
    def loop(self, t, env, want, exits):
        """env at the end of the loop of term t; (env, index of the exit taken or None)"""
        deps, raw, sn = (t.args[5], t.args[6], t.args[8]) if t.op == "rec" else t.args[-3:]
        base = {}
        for sym, d in zip(raw.v, deps):
            v = self.later(d, env, False)
            if sym.op == "b":
                raise Unsupported("bound symbol of a loop")
            base[sym] = v
        key = (sn, tuple(want), exits, tuple(self.vid(base[x]) for x in raw.v))
        if key in self.memo:
            r = self.memo[key]
            if isinstance(r, Exception):
                raise r
            return r
        try:
            r = self.unfold(sn, base, want, exits)
        except (Skip, Unsupported) as e:
            self.memo[key] = e
            raise
        self.memo[key] = r
        return r

    def unfold(self, sn, base, want, exits):
        o = sn.outer
        while self.contract and o is not None:
            for v in o.todo:
                self.owner[v] = o
            o = o.outer
        need = sn.closure(list(want) + (sn.exits if exits else []))
        cur = {v: self.later(sn.todo[v][0], base, False) for v in need}

        def points():
            if sn.kind == "while":
                for i in range(400):
                    yield {sn.binders[0][0]: i}
                raise Skip
            pts = [{}]
            for b, lo, hi in sn.binders:
                nxt = []
                for p in pts:
                    e = {**base, **p}
                    nxt += [{**p, b: i} for i in self.rng(lo, hi, e)]
                    if len(nxt) > 5000:
                        raise Unsupported("too many steps")
                pts = nxt
            yield from (reversed(pts) if sn.rev else pts)

        for p in points():
            e = {**base, **p, **cur}
            if sn.filt is not TRUE and not self.truth(self.ev(sn.filt, e)):
                continue
            if exits:
                for j, c in enumerate(sn.exits):
                    if self.truth(self.ev(c, e)):
                        return e, j
            new = {}
            for v in need:
                st = sn.todo[v][1]
                new[v] = cur[v] if st is None else self.later(st, e)
            cur = new
        return {**base, **cur}, None

    def later(self, t, env, force=True):
        """value of a loop variable; one that cannot be evaluated only matters if it is used"""
        force = self.force if force else (lambda v: v)
        if not self.contract:
            return force(self.ev(t, env))
        try:
            return force(self.ev(t, env))
        except Unsupported as e:
            return Poison(str(e))

    def now(self, v):
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def force(self, v):
        """arrays of a loop state are evaluated before the next step"""
        if isinstance(v, Lam):
            import itertools
            if any(l < 0 for l in v.lens):
                raise Skip
            n = 1
            for l in v.lens:
                n *= l
            if n > 4000:
                raise Unsupported("too many steps")
            for ix in itertools.product(*map(range, v.lens)):
                self.force(v(ix))
        return v

    def rng(self, lo, hi, env):
        l, h = self.int_(self.ev(lo, env)), self.int_(self.ev(hi, env))
        if h - l > 70000:
            raise Unsupported("too many steps")
        return range(l, h)

    def ev_(self, t, env):
        op, a = t.op, t.args
        ev = lambda x: self.ev(x, env)
        n = lambda x: self.num(self.ev(x, env))
        if t in self.bind:
            return self.bind[t]
        if op == "const":
            if a[0] == "num":
                return int(a[1]) if a[1].denominator == 1 else float(a[1])
            if a[0] == "bool":
                return a[1]
            if a[0] == "inf":
                return math.inf * a[1]
            return Obj("const", a[0], a[1])
        if op == "b":
            if a[0] not in env:
                raise Unsupported("free bound variable")
            return env[a[0]]
        if op in ("bv", "mu") and t in env:
            return self.now(env[t])
        if op == "mu" and self.contract:
            o = self.owner.get(t)
            if o is None or len(o.binders) != 1 or o.binders[0][0] not in env:
                raise Unsupported("variable of an enclosing loop")
            b, lo, hi = o.binders[0]
            need, k = o.closure([t]), self.int_(env[b])
            cur = {v: self.later(o.todo[v][0], {}, False) for v in need}
            for i in range(self.int_(self.ev(lo, {})), k):
                e = {b: i, **cur}
                cur = {v: self.later(o.todo[v][1], e) for v in need}
            return self.now(cur[t])
        if op == "rec":
            mu = a[7].v[0]
            return self.loop(t, env, (mu,), a[8].kind == "while")[0][mu]
        if op == "broke":
            return self.loop(t, env, (), True)[1] is not None
        if op == "via":
            return self.loop(t, env, (), True)[1] == a[1]
        if op == "iters":
            return self.loop(t, env, (), True)[0][a[-1].binders[0][0]]
        if op == "loopval":
            v = a[1].args[0].v
            e, j = self.loop(t, env, tuple(x for x in v.fv if x in a[-1].todo), True)
            if j is None:
                raise Skip
            return self.ev(v, e)
        if op == "bv":
            r = self.h("bv", a[0])
            if self.big and (r >> 20) % 3 == 0:
                return self.big[(r >> 30) % len(self.big)]
            return r % (2 if self.narrow else (60 if (r >> 20) % 3 else 5) if self.wide else 4)
        if op == "param":
            return Obj("param", a[0])
        if op == "poly":
            s = 0
            for m, c in a[0]:
                p = int(c) if c.denominator == 1 else float(c)
                for x, e in m:
                    v = n(x)
                    if e.denominator == 1 and e > 0:
                        p = p * v ** int(e)
                    elif v == 0:
                        if not self.normal:
                            raise Skip
                        p = p * math.inf
                    elif e.denominator == 1:
                        p = p / float(v) ** int(-e)
                    else:
                        if v < 0 and not self.normal:
                            raise Skip
                        p = p * math.nan if v < 0 else p * float(v) ** float(e)
                s += p
            if isinstance(s, float) and math.isnan(s) and not self.nan:
                raise Skip
            return s
        if op == "ite":
            return ev(a[1]) if self.truth(ev(a[0])) else ev(a[2])
        if op == "eq0":
            x = n(a[0])
            return abs(x) < 1e-9
        if op == "ge0":
            return n(a[0]) >= -1e-9
        if op in ("flt", "fle", "feq"):
            x = n(a[0])
            if abs(x) < 1e-9:
                return op != "flt"
            return x > 0 if op != "feq" else False
        if op == "idiv":
            x, y = self.int_(ev(a[0])), self.int_(ev(a[1]))
            if y <= 0 or x < 0:
                raise Skip
            return x // y
        if op == "irem":
            x, y = self.int_(ev(a[0])), self.int_(ev(a[1]))
            if y <= 0 or x < 0:
                raise Skip
            return x % y
        if op in ("min", "max"):
            return (min if op == "min" else max)(n(x) for x in a)
        if op == "sqrt":
            x = n(a[0])
            if x < 0:
                if self.normal:
                    return math.nan
                raise Skip
            return math.sqrt(x)
        if op == "ln":
            x = n(a[0])
            if x <= 0:
                raise Skip
            return math.log(x)
        if op == "abs":
            return abs(n(a[0]))
        if op == "exp":
            return math.exp(n(a[0]))
        if op == "pow":
            try:
                x, y = n(a[0]), n(a[1])
                r = float(x) ** y
            except (OverflowError, ZeroDivisionError):
                raise Skip
            if isinstance(r, complex):
                raise Skip
            return r
        if op == "len":
            return self.len_(ev(a[0]), a[1])
        if op == "at":
            return self.at_(ev(a[0]), tuple(self.int_(ev(x)) for x in a[1]))
        if op == "hperm":
            v = ev(a[0])
            xs = [self.at_(v, (j,)) for j in range(self.len_(v, 0))]
            return xs[::-1] if self.hrev else xs
        if op == "asarr":
            return ev(a[0])
        if op == "fld":
            b = ev(a[0])
            if isinstance(b, dict):
                if a[1] in b:
                    return b[a[1]]
                raise Skip
            if isinstance(b, tuple):
                return b[int(a[1])]
            if isinstance(b, Obj):
                r = Obj("fld", b, a[1])
                # names are not distinct in every interpretation
                return Obj("name", self.h("name", ckey(r)) % 3) if a[1] == "label" and self.seed % 4 == 1 else r
            raise Unsupported("fld")
        if op == "vfld":
            b = ev(a[0])
            if isinstance(b, dict):
                if b.get("#v") != a[1]:
                    raise Skip
                return b[str(a[2])] if str(a[2]) in b else b["#p"][a[2]]
            if isinstance(b, Obj):
                return Obj("vfld", b, a[1], a[2])
            raise Unsupported("vfld")
        if op == "is":
            b = ev(a[0])
            if isinstance(b, dict):
                return b.get("#v") == a[1]
            if isinstance(b, Obj):
                return bool(self.h("is", ckey(b), a[1]) & 1)
            raise Unsupported("is")
        if op == "adt":
            d = {nm: ev(x) for nm, x in zip(a[2], a[3])}
            d["#v"], d["#t"] = a[1], a[0]
            d["#p"] = [d[nm] for nm in a[2]]
            return d
        if op == "tup":
            return tuple(ev(x) for x in a[0])
        if op == "vec":
            return [ev(x) for x in a[0]]
        if op == "emptyvec":
            return []
        if op == "emptyset":
            return frozenset()
        if op == "in":
            return self.elem(ev(a[0])) in self.set_of(ev(a[1]))
        if op == "sins":
            return self.set_of(ev(a[0])) | {self.elem(ev(a[1]))}
        if op == "srem":
            return self.set_of(ev(a[0])) - {self.elem(ev(a[1]))}
        if op == "setminus":
            return self.set_of(ev(a[0])) - self.set_of(ev(a[1]))
        if op == "emptymap":
            return Map()
        if op == "push":
            b = ev(a[0])
            if not isinstance(b, list):
                raise Unsupported("push")
            return b + [ev(a[1])]
        if op in ("sum", "prod"):
            k, lo, hi, b = a
            r = 0 if op == "sum" else 1
            for i in self.rng(lo, hi, env):
                v = self.num(self.ev(b, {**env, k: i}))
                r = r + v if op == "sum" else r * v
            return r
        if op == "exists":
            k, lo, hi, b = a
            return any(self.truth(self.ev(b, {**env, k: i})) for i in self.rng(lo, hi, env))
        if op == "first":
            k, lo, hi, c, v = a
            for i in self.rng(lo, hi, env):
                if self.truth(self.ev(c, {**env, k: i})):
                    return self.ev(v, {**env, k: i})
            raise Skip
        if op == "comp":
            k, lo, hi, f, e, kind = a
            out = [self.ev(e, {**env, k: i}) for i in self.rng(lo, hi, env) if self.truth(self.ev(f, {**env, k: i}))]
            if kind in ("vec", "arr1"):
                return out
            if kind == "set":
                return frozenset(self.elem(x) for x in out)
            if kind == "map":
                d = Map()
                for x in out:
                    if not isinstance(x, tuple) or len(x) != 2:
                        raise Unsupported("map entry")
                    d[hashable(x[0])] = x[1]
                return d
            raise Unsupported("comp " + str(kind))
        if op == "neutral":
            return NEUTRAL
        if op == "maxof":
            k, lo, hi, init, kind, e = a
            r = n(init)
            for i in self.rng(lo, hi, env):
                v = self.ev(e, {**env, k: i})
                if v is not NEUTRAL:
                    v = self.num(v)
                    r = max(r, v) if kind == "max" else min(r, v)
            return r
        if op == "lastw":
            k, lo, hi, c, v, init = a
            for i in reversed(self.rng(lo, hi, env)):
                if self.truth(self.ev(c, {**env, k: i})):
                    return self.ev(v, {**env, k: i})
            return ev(init)
        if op == "lam":
            ks, lens, b = a
            ls = [self.int_(ev(l)) for l in lens]
            return Lam(ls, lambda ix: self.ev(b, {**env, **dict(zip(ks, ix))}))
        if op == "st":
            b, ix, v = ev(a[0]), tuple(self.int_(ev(i)) for i in a[1]), a[2]
            ls = [self.len_(b, k) for k in range(len(ix))]
            return Lam(ls, lambda jx: ev(v) if jx == ix else self.at_(b, jx))
        if op == "view":
            b = ev(a[0])
            spec = [(s[0], self.int_(ev(s[1])) if s[0] == "ix" else s[1]) for s in a[1]]
            nax = 1 + max([s[1] for s in spec if s[0] == "ax"], default=-1)
            ls = [None] * nax
            for i, s in enumerate(spec):
                if s[0] == "ax":
                    ls[s[1]] = self.len_(b, i)
            return Lam(ls, lambda jx: self.at_(b, tuple(s[1] if s[0] == "ix" else jx[s[1]] for s in spec)))
        if op == "same":
            return self.eqv(ev(a[0]), ev(a[1]))
        if self.contract and op in ("eff", "call", "call!"):
            recv = a[2][0] if op == "eff" else a[1][0] if op == "call!" else a[1]
            rest = a[2][1:] if op == "eff" else a[1][1:] if op == "call!" else a[2]
            b = ev(recv) if isinstance(recv, Term) else None
            if isinstance(b, Oracle):
                if op == "eff":
                    if a[1] == 0:
                        raise Unsupported("effect on an oracle")
                    return "scratch"  # what the question leaves in its scratch arguments
                return b.answer(*[ev(rest[i]) for i in b.use])
            if isinstance(b, (Net, Samp)):
                if op == "eff" and a[1] != 0:
                    raise Unsupported("effect on an argument")
                v = [self.int_(ev(x)) for x in rest]
                return b.do(a[0], v) if op == "eff" else b.ask(a[0], v)
        if op in ("combo", "ncomb"):
            import itertools, math as m_
            xs = ev(a[0])
            k = self.int_(ev(a[1]))
            L = self.len_(xs, 0)
            if k < 0 or m_.comb(L, k) > 5000:
                raise Skip
            if op == "ncomb":
                return m_.comb(L, k)
            i = self.int_(ev(a[2]))
            for c_ in itertools.islice(itertools.combinations([self.at_(xs, (j,)) for j in range(L)], k), i, None):
                return list(c_)
            raise Skip
        if op == "sitekey":
            return Obj(op, *[x for x in a if not isinstance(x, Term)])
        if op == "stat" and self.normal:
            return self.normal_dist(a[0], [self.ev(x, env) for x in a[1]])
        if op in ("call", "stat", "draw", "rngseed", "call!", "shapef", "conv", "rngmoved"):
            return Obj(op, *[self.arg(x, env) for x in a])
        raise Unsupported(op)

    def normal_dist(self, nm, xs):
        """the normal distribution, with its numerical values"""
        if nm in ("Normal::new", "Normal::standard"):
            mu, sd = [self.num(x) for x in xs] if xs else (0.0, 1.0)
            d = Obj("normal", float(mu), float(sd))
            return adt_("Ok", d) if nm.endswith("new") else d
        d = xs[0] if xs else None
        if not isinstance(d, Obj) or d.key[0] != "normal" or len(xs) != 2:
            raise Unsupported("stat " + nm)
        mu, sd, z = d.key[1], d.key[2], self.num(xs[1])
        meth = nm.split("::")[-1]
        if math.isnan(z) or sd <= 0:
            return float("nan")
        if meth == "cdf":
            return 0.5 * math.erfc((mu - z) / sd / math.sqrt(2.0))
        if meth == "sf":
            return 0.5 * math.erfc((z - mu) / sd / math.sqrt(2.0))
        if meth == "inverse_cdf" and 0 < z < 1:
            import statistics
            return statistics.NormalDist(mu, sd).inv_cdf(z)
        raise Unsupported("stat " + nm)

    def arg(self, x, env):
        if isinstance(x, Term):
            v = self.ev(x, env)
            return hashable(v)
        if isinstance(x, tuple):
            return tuple(self.arg(y, env) for y in x)
        return x

    def eqv(self, a, b):
        if isinstance(a, bool) or isinstance(b, bool):
            return self.truth(a) == self.truth(b)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.key == b.key:
            return True
        if isinstance(a, (int, float)) or isinstance(b, (int, float)):
            x, y = self.num(a), self.num(b)
            return abs(x - y) <= 1e-7 * max(1, abs(x), abs(y))
        if isinstance(a, Map) and isinstance(b, Map):
            return set(a) == set(b) and all(self.eqv(a[k], b[k]) for k in a)
        if isinstance(a, dict) and isinstance(b, Obj):
            a, b = b, a
        if isinstance(b, dict) and isinstance(a, Obj) and b["#v"] in ("None", "Some", "Ok", "Err"):
            first = b["#v"] in ("Some", "Err")
            if bool(self.h("is", ckey(a), {"None": "Some", "Ok": "Err"}.get(b["#v"], b["#v"])) & 1) != first:
                return False
            return all(self.eqv(Obj("vfld", a, b["#v"], i), x) for i, x in enumerate(b["#p"]))
        if isinstance(a, dict) and isinstance(b, dict):
            if a["#v"] != b["#v"]:
                return False
            return all(self.eqv(x, y) for x, y in zip(a["#p"], b["#p"]))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.eqv(x, y) for x, y in zip(a, b))
        if isinstance(a, frozenset) or isinstance(b, frozenset):
            return self.set_of(a) == self.set_of(b)
        if isinstance(a, (list, Lam)) or isinstance(b, (list, Lam)):
            nd = len(a.lens) if isinstance(a, Lam) else len(b.lens) if isinstance(b, Lam) else 1
            la = [self.len_(a, k) for k in range(nd)]
            if la != [self.len_(b, k) for k in range(nd)]:
                return False
            import itertools
            return all(self.eqv(self.at_(a, ix), self.at_(b, ix)) for ix in itertools.product(*map(range, la)))
        if isinstance(a, Obj) and isinstance(b, Obj):
            if self.num_like(a) or self.num_like(b):
                return abs(self.num(a) - self.num(b)) < 1e-9
            return False
        raise Unsupported("eq %s %s" % (type(a), type(b)))

    def num_like(self, v):
        return False


def hashable(v):
    if isinstance(v, list):
        return ("list",) + tuple(hashable(x) for x in v)
    if isinstance(v, dict):
        return ("adt",) + tuple((k, hashable(x)) for k, x in sorted(v.items()) if k != "#p")
    if isinstance(v, Lam):
        import itertools
        if len(v.lens) == 1:
            return ("list",) + tuple(hashable(v((i,))) for i in range(v.lens[0]))
        return ("lam",) + tuple(v.lens) + tuple(hashable(v(ix)) for ix in itertools.product(*map(range, v.lens)))
    if isinstance(v, tuple):
        return tuple(hashable(x) for x in v)
    if isinstance(v, float):
        return round(v, 9) if v != int(v) else int(v) if abs(v) < 1e15 else v
    return v


def ckey(v):
    if isinstance(v, Obj):
        return ("o",) + tuple(ckey(x) for x in v.key)
    if isinstance(v, tuple):
        return tuple(ckey(x) for x in v)
    if isinstance(v, frozenset):
        return ("set",) + tuple(sorted((ckey(x) for x in v), key=repr))
    if isinstance(v, Net):
        return ("net", v.n) + tuple(sorted(v.arcs))
    if isinstance(v, Samp):
        return ("sampler",) + v.key()
    if isinstance(v, Oracle):
        return ("oracle", v.name)
    return v


def satisfiable(cond, n=240, assume=None):
    """None: could not be evaluated; False: cond holds in no interpretation tried; seed: an interpretation"""
    return separate(cond, FALSE, n=n, assume=assume)


def witness(t, bind):
    """value of t under the given values of its parameters; None if it cannot be evaluated"""
    m = Model(1, int_heads([t]), bind=bind, sets=set_classes([t]))
    try:
        return m.ev(t, {})
    except (Skip, Unsupported, RecursionError) as e:
        witness.why = str(e)
        return None


DEPTH = 1  # 8 in the thorough tier


def separate(a, b, n=240, assume=None):
    """None: could not be evaluated; False: equal in every interpretation tried; seed: a separating interpretation"""
    ints = int_heads([a, b] + ([assume] if assume is not None else []))
    sets = set_classes([a, b] + ([assume] if assume is not None else []))
    good = 0
    cs = sorted(set(int(x.args[1]) for t in (a, b) for x in allsub(t) if is_num(x) and x.args[1].denominator == 1)
                | set(int(c) for t in (a, b) for x in allsub(t) if x.op == "poly" for m, c in x.args[0] if m == () and c.denominator == 1))
    big = sorted(set(abs(c) + d for c in cs if 3 <= abs(c) <= 130 for d in (-1, 0, 1, 2)))
    t0 = time.time()
    n *= DEPTH
    for seed in range(n * 3):
        if time.time() - t0 > 25 * DEPTH and good >= 6:
            break
        m = Model(seed, ints, maxlen=2 + (seed // 2) % 2, signed=seed % 4 == 3, sets=sets)
        if seed % 3 == 2:
            m.big = big
        m.narrow = seed % 2 == 0
        m.memo, m.steps = {}, 0
        try:
            if assume is not None and not m.truth(m.ev(assume, {})):
                continue
            x, y = m.ev(a, {}), m.ev(b, {})
            if not m.eqv(x, y):
                return seed + 1
            good += 1
        except Skip:
            continue
        except Unsupported as e:
            separate.why = str(e)
            break
        if good >= n:
            break
    # more elements than the constants of the two terms: four or five, of small domains
    if good >= 6:
        t0 = time.time()
        for seed in range(1500 * DEPTH):
            if time.time() - t0 > 10 * DEPTH:
                break
            m = Model(500000 + seed, ints, maxlen=4, sets=sets)
            m.wide, m.steps = True, 100000
            try:
                if assume is not None and not m.truth(m.ev(assume, {})):
                    continue
                if not m.eqv(m.ev(a, {}), m.ev(b, {})):
                    return 500000 + seed + 1
            except (Skip, Unsupported, OverflowError, MemoryError):
                continue
    # thresholds: values around the constants of the two terms
    huge = sorted(set(abs(c) + d for c in cs if abs(c) > 130 for d in (-1, 0, 1, 2, 2 * abs(c))))
    fl = sorted(set(float(c) for t in (a, b) for x in allsub(t) for c in ([x.args[1]] if is_num(x) else [k for m, k in x.args[0] if m == ()] if x.op == "poly" else [])))
    fl = [abs(c) + d for c in fl if abs(c) > 2.7 or 0 < abs(c) < 0.25 for d in (0.0, abs(c) * 1e-3, -abs(c) * 1e-3, abs(c), 9 * abs(c), -abs(c) / 2)]
    fl = sorted(set(fl) | set(round(z / c, 12) for c in fl if abs(c) > 2.7 or abs(c) < 0.1 for z in (1.0, 0.5, 0.2)))
    if huge or fl:
        t0 = time.time()
        for seed in range(2500 * DEPTH):
            if time.time() - t0 > 12 * DEPTH:
                break
            m = Model(1000 + seed, ints, maxlen=2, signed=seed % 4 == 3, sets=sets)
            m.steps = 160000
            m.big, m.reals, m.narrow = huge if seed % 3 == 0 and seed < 120 else [], fl, seed % 2 == 0
            try:
                if assume is not None and not m.truth(m.ev(assume, {})):
                    continue
                if not m.eqv(m.ev(a, {}), m.ev(b, {})):
                    return 1000 + seed + 1
            except (Skip, Unsupported, OverflowError, MemoryError):
                continue
    return False if good >= 6 else None
