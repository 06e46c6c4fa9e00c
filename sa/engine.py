"""Interprocedural gated value-flow analysis over the exported MIR.

Every function is abstracted by a summary: return term, final contents of `&mut` arguments and the
list of effects (opaque calls, draws, panics) with path conditions and enclosing loops.  Joins are
gated (decision diagrams), loops are summarised by their recurrences (solved to sums, products,
quantifiers, comprehensions, array lambdas where possible).  No path enumeration, no execution.
"""
import json
import re
import schema
from fractions import Fraction

from terms import *
import terms as T


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("store", "cond")

    def __init__(self, store, cond):
        self.store, self.cond = store, cond

    def copy(self, cond=None):
        return State(dict(self.store), self.cond if cond is None else cond)


class Event:
    __slots__ = ("kind", "name", "args", "cond", "loops", "span", "fn", "res", "stack", "before")

    def __init__(self, kind, name, args, cond, span, fn, res=None, stack=(), before=None):
        self.kind, self.name, self.args, self.cond = kind, name, tuple(args), cond
        self.span, self.fn, self.res, self.stack = span, fn, res, stack
        self.loops = ()
        self.before = before

    def map(self, f):
        e = Event(self.kind, self.name, [f(a) for a in self.args], f(self.cond), self.span, self.fn,
                  f(self.res) if self.res is not None else None, self.stack,
                  f(self.before) if self.before is not None else None)
        e.loops = self.loops
        return e

    def __repr__(self):
        return "%s %s(%s) if %s in %s @%s" % (
            self.kind, self.name, ", ".join(map(show, self.args)), show(self.cond),
            [l.desc() for l in self.loops], self.span[1] if self.span else None)


class Leaf:
    __slots__ = ("cell", "path", "mu", "init", "step", "pre", "fin", "solved")


class Snap:
    """the recurrence equations of a loop without a closed form, as they stood when the loop was summarised:
    unsolved variables (mu, init, step), domain, exits.  Terms of the loop (`rec`, `broke`, `via`, `loopval`, `iters`)
    carry (deps, snap): the values of the free symbols of the equations, and the equations themselves."""

    def __init__(self, ctx):
        self.uid, self.kind, self.outer = ctx.uid, None, None
        self.binders, self.filt, self.rev = [], TRUE, False
        self.todo = {}      # mu -> (init, step)
        self.exits = []     # conditions, in the order of `via`

    def own(self):
        return set(self.todo) | {b for b, _, _ in self.binders}

    def free(self, extra=()):
        out = set()
        for t in list(self.terms()) + list(extra):
            out |= t.fv
        return out - self.own()

    POOL = {}

    def mapped(self, go):
        new = Snap.__new__(Snap)
        new.uid, new.kind, new.rev, new.outer = self.uid, self.kind, self.rev, self.outer
        new.binders = [(b, go(lo), go(hi)) for b, lo, hi in self.binders]
        new.filt = go(self.filt)
        new.todo = {m: (go(a), go(b) if b is not None else None) for m, (a, b) in self.todo.items()}
        new.exits = [go(x) for x in self.exits]
        k, k0 = new.key(), self.key()
        if k == k0:
            return self
        return Snap.POOL.setdefault(k, new)

    def key(self):
        return (self.uid, self.kind, self.rev, tuple(self.binders), self.filt, tuple(self.todo.items()), tuple(self.exits))

    def closure(self, ts, opaque=False):
        """unsolved variables the terms depend on (opaque: not through the hidden state of a foreign object)"""
        need, work = [], list(ts)
        while work:
            t = work.pop()
            for v in t.fv:
                if v in self.todo and v not in need:
                    if opaque and any(x is not None and (x.op == "eff" or any(y.op == "eff" and any(v.op == "mu" for v in y.fv) for y in subterms(x))) for x in self.todo[v]):
                        continue
                    need.append(v)
                    work += [x for x in self.todo[v] if x is not None]
        return need

    def symbols(self, ts, exits):
        """free symbols of the part of the equations that determines the terms ts"""
        ts = list(ts) + (list(self.exits) if exits else []) + [x for _, lo, hi in self.binders for x in (lo, hi)] + [self.filt]
        need = [v for v in self.closure(ts, True)]
        own = set(self.todo) | {b for b, _, _ in self.binders} | {v for v in self.todo}
        out = set()
        for t in ts + [x for v in need for x in self.todo[v] if x is not None]:
            out |= t.fv
        return tuple(sorted(x for x in out if x not in own)), need

    def terms(self):
        for a, b in self.todo.values():
            yield a
            if b is not None:
                yield b
        yield from self.exits
        for _, lo, hi in self.binders:
            yield lo
            yield hi
        yield self.filt

    def __repr__(self):
        return "~"


class Loop:
    """summary of one loop instance"""

    def __init__(self, uid, fn, span):
        self.uid, self.fn, self.span = uid, fn, span
        self.binders = None  # [(bv, lo, hi)]
        self.filt = TRUE
        self.rev = False
        self.kind = "while"
        self.leafs = []
        self.exits = []  # (label, cond, state)
        self.seqcell = None
        self.bad = False
        self.elem = None
        self.cont_cond = TRUE
        self.iv = fresh_bv("idx")

    def map(self, f, g):
        """rewrite the summary (f: values, g: conditions and bounds)"""
        for l in self.leafs:
            for a in ("init", "step", "pre", "fin"):
                v = getattr(l, a)
                if v is not None:
                    setattr(l, a, f(v))
        self.exits = [(lb, g(c), x) for lb, c, x in self.exits]
        if self.binders:
            self.binders = [(bb, g(lo), g(hi)) for bb, lo, hi in self.binders]
        if self.elem is not None:
            self.elem = g(self.elem)
        self.filt = g(self.filt)

    def desc(self):
        if not self.binders:
            return "loop%d" % self.uid
        return "%s:%s" % (self.kind, ",".join("i%d in %s..%s" % (b.args[0], show(l), show(h)) for b, l, h in self.binders))


class Fn:
    def __init__(self, j):
        self.j = j
        self.path = j["path"]
        self.blocks = j["blocks"]
        self.argc = j["argc"]
        self.locals = j["locals"]
        self._cfg = None

    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self.blocks)
        return self._cfg


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    if k == "drop":
        return [t[2]]
    return []


class Cfg:
    def __init__(self, blocks):
        n = len(blocks)
        self.succ = [succs(b["t"]) for b in blocks]
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(self.succ[v])))
                    break
            else:
                order.append(u)
                st.pop()
        order.reverse()
        self.rpo = order
        self.idx = {b: i for i, b in enumerate(order)}
        self.pred = {b: [] for b in order}
        for u in order:
            for v in self.succ[u]:
                self.pred[v].append(u)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while self.idx[a] > self.idx[c]:
                            a = idom[a]
                        while self.idx[c] > self.idx[a]:
                            c = idom[c]
                    new = a
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for u in order:
            for v in self.succ[u]:
                if self.dominates(v, u):
                    body = self.loops.setdefault(v, {v})
                    stk = [u]
                    while stk:
                        x = stk.pop()
                        if x not in body:
                            body.add(x)
                            stk.extend(self.pred[x])

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == self.idom[b]:
                return False
            b = self.idom[b]


REF_RE = re.compile(r"^&(mut )?")
DIM_RE = re.compile(r"Dim<\[usize; (\d+)\]>")


def strip_ref(ty):
    ty = ty.strip()
    while ty.startswith("&"):
        ty = re.sub(r"^&('\w+ )?(mut )?", "", ty).strip()
    return ty


def lam_in(js, L, body):
    """array of the given lengths; its indices are in range"""
    return close_lam(js, L, assume(body, And(*[And(ge0(j), ilt(j, l)) for j, l in zip(js, L)])))


WIDTH = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128, "bool": 1, "char": 32}


class Engine:
    MAXDEPTH = 24

    def __init__(self, facts, noinline=(), keep_trait=True):
        self.facts = facts
        self.facts = facts
        self.fns = facts.fns
        self.noinline = set(noinline)
        self.events = []
        self.loops = []
        self.loopstack = []
        self.stack = []
        self._uid = 0
        self.promcache = {}
        self.unknown = {}
        self.used_models = {}
        self.fnitems = facts.fnitems
        self.deadline = None
        self.sets = set()
        self.visited = set()
        self.hashorder = False  # walks over hash tables are marked ("hperm")

    def uid(self):
        self._uid += 1
        return self._uid

    # ------------------------------------------------------------ public
    def param(self, name):
        return mk("param", name)

    def make_adt(self, path, variant, names, ops):
        """aggregate; rebuilding a value from all of its own fields is the value (single-variant types)"""
        a = self.facts.adts.get(path)
        if not a or len(a["variants"]) != 1 or not ops:
            return adt(path, variant, names, ops)
        enum = a["kind"] == "Enum"

        def base(i, x):
            if enum:
                return x.args[0] if x.op == "vfld" and x.args[1] == variant and x.args[2] == i else None
            return x.args[0] if x.op == "fld" and x.args[1] == names[i] else None

        def eta(xs):
            b = base(0, xs[0])
            return b if b is not None and all(base(i, x) is b for i, x in enumerate(xs)) else None

        if all(x.op == "ite" for x in ops):
            ats = set()
            for x in ops:
                st = [x]
                while st:
                    y = st.pop()
                    if y.op == "ite":
                        ats.add(y.args[0])
                        st.extend(y.args[1:])
            if len(ats) <= 4:
                r = lift(lambda *xs: eta(xs) or adt(path, variant, names, xs), *ops)
                if all(l.op != "adt" for l in leafset(r)):
                    return r
        return eta(ops) or adt(path, variant, names, ops)

    def run(self, path, args=None, names=None, state=None):
        """analyse fn `path` on symbolic arguments; returns Summary"""
        fn = self.fns[path]
        self.events, self.loops = [], []
        st = State({}, TRUE) if state is None else state
        argv = []
        cells = {}
        for i in range(fn.argc):
            nm = fn.argname(i)
            ty = fn.locals[i + 1][0]
            if args is not None and i < len(args) and args[i] is not None:
                v = args[i]
            else:
                v = mk("param", nm)
            if re.search(r"(BTreeSet|HashSet)<[^<>]*>$", strip_ref(ty)):
                self.sets.add(v)
            if re.match(r"^&('\w+ )?mut ", ty) and v.op != "refm":
                c = ("P", nm)
                st.store[c] = v
                cells[nm] = c
                v = mk("refm", c, ())
            argv.append(v)
        r = self.call_fn(fn, argv, st)
        s = Summary()
        s.fn, s.events, s.loops = fn, self.events, self.loops
        if r is None:
            s.ret, s.state, s.cond = BOT, None, FALSE
            s.out = {}
        else:
            s.ret, s.state = r
            s.cond = s.state.cond
            s.out = {n: s.state.store.get(c, BOT) for n, c in cells.items()}
        s.unknown = dict(self.unknown)
        return s

    # ------------------------------------------------------------ memory
    def load_ref(self, st, ref):
        def f(r):
            if r.op != "refm":
                return r
            v = st.store.get(r.args[0], BOT)
            return self.path_get(v, r.args[1])

        return lift(f, ref)

    def rv(self, st, v):
        """value behind any mutable reference"""
        for _ in range(8):
            if any(l.op == "refm" for l in leafset(v)):
                v = self.load_ref(st, v)
            else:
                break
        return v

    def path_get(self, v, path):
        for e in path:
            k = e[0]
            if k == "f":
                v = fld(v, e[1])
            elif k == "v":
                v = vfld(v, e[1], e[2])
            elif k == "at":
                v = at(v, e[1])
            elif k == "view":
                v = view(v, e[1])
            elif k == "m":
                v = self.trait_get(v, e[1], e[2])
            elif k == "mk":
                from lib import mapget
                v = vfld(mapget(v, e[1]), "Some", 0)
        return v

    def path_set(self, v, path, val):
        if not path:
            return val
        e, rest = path[0], path[1:]
        k = e[0]
        if k == "f":
            return with_(v, e[1], self.path_set(fld(v, e[1]), rest, val) if rest else val)
        if k == "v":
            return withv(v, e[1], e[2], self.path_set(vfld(v, e[1], e[2]), rest, val) if rest else val)
        if k == "at":
            return st_(v, e[1], self.path_set(at(v, e[1]), rest, val) if rest else val)
        if k == "view":
            return stv(v, e[1], self.path_set(view(v, e[1]), rest, val) if rest else val)
        if k == "m":
            return mk("upd", v, e[1], e[2], self.path_set(self.trait_get(v, e[1], e[2]), rest, val) if rest else val)
        if k == "mk":
            return mk("mins", v, e[1], self.path_set(self.path_get(v, (e,)), rest, val) if rest else val)
        raise Unsupported(k)

    def store_ref(self, st, ref, val):
        for c, r in leaves(ref):
            if r is BOT:
                continue
            if r.op != "refm":
                # a write through something we lost track of
                self.emit(st, "lostwrite", "lostwrite", [r, val], None)
                continue
            cell, path = r.args
            old = st.store.get(cell, BOT)
            new = self.path_set(old, path, val) if path else val
            st.store[cell] = new if c is TRUE else ite(c, new, old)

    def ref_ext(self, ref, *elems):
        def f(r):
            if r.op != "refm":
                # value view
                return self.path_get(r, elems)
            p = list(r.args[1])
            for e in elems:
                if p and p[-1][0] == "view" and e[0] == "view":
                    p[-1] = ("view", spec_compose(p[-1][1], e[1]))
                elif p and p[-1][0] == "view" and e[0] == "at":
                    sp = p[-1][1]
                    p[-1] = ("at", tuple(s[1] if s[0] == "ix" else e[1][s[1]] for s in sp))
                else:
                    p.append(e)
            return mk("refm", r.args[0], tuple(p))

        return lift(f, ref)

    def new_cell(self, st, v):
        c = ("H", self.uid())
        st.store[c] = v
        return mk("refm", c, ())

    # ------------------------------------------------------------ events
    def emit(self, st, kind, name, args, span, res=None, before=None):
        e = Event(kind, name, args, st.cond, span, self.stack[-1] if self.stack else None, res,
                  tuple(self.stack), before)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ functions
    def call_fn(self, fn, args, st):
        """returns (ret, state) or None if it never returns.  st.cond is extended by the callee."""
        if len(self.stack) > self.MAXDEPTH or self.stack.count(fn.path) > 1:
            return self.havoc_call(fn.path, args, st, None, "recursion")
        self.visited.add(fn.path)
        fid = self.uid()
        self.stack.append(fn.path)
        mark = len(self.events)
        outer_cond = st.cond
        s = State(dict(st.store), TRUE)
        for i, a in enumerate(args):
            s.store[("L", fid, i + 1)] = a
        try:
            frame = Frame(fn, fid)
            ex = self.exec_region(frame, None, 0, s)
        finally:
            self.stack.pop()
        rets = ex.get("return", [])
        for i in range(mark, len(self.events)):
            self.events[i].cond = And(outer_cond, self.events[i].cond)
        if not rets:
            return None
        m = self.merge(rets)
        rv = m.store.get(("L", fid, 0), UNIT)
        for k in [k for k in m.store if k[0] == "L" and k[1] == fid]:
            del m.store[k]
        m.cond = And(outer_cond, m.cond)
        return rv, m

    def merge(self, states):
        if len(states) == 1:
            return states[0]
        r = states[0]
        for s in states[1:]:
            store = {}
            keys = set(r.store) | set(s.store)
            for k in keys:
                a, b = r.store.get(k, BOT), s.store.get(k, BOT)
                store[k] = a if a is b else merge_first(merge2(r.cond, a, s.cond, b))
            r = State(store, merge_first(Or(r.cond, s.cond)))
        return r

    # ------------------------------------------------------------ regions
    def exec_region(self, frame, nodes, entry, st, cur=None):
        """exec the DAG (inner loops collapsed) of `nodes` (None: all) from entry.
        returns {"return": [..], "back": [..], ("exit", src, dst): [..]}"""
        cfg = frame.fn.cfg()
        pend = {entry: [st]}
        out = {}
        skip = set()

        def deliver(src, dst, s):
            if s.cond is FALSE:
                return
            if dst == entry and cur is not None:
                out.setdefault("back", []).append(s)
            elif nodes is not None and dst not in nodes:
                out.setdefault(("exit", src, dst), []).append(s)
            else:
                pend.setdefault(dst, []).append(s)

        for b in cfg.rpo:
            if nodes is not None and b not in nodes:
                continue
            if b in skip or b not in pend:
                continue
            s = self.merge(pend.pop(b))
            if s.cond is FALSE:
                continue
            if b in cfg.loops and not (cur is not None and b == entry):
                body = cfg.loops[b]
                for x in body:
                    skip.add(x)
                exits, rets = self.exec_loop(frame, b, body, s)
                for (src, dst), es in exits:
                    deliver(src, dst, es)
                out.setdefault("return", []).extend(rets)
                continue
            self.exec_block(frame, b, s, deliver, out)
        return out

    def exec_loop(self, frame, header, body, st):
        def run(s, ctx):
            ex = self.exec_region(frame, body, header, s, cur=ctx)
            conts = ex.get("back", [])
            exits = []
            for k, v in ex.items():
                if k == "return":
                    for x in v:
                        exits.append((("return",), x))
                elif k != "back":
                    for x in v:
                        exits.append((k, x))
            return conts, exits

        t = frame.fn.blocks[header]["t"]
        sp = t[-2] if t[0] == "call" else frame.fn.j.get("span")
        res = self.fix_loop(st, run, sp)
        exits, rets = [], []
        for label, s in res:
            if label == ("return",):
                rets.append(s)
            else:
                exits.append(((label[1], label[2]), s))
        return exits, rets

    def exec_block(self, frame, b, s, deliver, out):
        fn = frame.fn
        blk = fn.blocks[b]
        for x in blk["st"]:
            if x[0] == "assign":
                v = self.eval_rv(frame, s, x[2])
                self.assign(frame, s, x[1], v)
            elif x[0] == "setdiscr":
                raise Unsupported("setdiscr")
        t = blk["t"]
        k = t[0]
        if k == "goto":
            deliver(b, t[1], s)
        elif k in ("drop",):
            deliver(b, t[2], s)
        elif k == "assert":
            deliver(b, t[4], s)
        elif k == "return":
            out.setdefault("return", []).append(s)
        elif k in ("unreachable", "unwind", "other"):
            return
        elif k == "switch":
            v = self.eval_op(frame, s, t[1])
            self.do_switch(frame, b, s, v, t, deliver)
        elif k == "call":
            self.do_call(frame, b, s, t, deliver)
        else:
            raise Unsupported(k)

    def do_switch(self, frame, b, s, v, t, deliver):
        targets, otherwise, ty = t[2], t[3], t[4]
        conds = []
        if v.op == "discr":
            x, vs = v.args
            names = dict(vs)
            allv = tuple(n for _, n in vs)
            for val, dst in targets:
                conds.append((isv(x, names.get(str(val), str(val)), allv), dst))
        elif ty == "bool":
            for val, dst in targets:
                conds.append((Not(v) if int(val) == 0 else v, dst))
        else:
            for val, dst in targets:
                conds.append((ieq(v, num(int(val)), ty.startswith("u")), dst))
        rest = TRUE
        for c, _ in conds:
            rest = And(rest, Not(c))
        od = frame.fn.blocks[otherwise]
        if od["t"][0] == "unreachable" and not od["st"]:
            # exhaustive: the last target takes what remains
            acc = TRUE
            for i, (c, dst) in enumerate(conds):
                if i == len(conds) - 1:
                    c = acc
                deliver(b, dst, State(dict(s.store), And(s.cond, c)))
                acc = And(acc, Not(c))
        else:
            for c, dst in conds:
                deliver(b, dst, State(dict(s.store), And(s.cond, c)))
            deliver(b, otherwise, State(dict(s.store), And(s.cond, rest)))

    # ------------------------------------------------------------ places and operands
    def assign(self, frame, s, place, v):
        if not place[1]:
            s.store[("L", frame.fid, place[0])] = v
            return
        self.store_ref(s, self.place_ref(frame, s, place), v)

    def place_ref(self, frame, s, place):
        ref = mk("refm", ("L", frame.fid, place[0]), ())
        variant = None
        for e in place[1]:
            k = e[0]
            if k == "deref":
                v = self.load_ref(s, ref)
                if any(l.op == "refm" for l in leafset(v)):
                    ref = v
                # otherwise: box / shared reference, transparent
            elif k == "downcast":
                variant = e[2]
            elif k == "field":
                if variant is not None:
                    ref = self.ref_ext(ref, ("v", variant, e[1]))
                    variant = None
                else:
                    ref = self.ref_ext(ref, ("f", e[2] if e[2] is not None else str(e[1])))
            elif k == "index":
                ref = self.ref_ext(ref, ("at", (self.rv(s, s.store[("L", frame.fid, e[1])]),)))
            elif k == "cindex":
                base = self.load_ref(s, ref)
                i = sub(length(base, 0), num(e[1])) if e[2] else num(e[1])
                ref = self.ref_ext(ref, ("at", (i,)))
            else:
                raise Unsupported("place " + k)
        return ref

    def read_place(self, frame, s, place):
        v = s.store.get(("L", frame.fid, place[0]), BOT)
        variant = None
        for e in place[1]:
            k = e[0]
            if k == "deref":
                if any(l.op == "refm" for l in leafset(v)):
                    v = self.load_ref(s, v)
            elif k == "downcast":
                variant = e[2]
            elif k == "field":
                if variant is not None:
                    v = vfld(v, variant, e[1])
                    variant = None
                else:
                    v = fld(v, e[2] if e[2] is not None else str(e[1]))
            elif k == "index":
                v = at(v, (self.rv(s, s.store[("L", frame.fid, e[1])]),))
            elif k == "cindex":
                i = sub(length(v, 0), num(e[1])) if e[2] else num(e[1])
                v = at(v, (i,))
            elif k == "subslice":
                v = mk("subslice", v, e[1], e[2], e[3])
            else:
                raise Unsupported("place " + k)
        return v

    def eval_op(self, frame, s, o):
        if o[0] in ("copy", "move"):
            return self.read_place(frame, s, o[1])
        return self.const(frame, o[1])

    def const(self, frame, c):
        if "fn" in c:
            key = c["fn"]["path"] + "|" + ",".join(c["fn"].get("args", []))
            self.fnitems[key] = c["fn"]
            return mk("fnitem", key)
        if "promoted" in c:
            return self.promoted(frame.fn, c["promoted"])
        if "bool" in c:
            return boolc(c["bool"])
        if "int" in c:
            return num(int(c["int"]))
        if "float" in c:
            return floatconst(c["float"])
        if "str" in c:
            return string(c["str"])
        ty = c.get("ty", "")
        if ty == "()":
            return UNIT
        d = c.get("dbg", "")
        if ty.startswith("core::option::Option") and "None" in d:
            return NONE
        if "def" in c and c["def"] in self.fns and self.fns[c["def"]].argc == 0:
            r = self.call_fn(self.fns[c["def"]], [], State({}, TRUE))
            if r:
                return r[0]
        m = re.match(r"^(?:ndarray::dimension::axes::|ndarray::)?Axis\((\d+)", d) or re.match(r".*Axis\((\d+)", d)
        if m:
            return adt("ndarray::Axis", "Axis", ("0",), (num(int(m.group(1))),))
        return mk("const", "dbg", ty + " " + d)

    def promoted(self, fn, i):
        key = (fn.path, i)
        if key not in self.promcache:
            pf = Fn(dict(fn.j["promoted"][i], path=fn.path + "{promoted%d}" % i, promoted=fn.j["promoted"]))
            r = self.call_fn(pf, [], State({}, TRUE))
            self.promcache[key] = r[0] if r else BOT
        return self.promcache[key]

    def eval_rv(self, frame, s, r):
        k = r[0]
        if k == "use":
            return self.eval_op(frame, s, r[1])
        if k == "ref":
            if r[1] == "mut":
                return self.place_ref(frame, s, r[2])
            return self.read_place(frame, s, r[2])
        if k == "rawptr":
            return self.read_place(frame, s, r[2])
        if k == "cast":
            v = self.eval_op(frame, s, r[2])
            if r[1].startswith("FloatToInt"):
                return mapterm("trunc", v)
            if len(r) > 5 and r[4] == "bool":
                return ite(self.rv(s, v), num(1), num(0))
            if r[1].startswith("FloatToFloat") and r[3] == "f32":
                return mapterm("f32", v)
            if r[1].startswith("IntToInt") and r[3] in ("u8", "u16", "i8", "i16") and (len(r) < 5 or WIDTH.get(r[4], 64) > WIDTH[r[3]]):
                # a narrowing conversion loses the high bits (conversions to 32 bits are taken to keep sizes and counts)
                return lift(lambda x: irem(x, num(2 ** (WIDTH[r[3]] - (r[3][0] == "i")))), self.rv(s, v))
            return v
        if k == "bin":
            return self.binop(r[1], self.eval_op(frame, s, r[2]), self.eval_op(frame, s, r[3]), r[4])
        if k == "un":
            v = self.eval_op(frame, s, r[2])
            if r[1] == "Not":
                return Not(v) if r[-1] == "bool" else mk("bitnot", v)
            if r[1] == "Neg":
                return neg(v)
            if r[1].startswith("PtrMetadata"):
                return length(self.rv(s, v), 0)
            return mk("un", r[1], v)
        if k == "discr":
            v = self.read_place(frame, s, r[1])
            v = self.rv(s, v)
            return mk("discr", v, tuple((str(a), b) for a, b in r[3]))
        if k == "agg":
            ops = [self.eval_op(frame, s, o) for o in r[2]]
            kd = r[1]
            if kd[0] == "tuple":
                return mk("tup", tuple(ops))
            if kd[0] == "adt":
                return self.make_adt(kd[1], kd[3], kd[4], ops)
            if kd[0] == "closure":
                return adt("closure", kd[1], [str(i) for i in range(len(ops))], ops)
            if kd[0] == "array":
                return mk("vec", tuple(ops))
            return mk("agg", str(kd), tuple(ops))
        if k == "repeat":
            v = self.eval_op(frame, s, r[1])
            try:
                n = num(int(re.sub(r"_usize$", "", str(r[2]))))
            except ValueError:
                n = mk("constlen", str(r[2]))
            return const_array(v, (n,))
        return mk("unk", "rvalue:" + k, self.uid())

    def binop(self, op, a, b, ty):
        op = op.replace("Unchecked", "").replace("WithOverflow", "")
        fl = ty in ("f64", "f32")
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mul":
            return mul(a, b)
        if op == "Div":
            return div(a, b) if fl else idiv(a, b)
        if op == "Rem":
            return mapterm("frem", a, b) if fl else irem(a, b)
        if op == "BitAnd" and ty != "bool":
            # a mask of low bits
            for x, y in ((a, b), (b, a)):
                if is_num(y) and y.args[1].denominator == 1 and y.args[1] > 0 and (int(y.args[1]) & (int(y.args[1]) + 1)) == 0:
                    return lift(lambda x: irem(x, add(y, ONE)), x)
        if op in ("Shl", "Shr") and is_num(b) and b.args[1].denominator == 1 and 0 <= b.args[1] < 64 and not fl:
            k = num(2 ** int(b.args[1]))
            return lift(lambda x: mul(x, k) if op == "Shl" else idiv(x, k), a)
        if ty == "bool":
            if op == "Eq":
                return ite(a, b, Not(b))
            if op == "Ne":
                return ite(a, Not(b), b)
            if op == "BitAnd":
                return And(a, b)
            if op == "BitOr":
                return Or(a, b)
            if op == "BitXor":
                return ite(a, Not(b), b)
        return self.compare(op, a, b, ty) if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") else mapterm("bin" + op, a, b)

    def compare(self, op, a, b, ty):
        if op in ("Gt", "Ge"):
            return self.compare({"Gt": "Lt", "Ge": "Le"}[op], b, a, ty)
        if op == "Ne":
            return Not(self.compare("Eq", a, b, ty))
        if ty in ("f64", "f32"):
            return {"Lt": flt, "Le": fle, "Eq": feq}[op](a, b)
        if re.match(r"^[ui](\d+|size)$", ty) or ty == "char":
            if op == "Eq":
                return ieq(a, b, ty.startswith("u"))
            return {"Lt": ilt, "Le": ile}[op](a, b)
        if op == "Eq":
            return same(a, b)
        return mapterm("cmp" + op, a, b)

    # ------------------------------------------------------------ calls
    def do_call(self, frame, b, s, t, deliver):
        func, args, dest, target, span, dty = t[1], t[2], t[3], t[4], t[5], t[6]
        argv = [self.eval_op(frame, s, a) for a in args]
        argty = [self.op_ty(frame, a) for a in args]
        if func[0] == "const" and "fn" in func[1]:
            callee = func[1]["fn"]
        else:
            f = self.eval_op(frame, s, func)
            callee = self.fnitems.get(f.args[0]) if f.op == "fnitem" else None
            if callee is None:
                r = self.havoc_call("indirect", argv, s, span, dty)
                self.finish_call(frame, b, r, dest, target, deliver)
                return
        site = (frame.fn.path, b)
        r = self.call(callee, argv, s, span, dty, argty, site)
        self.finish_call(frame, b, r, dest, target, deliver)

    def finish_call(self, frame, b, r, dest, target, deliver):
        if r is None or target is None:
            return
        v, s = r
        if s.cond is FALSE:
            return
        self.assign(frame, s, dest, v)
        deliver(b, target, s)

    def op_ty(self, frame, o):
        if o[0] in ("copy", "move") and not o[1][1]:
            return frame.fn.locals[o[1][0]][0]
        if o[0] == "const":
            return o[1].get("ty", "")
        return ""

    def call(self, callee, argv, s, span, dty, argty=(), site=None):
        import lib

        path = callee["path"]
        res = callee.get("resolved")
        # local definition?
        for p in (res, path):
            if p in self.noinline or (p is not None and callee.get("name") in self.noinline):
                return self.opaque_local(p or path, callee, argv, s, span, dty, argty)
        for p in (res, path):
            if p and p in self.fns and self.fns[p].j["kind"] != "TraitDecl" and self.fns[p].blocks:
                if "{closure" in p and len(argv) == 2 and callee.get("name") in ("call", "call_mut", "call_once"):
                    t = self.rv(s, argv[1])
                    if t.op == "tup":
                        return self.call_closure(s, argv[0], list(t.args[0]))
                return self.call_fn(self.fns[p], argv, s)
        # enum_dispatch / derived impls on references
        r = lib.dispatch(self, callee, argv, s, span, dty, argty, site)
        if r is not NotImplemented:
            return r
        if callee.get("local") and callee.get("trait"):
            return self.opaque_local(path, callee, argv, s, span, dty, argty)
        return self.havoc_call(path, argv, s, span, dty)

    def iter_vars(self):
        out = []
        for l in self.loopstack:
            out += [b for b, _, _ in l.binders] if l.binders else [l.iv]
        return tuple(out)

    def opaque_local(self, path, callee, argv, s, span, dty, argty=()):
        """method of a trait implemented by an unknown type (or a function kept opaque)"""
        name = short(path)
        rngs = {i for i, t in enumerate(argty) if "Rng" in t or "ChaCha" in t or t == "R"}
        allmuts = [i for i, a in enumerate(argv) if any(l.op == "refm" for l in leafset(a))]
        # random generators are a shared source of draws, not state to be tracked
        muts = [i for i in allmuts if i not in rngs]
        vals = [self.rv_deep(s, a) for a in argv]
        if dty.startswith("&") and re.match(r"^&('\w+ )?mut ", dty) and muts:
            base = argv[muts[0]]
            m = name[:-4] if name.endswith("_mut") else name
            rest = tuple(v for i, v in enumerate(vals) if i != muts[0])
            r = self.ref_ext(base, ("m", m, rest))
            self.emit(s, "call", name, vals, span, r)
            return r, s
        if not muts and len(allmuts) > 0:
            key = mk("sitekey", tuple(self.stack), span[1] if span else 0, span[0] if span else "", tuple(l.uid for l in self.loopstack))
            r = mk("call!", name, tuple(vals), key, self.iter_vars())
            self.emit(s, "call", name, vals, span, r)
            return r, s
        if not muts:
            r = self.trait_get(vals[0], name, tuple(vals[1:])) if vals else mk("call", name)
            if callee.get("name") in ("get_param_index_from_custom_parent_set",):
                pass
            self.emit(s, "pure", name, vals, span, r)
            return r, s
        key = mk("sitekey", tuple(self.stack), span[1] if span else 0, span[0] if span else "", tuple(l.uid for l in self.loopstack))
        r = mk("call!", name, tuple(vals), key, self.iter_vars())
        for i in muts:
            self.store_ref(s, argv[i], mk("eff", name, i, tuple(vals), key, self.iter_vars()))
        self.emit(s, "call", name, vals, span, r, before=vals[muts[0]])
        return r, s

    def rv_deep(self, s, v):
        v = self.rv(s, v)
        return v

    def trait_get(self, base, m, args):
        """pure accessor of an opaque object"""

        def f(b):
            if b.op == "upd":
                if b.args[1] == m and len(b.args[2]) == len(args):
                    c = And(*[ieq(x, y) for x, y in zip(b.args[2], args)])
                    return ite(c, b.args[3], self.trait_get(b.args[0], m, args))
                return self.trait_get(b.args[0], m, args)
            return mk("call", m, b, args)

        return lift(f, base)

    def havoc_call(self, path, argv, s, span, why):
        vals = [self.rv_deep(s, a) for a in argv]
        self.unknown[path] = self.unknown.get(path, 0) + 1
        u = mk("unk", path, tuple(vals), mk("sitekey", tuple(self.stack), span[1] if span else 0, span[0] if span else "", tuple(l.uid for l in self.loopstack)))

        def hv(a, i):
            for c, l in leaves(a):
                if l.op == "refm":
                    self.store_ref(s, l, mk("unkmut", u, i))
                elif l.op == "adt" and l.args[0] == "closure":
                    for j, x in enumerate(l.args[3]):
                        hv(x, i * 100 + j)
                elif l.op == "seq":
                    for stg in l.args[3]:
                        if len(stg) > 1:
                            hv(stg[1], i * 100 + 50)

        for i, a in enumerate(argv):
            hv(a, i)
        self.emit(s, "unknown", path, vals, span, u)
        return u, s

    # ------------------------------------------------------------ closures
    def call_closure(self, st, clos, args):
        """clos: closure term / fn item / refm to a cell holding one. returns (ret, state) or None"""
        c = clos
        cv = self.rv(st, c)
        ls = leafset(cv)
        if len(ls) != 1:
            # conditional closure: treat as unknown
            return self.havoc_call("closure", [cv] + list(args), st, None, "ite-closure")
        cv = ls[0]
        if cv.op == "fnitem":
            callee = self.fnitems[cv.args[0]]
            return self.call(callee, list(args), st, None, "")
        if cv.op == "adt" and cv.args[0] == "closure":
            fn = self.fns.get(cv.args[1])
            if fn is None:
                return self.havoc_call(cv.args[1], args, st, None, "noclosure")
            env_ty = fn.locals[1][0]
            if re.match(r"^&('\w+ )?mut ", env_ty):
                if c.op != "refm":
                    c = self.new_cell(st, cv)
                env = c
            else:
                env = cv
            # closure bodies take their arguments untupled in MIR (one local per argument)
            return self.call_fn(fn, [env] + list(args), st)
        if cv.op == "adt" and len(args) >= 1 and cv.args[0] != "closure":
            # tuple-struct / enum constructor used as function is a fnitem; anything else unknown
            pass
        return self.havoc_call("callable", [cv] + list(args), st, None, "opaque callable")

    # ------------------------------------------------------------ loops
    def fix_loop(self, st, body, span, binders=None, filt=TRUE, rev=False, elem=None, normal_label=("exit", -1, -1), kind="while"):
        """generic loop summary.  body(state, ctx) -> (cont states, [(label, state)]).
        Returns [(label, state)].  With binders given, iterates over the domain and leaves through
        normal_label; otherwise exits come from the body."""
        ctx = Loop(self.uid(), self.stack[-1] if self.stack else None, span)
        if binders:
            ctx.binders, ctx.filt, ctx.rev, ctx.kind = list(binders), filt, rev, kind
        given = binders is not None
        outer = st
        trees = {}
        mark = len(self.events)
        lmark = len(self.loops)
        for _pass in range(12):
            del self.events[mark:]
            del self.loops[lmark:]
            ctx.seqcell, ctx.bad2 = None, False
            if not given:
                ctx.binders, ctx.filt, ctx.rev, ctx.kind = None, TRUE, False, "while"
                ctx.elem = None
            ph = {}
            s = State(dict(outer.store), TRUE)
            for cell, tr in trees.items():
                ph[cell] = self.placeholder(outer.store[cell], tr, ctx, cell, ())
                s.store[cell] = ph[cell]
            self.loopstack.append(ctx)
            try:
                conts, exits = body(s, ctx)
            finally:
                self.loopstack.pop()
            hn = mk("hasnext", ctx.uid)
            conts = [State(c.store, restrict_any(c.cond, hn, True)) for c in conts]
            conts = [c for c in conts if c.cond is not FALSE]
            if ctx.filt is not TRUE and ctx.seqcell is not None:
                # elements rejected by the iterator's filters leave the state alone
                skip = State({k: (ph.get(k, v)) for k, v in outer.store.items()}, Not(ctx.filt))
                conts = [State(c.store, And(ctx.filt, c.cond)) for c in conts] + [skip]
            cont = self.merge(conts) if conts else None
            if cont is not None:
                cont = State({k: restrict_any(v, hn, True) for k, v in cont.store.items() if k in outer.store}, cont.cond)
            new = dict(trees)
            if cont is not None:
                for cell in outer.store:
                    if cell == ctx.seqcell:
                        continue
                    init = outer.store[cell]
                    p = ph.get(cell, init)
                    stp = cont.store.get(cell, BOT)
                    if stp is BOT:
                        continue
                    tr = self.grow(trees.get(cell), init, p, stp)
                    if tr is not None:
                        new[cell] = tr
            if same_trees(new, trees):
                break
            trees = new
        else:
            ctx.bad = True
        # recurrences
        leafs = []
        for cell, tr in trees.items():
            self.collect_leafs(tr, cell, (), outer.store[cell], cont.store[cell] if cont else None, leafs)
        ctx.leafs = leafs
        self.loops.append(ctx)
        hn = mk("hasnext", ctx.uid)
        if ctx.kind == "while" and not ctx.binders:
            self.detect_range(ctx, exits, hn)
        if ctx.binders is None:
            b = fresh_bv("idx")
            ctx.binders = [(b, ZERO, mk("iters", ctx.uid))]
            ctx.kind = "while"
        if ctx.kind in ("while", "range") and not given:
            mp = {ctx.iv: ctx.binders[0][0]}
            for l in leafs:
                if l.step is not None:
                    l.step = subst(l.step, mp)
            exits = [(lb, State({k: subst(v, mp) for k, v in x.store.items()}, subst(x.cond, mp))) for lb, x in exits]
            for i in range(mark, len(self.events)):
                e = self.events[i]
                l_ = e.loops
                self.events[i] = e.map(lambda t: subst(t, mp) if t is not None else None)
                self.events[i].loops = l_
            for lp in self.loops[lmark:-1]:
                lp.map(lambda x: subst(x, mp), lambda x: subst(x, mp))
        if ctx.kind in ("seq", "range") and cont is not None and cont.cond is not TRUE:
            # later iterations are only reached when this one does not leave the loop
            go = cont.cond if ctx.kind == "seq" or given else subst(cont.cond, mp)
            own = {mk("mu", ctx.uid, l.cell, l.path) for l in leafs}
            if go.fv & own:
                for l in leafs:
                    if l.step is not None and not l.solved and l.step.op == "ite":
                        l.step = prune_under(l.step, go)
        self.solve(ctx, exits)
        pre = {l.mu: l.pre for l in leafs if l.pre is not None}
        fin = {l.mu: l.fin for l in leafs if l.fin is not None}
        ev = self.events[mark:]
        del self.events[mark:]
        for e in ev:
            e2 = e.map(lambda t: restrict_any(subst(t, pre), hn, True) if t is not None else None)
            if ctx.seqcell is not None or given:
                e2.cond = And(ctx.filt, e2.cond)
            e2.loops = (ctx,) + e2.loops
            e2.cond = e2.cond
            self.events.append(e2)
        for lp in self.loops[lmark:-1]:
            if not hasattr(lp, "parent"):
                lp.parent = ctx
                lp.snap.outer = ctx.snap
            lp.map(lambda x: restrict_any(subst(x, pre), hn, True), lambda x: subst(x, pre))
        result = []
        seq_like = ctx.kind in ("seq", "range")
        if seq_like:
            breaks = []
            normal = []
            if given:
                nstore = dict(outer.store)
                for cell in trees:
                    nstore[cell] = self.rebuild_cell(outer.store[cell], trees[cell], cell, (), leafs, "fin")
                normal.append((normal_label, State(nstore, TRUE)))
            for label, x in exits:
                cn = restrict_any(x.cond, hn, False) if not given and ctx.seqcell is not None else None
                if ctx.seqcell is not None and cn is not FALSE:
                    stn = {k: restrict_any(v, hn, False) for k, v in x.store.items()}
                    stn = {k: subst(v, fin) for k, v in stn.items()}
                    stn[ctx.seqcell] = mk("seqdone")
                    normal.append((label, State(stn, subst(cn, fin))))
                cb = restrict_any(x.cond, hn, True) if ctx.seqcell is not None else x.cond
                if ctx.kind == "range" and ctx.seqcell is None:
                    hc = ctx.range_cond
                    cn = And(x.cond, Not(hc))
                    cb = And(x.cond, hc)
                    if cn is not FALSE:
                        finr = dict(fin)
                        b, lo, hi = ctx.binders[0]
                        stn = {k: subst(subst(v, finr), {b: hi}) for k, v in x.store.items()}
                        normal.append((label, State(stn, TRUE)))
                    if cb is not FALSE:
                        cb = restrict_cond(cb, hc)
                if cb is not FALSE:
                    c = And(ctx.filt, subst(cb, pre))
                    if c is not FALSE:
                        breaks.append((label, c, x))
            ctx.exits = [(lb, c, x) for lb, c, x in breaks]
            if breaks:
                ctx.snap.exits = [c for _, c, _ in breaks]
                allc = Or(*[c for _, c, _ in breaks])
                if len(ctx.binders) == 1 and not any(v.op == "mu" and v.args[0] == ctx.uid for v in allc.fv):
                    b, lo, hi = ctx.binders[0]
                    X = close_exists(b, lo, hi, allc)
                    multi = len(set(lb for lb, _, _ in breaks)) > 1
                    for lb, c, x in breaks:
                        cc = X
                        if multi or len(breaks) > 1:
                            cc = And(X, close_first(b, lo, hi, allc, c)) if c is not allc else X
                        sv = {}
                        for k, v in x.store.items():
                            v = restrict_any(subst(v, pre), hn, True)
                            if k in outer.store and v is outer.store[k]:
                                sv[k] = v
                            else:
                                sv[k] = self.first_val(b, lo, hi, allc, v, ctx)
                        if ctx.seqcell is not None:
                            sv[ctx.seqcell] = mk("seqrest", ctx.uid)
                        result.append((lb, State(sv, And(outer.cond, cc))))
                    normal = [(lb, State(x.store, And(x.cond, Not(X)))) for lb, x in normal]
                else:
                    bdeps, _ = ctx.snap.symbols([], True)
                    bargs = (bdeps, Raw(bdeps), ctx.snap)
                    broke = mk("broke", ctx.uid, *bargs)
                    for j, (lb, c, x) in enumerate(breaks):
                        sv = {}
                        for k, v in x.store.items():
                            v = restrict_any(subst(v, pre), hn, True)
                            if k in outer.store and v is outer.store[k]:
                                sv[k] = v
                            else:
                                sv[k] = self.loopval(v, ctx)
                        if ctx.seqcell is not None:
                            sv[ctx.seqcell] = mk("seqrest", ctx.uid)
                        cc = broke if len(breaks) == 1 else And(broke, mk("via", ctx.uid, j, *bargs)) if j < len(breaks) - 1 else And(broke, *[Not(mk("via", ctx.uid, q, *bargs)) for q in range(j)])
                        result.append((lb, State(sv, And(outer.cond, cc))))
                    normal = [(lb, State(x.store, And(x.cond, Not(broke)))) for lb, x in normal]
            for lb, x in normal:
                result.append((lb, State(x.store, And(outer.cond, x.cond))))
        else:
            b, lo, hi = ctx.binders[0]
            m = dict(fin)
            ctx.exits = [(lb, subst(x.cond, pre), x) for lb, x in exits]
            bdeps, _ = ctx.snap.symbols([], True)
            bargs = (bdeps, Raw(bdeps), ctx.snap)
            it = {mk("iters", ctx.uid): mk("iters", ctx.uid, *bargs)}
            labels = [lb for lb, _ in exits]
            for j, (lb, x) in enumerate(exits):
                sv = {k: subst(subst(subst(v, m), {b: hi}), it) for k, v in x.store.items()}
                if len(exits) == 1:
                    cc = TRUE
                elif j < len(exits) - 1:
                    cc = And(mk("via", ctx.uid, j, *bargs), *[Not(mk("via", ctx.uid, q, *bargs)) for q in range(j)])
                else:
                    cc = And(*[Not(mk("via", ctx.uid, q, *bargs)) for q in range(j)])
                result.append((lb, State(sv, And(outer.cond, cc))))
        return result

    def first_val(self, b, lo, hi, cond, v, ctx):
        def f(x):
            if b not in x.fv and not any(w.op == "mu" and w.args[0] == ctx.uid for w in x.fv):
                return x
            if any(w.op == "mu" and w.args[0] == ctx.uid for w in x.fv):
                return self.loopval(x, ctx)
            return close_first(b, lo, hi, cond, x)

        return map_leaves(f, v)

    def loopval(self, v, ctx):
        """value observed at an exit that is not expressible in closed form"""
        vs = [w for w in v.fv if (w.op == "mu" and w.args[0] == ctx.uid) or any(w is b for b, _, _ in ctx.binders)]
        if not vs:
            return v
        deps, _ = ctx.snap.symbols([v], True)
        own = set(ctx.snap.todo) | {b for b, _, _ in ctx.binders}
        deps = tuple(sorted(set(deps) | {x for x in v.fv if x not in own}))
        return mk("loopval", ctx.uid, mk("quote", OpaqueBox(v)), deps, Raw(deps), ctx.snap)

    def placeholder(self, init, tr, ctx, cell, path):
        if tr == "leaf":
            return mk("mu", ctx.uid, cell, path)
        v = init
        for n, sub_ in tr.items():
            v = with_raw(v, n, self.placeholder(fld(init, n), sub_, ctx, cell, path + (n,)))
        return v

    def rebuild_cell(self, init, tr, cell, path, leafs, what):
        if tr == "leaf":
            for l in leafs:
                if l.cell == cell and l.path == path:
                    v = getattr(l, what)
                    return v if v is not None else l.mu
        v = init
        for n, sub_ in tr.items():
            v = with_(v, n, self.rebuild_cell(fld(init, n), sub_, cell, path + (n,), leafs, what))
        return v

    def grow(self, tr, init, ph, step):
        if step is ph:
            return tr
        if tr == "leaf":
            return "leaf"
        # candidate fields
        names = set(tr) if isinstance(tr, dict) else set()
        iv = init
        if iv.op == "tup":
            names |= {str(i) for i in range(len(iv.args[0]))}
        elif iv.op == "adt" and iv.args[0] != "closure" and iv.args[1] not in ("Some", "None", "Ok", "Err") and iv.args[3]:
            names |= set(iv.args[2])
        for l in leafset(step):
            if l.op == "with":
                names |= {n for n, _ in l.args[1]}
        if not names:
            return "leaf"
        # the step must only differ from the placeholder in those fields
        ctor_ok = True
        for l in leafset(step):
            if iv.op == "tup":
                ctor_ok &= l.op == "tup" and len(l.args[0]) == len(iv.args[0])
            elif iv.op == "adt":
                ctor_ok &= l.op == "adt" and l.args[:3] == iv.args[:3]
        if not ctor_ok:
            return "leaf"
        strip = step
        for n in names:
            strip = with_(strip, n, fld(ph, n))
        if strip is not ph:
            return "leaf"
        out = dict(tr) if isinstance(tr, dict) else {}
        for n in sorted(names):
            a, p, q = fld(init, n), fld(ph, n), fld(step, n)
            t2 = self.grow(out.get(n), a, p, q)
            if t2 is not None:
                out[n] = t2
        return out

    def collect_leafs(self, tr, cell, path, init, step, out):
        if tr == "leaf":
            l = Leaf()
            l.cell, l.path, l.init, l.step = cell, path, init, step
            l.mu = None
            l.pre = l.fin = None
            l.solved = False
            out.append(l)
            l.mu = mk("mu", 0, cell, path)  # fixed below
            return
        for n, sub_ in tr.items():
            self.collect_leafs(sub_, cell, path + (n,), fld(init, n), fld(step, n) if step is not None else None, out)

    def detect_range(self, ctx, exits, hn):
        """while loops controlled by an index that steps by one"""
        for l in ctx.leafs:
            l.mu = mk("mu", ctx.uid, l.cell, l.path)
        mus = {l.mu for l in ctx.leafs}
        # condition under which the loop goes on at its header: no header exit
        for l in ctx.leafs:
            if l.step is None or not is_numlike(l.step) or add(l.mu, ONE) is not l.step:
                continue
            # exit conditions mention  hi - mu - 1 >= 0
            cands = set()
            for lb, x in exits:
                for a in atoms_of(x.cond):
                    if a.op == "ge0" and l.mu in a.fv:
                        cands.add(a)
            for a in sorted(cands):
                p = a.args[0]
                d = poly_dict(p)
                c = d.get(((l.mu, Fraction(1)),))
                if c not in (1, -1):
                    continue
                # p = c*mu + rest
                rest = from_dict({m: v for m, v in d.items() if m != ((l.mu, Fraction(1)),)})
                if c == -1:
                    hi = add(rest, ONE)  # rest - mu >= 0  <=> mu < rest+1
                    go = a
                else:
                    # mu + rest >= 0 is the exit condition: go when mu < -rest
                    hi = neg(rest)
                    go = Not(a)
                if hi.fv & mus:
                    continue
                # when `go` is false the loop must exit
                oth = Or(*[x.cond for _, x in exits])
                if And(Not(go), Not(oth)) is not FALSE:
                    continue
                b = fresh_bv("idx")
                ctx.binders = [(b, l.init, hi)]
                ctx.kind = "range"
                mp = {l.mu: b}
                ctx.range_cond = subst(go, mp)
                # go holds inside
                for q in ctx.leafs:
                    if q is not l:
                        q.step = restrict_cond(subst(q.step, mp), ctx.range_cond)
                for i, (lb, x) in enumerate(exits):
                    exits[i] = (lb, State({k: subst(v, mp) for k, v in x.store.items()}, subst(x.cond, mp)))
                l.step = add(b, ONE)
                l.solved = True
                l.pre, l.fin = b, hi if l.init is ZERO else tmax(l.init, hi)
                return

    # ------------------------------------------------------------ recurrences
    def solve(self, ctx, exits=()):
        for l in ctx.leafs:
            l.mu = mk("mu", ctx.uid, l.cell, l.path)
        todo = [l for l in ctx.leafs if not l.solved]
        pre = {l.mu: l.pre for l in ctx.leafs if l.solved}
        ch = True
        while ch and todo:
            ch = False
            for l in list(todo):
                if l.step is None:
                    l.pre, l.fin, l.solved = l.init, l.init, True
                    todo.remove(l)
                    continue
                step = subst(l.step, pre)
                others = [q.mu for q in todo if q is not l and q.mu in step.fv]
                if others:
                    continue
                r = self.closed_form(ctx, l.mu, l.init, step)
                if r is not None:
                    l.pre, l.fin = r
                    l.step = step
                    l.solved = True
                    pre[l.mu] = l.pre
                    todo.remove(l)
                    ch = True
        sn = ctx.snap = Snap(ctx)
        sn.kind, sn.binders, sn.filt, sn.rev = ctx.kind, list(ctx.binders), ctx.filt, ctx.rev
        for l in todo:
            l.step = subst(l.step, pre)
            l.pre = None
            sn.todo[l.mu] = (l.init, l.step)
        if ctx.kind == "while":
            sn.exits = [subst(x.cond, pre) for _, x in exits]
            sn.binders = [(b, lo, ONE) for b, lo, _ in sn.binders]
        for l in todo:
            deps, need = sn.symbols([l.init, l.step, l.mu], ctx.kind == "while")
            l.fin = mk("rec", 0, ctx.uid, str(l.cell), l.path, l.init, deps, Raw(deps), Raw((l.mu,)), sn)
        for l in ctx.leafs:
            if l.solved:
                pass

    def closed_form(self, ctx, mu, init, step, depth=0):
        bs = ctx.binders
        if depth > 3 or step is BOT:
            return None
        filt = TRUE if ctx.seqcell is not None else ctx.filt
        if filt is not TRUE:
            step = ite(filt, step, mu)
        single = len(bs) == 1
        b, lo, hi = bs[0]
        plo, phi = (lo, b) if not ctx.rev else (add(b, ONE), hi)

        def whole(close, x):
            for bv, l, h in reversed(bs):
                x = close(bv, l, h, x)
            return x

        def pref(close, x):
            """prefix over the iterations before the current one"""
            j = fresh_bv("idx")
            return close(j, plo, phi, subst(x, {b: j}))

        lv = leafset(step)
        r = self.distinct_scatter(ctx, mu, init, step)
        if r is not None:
            return r
        r = self.touch_once(ctx, mu, init, step, lv, plo, phi)
        if r is not None:
            return r
        arr = any(x.op in ("lam", "st", "stv") for x in list(leafset(init)) + list(lv))
        if arr:
            r = self.scatter_form(ctx, mu, init, step, single, pref, whole)
            if r is not None:
                return r
        # boolean
        if is_boolish(step) or init in (TRUE, FALSE):
            t1, t0 = restrict_any(step, mu, True), restrict_any(step, mu, False)
            if mu not in t1.fv and mu not in t0.fv:
                if t1 is TRUE:
                    fin = Or(init, whole(close_exists, t0))
                    return (Or(init, pref(close_exists, t0)) if single else None, fin)
                if t0 is FALSE:
                    fin = And(init, Not(whole(close_exists, Not(t1))))
                    return (And(init, Not(pref(close_exists, Not(t1)))) if single else None, fin)
        # additive / multiplicative / linear
        if not arr and all(is_numlike(x) for x in lv):
            d = sub(step, mu)
            if mu not in d.fv:
                fin = add(init, whole(close_sum, d))
                return (add(init, pref(close_sum, d)) if single else mk("unk", "prefix", ctx.uid), fin)
            lin = linear_in(step, mu)
            if lin is not None:
                a, c = lin
                if c is ZERO:
                    fin = mul(init, whole(close_prod, a))
                    return (mul(init, pref(close_prod, a)) if single else mk("unk", "prefix", ctx.uid), fin)
                if single:
                    def horner(l_, h_, upto_lo, upto_hi):
                        # iterations i in l_..h_, later iterations j multiply
                        j = fresh_bv("idx")
                        i = fresh_bv("idx")
                        aj = subst(a, {b: j})
                        later = close_prod(j, add(i, ONE), h_, aj) if not ctx.rev else close_prod(j, l_, i, aj)
                        s_ = close_sum(i, l_, h_, mul(subst(c, {b: i}), later))
                        j2 = fresh_bv("idx")
                        return add(mul(init, close_prod(j2, l_, h_, subst(a, {b: j2}))), s_)
                    if mu not in a.fv and mu not in c.fv:
                        return horner(plo, phi, None, None), horner(lo, hi, None, None)
        # repeated integer division
        if lv and all(x is mu or (x.op == "idiv" and x.args[0] is mu and mu not in x.args[1].fv) for x in lv) and single:
            c = map_leaves(lambda x: ONE if x is mu else x.args[1], step)
            if mu not in c.fv:
                return idiv(init, pref(close_prod, c)), idiv(init, whole(close_prod, c))
        # growing collections
        r = self.collection_form(ctx, mu, init, step, lv, single, pref, whole)
        if r is not None:
            return r
        # running maximum / minimum
        r = self.extremum_form(ctx, mu, init, step, lv, single, plo, phi)
        if r is not None:
            return r
        # conditional overwrite (also plain overwrite)
        if mu in lv or all(mu not in x.fv for x in lv):
            c = FALSE
            val = BOT
            okk = True
            for cc, x in leaves(step):
                if x is mu:
                    continue
                if mu in x.fv or mu in cc.fv:
                    okk = False
                    break
                c = Or(c, cc)
                val = ite(cc, x, val)
            if okk and mu not in c.fv and single and not ctx.rev:
                if c is TRUE:
                    n = sub(sub(hi, lo), ONE)
                    fin = ite(ge0(n), subst(val, {b: sub(hi, ONE)}), init)
                    pre_ = ite(ge0(sub(sub(b, lo), ONE)), subst(val, {b: sub(b, ONE)}), init)
                    return pre_, fin
                j = fresh_bv("idx")
                return (
                    lastwrite(j, lo, b, subst(c, {b: j}), subst(val, {b: j}), init),
                    lastwrite(b, lo, hi, c, val, init),
                )
        # arrays, pointwise
        n = ndim(step)
        if n is None:
            n = ndim(init)
        if n and n <= 4 and not any(x.op in ("push", "emptyvec") for x in lv):
            js = [fresh_bv("idx") for _ in range(n)]
            sj = at(step, tuple(js))
            mj = at(mu, tuple(js))
            for a_ in sorted(eq_atoms(sj)):
                for q, _, _ in bs:
                    s_ = solve_eq(a_, q)
                    if s_ is not None and any(j in s_.fv for j in js) and restrict1(sj, a_, False) is mj:
                        sj = ite(a_, subst(restrict1(sj, a_, True), {q: s_}), mj)
                        break
            r = self.slab_form(ctx, mu, init, sj, mj, js, plo, phi) if filt is TRUE else None
            if r is not None:
                L = [length(init, i) for i in range(n)]
                return lam_in(js, L, r[0]), lam_in(js, L, r[1])
            sj = propagate_eq(sj, [q for q, _, _ in bs], js)
            sc = mk("mu", ctx.uid, "pt", mu.id)
            lens = [length(mu, i) for i in range(n)]
            sj2 = subst(sj, {mj: sc, **{l: length(init, i) for i, l in enumerate(lens)}})
            if mu not in sj2.fv:
                r = self.closed_form(ctx_nofilt(ctx, filt), sc, at(init, tuple(js)), sj2, depth + 1)
                if r is not None:
                    L = [length(init, i) for i in range(n)]
                    return (
                        lam_in(js, L, r[0]) if r[0] is not None else None,
                        lam_in(js, L, r[1]),
                    )
        return None

    def slab_form(self, ctx, mu, init, sj, mj, js, plo, phi):
        """iteration b rewrites only the part of the array whose p-th index is b, reading nothing else of it"""
        if len(ctx.binders) != 1 or sj.op != "ite":
            return None
        b, lo, hi = ctx.binders[0]
        for a in [sj.args[0]] if sj.args[0].op == "eq0" and sj.args[2] is mj else sorted(eq_atoms(sj)):
            p = next((q for q, j in enumerate(js) if solve_eq(a, b) is j), None)
            if p is not None and restrict1(sj, a, False) is mj:
                break
        else:
            return None
        j, x = js[p], restrict1(sj, a, True)
        if b in x.fv:
            x = subst(x, {b: j})

        def own(t):
            """every occurrence of the array reads the part p = j"""
            todo, seen = [t], set()
            while todo:
                z = todo.pop()
                if z in seen or not isinstance(z, Term):
                    continue
                seen.add(z)
                if z is mu:
                    return False
                if z.op == "len" and z.args[0] is mu:
                    continue
                if z.op == "at" and z.args[0] is mu:
                    if len(z.args[1]) <= p or z.args[1][p] is not j:
                        return False
                    todo += list(z.args[1])
                    continue
                if z.op == "view" and z.args[0] is mu:
                    if len(z.args[1]) <= p or z.args[1][p][0] != "ix" or z.args[1][p][1] is not j:
                        return False
                    todo += [q[1] for q in z.args[1] if q[0] == "ix"]
                    continue
                todo += list(T._walk(z.args))
            return True

        if not own(x):
            return None
        val, old = subst(x, {mu: init}), at(init, tuple(js))
        rng = in_range_b(j, lo, hi)
        return ite(And(rng, And(ile(plo, j), ilt(j, phi))), val, old), ite(rng, val, old)

    def scatter_form(self, ctx, mu, init, step, single, pref, whole):
        """element-wise accumulation  x[idx] += d : every element is its initial value plus the sum of the
        contributions whose index hits it"""
        n = ndim(init) or ndim(step)
        if not n or n > 4:
            return None
        js = [fresh_bv("idx") for _ in range(n)]

        def contrib(t):
            if t is mu or t is BOT:
                return ZERO
            if t.op == "ite":
                if mu in t.args[0].fv:
                    return None
                x, y = contrib(t.args[1]), contrib(t.args[2])
                return None if x is None or y is None else ite(t.args[0], x, y)
            if t.op == "st" and len(t.args[1]) == n:
                base, idx, v = t.args
                if any(mu in i.fv for i in idx):
                    return None
                c = contrib(base)
                if c is None or not all(is_numlike(x) for x in leafset(v)):
                    return None
                d = sub(v, at(base, idx))
                if mu in d.fv:
                    return None
                return add(c, ite(And(*[ieq(a, b) for a, b in zip(idx, js)]), d, ZERO))
            if t.op == "lam" and len(t.args[0]) == n:
                v = at(t, tuple(js))
                if not all(is_numlike(x) for x in leafset(v)):
                    return None
                d = sub(v, at(mu, tuple(js)))
                return None if mu in d.fv else d
            return None

        c = contrib(step)
        if c is None or c is ZERO:
            return None
        # every element updated the same way in one iteration: the pointwise rule gives better forms
        L = [length(init, i) for i in range(n)]
        i0 = at(init, tuple(js))
        if not all(is_numlike(x) for x in leafset(i0)):
            return None
        fin = close_lam(js, L, add(i0, whole(close_sum, c)))
        pre = close_lam(js, L, add(i0, pref(close_sum, c))) if single else mk("unk", "prefix", ctx.uid)
        return pre, fin

    def distinct_scatter(self, ctx, mu, init, step):
        """x[S_i] = v_i for the elements S_i of a set (pairwise distinct)"""
        if len(ctx.binders) != 1 or step.op != "st" or step.args[0] is not mu or len(step.args[1]) != 1:
            return None
        b, lo, hi = ctx.binders[0]
        (x,), v = step.args[1], step.args[2]
        if mu in v.fv or mu in x.fv or x.op != "at" or x.args[1] != (b,) or not self.is_set(x.args[0]):
            return None
        if lo is not ZERO:
            return None
        k = fresh_bv("idx")
        hit = ieq(x, k)

        def upto(h):
            s = close_sum(b, lo, h, ite(hit, v, ZERO))
            i0 = at(init, (k,))
            if i0 is not ZERO:
                s = ite(close_exists(b, lo, h, hit), s, i0)
            return close_lam([k], [length(init, 0)], s)

        q = fresh_bv("idx")
        return subst(upto(q), {q: b}), upto(hi)

    def is_set(self, t):
        if t.op == "comp":
            return t.args[5] == "set"
        return t in self.sets or t.op in ("sins", "srem", "setminus", "emptyset")

    def touch_once(self, ctx, mu, init, step, lv, plo, phi):
        """x is updated in at most one iteration, identified by equations on the binders"""
        if mu not in lv or len(lv) < 2:
            return None
        c = Or(*[cc for cc, x in leaves(step) if x is not mu])
        sol = {}
        lits = implied_literals(c)
        for b, lo, hi in ctx.binders:
            for a, v in sorted(lits.items()):
                if v:
                    s = solve_eq(a, b)
                    if s is not None and mu not in s.fv and not any(q in s.fv for q, _, _ in ctx.binders):
                        sol[b] = s
                        break
            if b not in sol:
                return None
        val = subst(step, {**sol, mu: init})
        rng = And(*[in_range_b(sol[b], subst(lo, sol), subst(hi, sol)) for b, lo, hi in ctx.binders])
        fin = ite(rng, val, init)
        if len(ctx.binders) > 1:
            return None, fin
        b, lo, hi = ctx.binders[0]
        past = And(ile(plo, sol[b]), ilt(sol[b], phi))
        return ite(And(rng, past), val, init), fin

    def collection_form(self, ctx, mu, init, step, lv, single, pref, whole):
        kinds = {"push": "vec", "sins": "set", "mins": "map", "srem": "rem", "concat": "vec"}
        ops = {x.op for x in lv if x is not mu}
        if not lv or len(ops) != 1 or ctx.rev and not single:
            return None
        op = ops.pop()
        if op not in kinds:
            return None
        filt, elem = FALSE, BOT
        for c, x in leaves(step):
            if x is mu:
                continue
            if x.args[0] is not mu or mu in c.fv:
                return None
            e = tup(x.args[1], x.args[2]) if op == "mins" else x.args[1]
            if mu in e.fv:
                return None
            filt = Or(filt, c)
            elem = ite(c, e, elem)
        kind = kinds[op]

        def build(l, h, bv, f, e):
            if kind == "rem":
                c = close_comp(bv, l, h, f, e, "set")
                return mk("setminus", init, c)
            c = close_comp(bv, l, h, f, e, kind)
            if op == "concat":
                c = mk("flat", c)
            if init.op in ("emptyvec", "emptyset", "emptymap"):
                return c
            return mk("append", init, c)

        if single:
            b, lo, hi = ctx.binders[0]
            j = fresh_bv("idx")
            if ctx.rev and op in ("sins", "srem"):
                # the order of insertion is not visible in a set
                pre = build(add(b, ONE), hi, j, subst(filt, {b: j}), subst(elem, {b: j}))
                return pre, build(lo, hi, b, filt, elem)
            if ctx.rev:
                w = {b: sub(sub(hi, ONE), j)}
                filt, elem = subst(filt, w), subst(elem, w)
                return build(ZERO, sub(sub(hi, ONE), b), j, filt, elem), build(ZERO, sub(hi, lo), j, filt, elem)
            pre = build(lo, b, j, subst(filt, {b: j}), subst(elem, {b: j}))
            return pre, build(lo, hi, b, filt, elem)
        x = None
        for bv, l, h in reversed(ctx.binders):
            if x is None:
                x = close_comp(bv, l, h, filt, elem, kind if kind != "rem" else "set")
            else:
                x = mk("flat", close_comp(bv, l, h, TRUE, x, "vec"))
        if kind == "rem":
            x = mk("setminus", init, x)
        elif init.op not in ("emptyvec", "emptyset", "emptymap"):
            x = mk("append", init, x)
        return mk("unk", "prefix", ctx.uid), x

    def extremum_form(self, ctx, mu, init, step, lv, single, plo, phi):
        kind = elem = None
        if len(lv) == 1 and lv[0].op in ("max", "min") and mu in lv[0].args:
            x = lv[0]
            rest = [y for y in x.args if y is not mu]
            if all(mu not in y.fv for y in rest):
                kind = x.op
                elem = rest[0]
                for y in rest[1:]:
                    elem = (tmax if kind == "max" else tmin)(elem, y)
        if kind is None and len(lv) == 2 and mu in lv:
            e = [x for x in lv if x is not mu][0]
            if mu not in e.fv:
                for cand, k in ((flt(mu, e), "max"), (fle(mu, e), "max"), (flt(e, mu), "min"), (fle(e, mu), "min"),
                                (ilt(mu, e), "max"), (ile(mu, e), "max"), (ilt(e, mu), "min"), (ile(e, mu), "min")):
                    if step is ite(cand, e, mu):
                        kind, elem = k, e
                        break
        if kind is None and step.op == "ite":
            # guarded update: if g { mu = max(mu, e) }
            ms = [x for x in lv if x.op in ("max", "min") and mu in x.args]
            if len(ms) == 1 and set(lv) <= {mu, ms[0]}:
                x = ms[0]
                rest = [y for y in x.args if y is not mu]
                g = FALSE
                for c, y in leaves(step):
                    if y is x:
                        g = Or(g, c)
                if len(rest) == 1 and mu not in rest[0].fv and mu not in g.fv:
                    kind = x.op
                    elem = ite(g, rest[0], mk("neutral"))
        if kind is None:
            return None
        x = elem
        for i, (bv, l, h) in enumerate(reversed(ctx.binders)):
            x = close_maxof(bv, l, h, init, kind, x)
        b = ctx.binders[0][0]
        j = fresh_bv("idx")
        pre = close_maxof(j, plo, phi, init, kind, subst(elem, {b: j})) if single else mk("unk", "prefix", ctx.uid)
        return pre, x

    # ------------------------------------------------------------ iterators
    def seq(self, binders, elem, filt=TRUE, stages=(), rev=False):
        return mk("seq", tuple(binders), filt, elem, tuple(stages), rev)

    def mlen(self, x):
        return x

    def run_seq(self, st, seq, k, span, tag="it"):
        """run consumer body k(state, elem, ctx) -> (conts, exits) over a sequence.
        returns the list of (label, state); label 'normal' is exhaustion."""
        binders, filt, elem, stages, rev = seq.args

        def body(s, ctx):
            ctx.elem = elem
            return self.stage_run(s, elem, list(stages), k, ctx)

        return self.fix_loop(st, body, span, binders=binders, filt=filt, rev=rev, elem=elem,
                             normal_label="normal", kind="seq")

    def stage_run(self, s, elem, stages, k, ctx):
        if not stages:
            return k(s, elem, ctx)
        sg, rest = stages[0], stages[1:]
        kind = sg[0]
        if kind == "map":
            r = self.call_closure(s, sg[1], [elem])
            if r is None:
                return [], []
            return self.stage_run(r[1], r[0], rest, k, ctx)
        if kind == "inspect":
            r = self.call_closure(s, sg[1], [elem])
            if r is None:
                return [], []
            return self.stage_run(r[1], elem, rest, k, ctx)
        if kind == "filter":
            r = self.call_closure(s, sg[1], [elem])
            if r is None:
                return [], []
            c, s1 = r
            yes = State(dict(s1.store), And(s1.cond, c))
            no = State(dict(s1.store), And(s1.cond, Not(c)))
            conts, exits = self.stage_run(yes, elem, rest, k, ctx) if yes.cond is not FALSE else ([], [])
            return conts + ([no] if no.cond is not FALSE else []), exits
        if kind == "filter_map":
            r = self.call_closure(s, sg[1], [elem])
            if r is None:
                return [], []
            v, s1 = r
            c = isv(v, "Some")
            yes = State(dict(s1.store), And(s1.cond, c))
            no = State(dict(s1.store), And(s1.cond, Not(c)))
            conts, exits = self.stage_run(yes, vfld(v, "Some", 0), rest, k, ctx) if yes.cond is not FALSE else ([], [])
            return conts + ([no] if no.cond is not FALSE else []), exits
        raise Unsupported("stage " + kind)

    def is_pure(self, st, f):
        """run f on a copy of the state; returns its value when no effect happened"""
        s = State(dict(st.store), st.cond)
        mark, lmark = len(self.events), len(self.loops)
        unk = dict(self.unknown)
        r = f(s)
        evs = self.events[mark:]
        if r is None:
            del self.events[mark:]
            del self.loops[lmark:]
            self.unknown = unk
            return None
        v, s2 = r
        pure = all(e.kind in ("pure", "maypanic") for e in evs) and all(
            s2.store.get(k) is x for k, x in st.store.items()
        )
        if not pure:
            del self.events[mark:]
            del self.loops[lmark:]
            self.unknown = unk
            return None
        return v


class Raw:
    """a tuple of symbols that substitutions leave alone"""

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return isinstance(o, Raw) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return "~"


class OpaqueBox:
    """non-term payload kept inside a term without exposing free variables"""

    def __init__(self, v):
        self.v = v

    def mapped(self, go):
        v = go(self.v)
        return self if v is self.v else OpaqueBox(v)

    def __eq__(self, o):
        return isinstance(o, OpaqueBox) and self.v is o.v

    def __hash__(self):
        return self.v.id

    def __repr__(self):
        return show(self.v)


class Frame:
    __slots__ = ("fn", "fid")

    def __init__(self, fn, fid):
        self.fn, self.fid = fn, fid


class Summary:
    pass


def ctx_nofilt(ctx, filt):
    if filt is TRUE:
        return ctx
    c = Loop(ctx.uid, ctx.fn, ctx.span)
    c.binders, c.rev, c.kind = ctx.binders, ctx.rev, ctx.kind
    c.filt = TRUE
    c.seqcell = ctx.seqcell
    return c


def st_(v, idx, val):
    return T.st(v, idx, val)


def with_raw(base, name, val):
    return with_(base, name, val)


def same_trees(a, b):
    return a == b


def map_leaves(f, t):
    memo = {}

    def go(t):
        if t in memo:
            return memo[t]
        r = ite(t.args[0], go(t.args[1]), go(t.args[2])) if t.op == "ite" else (BOT if t is BOT else f(t))
        memo[t] = r
        return r

    return go(t)


def restrict_any(t, atom, v):
    """replace a boolean atom everywhere in t"""
    return subst(t, {atom: boolc(v)})


def restrict_cond(t, c):
    """simplify t knowing that condition c (usually an atom or its negation) holds"""
    return assume(t, c)


def eq_atoms(t):
    out, seen, stk = set(), set(), [t]
    while stk:
        x = stk.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            if x.args[0].op == "eq0":
                out.add(x.args[0])
            stk.extend(x.args[1:])
    return out


def propagate_eq(t, binders, js):
    """under an equation between a loop binder and an element index, use the element index"""
    memo = {}

    def go(t):
        if t.op != "ite":
            return t
        if t in memo:
            return memo[t]
        a, th, el = t.args
        for b in binders:
            s = solve_eq(a, b)
            if s is not None and any(j in s.fv for j in js):
                th = subst(th, {b: s})
                break
        r = ite(a, go(th), go(el))
        memo[t] = r
        return r

    return go(t)


def linear_in(t, x):
    """t = a*x + c leaf-wise, with a, c free of x"""
    okk = [True]

    def part(want):
        def f(l):
            d = poly_dict(l)
            a, c = {}, {}
            for m, k in d.items():
                e = [y for y in m if y[0] is x]
                if e:
                    if e[0][1] != 1:
                        okk[0] = False
                        return ZERO
                    a[tuple(y for y in m if y[0] is not x)] = k
                else:
                    c[m] = k
            a, c = from_dict(a), from_dict(c)
            if x in a.fv or x in c.fv:
                okk[0] = False
            return a if want == 0 else c

        return map_leaves(f, t)

    if any(not is_numlike(l) for l in leafset(t)):
        return None
    a, c = part(0), part(1)
    if not okk[0] or x in a.fv or x in c.fv:
        return None
    return a, c


NONNUM = {"adt", "tup", "with", "withv", "push", "emptyvec", "vec", "st", "stv", "lam", "comp", "seq", "refm", "sins",
          "srem", "mins", "emptyset", "emptymap", "eff", "is", "ge0", "eq0", "flt", "fle", "feq", "exists", "same",
          "asarr", "view", "upd", "max", "min", "bot", "unkmut", "append", "setminus", "flat", "concat", "fnitem",
          "discr", "hasnext"}


def is_numlike(t):
    if t.op == "const":
        return t.args[0] in ("num",)
    return t.op not in NONNUM


BOOLOPS = {"is", "ge0", "eq0", "flt", "fle", "feq", "exists", "same", "in", "hasnext"}


def is_boolish(t):
    return all(l in (TRUE, FALSE) for l in leafset(t)) and t.op == "ite" or t in (TRUE, FALSE) or t.op in BOOLOPS


def floatconst(x):
    if x in ("inf", "Infinity"):
        return INF
    if x in ("-inf",):
        return mk("const", "inf", -1)
    if x.lower() == "nan":
        return mk("const", "nan", 0)
    if x.startswith("2.718281828459045"):
        return mk("E")
    return num(Fraction(x))


def const_array(v, lens):
    bs = [fresh_bv("idx") for _ in lens]
    return close_lam(bs, lens, v)


def short(path):
    """Trait::method / Type::method"""
    m = re.match(r"^<(.*) as (.*)>::(\w+)$", path)
    if m:
        return m.group(3)
    return path.split("::")[-1]


class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        schema.canonical(d)
        self.d = d
        self.fns = {}
        self.fnitems = {}
        for f in d["fns"]:
            if f.get("blocks"):
                x = Fn(f)
                x.argnames = argnames(f)
                self.fns[f["path"]] = x
        self.adts = {a["path"]: a for a in d["adts"]}


def argnames(f):
    out = {}
    for nm, pl, ai in f.get("names", []):
        if pl and not pl[1] and 1 <= pl[0] <= f["argc"]:
            out.setdefault(pl[0] - 1, nm)
    return out


def _argname(self, i):
    return self.argnames.get(i, "arg%d" % i)


Fn.argname = _argname
Fn.argnames = {}
