"""Rules over the call graph and control flow of every function of the crate: ambient effects, reproducibility,
independence of scheduling and of the log level."""
import collections
import re
from rulesG import *
from engine import succs


# ------------------------------------------------------------------ call graph
class Site:
    __slots__ = ("fn", "blk", "path", "name", "callee", "args", "dst", "target", "span", "dty", "called")

    def where(self):
        return "%s (%s:%s)" % (self.fn, self.span[0], self.span[1]) if self.span else self.fn


def fn_consts(x, out):
    if isinstance(x, (list, tuple)):
        for y in x:
            fn_consts(y, out)
    elif isinstance(x, dict):
        if isinstance(x.get("fn"), dict):
            out.append(x["fn"])
        else:
            for y in x.values():
                fn_consts(y, out)


def sites(F, path):
    """every function called or referenced in the body, cleanup excluded"""
    memo = F.__dict__.setdefault("_sites", {})
    if path in memo:
        return memo[path]
    out = []
    for i, b in enumerate(F.fns[path].blocks or []):
        if b.get("cleanup"):
            continue
        t = b["t"]
        refs = []
        fn_consts(b["st"], refs)
        if t[0] == "call":
            fn_consts(t[2], refs)
            cal = t[1][1].get("fn") if t[1][0] == "const" and isinstance(t[1][1], dict) else None
            if cal:
                s = Site()
                s.fn, s.blk, s.callee, s.args, s.dst, s.target, s.span, s.dty, s.called = path, i, cal, t[2], t[3], t[4], t[5], t[6], True
                s.path, s.name = cal.get("resolved") or cal["path"], cal["name"]
                out.append(s)
        for cal in refs:
            s = Site()
            s.fn, s.blk, s.callee, s.args, s.dst, s.target, s.span, s.dty, s.called = path, i, cal, (), None, None, F.fns[path].j.get("span"), "", False
            s.path, s.name = cal.get("resolved") or cal["path"], cal["name"]
            out.append(s)
    memo[path] = out
    return out


def closures_in(F, path):
    out = []

    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "closure" and isinstance(x[1], str):
                out.append(x[1])
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)

    for b in F.fns[path].blocks or []:
        walk(b["st"])
        walk(b["t"])
    return [p for p in dict.fromkeys(out) if p in F.fns]


def edges(F, path, dyn=True):
    """functions called, referenced or built as closures; dyn: also through trait methods on generic receivers"""
    memo = F.__dict__.setdefault("_edges", {})
    if (path, dyn) in memo:
        return memo[path, dyn]
    out = list(closures_in(F, path))
    for s in sites(F, path):
        if s.path in F.fns:
            out.append(s.path)
        elif s.callee["path"] in F.fns:
            out.append(s.callee["path"])
        elif dyn and s.callee.get("trait"):
            # a method of a trait of this crate on a generic receiver: any implementation
            tr = re.sub(r"<.*$", "", s.callee["trait"])
            for im in F.d["impls"]:
                if re.sub(r"<.*$", "", im.get("trait") or "") == tr:
                    out += [x for x in im["items"] if x in F.fns and x.endswith("::" + s.name)]
    memo[path, dyn] = list(dict.fromkeys(out))
    return memo[path, dyn]


def reach(F, roots):
    seen, st = set(), list(roots)
    while st:
        x = st.pop()
        if x in seen or x not in F.fns:
            continue
        seen.add(x)
        st += edges(F, x)
    return seen


def all_sites(c):
    for p in sorted(c.F.fns):
        for s in sites(c.F, p):
            yield s


def root_of(path):
    return re.sub(r"(::\{closure#\d+\})+$", "", path)


def flatpath(p):
    """path with generic arguments removed"""
    while True:
        q = re.sub(r"::<[^<>]*>|(?<=\w)<[^<>]*>", "", p)
        if q == p:
            return q
        p = q


# ------------------------------------------------------------------ C11
IO = [
    (r"^(std|core|alloc)::(fs|net|os)::", "file system or network"),
    (r"^(std|core)::env::", "environment"),
    (r"^(std|core)::process::", "process state"),
    (r"^std::io::(stdio|Stdout|Stderr|Stdin|stdin|stdout|stderr|_print|_eprint|copy|Read|Write|BufRead|pipe)\b", "standard streams"),
    (r"^std::time::(SystemTime|Instant)::(now|elapsed)$", "clock"),
    (r"^std::panic(king)?::(set_hook|take_hook|update_hook)", "panic hook"),
    (r"^core::ptr::.*volatile|^core::intrinsics::volatile", "volatile memory"),
    (r"^libc::", "operating system"),
    (r"^log::set_", "logger configuration"),
    (r"^rayon_core::ThreadPoolBuilder::build_global|^rayon::.*build_global", "global thread pool"),
    (r"std::thread::local::LocalKey|std::thread::LocalKey", "thread-local state"),
    (r"^std::thread::(sleep|park)", "scheduling"),
]
CELLS = r"\b(Cell|RefCell|UnsafeCell|SyncUnsafeCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|Condvar|Atomic\w*|Sender|Receiver|LocalKey)\b|\*(mut|const) "


def short_ty(t):
    return re.sub(r"[a-z_]\w*::", "", t)


def C11(c):
    n = 0
    for p in sorted(c.F.fns):
        bad = []
        for s in sites(c.F, p):
            q = flatpath(s.path)
            for rx, what in IO:
                if re.search(rx, q) or re.search(rx, flatpath(s.callee["path"])):
                    bad.append((s, what))
        n += 1
        if bad:
            s, what = bad[0]
            c.viol("effects:" + p, s.where(), "touches the %s: calls %s" % (what, s.path))
        else:
            c.ok("effects:" + p, p, "no call touches anything outside the values passed in")
    facts = c.F.d
    for st in facts["statics"]:
        if st["mut"] or not st["freeze"]:
            c.viol("static:" + st["path"], "%s:%s" % tuple(st["span"][:2]), "global mutable state: static %s: %s" % (st["path"], st["ty"]))
        else:
            c.ok("static:" + st["path"], st["path"], "immutable")
    for ad in facts["adts"]:
        hit = [(v["name"], f["name"], f["ty"]) for v in ad["variants"] for f in v["fields"] if re.search(CELLS, f["ty"])]
        loc = "%s (%s:%s)" % ((ad["path"],) + tuple(ad["span"][:2]))
        if hit:
            c.viol("type:" + ad["path"], loc, "state that changes behind a shared reference: field %s: %s" % (hit[0][1], short_ty(hit[0][2])))
        else:
            c.ok("type:" + ad["path"], loc, "no interior mutability, no raw pointer in any field")
    for sp in facts["unsafe_blocks"]:
        mac = sp[2]
        own = mac is None or not mac.endswith("!")
        c.add("unsafe:%s:%s" % (sp[0], sp[1]) if own else "unsafe:macro:%s" % mac, "VIOLATION" if own else "OK", "%s:%s" % (sp[0], sp[1]),
              "unsafe code written in the crate" if own else "unsafe block comes from the expansion of %s of a dependency" % mac)


# ------------------------------------------------------------------ C10
LOGSRC = ("log::max_level", "log::__private_api::enabled", "log::Log::enabled", "log::logger")
LOGOK = re.compile(r"^(core|alloc|std)::(fmt|string|str|hint|borrow|option::Option::(as_ref|is_some|is_none)|ops::(deref|index)|clone|convert|iter|slice|vec|collections|cmp|result::Result::(is_ok|is_err|as_ref))|^<?(alloc|core|std|log|ndarray)\b|^log::")
PANICS = re.compile(r"^core::panicking|^std::panicking|^std::rt::|^std::process|::unwrap$|::expect$|::unwrap_err$|::expect_err$|unwrap_failed|^core::(option|result)::expect_failed")


def operand_locals(x, out):
    """locals read by an operand / rvalue (places given as [local, projections])"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ("copy", "move") and isinstance(x[1], list):
            place(x[1], out)
            return
        for y in x:
            operand_locals(y, out)


def place(p, out):
    if isinstance(p, list) and p and isinstance(p[0], int):
        out.add(p[0])
        for pr in p[1]:
            if isinstance(pr, list) and pr and pr[0] == "index" and len(pr) > 1 and isinstance(pr[1], int):
                out.add(pr[1])


def reads(st):
    out = set()
    if st[0] == "assign":
        rv = st[2]
        if rv[0] in ("ref", "rawptr", "addr"):
            place(rv[2], out)
        elif rv[0] in ("discr", "len"):
            place(rv[1], out)
        else:
            operand_locals(rv, out)
        if st[1][1]:
            place(st[1], out) if any(x and x[0] == "deref" for x in st[1][1]) else None
    return out


class Flow:
    """post-dominators over the blocks from which the function can return"""

    def __init__(self, f):
        self.f = f
        B = f.blocks
        n = len(B)
        self.succ = [[] if b.get("cleanup") else [v for v in succs(b["t"]) if v is not None] for b in B]
        rev = [[] for _ in B]
        for u in range(n):
            for v in self.succ[u]:
                rev[v].append(u)
        rets = [i for i, b in enumerate(B) if b["t"][0] == "return" and not b.get("cleanup")]
        can, st = set(rets), list(rets)
        while st:
            x = st.pop()
            for y in rev[x]:
                if y not in can:
                    can.add(y)
                    st.append(y)
        self.can = can
        full = (1 << (n + 1)) - 1
        pd = {i: (full if i not in rets else (1 << i) | (1 << n)) for i in can}
        ch = True
        order = sorted(can, reverse=True)
        while ch:
            ch = False
            for u in order:
                if u in rets:
                    continue
                m = full
                for v in self.succ[u]:
                    if v in can:
                        m &= pd[v]
                m |= 1 << u
                if m != pd[u]:
                    pd[u] = m
                    ch = True
        self.pd, self.n = pd, n

    def join(self, u):
        """immediate post-dominator (n: the exit), None when no path returns"""
        if u not in self.can:
            return None
        cand = [v for v in range(self.n + 1) if self.pd[u] >> v & 1 and v != u]
        best = None
        for v in cand:
            # v is the nearest: every other candidate post-dominates v
            if v == self.n:
                continue
            if all(w == v or w == self.n or self.pd[v] >> w & 1 for w in cand):
                best = v
        return self.n if best is None else best

    def region(self, u):
        """blocks executed between the branch at u and its join"""
        j = self.join(u)
        seen, st = set(), [v for v in self.succ[u] if v != j]
        while st:
            x = st.pop()
            if x in seen or x == j:
                continue
            seen.add(x)
            st += self.succ[x]
        return seen, j


def has_loglevel(ty):
    return "log::Level" in ty


def C10(c):
    F = c.F
    for p in sorted(F.fns):
        f = F.fns[p]
        if not f.blocks:
            continue
        ss = sites(F, p)
        src = {}
        for s in ss:
            if not s.called:
                continue
            q = flatpath(s.callee["path"])
            if q in LOGSRC or flatpath(s.path) in LOGSRC or (s.callee.get("trait") in ("core::cmp::PartialOrd", "core::cmp::PartialEq") and any(has_loglevel(a) for a in s.callee.get("args", []))):
                src[s.blk] = s
        if not src:
            c.ok("fn:" + p, p, "does not consult the log level")
            continue
        analyse_log(c, p, f, src, {s.blk: s for s in ss if s.called})


def analyse_log(c, p, f, src, calls):
    B = f.blocks
    fl = Flow(f)
    taint = {s.dst[0] for s in src.values() if s.dst}
    names = {tuple([n[1][0]]) for n in f.j["names"]} if f.j.get("names") else set()
    bad, und = [], []
    implicit = set()     # blocks controlled by the log level
    handled = set()
    logcalls = lambda q: q.startswith("log::") or q.startswith("core::fmt::") or q.startswith("alloc::fmt::")
    ch = True
    while ch:
        ch = False
        for i, b in enumerate(B):
            if b.get("cleanup"):
                continue
            for st in b["st"]:
                if st[0] != "assign":
                    continue
                if (reads(st) & taint or i in implicit):
                    dst = st[1]
                    if any(x and x[0] == "deref" for x in dst[1]):
                        bad.append((i, st[3], "writes through a reference"))
                    elif dst[0] not in taint:
                        taint.add(dst[0])
                        ch = True
            t = b["t"]
            if t[0] == "switch" and i not in handled:
                r = set()
                operand_locals(t[1], r)
                if r & taint:
                    handled.add(i)
                    ch = True
                    reg, j = fl.region(i)
                    if j is None:
                        continue
                    implicit |= reg
            if t[0] == "call" and t[3]:
                r = set()
                operand_locals(t[2], r)
                if (i in implicit or r & taint) and t[3][0] not in taint:
                    taint.add(t[3][0])
                    ch = True
    # what happens in blocks controlled by the level
    for i in sorted(implicit):
        t = B[i]["t"]
        if t[0] == "return":
            bad.append((i, None, "returns"))
        if t[0] == "call":
            s = calls.get(i)
            if s is None:
                und.append((i, t[5], "calls a function value"))
                continue
            q = flatpath(s.path)
            if t[4] is None or PANICS.search(q):
                (bad if t[4] is None and "panic" in q else und).append((i, t[5], "may stop the program: %s" % q))
                continue
            if logcalls(q) or logcalls(flatpath(s.callee["path"])):
                continue
            # exclusive access to anything older than the branch
            for o in s.args:
                if o[0] in ("copy", "move"):
                    ty = f.locals[o[1][0]][0] if not o[1][1] else ""
                    if ty.startswith("&mut ") or re.match(r"^&'\w+ mut ", ty):
                        if local_owner(B, o[1][0], implicit):
                            continue
                        bad.append((i, t[5], "changes %s through %s" % (short_ty(ty), q)))
    # level-dependent values that leave the log statements
    for i, b in enumerate(B):
        if b.get("cleanup") or i in implicit:
            continue
        t = b["t"]
        if t[0] == "call":
            r = set()
            operand_locals(t[2], r)
            s = calls.get(i)
            if r & taint and s is not None and not live_taint(f, r & taint, implicit):
                continue
            if r & taint and s is not None and i not in src:
                q = flatpath(s.path)
                if not logcalls(q):
                    und.append((i, t[5], "passes a value that depends on the log level to %s" % q))
    if 0 in taint:
        bad.append((0, f.j["span"], "the result depends on the log level"))
    seen = set()
    for lst, st in ((bad, "VIOLATION"), (und, "UNDETERMINED")):
        for i, sp, what in lst:
            k = "fn:%s:%s" % (p, what)
            if k in seen:
                continue
            seen.add(k)
            c.add(k, st, "%s (%s:%s)" % (p, sp[0], sp[1]) if sp else p, "depending on the log level, it %s" % what)
    if not bad and not und:
        c.ok("fn:" + p, p, "%d branches on the log level only build and emit messages" % len(handled))


def live_taint(f, ls, implicit):
    return True


def local_owner(B, l, implicit):
    """the reference was taken, inside the controlled blocks, of a local initialised there"""
    for i in implicit:
        for st in B[i]["st"]:
            if st[0] == "assign" and st[1] == [l, []] and st[2][0] == "ref" and not any(x and x[0] == "deref" for x in st[2][2][1]):
                base = st[2][2][0]
                inside = outside = False
                for j, b in enumerate(B):
                    for s2 in b["st"]:
                        if s2[0] == "assign" and s2[1][0] == base:
                            inside, outside = inside or j in implicit, outside or j not in implicit
                    if b["t"][0] == "call" and b["t"][3] and b["t"][3][0] == base:
                        inside, outside = inside or j in implicit, outside or j not in implicit
                return inside and not outside
    return False


# ------------------------------------------------------------------ C08
AMBIENT = [
    (r"^rand_core::.*from_entropy$|::from_entropy$|::from_os_rng$", "entropy"),
    (r"^rand::(rngs::thread::)?(thread_rng|rng|random)$|^rand::rngs::(thread|os|entropy)|OsRng|ThreadRng|^getrandom::", "entropy"),
    (r"^std::time::(SystemTime|Instant)::(now|elapsed)$", "the clock"),
    (r"^(std|core)::env::|^(std|core)::process::id$", "the environment"),
    (r"^std::thread::(current|Thread::id|park)|^rayon(_core)?::.*(current_thread_index|current_thread_has_pending_tasks)$", "the identity of the thread"),
    (r"^std::hash::random::RandomState::(new|default|build_hasher|hash_one)$|RandomState as core::hash::BuildHasher", "the hasher's random state"),
    (r"^std::fs::|^std::net::|^std::io::std(in|io)", "files or streams"),
]
U64OPT = "core::option::Option<u64>"


def seed_atoms(c, p):
    """the optional seeds function p is given: parameters and fields of the receiver"""
    f = c.F.fns[p]
    out = []
    for i in range(f.argc):
        ty = f.locals[i + 1][0]
        nm = P("self") if i == 0 and f.argnames.get(0) == "self" else P(f.argnames.get(i, "arg%d" % i))
        if strip(ty) == U64OPT:
            out.append(nm)
        ad = c.F.adts.get(re.sub(r"<.*$", "", strip(ty)))
        if ad and ad["kind"] == "Struct":
            for fl in ad["variants"][0]["fields"]:
                if fl["ty"] == U64OPT:
                    out.append(fld(nm, fl["name"]))
    return out


def strip(ty):
    from engine import strip_ref
    return strip_ref(ty)


HITER = re.compile(r"hash::(map|set)::(Iter|IterMut|Keys|Values|ValuesMut|IntoIter|IntoKeys|IntoValues|Drain|Difference|SymmetricDifference|Intersection|Union|ExtractIf)\b")
H_ADAPT = {"map", "filter", "filter_map", "cloned", "copied", "flat_map", "flatten", "inspect", "by_ref", "into_iter", "iter", "iter_mut", "fuse", "chain", "clone", "borrow", "size_hint", "len", "count", "any", "all", "is_empty", "drop"}
H_ORDER = {"enumerate", "zip", "take", "skip", "step_by", "take_while", "skip_while", "scan", "map_while", "last", "nth", "find_map", "position", "peekable", "rev", "windows", "reduce", "find", "eq", "cmp", "partial_cmp"}
H_KEYED = re.compile(r"(HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap)<")


def C08(c):
    F = c.F
    fns = sorted(F.fns)
    amb = {}
    for s in all_sites(c):
        for q in (flatpath(s.path), flatpath(s.callee["path"])):
            for rx, what in AMBIENT:
                if re.search(rx, q):
                    amb.setdefault(s.fn, []).append((s, what))
                    break
            else:
                continue
            break
    for p in fns:
        other = [(s, w) for s, w in amb.get(p, []) if w != "entropy"]
        if other:
            s, w = other[0]
            c.viol("ambient:" + p, s.where(), "results may depend on %s: %s" % (w, s.path))
        else:
            c.ok("ambient:" + p, p, "no clock, environment, thread identity or hasher state is read")
    # entropy: only where no seed was requested
    src = {root_of(p) for p, l in amb.items() if any(w == "entropy" for _, w in l)}
    rev = collections.defaultdict(set)
    for p in fns:
        for q in edges(F, p, False):
            rev[root_of(q)].add(root_of(p))
    users, st = set(), list(src)
    while st:
        x = st.pop()
        if x in users:
            continue
        users.add(x)
        st += rev[x]
    api = [p for p in sorted(users) if p in F.fns and not F.fns[p].j["name"].startswith("{")]
    used_names = {F.fns[p].j["name"] for p in api}
    for p in api:
        f = F.fns[p]
        atoms = seed_atoms(c, p)
        w = c.where(p)
        if not atoms:
            if f.j.get("public") or p.startswith("<"):
                direct = [s for s, wt in amb.get(p, []) if wt == "entropy"]
                callers = rev[p] - {p}
                if not p.startswith("<") and direct and callers and all(seed_atoms(c, q) for q in callers if q in F.fns):
                    c.ok("seeded:" + p, w, "a source of entropy used by seeded operations only")
                else:
                    c.viol("seeded:" + p, w, "random results that no seed can fix")
            continue
        s = c.sm(p, noinline=[m for m in DRAWS + ("next", "call", "reset") if m not in used_names])
        lits = [(isSome(a), True) for a in atoms]
        ts = [s.ret, s.cond] + list(s.out.values())
        for e in s.events:
            ts += list(e.args) + [e.cond] + ([e.res] if e.res is not None else [])
        for l in s.loops:
            for q in l.leafs:
                ts += [x for x in (q.init, q.step) if x is not None]
        hit = None
        for t in ts:
            if not isinstance(t, Term) or not any(x.op == "rngentropy" for x in subterms(t)):
                continue
            u = with_lits(assume(t, s.cond), lits)
            if any(x.op == "rngentropy" for x in subterms(u)):
                hit = u
                break
        if hit is not None:
            e = [x for x in subterms(hit) if x.op == "rngentropy"][0]
            und = dirty(hit) and not any(x.op == "rngentropy" for x in leafset(hit)) and not draws_of(hit)
            c.add("seeded:" + p, "UNDETERMINED" if und else "VIOLATION", w, "entropy is used although a seed was requested: %s" % show_cut(hit, 300))
        else:
            c.ok("seeded:" + p, w, "with a seed, every random number comes from the seeded stream")
    # iteration order of hash tables
    k = 0
    for p in fns:
        for s in sites(F, p):
            if not s.called:
                continue
            tys = [s.callee.get("self_ty") or ""] + list(s.callee.get("args", []))[:1]
            arg0 = F.fns[p].locals[s.args[0][1][0]][0] if s.args and s.args[0][0] in ("copy", "move") else ""
            over = bool(HITER.search(re.sub(r"closure@[^}]*", "", tys[0] or arg0))) or bool(HITER.search(arg0))
            direct = re.search(r"collections::hash::(map|set)::Hash(Map|Set)<", strip(arg0) or "") and s.name in ("retain", "drain", "extract_if")
            if not over and not direct and s.name in ("extend", "from_iter", "chain", "zip", "eq", "cmp"):
                argt = [F.fns[p].locals[x[1][0]][0] for x in s.args if x[0] in ("copy", "move") and not x[1][1:] or x[0] in ("copy", "move")]
                direct = any(HITER.search(re.sub(r"closure@[^}]*", "", t)) or re.match(r"(&('\w+ )?)?std::collections::hash::(map|set)::Hash(Map|Set)<", t) for t in argt[0 if s.name == "from_iter" else 1:])
            if not over and not direct:
                continue
            hash_order(c, p, s, arg0)
            k += 1


def hash_order(c, p, s, arg0):
    F = c.F
    key = "order:%s:%s" % (root_of(p), s.name)
    loc = s.where()
    nm = s.name
    if nm in H_ADAPT or nm.startswith("fmt"):
        return
    if nm in H_ORDER:
        return c.viol(key, loc, "the result of '%s' depends on the iteration order of a hash table" % nm)
    if nm in ("collect", "from_iter", "extend"):
        ty = s.dty if nm != "extend" else (F.fns[p].locals[s.args[0][1][0]][0] if s.args else "")
        if H_KEYED.search(ty.split("<")[0] + "<"):
            return c.ok(key, loc, "collected into a keyed collection: the iteration order is forgotten")
        if re.match(r"(alloc::vec::Vec|ndarray::ArrayBase|alloc::collections::(VecDeque|LinkedList)|alloc::string::String)\b", re.sub(r"^&('\w+ )?(mut )?", "", ty or "")):
            return sequence_order(c, p, s, key, loc, ty)
        return c.undet(key, loc, "collected into %s in the iteration order of a hash table" % short_ty(ty))
    if nm in ("sum", "product"):
        return c.add(key, "VIOLATION" if re.search(r"\bf(32|64)\b", s.dty) else "OK", loc, "floating-point %s in the iteration order of a hash table" % nm)
    if nm in ("max", "min"):
        return c.ok(key, loc, "order-free reduction")
    if nm in ("min_by", "max_by", "min_by_key", "max_by_key"):
        return c.undet(key, loc, "ties are broken by the iteration order of a hash table")
    if nm in ("for_each", "next", "fold", "try_for_each", "try_fold"):
        ls = [l for l in c.sm(root_of(p)).loops if l.span and s.span and l.span[:2] == s.span[:2]]
        r = hash_effect(c, root_of(p))
        if r:
            return c.viol(key, loc, "elements visited in the iteration order of a hash table, and the result depends on it: %s" % r)
        if not ls:
            return c.undet(key, loc, "elements visited in the iteration order of a hash table")
        worst, why = "OK", "the accumulated value does not depend on the iteration order of the hash table"
        for l in ls:
            mus = {mk("mu", l.uid, q.cell, q.path): q for q in l.leafs}
            for mu, q in mus.items():
                k = accumulation(q.step, mu)
                if k == "ordered":
                    worst, why = "VIOLATION", "the accumulated value depends on the iteration order of a hash table: %s" % show_cut(q.step, 200)
                elif k == "?" and worst == "OK":
                    worst, why = "UNDETERMINED", "accumulation in the iteration order of a hash table: %s" % show_cut(q.step, 200)
            if l.exits and worst == "OK":
                worst, why = "UNDETERMINED", "the loop over a hash table may stop early"
        return c.add(key, worst, loc, why)
    c.undet(key, loc, "'%s' visits a hash table in its iteration order" % nm)


def sequence_order(c, p, s, key, loc, ty):
    """a sequence in the order of a hash table: what is computed from it is compared for two orders"""
    d = "collected into %s in the iteration order of a hash table" % short_ty(ty)
    r = hash_effect(c, root_of(p))
    if r:
        return c.viol(key, loc, "%s, and the result depends on that order: %s" % (d, r))
    return c.undet(key, loc, d)


def hash_effect(c, root):
    """two runs that differ only in the order in which hash tables are walked, on small networks with opaque scores"""
    from rulesD import NET
    if " as " not in root:
        return None  # what the caller makes of the order is not known
    learns = root.endswith("fit_transform") or "::fit_transform" in root
    s = c.sm(root, names=("self", "net", "dataset") if learns else None, hashorder=True)
    ret = assume(s.ret, s.cond)
    if not any(x.op == "hperm" for x in interp.allsub(ret)):
        return None
    ints = interp.int_heads([ret])
    for seed in range(60 * interp.DEPTH):
        got = []
        for rev in (False, True):
            bind = {}
            if learns:
                k = 2 + seed % 5 if seed % 3 else 8 + seed % 4
                bind = {P("net"): interp.Net(k), fld(NET, "max_parent_set"): interp.adt_("None") if seed % 3 == 1 else interp.adt_("Some", 1 + seed % 2)}
            m = interp.Model(seed, ints, bind=bind)
            m.hrev = rev
            try:
                got.append(m.ev(ret, {}))
            except (interp.Skip, RecursionError, KeyError, TypeError):
                break
            except interp.Unsupported as e:
                hash_effect.why = str(e)
                return None
        if len(got) == 2:
            a, b = got
            same_ = (a.n, a.arcs) == (b.n, b.arcs) if isinstance(a, interp.Net) and isinstance(b, interp.Net) else m.eqv(a, b)
            if not same_:
                return "%s and %s" % (show_cut(a if not isinstance(a, interp.Net) else sorted(a.arcs), 120), show_cut(b if not isinstance(b, interp.Net) else sorted(b.arcs), 120))
    return None


def accumulation(step, mu):
    """free: the final value does not depend on the order of the iterations"""
    kinds = set()
    for cond, x in leaves(step):
        if mu in cond.fv:
            return "?"
        if x is mu:
            continue
        if x.op in ("max", "min") and mu in x.args and sum(mu in (a.fv if isinstance(a, Term) else ()) or a is mu for a in x.args) == 1:
            kinds.add(x.op)
        elif x.op in ("mins", "sins", "srem") and x.args[0] is mu and not any(mu in a.fv for a in x.args[1:] if isinstance(a, Term)):
            kinds.add(x.op)
        elif x.op in ("push", "concat") and x.args[0] is mu:
            kinds.add("ordered")
        elif mu in x.fv:
            d = sub(x, mu)
            if mu not in d.fv and is_real_sum(d):
                kinds.add("ordered")
            elif mu not in d.fv:
                kinds.add("intsum")
            else:
                return "?"
        else:
            kinds.add("ordered" if not is_num(x) and x not in (TRUE, FALSE) else "const")
    if "ordered" in kinds:
        return "ordered"
    return "free" if len(kinds) <= 1 else "?"


def is_real_sum(d):
    """an increment with a floating-point part (division, logarithm, a table of reals)"""
    return any(x.op in ("ln", "exp", "sqrt", "draw", "powf", "div", "fdiv") for x in subterms(d)) or any(e < 0 for x in subterms(d) if x.op == "poly" for m, _ in x.args[0] for _, e in m)


# ------------------------------------------------------------------ C09
SYNC = re.compile(r"^(std|core|alloc|parking_lot|lock_api|crossbeam\w*|once_cell|rayon_core)::.*\b(Mutex|RwLock|Condvar|Barrier|mpsc|mpmc|LocalKey|OnceLock|LazyLock|RefCell|UnsafeCell|Cell|Atomic\w*)\b")
PAR_ANY = {"find_any", "find_map_any", "position_any", "take_any", "skip_any", "take_any_while", "skip_any_while", "while_some"}
PAR_STATE = {"map_init", "map_with", "for_each_init", "for_each_with", "try_for_each_init", "try_for_each_with"}
PAR_REDUCE = {"sum", "product", "reduce", "reduce_with", "try_reduce", "try_reduce_with", "fold", "fold_with", "try_fold", "fold_chunks"}


def closure_of(F, p, op):
    """closure passed as an operand"""
    if op[0] in ("copy", "move") and not op[1][1]:
        for b in F.fns[p].blocks:
            for st in b["st"]:
                if st[0] == "assign" and st[1] == op[1] and st[2][0] == "agg" and st[2][1][0] == "closure":
                    return st[2][1][1]
    o = []
    fn_consts(op, o)
    for x in o:
        q = x.get("resolved") or x["path"]
        if q in F.fns:
            return q
    return None


def C09(c):
    F = c.F
    for s in all_sites(c):
        q = flatpath(s.callee["path"])
        loc = s.where()
        if re.search(r"current_thread_index$|^std::thread::(current|Thread::id)$", q):
            c.viol("thread:" + s.fn, loc, "consults the identity of the running thread: %s" % q)
        elif re.search(r"^std::thread::.*(spawn|scope)|^rayon(_core)?::(scope|spawn|in_place_scope|broadcast)", q):
            cl = [x for x in (closure_of(F, s.fn, o) for o in s.args) if x]
            syn = [t for x in reach(F, cl) for t in sites(F, x) if SYNC.search(flatpath(t.path))]
            c.undet("spawn:" + s.fn, loc, "hand-made thread: %s%s" % (q, ", shares state through " + syn[0].path if syn else ""))
        elif s.callee.get("krate") in ("rayon", "rayon_core") and s.called:
            par_site(c, s, loc)
    for p in sorted(F.fns):
        bad = [s for s in sites(F, p) if SYNC.search(flatpath(s.path)) and not s.path.startswith("core::fmt")]
        if not bad:
            c.ok("shared:" + p, p, "no state shared between threads is written")


def par_site(c, s, loc):
    F = c.F
    nm = s.name
    key = "%s:%s" % (root_of(s.fn), nm)
    clos = [x for x in (closure_of(F, s.fn, o) for o in s.args) if x]
    fam = reach(F, clos)
    for x in sorted(fam):
        for t in sites(F, x):
            q = flatpath(t.path)
            if SYNC.search(q):
                a0 = " ".join(F.fns[x].locals[o[1][0]][0] for o in t.args if o[0] in ("copy", "move"))
                bad = re.search(r"(Mutex|RwLock|RefCell)<(alloc::vec::Vec|f64|core::option::Option|rand|.*Rng)", a0) or t.name in ("recv", "try_recv", "swap", "compare_exchange") or \
                    (t.name.startswith("fetch_") or t.name == "load") and used(F, x, t.dst)
                c.add("%s:closure" % key, "VIOLATION" if bad else "UNDETERMINED", t.where(), "parallel tasks communicate through %s: the result depends on their schedule" % short_ty(a0 or q))
                break
    if clos:
        c.ok("%s:tasks" % key, loc, "%d functions reachable from the parallel closure share only immutable data" % len(fam)) if not any(SYNC.search(flatpath(t.path)) for x in fam for t in sites(F, x)) else None
    if nm in PAR_ANY:
        return c.viol(key, loc, "'%s' returns whichever task finishes first" % nm)
    if nm in PAR_STATE:
        rng = re.search(r"Rng\b|ChaCha", " ".join(s.callee.get("args", [])) + s.dty)
        return c.add(key, "VIOLATION" if rng else "UNDETERMINED", loc, "'%s' carries state between the tasks that happen to run on one thread" % nm)
    if nm in PAR_REDUCE:
        return c.add(key, "VIOLATION" if re.search(r"\bf(32|64)\b", s.dty) else "UNDETERMINED", loc, "'%s' combines partial results in an order that depends on the schedule" % nm)
    if nm == "par_bridge":
        return c.undet(key, loc, "'par_bridge' loses the order of the elements")
    if nm in ("collect", "par_extend", "from_par_iter") and "IterBridge" in " ".join(s.callee.get("args", [])):
        tgt = s.dty if nm == "collect" else s.callee.get("self_ty", "")
        if not H_KEYED.search(tgt.split("<")[0] + "<"):
            return c.viol(key, loc, "elements arrive in an order that depends on the schedule and are collected into %s" % short_ty(tgt))
    c.ok(key, loc, "'%s' keeps the order of the elements or forgets it" % nm)


def used(F, p, dst):
    if not dst:
        return False
    l = dst[0]
    if l == 0:
        return True
    for b in F.fns[p].blocks:
        for st in b["st"]:
            if st[0] == "assign" and l in reads(st):
                return True
        r = set()
        if b["t"][0] == "call":
            operand_locals(b["t"][2], r)
        elif b["t"][0] == "switch":
            operand_locals(b["t"][1], r)
        if l in r:
            return True
    return False
