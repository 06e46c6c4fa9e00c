"""Rules: stored data, documented misuse."""
from rulesG import *
from engine import strip_ref


PARAMS = "Params"


# ------------------------------------------------------------------ C38
def C38(c):
    ME = P("self")
    NODE = ("label", "domain", "cim", "transitions", "residence_time")

    def m(ty, name, tr=None, names=(), **kw):
        p = c.find(ty, name, tr)
        return c.sm(p, names=names, **kw), c.where(p)

    def same(key, s, w, t=None, keep=NODE, what="", obj=ME):
        out = s.out.get("self", obj)
        for f in keep:
            c.equal("%s:keeps:%s" % (key, f), w, fld(out, f), fld(obj, f), "%s leaves the %s as it was" % (what, f.replace("_", " ")))

    def returns(key, s, w):
        c.equal(key + ":returns", w, s.cond, TRUE, "always answered")

    def new():
        s, w = m(DS, "new", names=("label", "domain"))
        for f in NODE:
            want = P(f) if f in ("label", "domain") else NONE
            c.equal("node:new:" + f, w, fld(s.ret, f), want, "a new variable has the given label and states and nothing learnt")
        returns("node:new", s, w)

    def getters():
        for f, nm, tr in (("cim", "get_cim", None), ("transitions", "get_transitions", None), ("residence_time", "get_residence_time", None), ("label", "get_label", "ParamsTrait")):
            s, w = m(DS, nm, tr, names=("self",))
            c.equal("node:" + nm, w, s.ret, fld(ME, f), "the accessor returns what is stored")
            returns("node:" + nm, s, w)
        s, w = m(DS, "get_reserved_space_as_parent", "ParamsTrait", names=("self",))
        c.equal("node:cardinality", w, s.ret, mk("len", fld(ME, "domain"), 0), "the cardinality is the number of states")
        s, w = m(DS, "state_to_index", "ParamsTrait", names=("self", "state"))
        c.equal("node:state_to_index", w, s.ret, vfld(P("state"), "Discrete", 0), "the index of a state is its number")

    def setters():
        for f, nm in (("transitions", "set_transitions"), ("residence_time", "set_residence_time"), ("cim", "set_cim_unchecked")):
            s, w = m(DS, nm, names=("self", "x"))
            c.equal("node:" + nm, w, fld(s.out.get("self", ME), f), some_(P("x")), "the given data are stored unchanged")
            same("node:" + nm, s, w, keep=[x for x in NODE if x != f], what="storing it")
            returns("node:" + nm, s, w)
        s, w = m(DS, "reset_params", "ParamsTrait", names=("self",))
        for f in ("cim", "transitions", "residence_time"):
            c.equal("node:reset:" + f, w, fld(s.out.get("self", ME), f), NONE, "a reset discards everything learnt")
        same("node:reset", s, w, keep=("label", "domain"), what="a reset")

    def dispatch():
        """the general variable answers as the variable it wraps"""
        inner = vfld(ME, "DiscreteStatesContinousTime", 0)
        names = {"get_label": (), "get_reserved_space_as_parent": (), "state_to_index": ("a",), "validate_params": (), "reset_params": (),
                 "get_random_state_uniform": ("rng",), "get_random_residence_time": ("a", "b", "rng"), "get_random_state": ("a", "b", "rng")}
        for nm, ps in sorted(names.items()):
            so, w = m(PARAMS, nm, "ParamsTrait", names=("self",) + ps)
            si, _ = m(DSP, nm, "ParamsTrait", names=("self",) + ps)
            z = {ME: inner}
            if "rng" in ps:
                key = lambda t: no_sites(t)
            else:
                key = lambda t: t
            c.equal("dispatch:" + nm, w, key(so.ret), key(subst(si.ret, z)), "a variable of the general type answers as the variable it wraps")
            c.equal("dispatch:%s:returns" % nm, w, key(so.cond), key(subst(si.cond, z)), "and completes as it does")
            if nm == "reset_params":
                c.equal("dispatch:reset_params:state", w, vfld(so.out.get("self", ME), "DiscreteStatesContinousTime", 0), subst(si.out.get("self", ME), z), "a reset reaches the wrapped variable")

    def network():
        ty, tr = "CtbnNetwork", "NetworkProcess"
        nodes = fld(ME, "nodes")
        n = mk("len", nodes, 0)
        s, w = m(ty, "new")
        c.equal("net:new", w, length(fld(s.ret, "nodes"), 0), ZERO, "a new network has no variables")
        c.equal("net:new:arcs", w, isSome(fld(s.ret, "adj_matrix")), FALSE, "a new network has no arcs")
        s, w = m(ty, "get_number_of_nodes", tr, names=("self",))
        c.equal("net:count", w, s.ret, n, "number of variables")
        s, w = m(ty, "get_node_indices", tr, names=("self",))
        c.equal("net:indices:first", w, fld(s.ret, "start"), ZERO, "variables are numbered from 0")
        c.equal("net:indices:last", w, fld(s.ret, "end"), n, "to one less than their number")
        s, w = m(ty, "get_node", tr, names=("self", "i"))
        c.equal("net:get_node", w, s.ret, at(nodes, (P("i"),)), "a variable is found under its own number")
        s, w = m(ty, "get_node_mut", tr, names=("self", "i"))
        r = s.ret
        good = r.op == "refm" and r.args[0] == ("P", "self") and tuple(r.args[1]) == (("f", "nodes"), ("at", (P("i"),)))
        bad = r.op == "refm" and r.args[0] == ("P", "self") and len(r.args[1]) == 2 and r.args[1][0] == ("f", "nodes") and r.args[1][1][0] == "at" and not dirty(r.args[1][1][1][0]) and c.separated(r.args[1][1][1][0], P("i"))
        c.add("net:get_node_mut", "OK" if good else "VIOLATION" if bad else "UNDETERMINED", w, "the variable handed out for editing is the one of that number: %s" % show_cut(r))
        c.equal("net:get_node_mut:kept", w, s.out.get("self", ME), ME, "handing it out changes nothing")
        s, w = m(ty, "get_adj_matrix", names=("self",))
        c.equal("net:arcs", w, s.ret, fld(ME, "adj_matrix"), "the accessor returns the arcs stored")
        s, w = m(ty, "add_node", tr, names=("self", "n"))
        ou = s.out.get("self", ME)
        c.equal("net:add", w, s.ret, adt_ok(n), "a new variable gets the next number")
        c.equal("net:add:count", w, length(fld(ou, "nodes"), 0), add(n, ONE), "exactly one variable is added")
        q = P("#q")
        last = assume(at(fld(ou, "nodes"), (n,)), ge0(n))
        new = vfld(last, "DiscreteStatesContinousTime", 0)
        was = vfld(P("n"), "DiscreteStatesContinousTime", 0)
        for f in ("label", "domain"):
            c.equal("net:add:" + f, w, fld(new, f), fld(was, f), "the variable added has the given %s" % f)
            old = vfld(with_lits(at(fld(ou, "nodes"), (q,)), [(ieq(q, n), False), (ge0(sub(sub(n, q), ONE)), True)]), "DiscreteStatesContinousTime", 0)
            c.equal("net:add:others:" + f, w, fld(old, f), fld(vfld(at(nodes, (q,)), "DiscreteStatesContinousTime", 0), f), "every other variable keeps its %s" % f, given=And(ge0(q), ilt(q, n)))

    def learners():
        for ty, fs in (("HillClimbing", ("score_function", "max_parent_set")), ("CTPC", ("parameter_learning", "Ftest", "Chi2test")), ("F", ("alpha",)), ("ChiSquare", ("alpha",))):
            s, w = m(ty, "new", names=fs)
            for f in fs:
                c.equal("learner:%s:%s" % (ty, f), w, fld(s.ret, f), P(f), "a learner works with the settings it was given")
            returns("learner:" + ty, s, w)

    for nm, f in (("new", new), ("getters", getters), ("setters", setters), ("dispatch", dispatch), ("network", network), ("learners", learners)):
        c.guard(nm, f)


def no_sites(t):
    """random draws identified by their kind and order only"""
    return rw(t, lambda x: mk("draw", *[a for a in x.args[:3]]) if x.op == "draw" and len(x.args) > 3 else None)


# ------------------------------------------------------------------ C37
def C37(c):
    """every public operation completes except for its documented misuse; presence of parameters, arcs and the
    range of indices are preconditions"""
    F = c.F
    ME = P("self")
    some = lambda t: isSome(t)
    PRE = ("cim", "adj_matrix", "param", "transitions", "residence_time")

    def documented(ty, nm, s, f):
        """condition under which stopping is documented"""
        a = lambda i: P(f.argnames.get(i, "arg%d" % i))
        if ty == "CtmpProcess":
            if nm in ("add_edge", "initialize_adj_matrix", "get_param_index_from_custom_parent_set"):
                return TRUE
            if nm in ("get_node", "get_node_mut", "get_parent_set", "get_children_set", "get_param_index_network"):
                return ge0(sub(a(1), ONE))
        if nm == "fit_transform":
            n = mk("call", "get_number_of_nodes", a(1), ())
            return Not(ieq(n, mk("len", fld(at(fld(a(2), "trajectories"), (ZERO,)), "events"), 1)))
        if ty in ("LogLikelihood", "BIC") and nm == "new":
            return flt(a(1), ZERO)
        if ty == "UniformGraphGenerator" and nm == "new":
            return Or(flt(a(0), ZERO), flt(ONE, a(0)))
        if ty == "UniformParametersGenerator" and nm == "new":
            return Or(flt(fld(a(0), "start"), ZERO), flt(fld(a(0), "end"), ZERO))
        if ty == "Trajectory" and nm == "new":
            return Not(ieq(mk("len", a(0), 0), mk("len", a(1), 0)))
        if ty == "Dataset" and nm == "new":
            return None  # the condition is C29's
        if ty == "NeighborhoodRelativeReward" and nm == "evaluate_state":
            return TRUE
        return FALSE

    def pre(t):
        """assume parameters, arcs and the single variable present"""
        z = {x: TRUE for x in subterms(t) if x.op == "is" and x.args[1] == "Some" and x.args[0].op == "fld" and x.args[0].args[1] in PRE}
        return subst(t, z) if z else t

    def bounds(f):
        """index arguments are indices of the receiver's variables"""
        out = TRUE
        for i in range(1, f.argc):
            if strip_ref(f.locals[i + 1][0]) == "usize":
                a = P(f.argnames.get(i, "arg%d" % i))
                out = And(out, And(ge0(a), ilt(a, mk("len", fld(ME, "nodes"), 0))))
        return out

    ops = []
    for p in sorted(F.fns):
        f = F.fns[p]
        if "{" in p:
            continue
        m = re.match(r"^<(.+) as (.+)>::(\w+)$", p)
        if m:
            if re.match(r"(core|alloc|std|serde)\b", m.group(2)) and not re.search(r"Iterator", m.group(2)):
                continue
            ty, nm = re.sub(r"<.*$", "", m.group(1)).split("::")[-1], m.group(3)
        else:
            if not f.j.get("public"):
                continue
            q = re.sub(r"::<[^>]*>", "", p).split("::")
            ty, nm = (q[-2] if len(q) > 1 else ""), q[-1]

        ops.append((p, f, ty, nm))
    public = [p for p, _, _, _ in ops]
    for p, f, ty, nm in ops:

        def one(p=p, f=f, ty=ty, nm=nm):
            # the operations it is made of have obligations of their own
            s = c.sm(p, noinline=[q for q in public if q != p and not q.startswith("tools::")])
            w = c.where(p)
            d = documented(ty, nm, s, f)
            if d is None:
                return
            stop = pre(assume(Not(s.cond), Not(d)))
            if nm == "trajectory_generator":
                # every state a sampler returns has one component per variable (C12, C13), and so has every recorded row (C15)
                stop = rw(stop, lambda x: P("#WIDTH") if x.op == "len" and x.args[1] == 1 and x.args[0].op == "fld" and x.args[0].args[1] == "events" else None)
            # the numbers of a network's variables are 0 .. their count
            stop = rw(stop, lambda x: mk("call", "get_number_of_nodes", x.args[0].args[1], ()) if x.op == "len" and x.args[0].op == "call" and x.args[0].args[0] == "get_node_indices" else None)
            # a value that is not there is a precondition, whether it is unwrapped or matched on
            stop = assume(stop, And(*[x for x in atoms_of(stop) if x.op == "is" and x.args[1] in ("Some", "Ok")]))
            stop = assume(stop, Not(d))
            if d is TRUE:
                stop = FALSE
            key = "stops:%s::%s" % (ty, nm)
            if stop is FALSE:
                return c.ok(key, w, "completes" + ("" if d is FALSE else " except for its documented misuse"))
            if dirty(stop):
                return c.undet(key, w, "stops when %s" % show_cut(stop, 300))
            ints = {P(f.argnames.get(i, "arg%d" % i)) for i in range(f.argc) if strip_ref(f.locals[i + 1][0]) in ("usize", "params::StateType")}
            if d is FALSE and any(any(y.op == "poly" and ints & {v if v.op == "param" else v.args[0] for mo, _ in y.args[0] for v, _ in mo if v.op in ("param", "vfld")} for y in subterms(x)) and any(y.op == "len" for y in subterms(x)) for x in atoms_of(stop)):
                return c.undet(key, w, "stops when an index is compared with a length: %s" % show_cut(stop, 300))
            known = {x for x in subterms(d) if x.op in ("call", "call!")}
            # sizes of the network and of the counts are any positive numbers; so is the product of the numbers of states of the variables
            joint_size = lambda v: v.op == "prod" and {x.args[0] for x in subterms(v) if x.op in ("call", "call!")} <= {"get_reserved_space_as_parent", "get_node", "get_nodes"}
            sizes = {}
            for x in atoms_of(stop):
                if x.op in ("ge0", "eq0"):
                    d_ = {m_: k_ for m_, k_ in poly_dict(x.args[0]).items() if m_ != ()}
                    if len(d_) == 1:
                        (mo, _), = d_.items()
                        v = mo[0][0] if len(mo) == 1 and mo[0][1] == 1 else None
                        if v is not None and (joint_size(v) or v.op == "call" and v.args[0] == "get_number_of_nodes" or v.op == "len" and v.args[0].op == "fld" and v.args[0].args[0].op == "call" and v.args[0].args[0].args[0] == "sufficient_statistics" and v.args[1] == 0):
                            sizes[v] = P("#SIZE%d" % len(sizes))
            stop = subst(stop, sizes) if sizes else stop
            if any(x.op in ("call", "call!") and x not in known for x in subterms(stop)):
                return c.undet(key, w, "stops on an answer of another operation: %s" % show_cut(stop, 300))
            # an interpretation that meets the preconditions and not the documented misuse
            r = interp.separate(And(stop, Not(d)), FALSE, assume=And(bounds(f) if ty in ("CtbnNetwork",) else TRUE, *[ge0(sub(x, ONE)) for x in sizes.values()]))
            c.add(key, "VIOLATION" if r not in (None, False) else "UNDETERMINED", w, "stops although nothing was misused: when %s" % show_cut(stop, 300))

        c.guard("stops:" + nm, one)
