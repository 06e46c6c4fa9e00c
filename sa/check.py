"""check.py ID [--strict]: decide one property on /repo's current tree."""
import json, os, resource, signal, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF + "/bin")
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)
from core import *
import rules


def load_known():
    out = []
    for l in open(VERIF + "/known-findings.txt"):
        l = l.strip()
        if l.startswith("known: "):
            a = l[7:].split(None, 2)
            out.append((a[0].split("=", 1)[1], a[1].split("=", 1)[1], a[2] if len(a) > 2 else ""))
    return out


def decide(pid, facts, budget):
    F = Facts(facts)
    known = [k for k in load_known() if k[0] == pid]
    c = Check(pid, F, known)
    meta = rules.RULES[pid]

    def alarm(*_):
        raise Timeout()

    try:
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(budget)
    except ValueError:
        pass
    try:
        c.guard("rule", lambda: meta["rule"](c))
    except Timeout:
        c.undet("time", "engine", "analysis budget of %d s exhausted" % budget)
    finally:
        try:
            signal.alarm(0)
        except ValueError:
            pass
    return c


def main():
    pid = sys.argv[1]
    strict = "--strict" in sys.argv
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    facts = os.environ.get("VERIF_FACTS")
    if not facts:
        import export
        facts = export.export()
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    if tier == "thorough":
        import interp
        interp.DEPTH = 8
    c = decide(pid, facts, 800 if tier == "thorough" else 500)
    meta = rules.RULES[pid]
    viol = [o for o in c.obl if o["status"] == "VIOLATION"]
    und = [o for o in c.obl if o["status"] == "UNDETERMINED"]
    okk = [o for o in c.obl if o["status"] == "OK"]
    kf = {k: d for _, k, d in c.known}
    real = [o for o in viol if o["key"] not in kf]
    for o in viol:
        if o["key"] in kf:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, o["key"], kf[o["key"]]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": meta.get("level", "other"),
        "coverage": {
            "explanation": meta["explain"],
            "rule": meta["explain"],
            "obligations": len(c.obl), "discharged": len(okk), "undetermined": [o["key"] for o in und],
            "known_findings": [o["key"] for o in viol if o["key"] in kf],
            "functions_analysed": sorted(x for x in c.fnset if isinstance(x, str)),
            "functions_in_crate": len(c.F.fns),
            "reviewed_floor": meta.get("floor", 0),
            "samples": [{k: o[k] for k in ("key", "status", "where", "detail")} for o in (real + okk)[:12]],
        },
        "assumptions": meta.get("assume", []) + ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(real),
    }
    ev["coverage"].update(getattr(c, "extra", {}))
    if not os.environ.get("VERIF_NOEV"):
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % pid, "w") as f:
            json.dump(ev, f, indent=1)
    for o in real:
        print("%s %s\n    at %s\n    %s" % (o["status"], o["key"], o["where"], o["detail"]))
    for o in und:
        print("UNDETERMINED %s at %s: %s" % (o["key"], o["where"], o["detail"][:300]))
    print("%s: %d obligations, %d discharged, %d undetermined, %d known, %d violations, %.1fs" % (
        pid, len(c.obl), len(okk), len(und), len(viol) - len(real), len(real), time.time() - t0))
    if strict and (und or len(c.obl) < meta.get("floor", 0)):
        print("STRICT FAILURE %s" % pid)
        return 3
    if not real and not und and 2 * len(c.obl) < meta.get("floor", 0):
        real = [{"key": "floor"}]
        print("VIOLATION floor: only %d obligations were generated, %d were confirmed by hand" % (len(c.obl), meta["floor"]))
    if real:
        print("VIOLATION property=%s replay=evidence/%s.json" % (pid, pid))
        return 1
    return 0


ASSUME = [
    "floating-point arithmetic is read as real arithmetic and machine integers as mathematical integers",
    "library calls (core/alloc/std, ndarray, itertools, rand, rayon, statrs) behave as their models in sa/lib.py say",
    "an obligation whose summary is not in closed form is reported as undetermined and raises no alarm",
]

if __name__ == "__main__":
    rc = [2]

    def run():
        rc[0] = main()

    # the main thread keeps the alarm; a large stack is needed for deep terms
    resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    if os.environ.get("SA_CHILD") != "1":
        os.environ["SA_CHILD"] = "1"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    run()
    sys.stdout.flush()
    os._exit(rc[0])
