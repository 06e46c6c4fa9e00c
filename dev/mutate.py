"""mutate.py OUT [N [SEED]]: development aid. Token-level mutants of /repo/src; for each, the checks are run until one alarms.
Quiet mutants that compile are written to OUT (JSON lines), to be run against the tests and reviewed by hand."""
import json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sa")
from meta import META
SRC = "/repo/src"
OPS = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + ", " / "]), (r" / ", [" * "]), (r" % ", [" / "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < "]),
       (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
       (r" \+= ", [" = ", " -= "]), (r" \*= ", [" = ", " += "]), (r"\b0\.\.", ["1.."]), (r"\b0\b(?!\.)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\b2\b(?!\.)", ["1"]),
       (r"\b0\.0\b", ["1.0"]), (r"\b1\.0\b", ["0.0", "2.0"]), (r"\b2\.0\b", ["1.0"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"Axis\(0\)", ["Axis(1)"]), (r"Axis\(1\)", ["Axis(0)"]), (r"Axis\(2\)", ["Axis(1)"]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"min_by", ["max_by"]),
       (r"\.row\(", [".column("]), (r"\.column\(", [".row("]), (r"take_while", ["skip_while"]), (r"\.sum\(\)", [".product()"]), (r"\.product\(\)", [".sum()"]),
       (r"\bt1\b", ["t2"]), (r"\bt2\b", ["t1"]), (r"\bev1\b", ["ev2"]), (r"\bev2\b", ["ev1"]), (r"\bM1\b", ["M2"]), (r"\bM2\b", ["M1"]), (r"\bparent\b", ["child"]), (r"\bchild\b", ["parent"]),
       (r"parent_node", ["child_node"]), (r"child_node", ["parent_node"]), (r"\bcurrent\b", ["previous"]), (r"\bprevious\b", ["current"]), (r"\balpha\b", ["tau"]), (r"\btau\b", ["alpha"]),
       (r"cim_1", ["cim_2"]), (r"r1\b", ["r2"]), (r"q1\b", ["q2"]), (r"_small", ["_big"]), (r"_big", ["_small"]), (r"\bp != c\b", ["p == c"]), (r"insert\(", ["remove(&"]), (r"\[\*p, \*c\]", ["[*c, *p]"]),
       (r"state\b", ["u"]), (r"\bu\b", ["state"]), (r"\bSome\(idx\)", ["Some(idx + 1)"]), (r"-discount_factor", ["discount_factor"]), (r"unwrap_or\([^)]*\)", ["unwrap_or(1)"]), (r"lim_sx", ["lim_dx"]), (r"-x\b", ["x"]),
       (r"residence_time", ["transitions"]), (r"is_removed", ["!is_removed"]), (r"current_score", ["old_score"]), (r"tmp_score", ["current_score"]), (r"max_val", ["v1"]), (r"\bk1\b", ["k2"]), (r"\bv1\b", ["v2"]), (r"\bv2\b", ["v1"])]


def mutants():
    out = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            p = os.path.join(d, f)
            ls = open(p).read().split("\n")
            for i, l in enumerate(ls):
                s = l.strip()
                if not s or s.startswith("//") or s.startswith("use ") or s.startswith("#") or re.match(r"(debug|info|warn|trace|error)!", s) or '"' in s:
                    continue
                code = l.split("//")[0]
                for pat, reps in OPS:
                    for m in re.finditer(pat, code):
                        for r in reps:
                            out.append((p, i, code[:m.start()] + r + code[m.end():]))
                if s.endswith(";") and not s.startswith(("let ", "return", "}", "pub ", ")")) and "=" in s or re.match(r"[\w.]+\(.*\);$", s):
                    out.append((p, i, ""))
                if s in ("continue;", "break;"):
                    out.append((p, i, ""))
    return out


def one(m):
    p, i, new = m
    tmp = tempfile.mkdtemp(prefix="vmut.", dir="/tmp")
    rel = os.path.relpath(p, "/repo")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s && cp /repo/Cargo.lock %s/" % (tmp, tmp), shell=True, check=True)
        ls = open(tmp + "/" + rel).read().split("\n")
        old, ls[i] = ls[i], new
        open(tmp + "/" + rel, "w").write("\n".join(ls))
        facts = tmp + "/facts.json"
        e = subprocess.run([sys.executable, V + "/bin/export.py", facts], env=dict(os.environ, VERIF_REPO=tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if e.returncode:
            return None
        order = sorted(META, key=lambda k: (rel not in META[k]["files"], k))
        und = []
        for pid in order:
            q = subprocess.run([sys.executable, V + "/sa/check.py", pid], env=dict(os.environ, VERIF_FACTS=facts, VERIF_NOEV="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if q.returncode == 1:
                return {"file": rel, "line": i + 1, "old": old.strip(), "new": new.strip(), "caught": pid}
            und += ["%s:%s" % (pid, l.split()[1]) for l in q.stdout.decode("utf8", "replace").splitlines() if l.startswith("UNDETERMINED")]
            if q.returncode:
                und.append(pid + "!rc%d" % q.returncode)
        return {"file": rel, "line": i + 1, "old": old.strip(), "new": new.strip(), "caught": None, "undet": und}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ms = mutants()
random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1).shuffle(ms)
ms = ms[:int(sys.argv[2])] if len(sys.argv) > 2 else ms
print(len(ms), "mutants"); sys.stdout.flush()
n = c = 0
with open(sys.argv[1], "w") as f, ThreadPoolExecutor(7) as ex:
    for r in ex.map(one, ms):
        if r is None:
            continue
        n += 1
        c += bool(r["caught"])
        if not r["caught"]:
            f.write(json.dumps(r) + "\n"); f.flush()
print(n, "compile,", c, "caught")
