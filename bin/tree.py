"""tree.py [--patch FILE]... [--ids C01,C02] [--strict]: development aid, runs every check against /repo's HEAD
(or a scratch copy with each patch applied) and prints one line per patch. Registers nothing, keeps nothing."""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
patches, ids, strict, verbose = [], None, [], False
while a:
    x = a.pop(0)
    if x == "--patch": patches.append(a.pop(0))
    elif x == "--ids": ids = a.pop(0).split(",")
    elif x == "--strict": strict = ["--strict"]
    elif x == "-v": verbose = True
    else: patches.append(x)
ids = ids or [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]


def run(pid, facts):
    p = subprocess.run([sys.executable, V + "/sa/check.py", pid] + strict, env=dict(os.environ, VERIF_FACTS=facts, VERIF_NOEV="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return pid, p.returncode, p.stdout.decode("utf8", "replace")


for pt in patches or [None]:
    tmp = tempfile.mkdtemp(prefix="vtree.", dir="/tmp")
    try:
        ar = subprocess.run("git -C /repo archive HEAD | tar x -C %s && cp /repo/Cargo.lock %s/" % (tmp, tmp), shell=True, check=True)
        if pt:
            if subprocess.run(["git", "apply", os.path.abspath(pt)], cwd=tmp, env=dict(os.environ, GIT_CEILING_DIRECTORIES="/tmp")).returncode:
                print(pt, "DOES NOT APPLY"); continue
        facts = tmp + "/facts.json"
        e = subprocess.run([sys.executable, V + "/bin/export.py", facts], env=dict(os.environ, VERIF_REPO=tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if e.returncode:
            print(pt, "EXPORT FAILED", e.stdout.decode()[-800:]); continue
        with ThreadPoolExecutor(6) as ex:
            res = list(ex.map(lambda i: run(i, facts), ids))
        al = [i for i, rc, o in res if rc == 1]
        od = [(i, rc) for i, rc, o in res if rc not in (0, 1)]
        und = ["%s:%s" % (i, l.split()[1]) for i, rc, o in res for l in o.splitlines() if l.startswith("UNDETERMINED")]
        print((pt or "HEAD").replace(V + "/seeded/", ""), "ALARM" if al else "quiet", " ".join(al), "| other", od, "| undet", " ".join(und)[:400])
        if verbose:
            for i, rc, o in res:
                if rc or verbose and "UNDET" in o:
                    print("\n".join("    " + l[:500] for l in o.splitlines()))
        sys.stdout.flush()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
