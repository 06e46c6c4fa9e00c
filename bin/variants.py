"""variants.py SPEC.py [-v] [name-substring...]: development aid for the no-false-alarm and detection regressions.
SPEC defines V = [(name, expect, ids, [(file, old, new), ...]), ...]; expect is "quiet" (behaviour preserved) or
"alarm" (behaviour broken); ids is a space-separated list of properties or "" for all rules."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V_ = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = [x for x in sys.argv[2:] if x != "-v"]
verbose = "-v" in sys.argv
spec = runpy.run_path(sys.argv[1])["V"]
sys.path.insert(0, V_ + "/sa")
ALL = sorted(set(c["property"] for c in json.load(open(V_ + "/MANIFEST.json"))["checks"]) | set(os.environ.get("EXTRA", "").split()))


def one(v):
    name, expect, ids, edits = v
    tmp = tempfile.mkdtemp(prefix="vvar.", dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s && cp /repo/Cargo.lock %s/" % (tmp, tmp), shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(tmp, "src", f)
            t = open(p).read()
            if t.count(old) < 1:
                return name, "BAD-PATTERN", "", old[:80]
            open(p, "w").write(t.replace(old, new, 1))
        facts = tmp + "/facts.json"
        e = subprocess.run([sys.executable, V_ + "/bin/export.py", facts], env=dict(os.environ, VERIF_REPO=tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if e.returncode:
            return name, "NO-BUILD", "", e.stdout.decode()[-1500:]
        al, und, log = [], [], []
        for i in (ids.split() or ALL):
            p = subprocess.run([sys.executable, V_ + "/sa/check.py", i], env=dict(os.environ, VERIF_FACTS=facts, VERIF_NOEV="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = p.stdout.decode("utf8", "replace")
            if p.returncode == 1:
                al.append(i)
            elif p.returncode:
                al.append(i + "!rc%d" % p.returncode)
            if "UNDETERMINED" in o:
                und.append(i + ":" + ",".join(l.split()[1] for l in o.splitlines() if l.startswith("UNDETERMINED")))
            if p.returncode or "UNDETERMINED" in o:
                log.append("\n".join("      " + l[:700] for l in o.splitlines()))
        st = "ok" if (bool(al) == (expect == "alarm")) else ("FALSE-ALARM" if al else "MISSED")
        return name, st, "alarm=%s undet=%s" % (" ".join(al), " ".join(und)), "\n".join(log)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


todo = [v for v in spec if not a or any(x in v[0] for x in a)]
bad = 0
with ThreadPoolExecutor(7) as ex:
    for name, st, info, log in ex.map(one, todo):
        print("%-40s %-12s %s" % (name, st, info[:300]))
        if st != "ok":
            bad += 1
        if verbose or st in ("NO-BUILD", "BAD-PATTERN"):
            print(log)
        sys.stdout.flush()
print("%d variants, %d not as expected" % (len(todo), bad))
