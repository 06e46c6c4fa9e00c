"""caught.py [ID...]: development aid; which checks alarm on each planted bug (dev/caught.json, read by gen.py for DESIGN.md)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = V + "/dev/caught.json"
cg = json.load(open(f)) if os.path.exists(f) else {}
for b in sys.argv[1:] or sorted(os.listdir(V + "/seeded")):
    o = subprocess.run([sys.executable, V + "/bin/tree.py", V + "/seeded/%s/patch.diff" % b], stdout=subprocess.PIPE).stdout.decode()
    l = o.strip().splitlines()[-1]
    al = l.split("ALARM", 1)[1].split("|")[0].split() if "ALARM" in l else []
    own = b.split("-")[0]
    e = cg.setdefault(b, {"first": "caught" if own in al else "missed"})
    e["caught"] = al
    print(b, "OWN" if own in al else "MISSED", al, l.split("| undet")[-1][:150]); sys.stdout.flush()
    json.dump(cg, open(f, "w"), indent=1, sort_keys=True)
