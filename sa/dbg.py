import sys
sys.path.insert(0, "/verif/sa")
from engine import *
F = Facts("/tmp/m.json")
W=int(__import__("os").environ.get("W","600"))
def cut(x):
    x=str(x); return x if len(x)<W else x[:W]+"…(%d)"%len(x)
def go(path, noinline=()):
    en = Engine(F, noinline=noinline)
    s = en.run(path)
    print("==", path)
    print("RET", cut(s.ret)); print("COND", cut(s.cond))
    for n, v in s.out.items(): print("OUT", n, "=", cut(v))
    for e in s.events:
        if e.kind not in ("pure","maypanic"): print("EV", cut(e))
    for l in s.loops:
        print("LOOP", l.uid, cut(l.desc()), "filt", l.filt, "line", l.span[1] if l.span else None)
        for q in l.leafs: print("   leaf", q.cell, q.path, "\n     init", cut(q.init), "\n     step", cut(q.step), "\n     fin", cut(q.fin))
    if en.unknown: print("UNKNOWN", en.unknown)
    return s
if __name__ == "__main__":
    ni=[p[1:] for p in sys.argv[1:] if p[0]=="-"]
    for p in sys.argv[1:]:
        if p[0]=="-": continue
        m = [q for q in F.fns if q == p] or [q for q in F.fns if p in q and "closure" not in q]
        for q in m: go(q,ni)
