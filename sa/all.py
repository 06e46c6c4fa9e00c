import sys,time,traceback
from dbg import *
for p,f in F.fns.items():
    if 'closure' in p or '{promoted' in p: continue
    if any(x in p for x in ('as core::','serde','enum_dispatch')) : continue
    en=Engine(F); t=time.time()
    try:
        s=en.run(p)
        u=dict(en.unknown)
        rec=[str(l.uid)+":"+str(l.span[1] if l.span else '') +":"+"/".join(str(q.cell)+str(q.path) for q in l.leafs if q.fin is None or q.fin.op in("rec","loopval","unk")) for l in s.loops if any(q.fin is None or q.fin.op in("rec","loopval","unk") for q in l.leafs)]
        print("%.1fs"%(time.time()-t),p,"ev",len(s.events),"loops",len(s.loops),"UNK",u,"REC",rec)
    except Exception as e:
        print("EXC",p,type(e).__name__,str(e)[:200]); tb=traceback.extract_tb(e.__traceback__)[-1]; print("    ",tb.filename,tb.lineno,tb.line)
    sys.stdout.flush()
