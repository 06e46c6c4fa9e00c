import importlib, os, sys
from meta import META

RULES = {}
for nm in ("rulesA", "rulesB", "rulesC", "rulesD", "rulesE", "rulesF", "rulesG", "rulesH", "rulesI"):
    if not os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), nm + ".py")):
        continue
    m = importlib.import_module(nm)
    for k in dir(m):
        if k[0] == "C" and k[1:].isdigit():
            d = META.get(k, dict(floor=0, explain="in development", assume=[]))
            RULES[k] = dict(rule=getattr(m, k), floor=d["floor"], explain=d["explain"], assume=d["assume"])
