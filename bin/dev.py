#!/usr/bin/env python3
# dev.py ENTRY MODS k=v ... [+ctor +sort +bwt_string +stdio] [slots=] [time=] : one ad-hoc job
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checklib
kw = {}; params = {}; redir = []
for a in sys.argv[3:]:
    if a == "+stdio": kw["stdio"] = True
    elif a.startswith("+"): redir.append(a[1:])
    else:
        k, v = a.split("=")
        if k in ("slots", "time", "tests", "max_steps", "query_ms"): kw[k] = int(v)
        elif k == "native": kw[k] = v
        else: params[k] = int(v, 0)
kw.setdefault("slots", 8)
j = dict(entry=sys.argv[1], mods=sys.argv[2].split(","), params=params, redir=redir, reach=[], **kw)
rc = checklib.run_check("dev", {}, [j], "quick", 1, 100000)
import json
e = json.load(open(checklib.VERIF + "/evidence/dev.json"))["coverage"]
print(json.dumps({k: e[k] for k in e if k in ("bounds", "notes", "inconclusive", "solver", "samples") and (k != "samples")}, indent=0)[:2500])
for s in e["samples"][:2]: print(str(s)[:300])
sys.exit(rc)
