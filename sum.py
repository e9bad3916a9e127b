#!/usr/bin/env python3
"""summary of a harness log (development aid):  sum.py LOG..."""
import json, sys, collections
c = collections.OrderedDict(); begun = 0; ended = 0; cnt = {}; mx = {}
for fn in sys.argv[1:]:
    for ln in open(fn, errors="replace"):
        try: d = json.loads(ln)
        except ValueError: continue
        if d["t"] == "viol": c.setdefault(d["key"], []).append((d["case"], d["msg"]))
        elif d["t"] == "begin": begun += 1; last = d["case"]
        elif d["t"] == "end":
            ended += 1
            for k, v in d["cnt"].items(): cnt[k] = cnt.get(k, 0) + v
            for k, v in d["max"].items(): mx[k] = max(mx.get(k, -1e308), v)
print("begun", begun, "ended", ended, "last", last if begun else None)
for k, v in sorted(c.items(), key=lambda t: -len(t[1])):
    print(f"{k} x{len(v)}")
    for a, m in v[:2]: print("    case", a, m[:420])
print(cnt); print(mx)
