#!/usr/bin/env python3
"""Show a saved replay"""
import json
import sys
d = json.load(open(sys.argv[1]))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 1200
evs, m = d["events"], d["rejected_event"]
print(json.dumps(evs[0]["conf"]), d["key"])
for i in evs[0]["items"].items():
    print("  ", i[0], {k: v for k, v in i[1].items()})
for k, e in enumerate(evs[:m + 1]):
    o = {x: y for x, y in e.items() if x not in ("q", "sum", "disk", "qs", "qns", "sums", "state", "items", "conf")}
    print(k, json.dumps(o)[:n])
    if k >= m - 1:
        for x in ("q", "qs", "qns", "sum", "sums", "disk", "state"):
            if x in e:
                print("     ", x, json.dumps(e[x])[:n])
print(d["expected"][:3000])
