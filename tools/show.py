#!/usr/bin/env python3
"""Prints the trace of a replay file up to the violation."""
import json, sys
d = json.load(open(sys.argv[1]))
print(d["violations"])
l = d["violations"][0][0]
for k, s in enumerate(d["trace"]["steps"][:l + 1]):
    lab = s["lab"]
    c = lab.get("call") or lab
    js = s["jobs"].items()
    print(k, lab["op"], lab.get("c", ""), {x: c[x] for x in ("op", "id", "q", "v", "re", "ov", "ctx", "kind", "via", "out", "ms", "n", "tick", "from") if x in c},
          lab.get("res"), "nf", lab.get("nf"), "now", s["now"])
    if k >= l - int(sys.argv[2]) if len(sys.argv) > 2 else 1:
        for i, j in js:
            print("     ", i, {x: j[x] for x in ("st", "v", "kind", "at", "rc", "ret", "eq", "ru", "co", "ca")})
        print("     ", s["ls"].get("J0"), [e for e in s["ex"]], [(e["e"], e["id"], e["s"], e["p"]) for e in s["ev"]])
