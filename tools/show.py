#!/usr/bin/env python3
"""Pretty-print a replay file."""
import json, sys
d = json.load(open(sys.argv[1]))
s = d["spec"]
print(d["property"], d["test"], d["msg"][:600])
for k, v in s.items():
    if k != "comps":
        print(k, "=", json.dumps(v))
for c in s.get("comps", []):
    print(*c)
