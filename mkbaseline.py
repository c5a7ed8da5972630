"""Rewrite baseline.json: which obligation groups are discharged on the current tree."""
import json
import os
import sys

import prove

path = os.path.join(prove.HERE, "baseline.json")
base = json.load(open(path)) if os.path.exists(path) else {}
props = sys.argv[1:] or sorted(f[:-3].upper() for f in os.listdir(os.path.join(prove.HERE, "specs")) if f[0] == "c" and f[1:3].isdigit())
for p in props:
    rs = prove.run(p, "thorough", budget=900)
    base[p] = {r["name"]: r["status"] for r in sorted(rs, key=lambda r: r["name"])}
    print(p, len(rs), [r["name"] for r in rs if r["status"] != "ok"])
json.dump(base, open(path, "w"), indent=1, sort_keys=True)
