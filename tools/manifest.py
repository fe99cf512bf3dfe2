"""Write MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vlib.registry import CHECKS   # noqa: E402

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    spec = CHECKS.get(p["id"])
    if spec is None:
        na.append(dict(property=p["id"], reason="no check built yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd="./run.sh %s --tier quick" % p["id"],
                       thorough_cmd="./run.sh %s --tier thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=spec["technique"],
                       level=spec.get("level", "exploration"), level_note=spec["level_note"]))
man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
           notes="No hooks were added to /repo: everything is observed at the public API, through instrumented builds "
                 "of /repo's sources made out of tree, and through the allocator.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
