#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and config.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import config
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in config.P:
        c = config.of(i, "quick")
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=c.get("technique", config.TECHNIQUE), level=c["level"], level_note=c.get("note") or config.NOTE))
    else:
        na.append(dict(property=i, reason=config.NA.get(i, "contracts not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks: the contracts live in /verif/pydv/contracts and speak about the sources of /repo, which are loaded and executed symbolically on every run.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
