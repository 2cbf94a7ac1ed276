#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks and the properties not (yet) claimed."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(HERE, "claims.py")).read())
pids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
m = dict(version=1, setup_cmd="mkdir -p build evidence && python3 check.py --setup", checks=[], not_applicable=[])
for p in pids:
    if p in CLAIMS:
        tech, note = CLAIMS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 check.py %s quick" % p,
                                thorough_cmd="python3 check.py %s thorough" % p,
                                technique=tech, level="model_checking", level_note=note))
    else:
        m["not_applicable"].append(dict(property=p, reason=NOT.get(p, "not built yet: specification and conformance driver for this part are still to be written")))
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
