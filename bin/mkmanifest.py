#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
T = json.load(open(V + "/bin/checks.json"))
m = dict(version=1, setup_cmd="bin/setup",
         hooks=dict(guard="none", enable="no hooks: the checks bind to the public classes and the output files", source_commits=[]),
         checks=[], not_applicable=[])
for i in ids:
    if i in T:
        t = T[i]
        m["checks"].append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
                                technique=t["technique"], level=t.get("level", "model_checking"), level_note=t["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason="no check built yet"))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
