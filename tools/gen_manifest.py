#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(V + "/tools/checks.json"))
NA = json.load(open(V + "/tools/not_applicable.json"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup",
     "hooks": {"guard": "LOG_SURGEON_VERIF",
               "enable": "compile the library sources with -DLOG_SURGEON_VERIF; the explorers then set log_surgeon::cStaticByteBuffSize at run time",
               "source_commits": ["d5eb0839434aea3edfb26781e7bede9eccaca813"]},
     "checks": [], "not_applicable": []}
for p in props:
    if p in C:
        c = C[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 tools/check.py " + p,
                            "thorough_cmd": "python3 tools/check.py %s --thorough" % p,
                            "technique": c["technique"], "level": "model_checking", "level_note": c["level_note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check has been built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
