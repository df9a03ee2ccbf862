#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
from importlib.util import spec_from_file_location, module_from_spec
s = spec_from_file_location("claims", os.path.join(here, "tools", "claims.py")); m = module_from_spec(s); s.loader.exec_module(m)
T = ("abstract interpretation of the type-checked source: gated value graphs of whole functions, loops summarised "
     "as closed forms, compared with a specification by term rewriting over the field (no path enumeration, no solver, nothing is run)")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in m.CLAIMED:
        c = m.CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"bin/check -p {i}", "thorough_cmd": f"bin/check -p {i}",
                       "technique": c.get("technique", T), "level": "other", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": m.NOT[i]})
json.dump({"version": 1,
           "setup_cmd": ". /opt/vp/env.sh && cd checker && go build -o ../bin/check .",
           "checks": checks, "not_applicable": na,
           "hooks": {"guard": "none", "enable": "no hooks: the checks read the source of /repo", "source_commits": []},
           "notes": "Static analysis only. Known findings are in known-findings.txt; DESIGN.md describes the engine, the obligations of each property and what they do not cover."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
