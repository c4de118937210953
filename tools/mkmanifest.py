"""Writes MANIFEST.json from the list of checks present in checks/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(V, f)):
        checks.append(dict(property=i, quick_cmd="python3 " + f, thorough_cmd="VERIF_TIER=thorough python3 " + f,
                           evidence_file="evidence/%s.json" % i, technique=TECH[i][0], level="exploration", level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="none", enable="no hooks were needed: checks build /repo's own sources with sanitizer flags", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
