#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and specs.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import specs
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                           thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=specs.TECH.get(i, "model checking: exhaustive enumeration of a bounded input space on the real code, reference model as oracle"),
                           level=s.get("level", "model_checking"),
                           level_note=s.get("note", "Every element of this space is executed on the real code: " + s["bounds"] + " Oracle: " + s["oracle"] + ". Nothing is claimed outside these bounds.")))
    else:
        na.append(dict(property=i, reason=getattr(specs, "NA", {}).get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 lib/setup.py", checks=checks, not_applicable=na,
         notes="Checks build the library from /repo's working tree into /verif/build (ignored) and remove it afterwards. No hooks are needed in /repo.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
