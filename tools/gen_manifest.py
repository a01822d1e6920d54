#!/usr/bin/env python3
"""Write MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
import registry
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPERTIES:
        e = registry.PROPERTIES[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=e.get("technique", "explicit-state exploration of all bounded operation histories of the real code against a reference model"),
                           level=e.get("level", "model_checking"), level_note=e.get("note", "Exhaustive within the stated bounds; trusts the small stand-ins for RAJA and camp and the reference model.")))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "The check is not built yet.")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every harness drives the public interface; instrumentation is in the element types, the RAJA/camp/chai stand-ins and the compiler's memory-access instrumentation.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
