#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT WHAT: record a repaired defect in known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
prop, commit, what = sys.argv[1:4]
d["findings"].append(dict(property=prop, witness="fixed", what="fixed: property=%s %s %s" % (prop, commit, what), status="fixed"))
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
