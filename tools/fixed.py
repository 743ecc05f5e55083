"""python tools/fixed.py PROPERTY COMMIT TEXT: record a repaired defect"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
prop, commit, text = sys.argv[1:4]
d["findings"].append(dict(property=prop, id="fixed-" + commit, status="fixed", text="fixed: property=%s %s %s" % (prop, commit, text)))
json.dump(d, open(p, "w"), indent=1)
