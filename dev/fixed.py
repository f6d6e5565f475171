"""Append a fixed finding:  python3 dev/fixed.py PROPERTY COMMIT WHAT"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
pr, c, w = sys.argv[1:4]
d["findings"].append({"status": "fixed", "property": pr, "commit": c, "what": w, "entry": "fixed: property=%s %s %s" % (pr, c, w)})
json.dump(d, open(p, "w"), indent=1)
