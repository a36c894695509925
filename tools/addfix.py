"""addfix.py PROP COMMIT TEXT: record a repaired defect in known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p)) if os.path.exists(p) else {"findings": []}
prop, commit, text = sys.argv[1:4]
k["findings"].append({"property": prop, "status": "fixed", "commit": commit, "record": "fixed: property=%s %s %s" % (prop, commit, text)})
json.dump(k, open(p, "w"), indent=1)
open(p, "a").write("\n")
