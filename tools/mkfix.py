"""mkfix.py PROP COMMIT TEXT: note a repaired defect in known_findings.json."""
import json
import os
import sys

p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p))
key = [x for x in k if isinstance(k[x], list)][0]
a, b, t = sys.argv[1:]
k[key].append(dict(property=a, status="fixed", commit=b, what="fixed: property=%s %s %s" % (a, b, t)))
json.dump(k, open(p, "w"), indent=1)
