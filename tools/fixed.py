#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT TEXT: records a repaired defect in known_findings.json."""
import json
import os
import sys

P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(P))
d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
open(P, "w").write(json.dumps(d, indent=1, ensure_ascii=False))
