#!/usr/bin/env python3
"""fixed.py <property> <commit> <what>: records a repaired defect"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
l = json.load(open(p))
prop, c, what = sys.argv[1:4]
l.append(dict(status="fixed", property=prop, commit=c, what=what, line="fixed: property=%s %s %s" % (prop, c, what)))
json.dump(l, open(p, "w"), indent=1)
open(p, "a").write("\n")
