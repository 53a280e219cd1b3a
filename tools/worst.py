#!/usr/bin/env python3
# worst.py ID...: worst error/tolerance ratios and label counts of the last run
import json, sys
for p in sys.argv[1:]:
    d = json.load(open("/verif/evidence/%s.json" % p))
    for n, t in d["coverage"]["tests"].items():
        print(p, n, t["evaluations"], t["nontrivial"], t["discarded"], "%.1fs" % t["seconds"], t["worst_error_over_tolerance"], t["labels"])
