#!/usr/bin/env python3
# scale.py FACTOR FILE...: multiplies the case counts
import re, sys
f = float(sys.argv[1])
for fn in sys.argv[2:]:
    t = open(fn).read()
    t = re.sub(r"^(PROP\(\w+, )(\d+), (\d+)\)", lambda m: "%s%d, %d)" % (m.group(1), round(int(m.group(2)) * f), round(int(m.group(3)) * f)), t, flags=re.M)
    open(fn, "w").write(t)
