#!/usr/bin/env python3
"""tools/times.json from summary lines of checks ("P01 quick: ... 11.7s ...") given as log files"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(V, 'tools', 'times.json')
d = json.load(open(f)) if os.path.exists(f) else {}
for log in sys.argv[1:]:
    for m in re.finditer(r'(P\d\d) (quick|thorough): .*? skipped, ([\d.]+)s', open(log).read()):
        d.setdefault(m[1], [0, 0])[m[2] == 'thorough'] = round(float(m[3]))
json.dump(dict(sorted(d.items())), open(f, 'w'), indent=0)
