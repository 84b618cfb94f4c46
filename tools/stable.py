#!/usr/bin/env python3
"""stable.py OUT.json: which of the repository's reliable tests did not pass"""
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(d):
    for k in ('stable','passed','pass','tests'):
        if k in d: return set(d[k])
    raise SystemExit(list(d))
m=names(b)-names(o); print('missing',sorted(m)); sys.exit(bool(m))
