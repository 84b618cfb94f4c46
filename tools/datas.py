#!/usr/bin/env python3
"""datas.py PROP SEED...: data descriptions of the sessions with BAD lines"""
import sys,re,json
for s in sys.argv[2:]:
    w=f"work/dev-{sys.argv[1]}-{s}"; bad={}
    for sid,ev,cl in re.findall(r'BAD (\S+) (\d+) ([^"\s]+)',open(w+"/tr.log").read()): bad.setdefault(sid,set()).add((int(ev),cl))
    for l in open(w+"/sc.ndjson"):
        x=json.loads(l)
        if x["sid"] in bad: print(x["sid"],sorted(bad[x["sid"]])[:4],"\n   ",{k:v for k,v in x["prog"][0].get("data",{}).items()})
