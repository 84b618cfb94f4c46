#!/usr/bin/env python3
"""cmpq.py TRACE SID EV QUERY: the answers to QUERY at event EV and earlier ones in the session"""
import sys,json
tr,sid,ev,q=sys.argv[1:5]
for l in open(tr):
    x=json.loads(l)
    if x["sid"]!=sid: continue
    for i,e in enumerate(x["ev"][:int(ev)],1):
        if e["e"]=="fit": print(i,"fit f",e["f"],"m",e["m"],"l1",e["l1"],"l2",e["l2"],e["out"],"it",e["n_iter"],"like",e["like"],"res",e["res"])
        if e["e"]=="obs":
            for t in e["q"]:
                if t["q"]==q: print(i,"obs f",e["f"],t["st"],t["at"],"a",t["a"],"->",t["v"])
        if e["e"]=="model": print(i,"model",e["m"],e["how"],e["arg"])
