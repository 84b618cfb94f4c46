#!/usr/bin/env python3
"""refresh the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import json,glob,re,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
miss=set(l.split()[0] for l in open("seeded/MISSED")) if os.path.exists("seeded/MISSED") else set()
rows=["| change | check | what it breaks | needs |","|---|---|---|---|"]
for p in sorted(glob.glob("seeded/*/meta.json")):
    i=p.split("/")[1]; m=json.load(open(p))
    rows.append(f"| {i} | {m['property']}{' (missed)' if i in miss else ''} | {m['what_it_breaks']} | {m['needs']} |")
s=open("DESIGN.md").read()
s=re.sub(r"<!--seeds-->.*<!--/seeds-->",lambda _:"<!--seeds-->\n"+"\n".join(rows)+"\n<!--/seeds-->",s,flags=re.S)
open("DESIGN.md","w").write(s)
