#!/usr/bin/env python3
"""show.py TRACE SID: print a recorded session with decoded reals (debugging aid)"""
import json,struct,sys
def dec(v):
    if isinstance(v,list):
        if len(v)==2 and all(isinstance(t,int) and not isinstance(t,bool) for t in v):
            return struct.unpack('>d',struct.pack('>ii',*v))[0]
        return [dec(t) for t in v]
    if isinstance(v,dict): return {k:(t if k in('perm','hx','k','n','m','f') and e_int(k,t) else dec(t)) for k,t in v.items()}
    return v
def e_int(k,t): return k in('perm','hx') or isinstance(t,int)
for line in open(sys.argv[1]):
    d=json.loads(line)
    if d['sid']!=sys.argv[2]: continue
    for i,e in enumerate(d['ev']):
        e=dec(e); print(i+1,e['e'],{k:v for k,v in e.items() if k not in('e','q','x','hb','hl','hx')})
        if e['e']=='model': print('   x',e['x'])
        if e['e']=='fit': print('   hl',e['hl']); print('   hb',e['hb'][-3:])
        if e['e']=='obs':
            for q in e['q']: print('   ',q['q'],q['at'],q['st'],q['err'],q['v'], q['a'] if q['a'] else '')
