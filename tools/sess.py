#!/usr/bin/env python3
"""sess.py TRACE SID [QUERY...]: a recorded session in decimal"""
import json,struct,sys
def d(p):
    if isinstance(p,list) and len(p)==2 and all(isinstance(t,int) for t in p): return float("%.8g"%struct.unpack('>d',struct.pack('>II',p[0]&0xffffffff,p[1]&0xffffffff))[0])
    if isinstance(p,list): return [d(t) for t in p]
    return p
for l in open(sys.argv[1]):
    x=json.loads(l)
    if x['sid']!=sys.argv[2]: continue
    for i,e in enumerate(x['ev'],1):
        if e['e']=='model': print(i,'model',e['m'],e['how'],d(e['arg']),"y",d(e['y']),'off',d(e['off']) if e['hasoff'] else '','f',d(e['f']) if e['hasf'] else '','w',d(e['w']) if e['hasw'] else '',*(["x",d(e['x'])] if "x" in sys.argv else []))
        if e['e']=='fit': print(i,'fit',e['f'],'m',e['m'],e['out'],e['n_iter'],'l1',d(e['l1']),'l2',d(e['l2']),'tol',d(e['tol']),'init',d(e['init']) if e['hasinit'] else '','res',d(e['res']),'like', d(e['like']),*(['hl',d(e['hl'])] if 'hl' in sys.argv else []))
        if e['e']=='obs':
            for t in e['q']:
                if t['q'] in sys.argv[3:]: print(i,'f',e['f'],t['q'],t['at'],t['st'],d(t['a']),'->',d(t['v']) if t['st']=='ok' else t['err'])
