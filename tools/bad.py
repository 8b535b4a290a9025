#!/usr/bin/env python3
"""list the mismatches of a replay: tools/bad.py work/CXX/rep0.json [max]"""
import json,sys
d=json.load(open(sys.argv[1])); n=int(sys.argv[2]) if len(sys.argv)>2 else 60
def sh(c):
    c=dict(c.get('call',c)); o=c.pop('op'); return o+' '+' '.join(f'{k}={v}' for k,v in sorted(c.items()))
seen=set(); k=0
for m in d['bad']:
    t=(sh(m['call']), str(m.get('expected')), m.get('got'))
    if t in seen: continue
    seen.add(t); k+=1
    if k<=n: print(*t, '<-', ' ; '.join(sh(x) for x in m.get('path',[])))
print(len(d['bad']), 'bad', len(seen), 'distinct')
