#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from props.py and properties.jsonl.
import json, os, sys
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'); sys.path.insert(0,R)
from props import PROPS
ids=[json.loads(l)['id'] for l in open(R+'/properties.jsonl')]
checks=[]
for i in ids:
    if i not in PROPS: continue
    p=PROPS[i]
    checks.append(dict(property=i,quick_cmd='./run.py %s quick'%i,thorough_cmd='./run.py %s thorough'%i,
        evidence_file='evidence/%s.json'%i,
        technique=p.get('technique','TLA+ specification enumerated by TLC and replayed on the code; recorded runs validated by TLC'),
        level='model_checking',
        level_note=p.get('note','The specification is checked exhaustively within the bounds in DESIGN.md; every transition (a stratified sample where the graph is larger than the cap) is executed on the real code, and recorded runs over large domains are accepted by TLC. Trusts TLC, the harness mapping and the primitives under the library.')))
NA={}
m=dict(version=1,setup_cmd='./run.py --setup',hooks=dict(guard='none',enable='no hooks: the checks use the public API only',source_commits=[]),
  checks=checks,not_applicable=[dict(property=i,reason=NA.get(i,'no check built yet')) for i in ids if i not in PROPS],
  notes='One entry point, run.py; see DESIGN.md. Genuine defects: known-findings.txt.')
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed')
