#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json,os,sys
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'); sys.path.insert(0,V)
from plan import PLAN
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NA={}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in PLAN:
        P=PLAN[i]
        checks.append(dict(property=i,quick_cmd='python3 check.py '+i,thorough_cmd='python3 check.py %s --tier thorough'%i,technique=P.get('technique','runtime monitor: online reference oracle over randomised executions of the real code'),level=P.get('level','exploration'),level_note=P.get('note','every observed execution is compared with an independent oracle; no claim beyond the executions counted in the evidence')))
    else: na.append(dict(property=i,reason=NA.get(i,'check not built yet')))
m=dict(version=1,setup_cmd='true',checks=checks,not_applicable=na)
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); print(len(checks),len(na))
