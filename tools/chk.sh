#!/bin/bash
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/tt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def passed(x):
    for k in ('passed','pass','stable','tests'):
        if k in x:
            v=x[k]
            return set(v) if isinstance(v,list) else {n for n,r in v.items() if r in ('pass','passed',True)}
    return None
pb,pt=passed(b),passed(t)
print(list(b.keys())[:5],list(t.keys())[:5])
if pb is not None: print('missing:',sorted(pb-pt)[:20], len(pb),len(pt))
P
