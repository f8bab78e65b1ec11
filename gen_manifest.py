#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below."""
import json, subprocess
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
CHECKS=json.load(open('/verif/checks.json'))
NA=CHECKS.pop('_not_applicable',{})
hooks=subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines()
hooks=[l.split()[0] for l in hooks if 'verif hook' in l][::-1]
m={"version":1,"setup_cmd":"bash run.sh build",
 "hooks":{"guard":"over_there_verif (rustc --cfg)","enable":"RUSTFLAGS='--cfg over_there_verif' (set by /verif/run.sh when it builds /verif/harness, which depends on /repo by path)","source_commits":hooks},
 "checks":[], "not_applicable":[]}
for p in props:
    if p in CHECKS:
        c=CHECKS[p]
        m["checks"].append({"property":p,"quick_cmd":f"bash run.sh {p} quick","thorough_cmd":f"bash run.sh {p} thorough","evidence_file":f"evidence/{p}.json","technique":c["technique"],"level":c["level"],"level_note":c["note"]})
    else:
        m["not_applicable"].append({"property":p,"reason":NA.get(p,"check under construction, not claimed yet")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); print(len(m["checks"]),"checks")
