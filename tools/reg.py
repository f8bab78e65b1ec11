#!/usr/bin/env python3
"""reg.py ID technique note : registers a check and rewrites the manifest"""
import json,sys,subprocess
c=json.load(open('/verif/checks.json'))
i,t,n=sys.argv[1:4]
c[i]={"technique":t,"level":"model_checking","note":n}
c.get("_not_applicable",{}).pop(i,None)
c={k:c[k] for k in sorted(c)}
json.dump(c,open('/verif/checks.json','w'),indent=1)
subprocess.run(['python3','/verif/gen_manifest.py'],check=True)
