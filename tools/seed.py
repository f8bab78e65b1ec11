#!/usr/bin/env python3
"""Try a planted bug: seed.py <spec.py> [--keep-missed]
The spec defines id, property, edits [(file, old, new)], main (demo program),
needs, breaks.  The bug is applied to /repo, built, tested, demonstrated and
checked there, and undone."""
import sys, os, json, subprocess, shutil, runpy
spec = runpy.run_path(sys.argv[1])
sid = spec['id']; prop = spec['property']
d = f'/verif/seeded/{sid}'
sh = lambda c, **k: subprocess.run(c, shell=True, **k)
assert not subprocess.check_output('git -C /repo status --porcelain', shell=True).strip(), 'repo dirty'
os.makedirs(d, exist_ok=True)
try:
    for f, old, new in spec['edits']:
        p = '/repo/' + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    open(d + '/patch.diff', 'w').write(subprocess.check_output('git -C /repo diff', shell=True, text=True))
    open(d + '/main.rs', 'w').write(spec['main'])
    shutil.copy('/verif/tools/demo.sh', d + '/demo.sh')
    json.dump({'property': prop, 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r = sh('bash /verif/tools/chk.sh > /tmp/seed.log 2>&1; tail -1 /tmp/seed.log', capture_output=True, text=True).stdout
    print('tests:', r.strip()[:300])
    ok = 'missing: []' in r
    dp = sh(f'bash {d}/demo.sh', capture_output=True, text=True)
    print('demo patched:', dp.returncode, dp.stdout[-300:], dp.stderr[-500:])
    for c in sys.argv[2:] or [prop]:
        if c.startswith('--'): continue
        k = sh(f'cd /verif && timeout 900 ./run.sh {c} quick', capture_output=True, text=True)
        print('check', c, k.returncode, '\n'.join(l for l in k.stdout.splitlines() if l)[-700:])
finally:
    sh('git -C /repo checkout -- .')
sh('bash /opt/vp/build.sh >/dev/null 2>&1')
dc = sh(f'bash {d}/demo.sh', capture_output=True, text=True)
print('demo clean:', dc.returncode, dc.stdout[-300:], dc.stderr[-800:])
if not (ok and dp.returncode not in (0,) and dc.returncode == 0):
    print('NOT VALID'); shutil.rmtree(d)
