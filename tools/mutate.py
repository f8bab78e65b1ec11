#!/usr/bin/env python3
"""mutate.py [name...]: apply each change of mutants.py to /repo, run the
stable tests and the named checks (quick), undo it, and report."""
import subprocess, sys, os
sys.path.insert(0, os.path.dirname(__file__))
from mutants import M
sh = lambda c: subprocess.run(c, shell=True, capture_output=True, text=True)
want = sys.argv[1:]
for name, checks, edits in M:
    if want and not any(name.startswith(w) for w in want): continue
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    try:
        bad = None
        for f, old, new in edits:
            p = '/repo/' + f; s = open(p).read()
            if s.count(old) != 1: bad = f'{f}: {s.count(old)} matches'; break
            open(p, 'w').write(s.replace(old, new))
        if bad: print(name, 'BAD EDIT', bad, flush=True); continue
        t = sh('bash /verif/tools/chk.sh 2>&1').stdout.strip().splitlines()
        r = []
        if 'missing: []' in (t[-1] if t else ''): r.append('tests ok')
        else: r.append('TESTS FAIL ' + (t[-1] if t else '')[:200])
        for c in checks.split():
            k = sh(f'cd /verif && VERIF_SEED=1 timeout 900 ./run.sh {c} quick')
            v = [l for l in k.stdout.splitlines() if l.startswith('VIOLATION')]
            r.append(f'{c}={k.returncode}{" CAUGHT" if k.returncode == 1 and v else " MISSED" if k.returncode == 0 else " ???"}')
        print(name, '; '.join(r), flush=True)
    finally:
        sh('git -C /repo checkout -- .')
