#!/usr/bin/env python3
"""Run the checks against planted bugs in scratch copies: tools/recheck.py [--seed N] [--all-checks] [ids...]. Prints the table of DESIGN.md."""
import sys, os, json, subprocess, shutil
V, R, PY = '/verif', '/repo', '/opt/venv/bin/python'
args = sys.argv[1:]
seed = '1'
if '--seed' in args:
    i = args.index('--seed'); seed = args[i + 1]; del args[i:i + 2]
ids = args or sorted(os.listdir(f'{V}/seeded'))
missed = []
for i in ids:
    d = f'{V}/seeded/{i}'
    meta = json.load(open(f'{d}/meta.json'))
    wt = f'/tmp/plant/re-{i}'
    shutil.rmtree(wt, ignore_errors=True); os.makedirs('/tmp/plant', exist_ok=True)
    subprocess.run(['cp', '-a', R, wt], check=True)
    a = subprocess.run(['git', 'apply', f'{d}/patch.diff'], cwd=wt, capture_output=True, text=True)
    if a.returncode:
        print(f'{i:34} DOES NOT APPLY {a.stderr[:200]}', flush=True); shutil.rmtree(wt); missed.append(i); continue
    r = subprocess.run([PY, f'{V}/run.py', meta['property'], '--tier', 'quick'], cwd=V, capture_output=True, text=True,
                       env={**os.environ, 'VERIF_REPO': wt, 'VERIF_SEED': seed, 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg'})
    state = {0: 'MISSED', 1: 'caught'}.get(r.returncode, f'ERROR rc={r.returncode}')
    by = [l.split('replays/')[-1] for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(f'{i:34} {meta["property"]} {state} {by[:3]}', flush=True)
    if state != 'caught':
        missed.append(i)
        if state != 'MISSED': print((r.stdout + r.stderr)[-1000:])
    shutil.rmtree(wt)
print('missed:', missed)
