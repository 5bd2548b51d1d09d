#!/usr/bin/env python3
"""Plant bugs: tools/plant.py SPECFILE [ids...] [--nocheck]

SPECFILE is python defining BUGS, a list of dicts:
  id, prop, edits=[(file, old, new), ...], needs, breaks, demo (python source of the demonstration)
Each bug is tried in a scratch copy of /repo (suite must pass, demo must tell the trees apart), the check of the property is
run against the copy, and the bug is written to /verif/seeded/<id>/ whether or not it is caught.
"""
import sys, os, subprocess, json, shutil, textwrap, concurrent.futures as cf
V = '/verif'; R = '/repo'; PY = '/opt/venv/bin/python'
BASE = json.load(open('/opt/vp/BASELINE.json'))
DEMO_HEAD = '''import sys, os
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import numpy as np
import tempfile, shutil, io, warnings
warnings.simplefilter('ignore')
def check(cond, msg='wrong'):
    if not cond:
        print('DEMO FAILS:', msg); sys.exit(1)
'''
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')

def sh(cmd, cwd, timeout=900, **kw):
    return subprocess.run(cmd, cwd=cwd, env={**env, **kw}, capture_output=True, text=True, timeout=timeout)

def base_lines(path):
    out = sh(['git', 'blame', '-s', '--abbrev=12', path], R).stdout.splitlines()
    root = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], R).stdout.strip()[:7]
    return {i + 1: l.lstrip('^').startswith(root) for i, l in enumerate(out)}

def prepare(bug, nocheck_tests=False):
    wt = f'/tmp/plant/{bug["id"]}'
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    subprocess.run(['cp', '-a', R, wt], check=True)
    for f, old, new in bug['edits']:
        p = f'{wt}/surfalize/{f}'
        src = open(p, newline='').read()
        if '\r\n' in src:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if src.count(old) != 1:
            return wt, f'edit of {f} occurs {src.count(old)} times: {old[:60]!r}'
        open(p, 'w', newline='').write(src.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=wt, capture_output=True).stdout
    bug['diff'] = diff
    # removed lines must stem from the base commit
    cur, ln, bad = None, 0, 0
    blames = {}
    for l in diff.decode('utf-8', 'replace').split('\n'):
        if l.startswith('--- a/'):
            cur = l[6:].strip(); blames[cur] = base_lines(cur)
        elif l.startswith('@@'):
            ln = int(l.split()[1].split(',')[0][1:])
        elif l.startswith('-') and not l.startswith('---'):
            if not blames[cur].get(ln): bad += 1
            ln += 1
        elif l.startswith(' '):
            ln += 1
    bug['notbase'] = bad
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', '--tb=line', 'tests'], wt)
    if r.returncode:
        return wt, 'suite fails: ' + r.stdout[-600:]
    d = f'{V}/seeded/{bug["id"]}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(f'{d}/patch.diff', 'wb').write(diff)
    open(f'{d}/demo.py', 'w').write(DEMO_HEAD + textwrap.dedent(bug['demo']).lstrip('\n'))
    open(f'{d}/demo.sh', 'w').write('#!/bin/bash\n# exit 0: behaves as stated; nonzero: the property is broken\n'
                                    'export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
              open(f'{d}/meta.json', 'w'), indent=1)
    a = sh(['bash', f'{d}/demo.sh'], R)
    b = sh(['bash', f'{d}/demo.sh'], wt)
    err = None
    if a.returncode != 0: err = 'demo fails on unchanged tree: ' + (a.stdout + a.stderr)[-500:]
    elif b.returncode == 0: err = 'demo passes with the patch'
    else: bug['demo_out'] = (b.stdout + b.stderr).strip().splitlines()[-1:]
    if err:
        shutil.rmtree(d)
    return wt, err

def main():
    args = sys.argv[1:]
    nocheck = '--nocheck' in args
    args = [a for a in args if a != '--nocheck']
    ns = {}
    exec(compile(open(args[0]).read(), args[0], 'exec'), ns)
    bugs = [b for b in ns['BUGS'] if len(args) == 1 or b['id'] in args[1:]]
    with cf.ThreadPoolExecutor(6) as ex:
        res = list(ex.map(prepare, bugs))
    for bug, (wt, err) in zip(bugs, res):
        if err:
            print(f'{bug["id"]:34} {bug["prop"]} INVALID {err}', flush=True)
        else:
            note = f' ({bug["notbase"]} lines not of base)' if bug['notbase'] else ''
            if nocheck:
                print(f'{bug["id"]:34} {bug["prop"]} valid{note} {bug["demo_out"]}', flush=True)
            else:
                r = sh([PY, f'{V}/run.py', bug['prop'], '--tier', 'quick'], V, VERIF_REPO=wt, VERIF_SEED='1')
                state = {0: 'MISSED', 1: 'caught'}.get(r.returncode, f'ERROR rc={r.returncode}')
                viol = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                print(f'{bug["id"]:34} {bug["prop"]} {state}{note} demo={bug["demo_out"]} {viol[:1]}', flush=True)
                if state.startswith('ERROR'):
                    print((r.stdout + r.stderr)[-1500:])
        shutil.rmtree(wt, ignore_errors=True)
if __name__ == '__main__':
    main()
