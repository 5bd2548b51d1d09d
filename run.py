#!/opt/venv/bin/python
"""Runner:  run.py <ID> [--tier quick|thorough]      decide one property
            run.py --replay FILE                     re-execute one saved failing case
            run.py <ID> --list                       list the sub-checks
Exit 0: held on everything explored; 1: VIOLATION; 2: error of the check itself."""
import argparse
import concurrent.futures
import importlib
import importlib.machinery
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
PY = '/opt/venv/bin/python'


def known_findings(pid):
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            parts = line.strip().split(None, 3)
            if len(parts) == 4 and parts[0] == 'finding:' and parts[1] == f'property={pid}' \
                    and parts[2].startswith('sig='):
                out[parts[2][4:]] = parts[3]
    return out


class SourceOnlyLoader(importlib.machinery.SourceFileLoader):
    """Compiles the code under test from its source every time: a cached .pyc can never stand in for the working tree."""

    def path_stats(self, path):
        raise OSError('no bytecode')


def source_only_hook(path):
    if os.path.realpath(path or '.').startswith(os.path.join(os.path.realpath(REPO), 'surfalize')) \
            or os.path.realpath(path or '.') == os.path.realpath(REPO):
        return importlib.machinery.FileFinder(path, (SourceOnlyLoader, ['.py']))
    raise ImportError


def setup_paths(import_sut=True):
    sys.path[:0] = [VERIF, REPO]
    sys.path.append(HYP)
    sys.path_hooks.insert(0, source_only_hook)
    sys.path_importer_cache.clear()
    from lib import harness
    harness.SUT_DIR = os.path.join(os.path.realpath(REPO), 'surfalize')
    if not import_sut:
        return harness
    import surfalize
    d = os.path.dirname(os.path.realpath(surfalize.__file__))
    if d != os.path.join(os.path.realpath(REPO), 'surfalize'):
        raise harness.HarnessError(f'imported surfalize from {d}, not from {REPO}')
    return harness


def load(pid):
    mod = importlib.import_module(f'checks.{pid.lower()}')
    return mod.C


def worker(pid, sub_name, seed, n, budget, out_path):
    harness = setup_paths()
    res = {'sub': sub_name, 'error': None, 'failure': None}
    t0 = time.monotonic()
    try:
        chk = load(pid)
        rec = harness.Rec(known_findings(pid))
        sub = chk.subs[sub_name]
        f = harness.run_sub(sub, seed, n, rec, budget)
        if f is not None:
            res['failure'] = {'case': harness.encode(f['case']), 'message': f['message'], 'sig': f['sig']}
        res.update(evaluations=rec.evaluations, distinct=[d.hex() for d in rec.distinct], labels=rec.labels,
                   samples=rec.samples, observed=rec.observed)
    except BaseException:
        res['error'] = traceback.format_exc()
    res['wall'] = time.monotonic() - t0
    with open(out_path, 'w') as f:
        json.dump(res, f, default=str)


def child_env(scratch):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch, 'mpl'), OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', TMPDIR=os.path.join(scratch, 'tmp'), LC_ALL='C.UTF-8',
               TZ='UTC', TQDM_DISABLE='1', HOME=os.path.join(scratch, 'home'), VERIF_SCRATCH=scratch)
    for d in ('mpl', 'tmp', 'home', 'cwd'):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--only', help='comma separated sub-checks')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--worker', nargs=5)
    a = ap.parse_args()

    if a.worker:
        sub, seed, n, budget, out = a.worker
        worker(a.pid, sub, int(seed), int(n), float(budget), out)
        return 0

    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    scratch = tempfile.mkdtemp(prefix='verif_')
    env = child_env(scratch)
    try:
        if a.replay:
            return replay(a.replay, env)
        os.environ.update(env)
        if a.tier not in ('quick', 'thorough'):
            a.tier = 'quick'
        return decide(a, seed, env, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(a, seed, env, scratch):
    t0 = time.monotonic()
    pid = a.pid.upper()
    setup_paths(import_sut=False)
    chk = load(pid)
    if a.list:
        for s in chk.subs.values():
            print(s.name, s.quick, s.shards, s.thorough, s.tshards)
        return 0
    quick = a.tier == 'quick'
    tasks = []
    for s in chk.subs.values():
        if a.only and s.name not in a.only.split(','):
            continue
        shards = s.shards if quick else s.tshards
        total = max(1, round((s.quick if quick else s.thorough) * float(os.environ.get('VERIF_SCALE') or 1)))
        for k in range(shards):
            n = max(1, total // shards)
            sd = zlib.crc32(f'{pid}/{s.name}/{seed}/{k}'.encode()) & 0x7fffffff
            tasks.append((s.name, sd, n, s.budget if quick else s.tbudget, k))

    def run_task(i):
        name, sd, n, budget, k = tasks[i]
        out = os.path.join(scratch, f'res{i}.json')
        log = os.path.join(scratch, f'log{i}.txt')
        case_file = os.path.join(scratch, f'case{i}.json')
        with open(log, 'w') as lf:
            try:
                rc = subprocess.run([PY, os.path.join(VERIF, 'run.py'), pid, '--worker', name, str(sd), str(n),
                                     str(budget), out], env=dict(env, VERIF_CASE_FILE=case_file),
                                    cwd=os.path.join(scratch, 'cwd'), stdout=lf, stderr=subprocess.STDOUT,
                                    timeout=budget + 300).returncode
            except subprocess.TimeoutExpired:
                rc = 'a timeout'
        try:
            return json.load(open(out))
        except Exception:
            if os.path.exists(case_file) and (rc == 'a timeout' or rc < 0 and rc != -9):
                try:
                    return {'sub': name, 'wall': 0, 'failure': {
                        'case': json.load(open(case_file)), 'sig': None,
                        'message': f'the process ended with {rc} while running this case'}}
                except ValueError:
                    pass
            return {'sub': name, 'error': f'worker ended with {rc} and no result:\n' + open(log).read()[-3000:],
                    'failure': None, 'wall': 0}

    with concurrent.futures.ThreadPoolExecutor(max_workers=max(1, a.jobs)) as ex:
        results = list(ex.map(run_task, range(len(tasks))))

    errors = [r for r in results if r.get('error')]
    failures = [r for r in results if r.get('failure')]
    labels, per_sub, distinct, samples, observed, evals = {}, {}, set(), [], {}, 0
    for r in results:
        ps = per_sub.setdefault(r['sub'], {'evaluations': 0, 'distinct_nontrivial': 0, 'cpu_s': 0.0})
        ps['cpu_s'] = round(ps['cpu_s'] + r.get('wall', 0), 2)
        if 'evaluations' not in r:
            continue
        evals += r['evaluations']
        ps['evaluations'] += r['evaluations']
        new = {r['sub'] + ':' + d for d in r['distinct']} - distinct
        ps['distinct_nontrivial'] += len(new)
        distinct |= new
        for k, v in r['labels'].items():
            labels[f"{r['sub']}:{k}"] = labels.get(f"{r['sub']}:{k}", 0) + v
        for s in r['samples'][:1]:
            if len([x for x in samples if x['sub'] == r['sub']]) < 2:
                samples.append({'sub': r['sub'], 'case': s})
        for k, v in r['observed'].items():
            observed[k] = observed.get(k, 0) + v

    known = known_findings(pid)
    for sig in sorted(observed):
        print(f'KNOWN-FINDING: property={pid} {known[sig]}')

    evidence = {
        'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': evals, 'distinct_nontrivial': len(distinct), 'rule': chk.rule,
                     'samples': samples, 'per_subcheck': per_sub, 'classes': dict(sorted(labels.items())),
                     'excluded_known_findings': observed},
        'assumptions': ['numpy, scipy and the CPython standard library behave as documented'],
        'wall_s': round(time.monotonic() - t0, 2), 'violations': len(failures),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)

    if a.verbose:
        for k, v in per_sub.items():
            print(f'  {k}: {v}')
        for k, v in sorted(labels.items()):
            print(f'    {k}: {v}')
    for r in errors:
        print(f"ERROR in sub-check {r['sub']}:\n{r['error']}", file=sys.stderr)
    if failures:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for r in failures:
            if r['sub'] in seen:
                continue
            seen.add(r['sub'])
            path = os.path.join(rdir, f"{pid}-{r['sub'].replace(' ', '-')}.json")
            with open(path, 'w') as f:
                json.dump({'property': pid, 'sub': r['sub'], 'message': r['failure']['message'],
                           'sig': r['failure']['sig'], 'case': r['failure']['case']}, f, indent=1)
            print(f"{pid}/{r['sub']}: {r['failure']['message']}")
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    if errors:
        return 2
    print(f'{pid}: held on {evals} cases ({len(distinct)} distinct non-trivial) in {evidence["wall_s"]} s')
    return 0


def replay(path, env):
    os.environ.update(env)
    if os.environ.get('VERIF_REPLAY_CHILD') != '1':
        env = dict(env, VERIF_REPLAY_CHILD='1')
        return subprocess.run([PY, os.path.join(VERIF, 'run.py'), '--replay', os.path.abspath(path)], env=env).returncode
    harness = setup_paths()
    d = json.load(open(path))
    chk = load(d['property'])
    rec = harness.Rec(known_findings(d['property']))
    res = harness.execute(chk.subs[d['sub']], harness.decode(d['case']), rec)
    if res is None:
        print(f"{d['property']}/{d['sub']}: the replayed case passes")
        return 0
    print(res[0])
    print(f"VIOLATION property={d['property']} replay={os.path.abspath(path)}")
    return 1


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
