#!/usr/bin/env python3
"""Mutation survey: tools/mutate.py OUT.jsonl [--n N] [--seed S] [--files regex] [--workers 8]

Generates small syntactic mutants of /repo/surfalize, keeps those which pass the test suite, and runs the checks whose subject is the
mutated function against them (one process each). Lists the survivors of both: equivalent mutants, or gaps of the checks.
Not a check; used while strengthening them."""
import sys, os, ast, re, json, random, subprocess, shutil, argparse, hashlib, concurrent.futures as cf
V, R, PY = os.path.dirname(os.path.dirname(os.path.abspath(__file__))), '/repo', '/opt/venv/bin/python'
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')

FN = {}
def m(checks, names):
    for n in names.split():
        FN.setdefault(n, []).extend(checks.split())
m('C01', '__init__ data _set_data _with_data __setitem__ cache wrapped_method clear_cache create_cache_entry')
m('C02', '_set_data _with_data __getitem__ level detrend_polynomial filter fill_nonmeasured rotate zoom crop align stepheight_level center zero invert remove_outliers threshold')
m('C21', '__eq__ __hash__ _arithmetic_operation __add__ __sub__ __rsub__ __mul__ __truediv__ approximately_equal __repr__')
m('C12', '__init__ __getitem__ crop zoom rotate align _set_data size')
m('C13', '_get_averaging_indices get_horizontal_profile get_vertical_profile get_oblique_profile interpolate_line_on_2d_array')
m('C11', 'fill_nonmeasured center zero invert remove_outliers threshold min max mean median std has_missing_points')
m('C14', 'no_nonmeasured_points wrapper_function has_missing_points min max mean median std')
m('C10', 'level detrend_polynomial')
m('C09', 'sigma __call__ apply filter __init__')
m('C22', '_stepheight_get_mask stepheight_level _stepheight_get_upper_lower_median stepheight cavity_volume otsu_threshold')
m('C03', 'height_parameters Sa Sq Sp Sv Sz Ssk Sku Ra Rq Rp Rv Rz Rt Rsk Rku _sectioned_data')
m('C26', 'height_parameters roughness_parameters Ra Rq Rp Rv Rz Rt Rsk Rku _sectioned_data Rdq batch_method decorator')
m('C06', 'projected_area surface_area Sdr Sdq Rdq')
m('C07', 'get_autocorrelation_function Sal Str')
m('C08', 'period period_x_y _orientation_refined orientation Std Ssw get_fourier_transform get_period_fft_1d _sinusoid from_fit estimate_x0 first_extremum first_peak __call__ __init__')
m('C23', 'homogeneity depth aspect_ratio _sinusoid from_fit estimate_x0 first_extremum first_peak __call__ get_period_fft_1d')
m('C05', 'Sk Spk Svk Spkx Svkx Sak1 Sak2 Smr1 Smr2 Smrk1 Smrk2 Rk Rpk Rvk Rpkx Rvkx Rak1 Rak2 Rmr1 Rmr2 Rmrk1 Rmrk2 Vmp Vmc Vvv Vvc Vm Vv get_abbott_firestone_curve')
m('C04', 'Smr Smc Sxp Sdc Rmr Rmc Rxp Rdc get_abbott_firestone_curve')
m('C26', 'Vmp Vmc Vvv Vvc Vm Vv Smr Smc Sxp Sdc Rmr Rmc Rxp Rdc')
m('C27', '_repr_png_ plot_abbott_curve plot_functional_parameter_study plot_autocorrelation plot_fourier_transform plot_angular_power_spectrum plot_2d plot_3d show')
m('C15', 'load from_raw_surface save get_image_layer_names')
m('C16', 'load from_raw_surface get_image_layer_names')
m('C17', 'load save')
FILES = {'abbottfirestone.py': 'C05 C04 C27', 'autocorrelation.py': 'C07 C27', 'batch.py': 'C19 C20', 'cache.py': 'C01 C02', 'cli.py': 'C25', 'filter.py': 'C09', 'fourier.py': 'C08 C27', 'image.py': 'C28',
         'mathutils.py': 'C13 C08 C23 C22 C07 C05', 'plotting.py': 'C27', 'utils.py': 'C19 C21 C26', 'file/cag.py': 'C28', 'file/common.py': 'C24 C17 C15 C16 C18',
         'file/al3d.py': 'C15 C16 C18', 'file/sdf.py': 'C15 C16 C18', 'file/sflz.py': 'C15 C16 C18', 'file/sur.py': 'C15 C16 C18', 'file/tmd.py': 'C15 C16 C18', 'base.py': 'C11 C26', 'profile.py': 'C26 C12', 'surface.py': 'C26 C12', 'examples.py': ''}

def checks_for(f, fn):
    f = f[len('surfalize/'):]
    out = []
    if f in ('surface.py', 'profile.py', 'base.py'):
        out = list(FN.get(fn, [])) or FILES[f].split()
    elif f in ('cache.py',):
        out = FILES[f].split()
    elif f == 'mathutils.py':
        out = list(FN.get(fn, [])) + [c for c in FILES[f].split()]
    else:
        out = FILES.get(f, 'C16 C18' if f.startswith('file/') else '').split()
    return list(dict.fromkeys(out))

SWAP = [('step_x', 'step_y'), ('width_um', 'height_um'), ('size.x', 'size.y'), ('idx_x', 'idx_y'), ('period_x', 'period_y')]
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: ('-',), ast.Sub: ('+',), ast.Mult: ('/',), ast.Div: ('*',), ast.FloorDiv: ('/',), ast.Mod: ('*',), ast.Pow: ('*',), ast.BitAnd: ('|',), ast.BitOr: ('&',), ast.BitXor: ('&',)}
CALLS = {'nanmin': 'min', 'nanmax': 'max', 'min': 'max', 'max': 'min', 'mean': 'median', 'median': 'mean', 'floor': 'ceil', 'ceil': 'floor', 'argmin': 'argmax', 'argmax': 'argmin', 'all': 'any', 'any': 'all', 'round': 'floor', 'cos': 'sin', 'sin': 'cos',
         'lower': 'upper', 'zeros': 'ones', 'flipud': 'fliplr', 'fliplr': 'flipud', 'hypot': 'subtract', 'copy': 'view', 'nanmean': 'mean', 'nanmedian': 'median', 'rint': 'floor', 'trapezoid': 'sum', 'argsort': 'argmin'}

def mutants(path):
    src = open(os.path.join(R, path), newline='').read()
    tree = ast.parse(src)
    enc = src.encode()
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines: offs.append(offs[-1] + len(l.encode()))
    def pos(n): return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    def seg(n): a, b = pos(n); return enc[a:b].decode()
    out = []
    def add(fn, a, b, new, what): 
        if enc[a:b].decode() != new: out.append((fn, a, b, new, what))
    def visit(n, fn, plot):
        if isinstance(n, (ast.FunctionDef,)):
            fn = n.name
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant): continue
            if isinstance(c, (ast.Raise,)): 
                a, b = pos(c); add(fn, a, b, 'pass', 'raise removed'); continue
            if isinstance(c, (ast.Import, ast.ImportFrom)): continue
            visit(c, fn, plot)
        a = b = None
        if hasattr(n, 'lineno') and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module, ast.arguments, ast.arg)): a, b = pos(n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(fn, a, b, f'{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}', 'comparison')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            for o in BIN[type(n.op)]: add(fn, a, b, f'(({seg(n.left)}) {o} ({seg(n.right)}))', 'operator')
        elif isinstance(n, ast.BoolOp):
            o = 'or' if isinstance(n.op, ast.And) else 'and'
            add(fn, a, b, '(' + f' {o} '.join('(' + seg(v) + ')' for v in n.values) + ')', 'and/or')
            for k in range(len(n.values)):
                r = [seg(v) for i, v in enumerate(n.values) if i != k]
                add(fn, a, b, '(' + (' and ' if o == 'or' else ' or ').join('(' + v + ')' for v in r) + ')', 'operand removed')
        elif isinstance(n, ast.UnaryOp):
            add(fn, a, b, '(' + seg(n.operand) + ')', 'unary removed')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool): add(fn, a, b, str(not v), 'bool')
            elif isinstance(v, int): add(fn, a, b, f'({v + 1})', 'number'); add(fn, a, b, f'({v - 1})', 'number')
            elif isinstance(v, float): add(fn, a, b, f'({v * 1.05!r})', 'number')
            elif v is None: pass
        elif isinstance(n, ast.If):
            t0, t1 = pos(n.test)
            add(fn, t0, t1, f'(({seg(n.test)}) and False)', 'condition false'); add(fn, t0, t1, f'(({seg(n.test)}) or True)', 'condition true')
        elif isinstance(n, ast.IfExp):
            add(fn, a, b, f'({seg(n.body)})', 'ifexp'); add(fn, a, b, f'({seg(n.orelse)})', 'ifexp')
        elif isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            add(fn, a, b, 'pass', 'statement removed')
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    ks, ke = pos(k)
                    # remove the keyword including a preceding comma
                    p = enc[:ks].rstrip()
                    if p.endswith(b','): add(fn, len(p) - 1, ke, '', f'keyword {k.arg} removed')
            if isinstance(n.func, ast.Attribute) and n.func.attr in CALLS:
                s0 = pos(n.func)[1] - len(n.func.attr); add(fn, s0, s0 + len(n.func.attr), CALLS[n.func.attr], 'call')
            if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                x0, x1 = pos(n.args[0])[0], pos(n.args[1])[1]
                add(fn, x0, x1, f'{seg(n.args[1])}, {seg(n.args[0])}', 'arguments swapped')
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for x, y in (('step_x', 'step_y'), ('width_um', 'height_um')):
                for p, q in ((x, y), (y, x)):
                    if n.attr == p: add(fn, b - len(p), b, q, 'x/y')
            if n.attr in 'xy' and len(n.attr) == 1: add(fn, b - 1, b, 'y' if n.attr == 'x' else 'x', 'x/y')
        elif isinstance(n, ast.Slice):
            for part in (n.lower, n.upper):
                if part is not None:
                    x0, x1 = pos(part); add(fn, x0, x1, f'({seg(part)}) + 1', 'slice'); add(fn, x0, x1, f'({seg(part)}) - 1', 'slice')
    visit(tree, '', False)
    return enc, out

def one(job):
    i, path, fn, a, b, new, what, line, old = job
    wt = f'/tmp/mut/{i}'
    rec = dict(i=i, file=path, fn=fn, line=line, what=what, old=old[:200], new=new[:200])
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs('/tmp/mut', exist_ok=True)
    try:
        subprocess.run(['cp', '-a', R, wt], check=True)
        p = os.path.join(wt, path)
        enc = open(p, 'rb').read()
        enc = enc[:a] + new.encode() + enc[b:]
        try: compile(enc, p, 'exec')
        except SyntaxError: rec['state'] = 'syntax'; return rec
        open(p, 'wb').write(enc)
        try:
            r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--tb=no', 'tests'], cwd=wt, env=ENV, capture_output=True, text=True, timeout=200)
        except subprocess.TimeoutExpired: rec['state'] = 'suite timeout'; return rec
        if r.returncode: rec['state'] = 'suite'; return rec
        rec['state'] = 'survived'; rec['checks'] = checks_for(path, fn)
        for c, scale in [(c, '0.2') for c in rec['checks']] + [(c, '1') for c in rec['checks']]:
            try:
                r = subprocess.run([PY, f'{V}/run.py', c, '--tier', 'quick', '--jobs', '1'], cwd=V, env={**ENV, 'VERIF_REPO': wt, 'VERIF_SEED': '1', 'VERIF_SCALE': scale}, capture_output=True, text=True, timeout=1500)
            except subprocess.TimeoutExpired: rec['state'] = f'check timeout {c}'; return rec
            if r.returncode == 1: rec['state'] = 'caught'; rec['by'] = c; return rec
            if r.returncode: rec['state'] = f'error {c}'; rec['err'] = (r.stdout + r.stderr)[-500:]; return rec
        return rec
    finally:
        shutil.rmtree(wt, ignore_errors=True)

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('--n', type=int, default=200); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--files', default='.'); ap.add_argument('--fn', default='.'); ap.add_argument('--workers', type=int, default=6)
    o = ap.parse_args()
    files = [p for p in subprocess.check_output(['git', 'ls-files', 'surfalize'], cwd=R, text=True).split() if p.endswith('.py') and '_version' not in p and '__init__' not in p and 'examples' not in p]
    jobs = []
    for path in files:
        if not re.search(o.files, path): continue
        enc, ms = mutants(path)
        for fn, a, b, new, what in ms:
            if not re.search(o.fn, fn): continue
            line = enc[:a].count(b'\n') + 1
            jobs.append((path, fn, a, b, new, what, line, enc[a:b].decode()))
    random.Random(o.seed).shuffle(jobs)
    done = set()
    if os.path.exists(o.out):
        done = {json.loads(l)['i'] for l in open(o.out)}
    sel = []
    for j in jobs[:o.n]:
        i = hashlib.sha1(repr(j).encode()).hexdigest()[:10]
        if i not in done: sel.append((i,) + j)
    print(len(jobs), 'mutants,', len(sel), 'to run', flush=True)
    with cf.ThreadPoolExecutor(o.workers) as ex, open(o.out, 'a') as f:
        for rec in ex.map(one, sel):
            f.write(json.dumps(rec) + '\n'); f.flush()
