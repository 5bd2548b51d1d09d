"""C01: parameters are never stale after any edit."""
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen, ops, params
from lib.harness import Check, close, close_arr, expect, same_arr

C = Check('C01', 'A case is a surface or profile, a set of watched queries and a history of edits and other queries; after every step each '
                 'watched query is compared with a newly constructed object. Non-trivial: at least one edit changed the heights or the '
                 'spacing and at least one watched query changed its value; distinct by the full case description.')

DERIVED = ('abbott', 'autocorrelation', 'fourier', 'statistics', 'line', 'hash', 'k', 'bulk')


def observe(obj, q):
    name, kw = q
    if name == 'abbott':
        def f():
            a = obj.get_abbott_firestone_curve()
            return [float(a.mc(v)) for v in (0, 10, 33.3, 50, 80, 100)] + [float(a.mr(float(obj.data.mean())))] + [float(a.Vm(10)), float(a.Vv(80)), float(a.pkx())]
    elif name == 'autocorrelation':
        def f():
            a = obj.get_autocorrelation_function()
            return [np.array(a.data), float(a.Sal(0.2)), float(a.Str(0.3))]
    elif name == 'fourier':
        def f():
            a = obj.get_fourier_transform()
            return [float(a.dominant_wavelength()), float(a.period()), float(a.Std(1)), [np.array(v) for v in a.angular_power_spectrum(5)][1]]
    elif name == 'statistics':
        def f():
            return [float(getattr(obj, n)) for n in ('min', 'max', 'mean', 'median', 'std')] if not callable(obj.min) else [float(getattr(obj, n)()) for n in ('min', 'max', 'mean', 'median', 'std')]
    elif name == 'line':
        def f():
            if not hasattr(obj, 'step_x'):
                return [0.0]
            p = obj.get_horizontal_profile(obj.height_um / 2)
            v = obj.get_vertical_profile(obj.width_um / 2)
            return [np.array(p.data), np.array(v.data), float(p.length_um), float(v.length_um), float(p.Rq()), float(v.Rz(1))]
    elif name == 'k':
        def f():
            return [float(getattr(obj, n)()) for n in (('Sk', 'Smr1', 'Svk') if hasattr(obj, 'step_x') else ('Rk', 'Rmr1', 'Rvk'))]
    elif name == 'bulk':
        def f():
            return obj.roughness_parameters(['Sa', 'Sdq', 'Sk', 'Vmc'] if hasattr(obj, 'step_x') else ['Ra', 'Rdq', 'Rk', 'Vmc'])
    elif name == 'hash':
        def f():
            return [float(hash(obj) == hash(ops.fresh(obj))), float(obj == ops.fresh(obj))] if hasattr(obj, 'step_x') else [0.0]
    else:
        return params.run(obj, q)
    try:
        return 'value', f()
    except Exception as e:
        return 'error', type(e).__name__


# ---------------------------------------------------------------------------------------------------------------- edits
pos = st.integers(0, 10 ** 6)
val = st.sampled_from([0.0, 1.0, -2.0, 0.37, 5.0, 'nan'])


def assignments():
    return st.tuples(st.sampled_from(['point', 'row', 'column', 'block', 'all', 'mask', 'stride', 'iadd', 'negative', 'swap', 'mirror', 'sort']), pos, pos, val).map(lambda t: ['set', *t])


def edits(op):
    return st.one_of(op.map(lambda o: ['op', o, True]), op.map(lambda o: ['op', o, True]), op.map(lambda o: ['op', o, False]), assignments(), assignments(),
                     st.sampled_from([['data', k] for k in ('double', 'square', 'flip', 'shorter', 'reverse', 'same', 'int', 'nan')]),
                     st.sampled_from([['derive', k] for k in ('slice', 'stride', 'add', 'mul', 'self-minus-mean')]))


def assign(obj, z, e):
    """Item assignment on the object and on the array that models its heights."""
    _, kind, i, j, v = e
    n = z.shape
    scale = float(np.nanmax(np.abs(z))) if np.isfinite(z).any() else 1.0
    scale = scale or 1.0
    v = math.nan if v == 'nan' else v * scale
    i, j = i % n[0], j % n[-1]
    two = z.ndim == 2
    if kind == 'point':
        key = (i, j) if two else i
    elif kind == 'row':
        key = i if two else slice(i, i + 1)
    elif kind == 'column':
        key = (slice(None), j) if two else j
    elif kind == 'block':
        key = (slice(i, i + 3), slice(j, j + 2)) if two else slice(i, i + 3)
    elif kind == 'mask':
        key = np.array(np.arange(z.size).reshape(n) % (2 + i % 5) == 0)
    elif kind == 'stride':
        key = (slice(None, None, 2), slice(j % 2, None, 3)) if two else slice(None, None, 2)
    elif kind == 'negative':
        key = (-1, -1) if two else -1
    elif kind in ('swap', 'mirror', 'sort'):        # the same heights at other places
        if kind == 'swap':
            other = ((i + 1) % n[0], (j + 2) % n[-1]) if two else (i + 1) % n[0]
            here = (i, j) if two else i
            v1, v2 = z[here].copy(), z[other].copy()
            for key, v in ((here, v2), (other, v1)):
                obj[key] = v
                z[key] = v
            return
        if kind == 'mirror':
            w = z[i][::-1].copy() if two else z[::-1].copy()
            key = i if two else slice(None)
        else:
            w = np.sort(z, axis=None).reshape(n)
            key = slice(None)
        obj[key] = w
        z[key] = w
        return
    elif kind == 'iadd':
        key = (i, j) if two else i
        obj[key] = obj.data[key] + 1.5 * scale
        z[key] = z[key] + np.asarray(1.5 * scale).astype(z.dtype) if z.dtype != np.float64 else z[key] + 1.5 * scale
        return
    else:
        key = slice(None)
    obj[key] = v
    z[key] = v


def new_data(z, kind):
    if kind == 'double':
        return z * 2
    if kind == 'square':
        return (z - np.nanmean(z)) ** 2 if np.isfinite(z).any() else z + 1
    if kind == 'flip':
        return np.ascontiguousarray(z.T) if z.ndim == 2 else z[::-1].copy()
    if kind == 'shorter':
        return z[..., :max(2, z.shape[-1] - 1)].copy()
    if kind == 'reverse':
        return z[::-1].copy()
    if kind == 'int':
        return np.arange(z.size).reshape(z.shape) % 7
    if kind == 'nan':
        out = z.astype('float64')
        out.flat[0] = np.nan
        return out
    return z.copy()


def derive(obj, kind):
    two = hasattr(obj, 'step_x')
    if not two:
        return obj
    if kind == 'slice':
        return obj[1:, :-1] if min(obj.data.shape) > 3 else obj[:]
    if kind == 'stride':
        return obj[::2, :] if obj.size.y > 5 else obj[:, :]
    if kind == 'add':
        return obj + 1.25
    if kind == 'mul':
        return obj * 3
    return obj - float(np.nanmean(obj.data)) if np.isfinite(obj.data).any() else obj


def geometry(obj, z, what):
    if hasattr(obj, 'step_x'):
        expect(tuple(obj.size) == z.shape and (obj.size.y, obj.size.x) == z.shape, lambda: f'{what}: size is {obj.size} with {z.shape} heights')
        close(obj.width_um, (z.shape[1] - 1) * obj.step_x, f'{what}: width_um', rtol=1e-12)
        close(obj.height_um, (z.shape[0] - 1) * obj.step_y, f'{what}: height_um', rtol=1e-12)
    else:
        expect(obj.size == z.size, f'{what}: size')
        close(obj.length_um, (z.size - 1) * obj.step, f'{what}: length_um', rtol=1e-12)
    expect(bool(obj.has_missing_points) == bool(np.isnan(z).any()), lambda: f'{what}: has_missing_points is {obj.has_missing_points}')


def compare(obj, watch, what):
    out = []
    for q in watch:
        if q[0] == 'homogeneity' and 'period' in q[1] and min(obj.data.shape) < 8:
            continue
        got = observe(obj, q)
        want = observe(ops.fresh(obj), q)
        z = np.array(obj.data)
        scale = float(np.nanmax(np.abs(z))) if np.isfinite(z).any() else 1.0
        params.same(got, want, f'{what}: {q[0]}({q[1]})', rtol=1e-9, atol=1e-12 * max(scale, scale ** 2))
        again = observe(obj, q)
        params.same(again, got, f'{what}: {q[0]}({q[1]}) asked a second time', rtol=1e-12, atol=1e-14 * max(scale, scale ** 2))
        out.append(got)
    return out


def differs(a, b):
    try:
        for x, y in zip(a, b):
            params.same(x, y, '', rtol=1e-9)
    except (AssertionError, TypeError):
        return True
    return False


def play(case, obj, rec):
    ops.coarse_curves()
    watch = case['watch']
    z = np.array(obj.data)
    values = compare(obj, watch, 'new object')
    changed = False
    for k, e in enumerate(case['steps']):
        what = f'step {k + 1} {e}'
        if e[0] == 'q':
            observe(obj, e[1])
            after = z
        elif e[0] == 'set':
            after = z.copy()
            assign(obj, after, e)
        elif e[0] == 'data':
            after = new_data(z, e[1])
            obj.data = after.copy()
        elif e[0] == 'derive':
            obj = derive(obj, e[1])
            after = np.array(obj.data)
        else:
            try:
                r = ops.apply(obj, e[1], inplace=e[2])
            except Exception as exc:           # a rejected operation leaves everything as it was
                rec.label(f'rejected {e[1][0]}')
                after = z
            else:
                if e[2]:
                    expect(r is obj, f'{what}: the inplace operation returns another object')
                obj = r
                after = np.array(obj.data)
        same_arr(np.array(obj.data), after, f'{what}: heights')
        if after.size == 0 or min(after.shape) < 2:
            rec.label('degenerate')
            return
        edited = after.shape != z.shape or not np.array_equal(after, z, equal_nan=True)
        z = np.array(obj.data)
        geometry(obj, z, what)
        new = compare(obj, watch, what)
        if edited and differs(values, new):
            changed = True
            rec.label(f'changed by {e[0]}' + (f' {e[1][0]}{"" if e[2] else " (copy)"}' if e[0] == 'op' else ''))
        values = new
    same_arr(np.array(obj.data), z, 'heights after the last queries')
    rec.nontrivial(changed)
    rec.label(f'{len(case["steps"])} steps')


def history(query, op, derived=DERIVED):
    q = st.one_of(query, query, st.sampled_from([[d, {}] for d in derived]))
    return {'watch': st.integers(1, 4).flatmap(lambda n: st.lists(q, min_size=n, max_size=n)), 'steps': st.integers(1, 6).flatmap(lambda n: st.lists(st.one_of(edits(op), edits(op), edits(op), q.map(lambda v: ['q', v])), min_size=n, max_size=n))}


@C.sub('surface', lambda: st.fixed_dictionaries({'s': gen.surfaces(min_side=4, max_side=20, nan=False, dtypes=('float64', 'float64', 'float32'), layouts=('C', 'C', 'F')),
                                                 **history(params.surface_queries(), ops.surface_ops())}), quick=1200, thorough=20000, shards=6, tshards=8)
def surface(case, rec):
    play(case, gen.surface(case['s']), rec)


@C.sub('with missing points', lambda: st.fixed_dictionaries({'s': gen.surfaces(min_side=4, max_side=16, nan=True),
                                                             **history(params.surface_queries(), ops.surface_ops())}), quick=400, thorough=8000, shards=2, tshards=4)
def missing(case, rec):
    play(case, gen.surface(case['s']), rec)


@C.sub('grating', lambda: st.fixed_dictionaries({
    'n': st.tuples(st.integers(30, 44), st.integers(30, 44)), 'waves': st.tuples(st.integers(0, 12), st.integers(12, 24)), 'swap': st.booleans(), 'amp': gen.logfloat(-1, 1),
    'noise': st.sampled_from([0.0, 0.02]), 'seed': st.integers(0, 2 ** 32 - 1), 'step': gen.logfloat(-1, 1), 'ratio': st.sampled_from([1, 1, 2, 0.5]),
    **history(params.surface_queries(True), ops.surface_ops())}), quick=150, thorough=4000, shards=4, tshards=6)
def grating(case, rec):
    from surfalize import Surface
    ny, nx = case['n']
    y, x = np.mgrid[0:ny, 0:nx]
    fx, fy = (case['waves'][1] / 4, case['waves'][0] / 4) if not case['swap'] else (case['waves'][0] / 4, case['waves'][1] / 4)
    z = np.sin(2 * np.pi * (fx * x / nx + fy * y / ny)) + case['noise'] * np.random.Generator(np.random.PCG64(case['seed'])).uniform(-1, 1, (ny, nx))
    play(case, Surface(z * case['amp'], case['step'], case['step'] * case['ratio']), rec)


@C.sub('profile', lambda: st.fixed_dictionaries({'p': gen.profiles(min_side=8, max_len=80, nan=True, dtypes=('float64', 'float64', 'float32')),
                                                 **history(params.profile_queries(), ops.profile_ops(), ('abbott', 'statistics', 'k', 'bulk'))}), quick=800, thorough=20000, shards=2, tshards=4)
def profile(case, rec):
    play(case, gen.profile(case['p']), rec)


# ------------------------------------------------------------------------------------- earlier queries with other arguments
# also values which differ by little
ratios = st.one_of(st.integers(1, 99).map(float), st.tuples(st.sampled_from([20.0, 65.0]), st.sampled_from([0.0, 0.3, 0.04, 0.004, 0.0004])).map(sum))
FAMILIES = {
    'surface': [('Sal', ('s',), st.tuples(st.sampled_from([0.1, 0.2, 0.2001, 0.203, 0.3, 0.5, 0.7]))), ('Str', ('s',), st.tuples(st.sampled_from([0.1, 0.2, 0.203, 0.3, 0.5]))),
                ('Sxp', ('p', 'q'), st.tuples(ratios, ratios)), ('Sdc', ('p', 'q'), st.tuples(ratios, ratios)), ('Smc', ('mr',), st.tuples(ratios)), ('Vmp', ('p',), st.tuples(ratios)),
                ('Vmc', ('p', 'q'), st.tuples(ratios, ratios)), ('Vvv', ('q',), st.tuples(ratios)), ('Vvc', ('p', 'q'), st.tuples(ratios, ratios)), ('Vm', ('p',), st.tuples(ratios)), ('Vv', ('p',), st.tuples(ratios)),
                ('Std', ('angle_step',), st.tuples(st.sampled_from([0.5, 1, 2, 5]))), ('cavity_volume', ('threshold',), st.tuples(st.sampled_from([0.2, 0.4, 0.5, 0.502, 0.8]))),
                ('orientation', ('method',), st.tuples(st.sampled_from(['fft', 'fft_refined']))), ('homogeneity', ('parameters', 'period'), st.tuples(st.sampled_from([('Sa',), ('Sq', 'Sdr'), ('Sku',)]), st.sampled_from([5.3, 7.1, 7.1004, 9.0]))),
                ('depth', ('nprofiles', 'sampling_width'), st.tuples(st.sampled_from([2, 5, 12]), st.sampled_from([0.1, 0.2, 0.203, 0.4]))),
                ('get_horizontal_profile', ('y', 'average'), st.tuples(st.sampled_from([0.0, 2.0, 5.5]), st.sampled_from([1, 3]))), ('roughness_parameters', ('parameters',), st.tuples(st.sampled_from([('Sa', 'Sk'), ('Sq',), ('Vmc', 'Sdq')])))],
    'profile': [('Rp', ('n_sections',), st.tuples(st.integers(1, 8))), ('Rv', ('n_sections',), st.tuples(st.integers(1, 8))), ('Rz', ('n_sections',), st.tuples(st.integers(1, 8))),
                ('Rxp', ('p', 'q'), st.tuples(ratios, ratios)), ('Rdc', ('p', 'q'), st.tuples(ratios, ratios)), ('Rmc', ('mr',), st.tuples(ratios)), ('Vmp', ('p',), st.tuples(ratios)), ('Vmc', ('p', 'q'), st.tuples(ratios, ratios)),
                ('Vvv', ('q',), st.tuples(ratios)), ('Vvc', ('p', 'q'), st.tuples(ratios, ratios)), ('Vm', ('p',), st.tuples(ratios)), ('Vv', ('p',), st.tuples(ratios)), ('roughness_parameters', ('parameters',), st.tuples(st.sampled_from([('Ra', 'Rk'), ('Rq',), ('Vmc', 'Rdq')])))]}
NO_DEFAULT = ('Smc', 'Rmc', 'Vm', 'Vv', 'get_horizontal_profile')


@st.composite
def call(draw, family, value=None):
    """One way of writing a call: any leading part positional, the rest by keyword (in any order), trailing ones left away."""
    name, names, values = family
    v = list(draw(values))
    npos = draw(st.integers(0, len(v)))
    kw = list(zip(names, v))[npos:]
    if len(kw) > 1 and draw(st.booleans()):
        kw.reverse()
    if name not in NO_DEFAULT and kw and draw(st.integers(0, 3)) == 0:
        kw.pop(draw(st.integers(0, len(kw) - 1)))
    return [name, v[:npos], [[k, x] for k, x in kw]]


@st.composite
def calls(draw, kind):
    fams = draw(st.lists(st.sampled_from(FAMILIES[kind]), min_size=1, max_size=2))
    n = draw(st.integers(2, 5))
    return [draw(call(fams[draw(st.integers(0, len(fams) - 1))])) for _ in range(n)]


def ask(obj, c):
    name, args, kw = c
    try:
        v = getattr(obj, name)(*args, **{k: x for k, x in kw})
        return 'value', np.array(v.data) if hasattr(v, 'data') and hasattr(v, 'step') else v
    except Exception as e:
        return 'error', type(e).__name__


@C.sub('arguments', lambda: st.booleans().flatmap(lambda two: st.fixed_dictionaries({
    'kind': st.just('surface' if two else 'profile'), 'wave': st.integers(12, 24).map(lambda v: v / 4), 'seed': st.integers(0, 2 ** 32 - 1),
    'noise': st.sampled_from([0.02, 0.3, 3.0]), 'calls': calls('surface' if two else 'profile')})), quick=400, thorough=12000, shards=3, tshards=6)
def arguments(case, rec):
    from surfalize import Profile, Surface
    ops.coarse_curves()
    u = np.random.Generator(np.random.PCG64(case['seed'])).uniform(-1, 1, (30, 34) if case['kind'] == 'surface' else (61,))
    z = np.sin(2 * np.pi * case['wave'] * np.arange(u.shape[-1]) / u.shape[-1]) + case['noise'] * u
    obj = Surface(z, 1.0, 1.0) if case['kind'] == 'surface' else Profile(z, 1.0)
    answers = []
    for c in case['calls']:
        got = ask(obj, c)
        params.same(got, ask(ops.fresh(obj), c), f'{c} after {case["calls"][:len(answers)]}', rtol=1e-9, atol=1e-12)
        answers.append(got)
    for c, a in zip(case['calls'], answers):
        params.same(ask(obj, c), a, f'{c} asked again', rtol=1e-12, atol=1e-13)
    rec.label(*{c[0] for c in case['calls']})
    rec.nontrivial(any(differs([a], [b]) for a in answers for b in answers))
