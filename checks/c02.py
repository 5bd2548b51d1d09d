"""C02: operations leave their source alone; inplace equals non-inplace."""
import io

import numpy as np
from hypothesis import strategies as st

from lib import formats, gen, ops, params
from lib.harness import Check, close, expect, same_arr

C = Check('C02', 'A case is a surface or profile (any layout, dtype, missing points) and a chain of operations, applied once to copies and once '
                 'in place. Non-trivial: at least one operation changed the heights or the spacing; distinct by the full case description.')

SURF_Q = [['Sa', {}], ['Sdr', {}], ['Sk', {}], ['Sal', {}], ['Sxp', {}], ['period', {}], ['stepheight', {}], ['Sdq', {}], ['Vmc', {}], ['orientation', {}], ['height_parameters', {}], ['cavity_volume', {}]]
PROF_Q = [['Ra', {}], ['Rdq', {}], ['Rk', {}], ['Rz', {}], ['period', {}], ['Vvc', {}], ['Rsk', {}]]


def independent(a, b, what):
    expect(not np.shares_memory(a._data if hasattr(a, '_data') else np.asarray(a.data), b._data if hasattr(b, '_data') else np.asarray(b.data)), f'{what}: both objects share the memory of their heights')


def check_state(obj, snap, what):
    z, step, ext, size = ops.state(obj)
    same_arr(z, snap[0], f'{what}: heights')
    expect(step == snap[1], lambda: f'{what}: spacing {step} instead of {snap[1]}')
    expect(ext == snap[2] and size == snap[3], lambda: f'{what}: extent {ext} instead of {snap[2]}')


def value_check(obj, values, queries, what):
    for q, v in zip(queries, values):
        z = np.array(obj.data)
        scale = float(np.nanmax(np.abs(z))) if np.isfinite(z).any() else 1.0
        params.same(params.run(obj, q), v, f'{what}: {q[0]}', rtol=1e-9, atol=1e-12 * max(scale, scale ** 2))


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, type(e).__name__


def edit(obj, k):
    """A visible change of one height."""
    z = np.array(obj.data)
    i = np.unravel_index(k % z.size, z.shape)
    new = 12345.0 if not z[i] == 12345.0 else 54321.0
    key = tuple(int(v) for v in i) if z.ndim == 2 else int(i[0])
    obj[key] = new
    z[i] = new
    same_arr(np.array(obj.data), z, 'heights after assigning one of them')


def same_object(a, b, what):
    """Two surfaces or profiles which must hold exactly the same."""
    expect(type(a) is type(b), what)
    sa, sb = ops.state(a), ops.state(b)
    same_arr(sa[0], sb[0], f'{what}: heights')
    expect(sa[0].dtype == sb[0].dtype, f'{what}: dtype {sa[0].dtype} instead of {sb[0].dtype}')
    expect(sa[1] == sb[1], f'{what}: spacing {sa[1]} instead of {sb[1]}')
    for x, y in zip(sa[2], sb[2]):
        close(x, y, f'{what}: extent', rtol=1e-12)


def chain(obj, twin, case, queries, rec):
    """obj: source of the copies; twin: an equal object which is changed in place."""
    k = case['k']
    seen = [(obj, ops.state(obj), [params.run(obj, q) for q in queries], 'the source')]
    for q in queries:
        params.run(twin, q)
    cur = obj
    done = False
    for n, op in enumerate(case['ops']):
        what = f'{op[0]}({op[1]})'
        r, err = attempt(lambda: ops.apply(cur, op))
        r2, err2 = attempt(lambda: ops.apply(twin, op, inplace=True))
        expect(err == err2, lambda: f'{what}: {err or "works"} on a copy, but {err2 or "works"} in place')
        for o, snap, _, name in seen:
            check_state(o, snap, f'{name} after {what}')
        if err is not None:
            rec.label(f'rejected {op[0]}')
            check_state(twin, ops.state(cur), f'object after the rejected inplace {what}')
            continue
        rec.label(op[0])
        expect(r2 is twin, f'{what}: the inplace call does not return the object itself')
        expect(r is not cur and type(r) is type(cur), f'{what}: the call without inplace returns the source itself')
        same_object(twin, r, f'inplace {what} differs from the copy')
        for o, _, _, name in seen:
            independent(r, o, f'{what}: result and {name}')
        before = ops.state(cur)
        if r.data.shape != before[0].shape or not np.array_equal(np.array(r.data), before[0], equal_nan=True):
            done = True
        if min(r.data.shape) < 2:
            rec.label('degenerate')
            break
        seen.append((r, ops.state(r), [params.run(r, q) for q in queries], f'the result of {what}'))
        # the sums of single precision heights depend on the order in which the memory holds them
        if r.data.dtype == np.float64 or r.data.strides == twin.data.strides:
            value_check(twin, seen[-1][2], queries, f'after the inplace {what}')
        cur = r
    rec.nontrivial(done)
    for o, snap, values, name in seen:
        value_check(o, values, queries, f'{name} after all operations')
        check_state(o, snap, f'{name} after all operations')
    # every object can be edited without a trace in any of the others
    if twin.data.size:
        edit(twin, k)
    for i, (o, snap, values, name) in enumerate(seen):
        edit(o, k + i)
        for p, snap2, _, name2 in seen[i + 1:]:
            check_state(p, snap2, f'{name2} after editing {name}')
    for o, _, _, name in seen:
        f = ops.fresh(o)
        value_check(o, [params.run(f, q) for q in queries], queries, f'{name} after editing it')


@C.sub('surface', lambda: st.fixed_dictionaries({
    's': gen.surfaces(min_side=4, max_side=24, nan=True, dtypes=('float64', 'float64', 'float32', 'int16')), 'k': st.integers(0, 1000),
    'ops': st.integers(1, 3).flatmap(lambda n: st.lists(ops.surface_ops(), min_size=n, max_size=n)), 'q': st.lists(st.sampled_from(SURF_Q), min_size=1, max_size=2)}), quick=800, thorough=20000, shards=4, tshards=8)
def surface(case, rec):
    from surfalize import Surface
    ops.coarse_curves()
    f = case['s']['f']
    if f['dtype'] == 'int16':
        f = {**f, 'nan': 'none', 'scale': 100.0, 'offset': 0.0}
    make = lambda: Surface(gen.build(f), case['s']['sx'], case['s']['sy'])
    chain(make(), make(), case, case['q'], rec)


@C.sub('grating', lambda: st.fixed_dictionaries({
    'n': st.tuples(st.integers(30, 60), st.integers(30, 60)), 'fx': st.integers(-16, 16).map(lambda v: v / 2), 'fy': st.integers(5, 20).map(lambda v: v / 2), 'step': gen.logfloat(-1, 1),
    'square': st.booleans(), 'ratio': st.sampled_from([1, 1, 2]), 'k': st.integers(0, 1000),
    'ops': st.integers(1, 3).flatmap(lambda n: st.lists(st.one_of(ops.surface_ops(), st.sampled_from([['align', {}], ['align', {'axis': 'x'}], ['stepheight_level', {}], ['align', {'method': 'fft'}]])), min_size=n, max_size=n)),
    'q': st.lists(st.sampled_from(SURF_Q + [['depth', {}], ['homogeneity', {}]]), min_size=1, max_size=2)}), quick=150, thorough=5000, shards=3, tshards=6)
def grating(case, rec):
    from surfalize import Surface
    ops.coarse_curves()
    ny, nx = case['n']
    y, x = np.mgrid[0:ny, 0:nx]
    z = np.sin(2 * np.pi * (case['fx'] * x / nx + case['fy'] * y / ny) + 0.3)
    if case['square']:
        z = np.sign(z) + 0.01 * z
    make = lambda: Surface(z.copy(), case['step'], case['step'] * case['ratio'])
    chain(make(), make(), case, case['q'], rec)


@C.sub('profile', lambda: st.fixed_dictionaries({
    'p': gen.profiles(min_side=8, max_len=100, nan=True, dtypes=('float64', 'float64', 'float32', 'int16')), 'k': st.integers(0, 1000),
    'ops': st.integers(1, 3).flatmap(lambda n: st.lists(ops.profile_ops(), min_size=n, max_size=n)), 'q': st.lists(st.sampled_from(PROF_Q), min_size=1, max_size=2)}), quick=500, thorough=16000, shards=2, tshards=4)
def profile(case, rec):
    from surfalize import Profile
    ops.coarse_curves()
    f = case['p']['f']
    if f['dtype'] == 'int16':
        f = {**f, 'nan': 'none', 'scale': 100.0, 'offset': 0.0}
    make = lambda: Profile(gen.build(f), case['p']['step'])
    chain(make(), make(), case, case['q'], rec)


# -------------------------------------------------------------------------------------------- operations with other results
DERIVED = st.one_of(
    st.sampled_from([['level', {'return_trend': True}], ['filter', {'filter_type': 'both', 'cutoff': {'px': 4.0}}]]),
    st.sampled_from([1, 2, 3]).map(lambda d: ['detrend_polynomial', {'degree': d, 'return_trend': True}]),
    st.sampled_from([['slice', k] for k in ('all', 'rows', 'columns', 'block', 'stride', 'reverse', 'dots')]),
    st.sampled_from([['arith', k] for k in ('s+1', '1+s', 's-1', '1-s', 's*1', '2*s', 's/1', 's+t', 's-t', 't-s', 's*t', 's/t', 's+s', 's+0')]),
    st.sampled_from([['line', k] for k in ('h', 'v', 'o', 'h3')]))


def results(s, t, op):
    name, kw = op
    if name == 'slice':
        key = {'all': slice(None), 'rows': slice(1, 3), 'columns': (slice(None), slice(1, None)), 'block': (slice(0, 2), slice(1, 3)), 'stride': (slice(None, None, 2), slice(None, None, 2)),
               'reverse': (slice(None, None, -1), slice(None)), 'dots': (Ellipsis, slice(None))}[kw]
        return [s[key]]
    if name == 'arith':
        return [eval(kw, {}, {'s': s, 't': t})]
    if name == 'line':
        if kw == 'o':
            return [s.get_oblique_profile(0, 0, s.width_um, s.height_um)]
        if kw == 'v':
            return [s.get_vertical_profile(s.width_um / 2)]
        return [s.get_horizontal_profile(s.height_um / 2, average=3 if kw == 'h3' else 1)]
    return list(ops.apply(s, op, full=True))


@C.sub('derived objects', lambda: st.fixed_dictionaries({'s': gen.surfaces(min_side=4, max_side=20, nan=True, dtypes=('float64', 'float64', 'float32')), 'p': gen.profiles(min_side=8, max_len=60, nan=True),
                                                         'op': DERIVED, 'k': st.integers(0, 1000), 'profile': st.sampled_from([False, False, True]), 'q': st.sampled_from(SURF_Q)}), quick=500, thorough=12000, shards=2, tshards=4)
def derived(case, rec):
    from surfalize import Surface
    ops.coarse_curves()
    op = case['op']
    if case['profile'] and op[0] in ('slice', 'arith', 'line'):
        case = {**case, 'profile': False}
    two = not case['profile']
    src = gen.surface(case['s']) if two else gen.profile(case['p'])
    other = Surface(np.array(src.data) * 0.5 + 1, src.step_x, src.step_y) if two else None
    q = case['q'] if two else ['Rq', {}]
    value = params.run(src, q)
    snaps = [(o, ops.state(o), n) for o, n in ((src, 'the source'), (other, 'the second operand')) if o is not None]
    res, err = attempt(lambda: results(src, other, op))
    for o, snap, name in snaps:
        check_state(o, snap, f'{name} after {op}')
    value_check(src, [value], [q], f'the source after {op}')
    if err:
        rec.label(f'rejected {op[0]}')
        return
    rec.label(op[0], f'{len(res)} results')
    rec.nontrivial()
    for i, r in enumerate(res):
        snaps.append((r, ops.state(r), f'result {i} of {op}'))
    for i, (a, _, na) in enumerate(snaps):
        for b, _, nb in snaps[i + 1:]:
            expect(a is not b, f'{na} is {nb}')
            independent(a, b, f'{na} and {nb}')
    for i in reversed(range(len(snaps))):
        o, _, name = snaps[i]
        edit(o, case['k'])
        for p, snap, pn in snaps[:i]:
            check_state(p, snap, f'{pn} after editing {name}')
    # with inplace: the trend and the object are independent as well, and 'both' is refused
    if op[0] in ('level', 'detrend_polynomial'):
        twin = gen.surface(case['s']) if two else gen.profile(case['p'])
        r = ops.apply(twin, op, full=True, inplace=True)
        expect(r[0] is twin, f'inplace {op} does not return the object itself')
        same_arr(np.array(r[0].data), snaps[-2][1][0], f'inplace {op}: heights')
        same_arr(np.array(r[1].data), snaps[-1][1][0], f'inplace {op}: trend')
        t = np.array(r[1].data)
        edit(twin, case['k'])
        same_arr(np.array(r[1].data), t, f'trend after editing the object ({op})')
    elif op[0] == 'filter':
        twin = gen.surface(case['s']) if two else gen.profile(case['p'])
        snap = ops.state(twin)
        _, e = attempt(lambda: ops.apply(twin, op, full=True, inplace=True))
        expect(e == 'ValueError', f'filter both in place: {e}')
        check_state(twin, snap, 'object after the refused filter')


# --------------------------------------------------------------------------------------------------- loaded surfaces, saving
@C.sub('loaded', lambda: st.fixed_dictionaries({'spec': formats.specs(formats.FORMATS), 'layers': st.booleans(), 'ops': st.lists(ops.surface_ops(), min_size=1, max_size=2), 'k': st.integers(0, 1000),
                                                'q': st.lists(st.sampled_from([q for q in SURF_Q if q[0] != 'Sal']), min_size=1, max_size=1)}), quick=400, thorough=12000, shards=3, tshards=6)
def loaded(case, rec):
    """Surfaces read from files behave like constructed ones."""
    from surfalize import Surface
    ops.coarse_curves()
    blob = formats.make(case['spec'])['bytes']
    make = lambda: Surface.load(io.BytesIO(blob), format='.' + case['spec']['fmt'], read_image_layers=case['layers'])
    a = make()
    if min(a.data.shape) < 2:
        rec.label('degenerate')
        return
    rec.label(case['spec']['fmt'])
    if not 0.01 < a.step_x / a.step_y < 100:      # lateral operations take long for such spacings
        case = {**case, 'ops': [o for o in case['ops'] if o[0] not in ('filter', 'rotate', 'align')]}
    chain(a, make(), case, case['q'], rec)
    rec.nontrivial()
