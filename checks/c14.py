"""C14: missing points never yield silent numbers."""
import io
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen, params
from lib.harness import Check, close, expect, fail, raises

C = Check('C14', 'A case is a surface or profile, a pattern of missing points, the way they get in (constructor, item assignment, new '
                 'data, outlier removal, threshold, crop, slice, arithmetic, file) and queries before and after. Non-trivial: at least '
                 'one and not all points are missing; distinct by the full case description.')


@st.composite
def masks(draw, shape):
    n = int(np.prod(shape))
    kind = draw(st.sampled_from(['one', 'one', 'corner', 'few', 'many', 'line', 'all but one', 'all']))
    if kind == 'one':
        return [draw(st.integers(0, n - 1))]
    if kind == 'corner':
        return [draw(st.sampled_from([0, shape[-1] - 1, n - shape[-1], n - 1]))]
    if kind == 'few':
        return draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=5, unique=True))
    if kind == 'many':
        return draw(st.lists(st.integers(0, n - 1), min_size=n // 2, max_size=max(n // 2, n - 1), unique=True))
    if kind == 'line':
        k = draw(st.integers(0, shape[-1] - 1))
        return [i for i in range(n) if i % shape[-1] == k] if len(shape) == 2 else list(range(k, n))
    if kind == 'all but one':
        k = draw(st.integers(0, n - 1))
        return [i for i in range(n) if i != k]
    return list(range(n))


VIA = ('constructor', 'setitem', 'setitem-mask', 'data', 'fill', 'outliers', 'threshold', 'crop', 'slice', 'arithmetic', 'file', 'level')


@st.composite
def cases(draw):
    prof = draw(st.integers(0, 2)) == 0
    f = draw(gen.profiles(min_side=10, max_len=60)) if prof else draw(gen.surfaces(min_side=6, max_side=14))
    shape = f['f']['shape']
    q = params.profile_queries() if prof else params.surface_queries(periodic=True)
    return {'p' if prof else 's': f, 'mask': draw(masks(shape)), 'via': draw(st.sampled_from(VIA)), 'before': draw(st.lists(q, max_size=3)),
            'after': draw(st.lists(q, min_size=4, max_size=10)), 'op': draw(st.sampled_from(['filter-low', 'filter-band', 'filter-both', 'rotate', 'align', 'align-fft', 'abbott', 'acf', 'fft', 'bulk', 'none'])),
            'inplace': draw(st.booleans())}


def same_grid(obj, z):
    from surfalize import Profile, Surface
    return Surface(z, obj.step_x, obj.step_y) if isinstance(obj, Surface) else Profile(z, obj.step)


def produce(case, rec):
    """An object with missing points, obtained as described; queries are made before."""
    from surfalize import Profile, Surface
    prof = 'p' in case
    obj = gen.profile(case['p']) if prof else gen.surface(case['s'])
    base = same_grid(obj, np.array(obj.data).astype('float64'))
    z = np.array(base.data)
    bad = z.copy()
    bad.flat[case['mask']] = np.nan
    via = case['via']
    whole = len(case['mask']) == z.size
    for q in case['before']:
        params.run(base, q)
    if via in ('crop', 'slice', 'arithmetic', 'file') and prof:
        via = 'setitem'
    rec.label(via)
    if via == 'constructor':
        base = same_grid(base, bad)
    elif via == 'setitem':
        for i in case['mask']:
            base[np.unravel_index(i, z.shape)] = np.nan
    elif via == 'setitem-mask':
        base[np.isnan(bad)] = np.nan
    elif via == 'data':
        base.data = bad
    elif via == 'fill':                      # complete and measured before, missing again afterwards
        base.data = bad
        if not whole:
            base.fill_nonmeasured(inplace=True)
            for q in case['before']:
                params.run(base, q)
        base[np.isnan(bad)] = np.nan
    elif via == 'outliers':
        base.remove_outliers(n=0.5, inplace=True)
        if not np.isnan(base.data).any():
            base[np.isnan(bad)] = np.nan
    elif via == 'threshold':
        base.threshold((30, 30), inplace=True)
        if not np.isnan(base.data).any():
            base[np.isnan(bad)] = np.nan
    elif via == 'crop':
        big = np.zeros((z.shape[0] + 2, z.shape[1] + 3))
        big[1:-1, 1:-2] = bad
        base = Surface(big, base.step_x, base.step_y).crop((1, z.shape[1], 1, z.shape[0]), in_units=False)
    elif via == 'slice':
        big = np.zeros((z.shape[0] * 2, z.shape[1] + 1))
        big[::2, 1:] = bad
        base = Surface(big, base.step_x, base.step_y)[::2, 1:]
    elif via == 'arithmetic':
        base = base + Surface(np.where(np.isnan(bad), np.nan, 1.0), base.step_x, base.step_y)
    elif via == 'file':
        buf = io.BytesIO()
        Surface(bad, base.step_x, base.step_y).save(buf, format='.sflz')
        buf.seek(0)
        base = Surface.load(buf, format='.sflz')
    elif via == 'level':
        base.data = bad
        if not whole:
            base.level(inplace=True)
    return base


@C.sub('raise', cases, quick=960, thorough=20000, shards=8, tshards=8)
def must_raise(case, rec):
    from surfalize.abbottfirestone import AbbottFirestoneCurve
    from surfalize.autocorrelation import AutocorrelationFunction
    from surfalize.fourier import FourierTransform
    prof = 'p' in case
    s = produce(case, rec)
    z = np.array(s.data)
    m = np.isnan(z)
    if not m.any():
        fail(f'no missing points after {case["via"]}')
    rec.nontrivial(not m.all())
    rec.label('profile' if prof else 'surface', 'all missing' if m.all() else 'one missing' if m.sum() == 1 else 'several missing')
    expect(bool(s.has_missing_points) is True, f'has_missing_points is {s.has_missing_points!r}')
    for q in case['after']:
        args = params.arguments(q[1], s)
        try:
            v = getattr(s, q[0])(**args)
        except Exception:
            continue
        fail(f'{q[0]}({q[1]}) returns {v!r} on data with {int(m.sum())} of {m.size} missing points')
    calls = {'filter-low': lambda: s.filter('lowpass', 3 * (s.step if prof else s.step_x), inplace=case['inplace']),
             'filter-band': lambda: s.filter('bandpass', 2.0, cutoff2=5.0, inplace=case['inplace']),
             'filter-both': lambda: s.filter('both', 2.0),
             'rotate': lambda: s.rotate(10, inplace=case['inplace']), 'align': lambda: s.align(inplace=case['inplace']),
             'align-fft': lambda: s.align(axis='x', method='fft', inplace=case['inplace']),
             'abbott': lambda: (s.get_abbott_firestone_curve(), AbbottFirestoneCurve(s)), 'acf': lambda: (s.get_autocorrelation_function(), AutocorrelationFunction(s)),
             'fft': lambda: (s.get_fourier_transform(), FourierTransform(s)), 'bulk': lambda: s.roughness_parameters()}
    if case['op'] in calls and not (prof and case['op'] in ('rotate', 'align', 'align-fft', 'acf', 'fft')):
        rec.label(case['op'])
        expect(raises(calls[case['op']]) is not None, f'{case["op"]} does not raise on data with missing points')
        if case['op'] in ('abbott', 'acf', 'fft'):
            cls = {'abbott': AbbottFirestoneCurve, 'acf': AutocorrelationFunction, 'fft': FourierTransform}[case['op']]
            expect(raises(lambda: cls(s)) is not None, f'{cls.__name__} accepts data with missing points')
        expect(np.array_equal(np.array(s.data), z, equal_nan=True), f'{case["op"]}: the data were changed although it raised')
    if not prof and not m.all():
        try:
            o = s.get_oblique_profile(0, 0, s.width_um, s.height_um)
        except Exception:
            pass
        else:
            if m[0, 0] or m[-1, -1]:
                expect(o.has_missing_points, 'oblique profile through a missing point is complete')


CHEAP_S = ('Sa', 'Sq', 'Sz', 'Sp', 'Sv', 'Ssk', 'Sku', 'Sdq', 'Sdr', 'surface_area', 'Sk', 'Spk', 'Smr1', 'Vmp', 'Vvv', 'Vmc', 'Vvc', 'Sxp', 'Smc', 'Smr', 'Sdc', 'Sal', 'Str', 'Std', 'Ssw', 'period', 'orientation', 'depth', 'homogeneity',
           'stepheight', 'cavity_volume', 'aspect_ratio', 'height_parameters')
CHEAP_R = ('Ra', 'Rq', 'Rt', 'Rz', 'Rp', 'Rv', 'Rsk', 'Rku', 'Rdq', 'Rk', 'Rpk', 'Rmr1', 'Rxp', 'Rmc', 'Rmr', 'Rdc', 'Vmp', 'Vvv', 'period')
ARGS = {'Smc': (10,), 'Smr': (0.1,), 'Sdc': (10, 50), 'Rmc': (10,), 'Rmr': (0.1,), 'Rdc': (10, 50)}


@C.sub('large', lambda: st.fixed_dictionaries({
    'profile': st.integers(0, 3).map(lambda k: k == 0), 'shape': st.tuples(st.sampled_from([4, 7, 8, 9, 10, 10, 11]), st.sampled_from([4, 8, 9, 10, 10, 11]), st.integers(-3, 3), st.integers(-3, 3)), 'at': st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0])),
    'seed': st.integers(0, 2 ** 16), 'via': st.sampled_from(['constructor', 'setitem', 'data', 'measured']), 'dtype': st.sampled_from(['float64', 'float64', 'float32'])}), quick=48, thorough=800, shards=4, tshards=8)
def large(case, rec):
    """one missing point in data of up to four million points"""
    from surfalize import Profile, Surface
    a, b, da, db = case['shape']
    shape = (max(4, 2 ** a + da), max(4, 2 ** b + db))
    if case['profile']:
        shape = (shape[0] * shape[1],)
    z = np.random.Generator(np.random.PCG64(case['seed'])).random(shape, 'float32').astype(case['dtype'])
    make = (lambda v: Profile(v, 0.5)) if case['profile'] else (lambda v: Surface(v, 0.5, 0.25))
    i = min(int(case['at'] * z.size), z.size - 1)
    bad = z.copy()
    bad.flat[i] = np.nan
    if case['via'] == 'constructor':
        s = make(bad)
    else:
        s = make(z)
        if case['via'] == 'measured':
            s.has_missing_points
            (s.Ra if case['profile'] else s.Sa)()
        if case['via'] == 'data':
            s.data = bad
        else:
            s[np.unravel_index(i, shape)] = np.nan
    rec.nontrivial()
    rec.label('profile' if case['profile'] else 'surface', case['via'], f'10^{int(math.log10(z.size))} points')
    expect(bool(s.has_missing_points) is True, f'has_missing_points is False with point {i} of {z.size} missing')
    for n in CHEAP_R if case['profile'] else CHEAP_S:
        try:
            v = getattr(s, n)(*ARGS.get(n, ()))
        except Exception:
            continue
        fail(f'{n} returns {v!r} with point {i} of {z.size} missing')
    for f in ('get_abbott_firestone_curve',) if case['profile'] else ('get_abbott_firestone_curve', 'get_autocorrelation_function', 'get_fourier_transform'):
        expect(raises(getattr(s, f)) is not None, f'{f} does not raise with point {i} of {z.size} missing')
    expect(raises(lambda: s.filter('lowpass', 3.0)) is not None, f'the filter accepts data with point {i} of {z.size} missing')
    if not case['profile']:
        r, c = divmod(i, shape[1])
        expect(s.get_horizontal_profile(r * 0.25 * 0.9999999).has_missing_points, 'the profile through the missing point is complete')
        expect(s.get_vertical_profile(c * 0.5 * 0.9999999).has_missing_points, 'the profile through the missing point is complete')


@C.sub('tolerant', lambda: st.fixed_dictionaries({
    't': st.one_of(gen.surfaces(nan=True, big=15, dtypes=('float64', 'float32')).map(lambda s: {'s': s}), gen.profiles(nan=True, big=15, dtypes=('float64', 'float32')).map(lambda p: {'p': p}))}),
    quick=400, thorough=8000, shards=2, tshards=4)
def tolerant(case, rec):
    t = case['t']
    s = gen.profile(t['p']) if 'p' in t else gen.surface(t['s'])
    z = np.array(s.data).astype('float64')
    v = z[~np.isnan(z)]
    rec.nontrivial(v.size < z.size)
    rec.label('missing points' if v.size < z.size else 'complete', 'profile' if 'p' in t else 'surface')
    expect(bool(s.has_missing_points) == (v.size < z.size), f'has_missing_points is {s.has_missing_points}')
    r = 1e-5 if (t.get('p') or t.get('s'))['f']['dtype'] == 'float32' else 1e-9
    a = r * np.abs(v).max()
    close(s.min(), v.min(), 'min', rtol=0)
    close(s.max(), v.max(), 'max', rtol=0)
    mean = math.fsum(v) / v.size
    close(s.mean(), mean, 'mean', rtol=r, atol=a)
    w = np.sort(v)
    close(s.median(), (w[(w.size - 1) // 2] + w[w.size // 2]) / 2, 'median', rtol=r, atol=a)
    close(s.std(), math.sqrt(math.fsum((v - mean) ** 2) / v.size), 'std', rtol=r, atol=a)
    # filling makes every parameter available again
    if v.size < z.size:
        s.fill_nonmeasured(inplace=True)
        expect(not s.has_missing_points, 'missing points after filling')
        (s.Rq if 'p' in t else s.Sq)()
        (s.Rk if 'p' in t else s.Sk)()


def _profiles():
    return st.fixed_dictionaries({'s': gen.surfaces(min_side=4), 'i': st.integers(0, 23), 'j': st.integers(0, 23), 'dir': st.sampled_from(['h', 'v'])})


@C.sub('extracted', _profiles, quick=200, thorough=4000, shards=1, tshards=2)
def extracted(case, rec):
    s = gen.surface(case['s'])
    i, j = case['i'] % s.size.y, case['j'] % s.size.x
    s = same_grid(s, np.array(s.data))
    s[i, j] = np.nan
    rec.nontrivial()
    p = s.get_horizontal_profile(i * s.step_y * 0.9999999) if case['dir'] == 'h' else s.get_vertical_profile(j * s.step_x * 0.9999999)
    expect(p.has_missing_points, 'profile through a missing point is complete')
    expect(np.isnan(p.data[j if case['dir'] == 'h' else i]) and np.isnan(p.data).sum() == 1, 'missing point at the wrong place of the profile')
    expect(raises(p.Ra) is not None, 'Ra of a profile through a missing point does not raise')
