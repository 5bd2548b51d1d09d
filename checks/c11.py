"""C11: pointwise operations do exactly what they state, also with missing points."""
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.harness import Check, close, close_arr, expect, raises, same_arr

C = Check('C11', 'A case is a height field or profile (with and without missing points) with an operation and its arguments. '
                 'Non-trivial: the operation changes at least one point; distinct by the full case description.')


@st.composite
def topo(draw, **kw):
    if draw(st.integers(0, 2)) == 0:
        return {'p': draw(gen.profiles(**{'max_len': 100, 'big': 20, **kw}))}
    return {'s': draw(gen.surfaces(**{'max_side': 16, 'big': 20, **kw}))}


def make(t):
    return gen.profile(t['p']) if 'p' in t else gen.surface(t['s'])


def new(a, t):
    from surfalize import Profile, Surface
    return Profile(a, t['p']['step']) if 'p' in t else Surface(a, t['s']['sx'], t['s']['sy'])


def apply(t, name, kw, inplace, rec):
    """Runs the operation, checks identity, source and geometry; returns (heights before, heights after)."""
    s = make(t)
    z = np.array(s.data)
    r = getattr(s, name)(inplace=inplace, **kw)
    expect(type(r) is type(s), f'{name}: type of the result')
    expect((r is s) == inplace, f'{name}: identity of the result')
    if not inplace:
        same_arr(np.array(s.data), z, f'{name}: source')
    expect((r.step == t['p']['step']) if 'p' in t else (r.step_x, r.step_y) == (t['s']['sx'], t['s']['sy']), f'{name}: spacing')
    out = np.array(r.data)
    expect(out.shape == z.shape, f'{name}: size')
    rec.nontrivial(not np.array_equal(out, z, equal_nan=True))
    rec.label(name, 'profile' if 'p' in t else 'surface', 'missing points' if np.isnan(z).any() else 'complete')
    return z, out


DT = ('float64', 'float64', 'float64', 'float32')


@C.sub('shift', lambda: st.fixed_dictionaries({'t': topo(nan=True, dtypes=DT, allow_const=True), 'op': st.sampled_from(['center', 'zero', 'invert']),
                                               'inplace': st.booleans()}), quick=480, thorough=10000, shards=4, tshards=8)
def shift(case, rec):
    z, out = apply(case['t'], case['op'], {}, case['inplace'], rec)
    d = case['t'].get('p') or case['t'].get('s')
    eps = 3e-6 if d['f']['dtype'] == 'float32' else 1e-12
    z = z.astype('float64')
    out = out.astype('float64')
    v = z[~np.isnan(z)]
    tol = eps * np.abs(v).max()
    lo, hi, mean = v.min(), v.max(), math.fsum(v) / v.size
    if case['op'] == 'center':
        close_arr(out, z - mean, 'center', rtol=0, atol=tol)
    elif case['op'] == 'zero':
        close_arr(out, z - lo, 'zero', rtol=0, atol=tol)
        expect(np.nanmin(out) == 0, f'zero: lowest point is {np.nanmin(out)!r}')
    else:
        close_arr(out, lo + hi - z, 'invert', rtol=0, atol=tol)


@C.sub('outliers', lambda: st.fixed_dictionaries({
    't': topo(nan=True, dtypes=DT, allow_const=True, kinds=('noise', 'spikes', 'spikes', 'skew', 'levels', 'walk', 'plateau', 'plateau')),
    'n': st.sampled_from([3, 1, 2, 0.5, 2.5, 5.0, 10]), 'method': st.sampled_from(['mean', 'median', None, 'none']),
    'inplace': st.booleans()}), quick=1600, thorough=20000, shards=4, tshards=8)
def outliers(case, rec):
    t = case['t']
    if case['method'] == 'none':
        s = make(t)
        z = np.array(s.data)
        expect(raises(lambda: s.remove_outliers(method='nonsense', inplace=case['inplace']), ValueError) is not None, 'invalid method is not rejected')
        same_arr(np.array(s.data), z, 'source after the rejected call')
        return
    kw = {'n': case['n']}
    if case['method']:
        kw['method'] = case['method']
    elif case['n'] == 3:
        kw = {}
    z, out = apply(t, 'remove_outliers', kw, case['inplace'], rec)
    f32 = z.dtype == np.float32
    zz = z.astype('float64')
    m = ~np.isnan(zz)
    v = zz[m]
    if case['method'] == 'median':
        c = float(np.median(v))
        limit = case['n'] * float(np.median(np.abs(v - c)))
    else:
        c = math.fsum(v) / v.size
        limit = case['n'] * math.sqrt(math.fsum((v - c) ** 2) / v.size)
    d = np.abs(zz - c)
    tol = (1e-4 if f32 else 1e-9) * limit + (3e-6 if f32 else 1e-12) * np.abs(v).max()
    gone = np.isnan(out)
    expect(gone[~m].all(), 'remove_outliers: a missing point came back')
    expect(gone[m & (np.nan_to_num(d) > limit + tol)].all(), f'an outlier beyond {limit} from {c} was kept')
    expect(not gone[m & (np.nan_to_num(d) < limit - tol)].any(), f'a point within {limit} of {c} was removed')
    expect(np.array_equal(out[~gone], z[~gone]), 'remove_outliers changed remaining points')
    expect(out.dtype == z.dtype, 'remove_outliers changed the precision')


@C.sub('threshold', lambda: st.fixed_dictionaries({
    't': topo(nan=True, dtypes=DT, allow_const=True),
    'thr': st.one_of(st.none(), st.integers(0, 490).map(lambda v: v / 10), st.tuples(st.integers(0, 990), st.integers(0, 990)).map(lambda p: [p[0] / 10, p[1] / 10])),
    'kind': st.sampled_from(['tuple', 'list', 'array']), 'inplace': st.booleans()}), quick=600, thorough=12000, shards=4, tshards=8)
def threshold(case, rec):
    t = case['t']
    thr = case['thr']
    up, lo = (0.5, 0.5) if thr is None else tuple(thr) if isinstance(thr, list) else (thr, thr)
    kw = {}
    if thr is not None:
        kw['threshold'] = {'tuple': tuple, 'list': list, 'array': np.array}[case['kind']](thr) if isinstance(thr, list) else thr
    if up + lo >= 100:
        s = make(t)
        z = np.array(s.data)
        expect(raises(lambda: s.threshold(inplace=case['inplace'], **kw), ValueError) is not None, f'threshold {thr} is not rejected')
        same_arr(np.array(s.data), z, 'source after the rejected call')
        rec.label('rejected')
        rec.nontrivial()
        return
    z, out = apply(t, 'threshold', kw, case['inplace'], rec)
    m = ~np.isnan(z)
    v = np.sort(z[m])
    n = v.size
    gone = np.isnan(out)
    expect(gone[~m].all(), 'threshold: a missing point came back')
    expect(np.array_equal(out[~gone], z[~gone]), 'threshold changed remaining points')
    expect(not gone.all(), 'threshold removed every point')
    zf = np.where(m, z, v[0])
    ge = n - np.searchsorted(v, zf, 'left')          # number of points at least as high
    le = np.searchsorted(v, zf, 'right')             # number of points at most as high
    a, b = up / 100 * n, lo / 100 * n
    # the limits are resolved to about one point of the material ratio curve
    must = m & ((ge <= a - 1.5 - 1e-9) | (le <= b - 1.5 - 1e-9))
    may = m & ((ge <= a + 0.5 + 1e-9) | (le <= b + 0.5 + 1e-9))
    expect(gone[must].all(), lambda: f'threshold {up}, {lo} kept {int((~gone & must).sum())} points outside the limits')
    expect(not gone[m & ~may].any(), lambda: f'threshold {up}, {lo} removed {int((gone & m & ~may).sum())} points inside the limits')


@C.sub('fill', lambda: st.fixed_dictionaries({
    't': topo(nan=True, min_side=3, dtypes=DT, nan_frac=0.6), 'method': st.sampled_from(['nearest', 'linear', 'cubic', None]), 'inplace': st.booleans(),
    'plane': st.booleans(), 'hole': st.one_of(st.none(), st.tuples(*[st.integers(0, 100)] * 4)), 'ab': st.tuples(st.integers(-5, 5), st.integers(-5, 5))}), quick=480, thorough=10000, shards=4, tshards=8)
def fill(case, rec):
    t = case['t']
    s = make(t)
    z = np.array(s.data)
    if case['plane']:
        grids = np.meshgrid(*[np.arange(k) for k in z.shape], indexing='ij')
        plane = sum(c * g for c, g in zip(case['ab'], grids)) * 0.5 + 3.0
        z = np.where(np.isnan(z), np.nan, plane).astype(z.dtype)
        s = new(z.copy(), t)
    if case['hole']:                  # a large hole, between measured points or at the edge
        h = [sorted(v) for v in zip(case['hole'][:2], case['hole'][2:])][:z.ndim]
        z[tuple(slice(a * n // 100, b * n // 100) for (a, b), n in zip(h, z.shape))] = np.nan
        if np.isnan(z).all():
            z.flat[-1] = 1.0
        s = new(z.copy(), t)
        rec.label('hole')
    m = ~np.isnan(z)
    rec.label(case['method'], 'profile' if 'p' in t else 'surface', 'missing points' if not m.all() else 'complete')
    rec.nontrivial(not m.all())
    method = case['method'] or 'nearest'
    if z.size > 30000 and case['method'] in ('linear', 'cubic'):
        method = 'nearest'               # the triangulation takes minutes
    kw = {'method': method} if case['method'] else {}
    idx = np.argwhere(m)
    if method != 'nearest' and not m.all():
        rank = np.linalg.matrix_rank(idx - idx[0]) if len(idx) > 1 else 0
        if rank < z.ndim or len(idx) < 4:
            rec.label('too few points')
            return
    r = s.fill_nonmeasured(inplace=case['inplace'], **kw)
    expect((r is s) == case['inplace'], 'fill_nonmeasured: identity of the result')
    expect((r.step == t['p']['step']) if 'p' in t else (r.step_x, r.step_y) == (t['s']['sx'], t['s']['sy']), 'fill_nonmeasured: spacing')
    if not case['inplace']:
        same_arr(np.array(s.data), z, 'source')
    out = np.array(r.data)
    expect(out.shape == z.shape, 'size')
    expect(np.array_equal(out[m], z[m]), lambda: f'fill_nonmeasured ({method}) changed measured points')
    if m.all():
        return
    holes = np.argwhere(~m)
    if method == 'nearest':
        expect(not np.isnan(out).any(), 'nearest left missing points')
        expect(not r.has_missing_points, 'result still reports missing points')
        scale = np.array([1.0] if 'p' in t else [t['s']['sy'], t['s']['sx']])
        from scipy.spatial import cKDTree
        scale = np.array([1.0] if 'p' in t else [t['s']['sy'], t['s']['sx']])
        if len(holes) > 5000:
            holes = holes[np.linspace(0, len(holes) - 1, 5000).astype(int)]
        right = np.zeros(len(holes), dtype=bool)
        for w in (np.ones(z.ndim), scale):                # distance in points or in units: both are sensible
            d, i = cKDTree(idx * w).query(holes * w, k=list(range(1, min(8, len(idx)) + 1)))
            with np.errstate(invalid='ignore'):
                right |= ((d <= d[:, :1] * (1 + 1e-9)) & (z[tuple(idx.T)][i] == out[tuple(holes.T)][:, None])).any(axis=1)
        for h in holes[~right][:200]:                     # more than eight neighbours at the same distance, or wrong
            ok = set()
            for w in (np.ones(z.ndim), scale):
                d = (((idx - h) * w) ** 2).sum(axis=1)
                ok |= {float(z[tuple(i)]) for i in idx[d <= d.min() * (1 + 1e-9)]}
            expect(float(out[tuple(h)]) in ok, lambda: f'point {tuple(h)} was filled with {out[tuple(h)]}, which is no nearest measured height ({sorted(ok)})')
        return
    filled = ~np.isnan(out) & ~m
    v = z[m]
    rel = (1e-5 if z.dtype == np.float32 else 1e-8) * np.abs(v).max()
    if method == 'linear':
        expect((out[filled] >= v.min() - rel).all() and (out[filled] <= v.max() + rel).all(), 'linear fill leaves the range of the measured heights')
    if case['plane']:
        close_arr(out[filled].astype('float64'), plane[filled], f'{method} fill of a plane', rtol=0, atol=1e-5 * np.abs(plane).max())
    for h in holes if len(holes) <= 200 else holes[np.linspace(0, len(holes) - 1, 200).astype(int)]:
        # a hole with measured points on both sides along one axis is inside the hull and must be filled
        inside = False
        for ax in range(z.ndim):
            line = [slice(int(i), int(i) + 1) for i in h]
            line[ax] = slice(None)
            ln = m[tuple(line)].ravel()
            inside |= bool(ln[:h[ax]].any() and ln[h[ax] + 1:].any())
        if inside:
            expect(not np.isnan(out[tuple(h)]), f'{method} did not fill the point {tuple(h)} between measured points')
            if method == 'linear' and z.ndim == 1:
                l = max(i for (i,) in idx if i < h[0])
                u = min(i for (i,) in idx if i > h[0])
                w = z[l] + (float(z[u]) - float(z[l])) * (h[0] - l) / (u - l)
                close(out[h[0]], w, 'linear fill of a profile', rtol=1e-5 if z.dtype == np.float32 else 1e-9, atol=rel)


@C.sub('fill_large', lambda: st.fixed_dictionaries({
    't': topo(nan=True, min_side=3, dtypes=DT, big=1, big_max=99999), 'method': st.sampled_from(['nearest', None]), 'inplace': st.booleans(),
    'plane': st.just(False), 'hole': st.one_of(st.none(), *[st.tuples(*[st.integers(0, 100)] * 4)] * 3), 'ab': st.just((1, 1))}), quick=100, thorough=3000, shards=4, tshards=8)
def fill_large(case, rec):
    fill(case, rec)
