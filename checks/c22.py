"""C22: step height and cavity volume measure the step."""
import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.harness import Check, close, close_arr, expect, fail, raises, same_arr

C = Check('C22', 'A case is a two-level structure (shape of the plateaus, step, noise, offset, spacing, tilt) and the order of the calls. '
                 'Non-trivial: noise or tilt or a second call; distinct by the full case description.')

SHAPES = ('half', 'pocket', 'disc', 'stripes', 'random', 'border', 'corner', 'small')


@st.composite
def structures(draw, tilt=False, nan=False):
    large = draw(st.integers(0, 29)) == 29
    side = lambda: draw(st.sampled_from([129, 256, 257, 300])) if large or draw(st.integers(0, 19)) == 19 else draw(st.integers(6, 40))
    nx, ny = side(), side()
    d = {'nx': nx, 'ny': ny, 'shape': draw(st.sampled_from(SHAPES)), 'pos': draw(st.tuples(*[st.integers(0, 100)] * 4)), 'seed': draw(st.integers(0, 2 ** 32 - 1)),
         'sign': draw(st.sampled_from([1, -1])), 'h': draw(gen.logfloat(-3, 3)), 'noise': draw(st.sampled_from([0, 0, 1e-6, 5e-4, 1e-3, 1.5e-3, 1.8e-3, 2.5e-3, 4e-3, 0.01, 0.03, 0.08])),
         'offset': draw(st.sampled_from([0.0, 0.0, 1.0, -20.0, 300.0])), 'steps': draw(gen.steps()), 'dtype': draw(st.sampled_from(['float64', 'float64', 'float32'])),
         'noise_on': draw(st.sampled_from(['both', 'both', 'upper', 'lower']))}
    if tilt:
        d['tilt'] = (draw(st.integers(-12, 12)) / 100, draw(st.integers(-12, 12)) / 100)
    if nan:
        d['nan'] = draw(st.lists(st.integers(0, nx * ny - 1), max_size=8, unique=True))
    return d


def truth(d):
    """(heights without tilt, mask of the upper plateau)"""
    ny, nx = d['ny'], d['nx']
    r = np.random.Generator(np.random.PCG64(d['seed']))
    y, x = np.mgrid[0:ny, 0:nx]
    p = [v / 100 for v in d['pos']]
    s = d['shape']
    if s == 'half':
        m = x < max(1, round((0.1 + 0.8 * p[0]) * nx)) if p[1] < 0.5 else y < max(1, round((0.1 + 0.8 * p[0]) * ny))
    elif s == 'pocket':
        w, h = max(2, int((0.2 + 0.7 * p[0]) * nx)), max(2, int((0.2 + 0.7 * p[1]) * ny))
        x0, y0 = int(p[2] * (nx - w)), int(p[3] * (ny - h))
        m = (x >= x0) & (x < x0 + w) & (y >= y0) & (y < y0 + h)
    elif s == 'disc':
        m = ((x - nx / 2) / nx) ** 2 + ((y - ny / 2) / ny) ** 2 < (0.2 + 0.25 * p[0]) ** 2
    elif s == 'stripes':
        m = (x // (1 + int(p[0] * 4))) % 2 == 0
    elif s == 'random':
        m = r.random((ny, nx)) < 0.1 + 0.8 * p[0]
    elif s == 'small':
        m = (abs(x - int(p[0] * nx)) <= 1 + int(p[2] * 3)) & (abs(y - int(p[1] * ny)) <= 1 + int(p[3] * 3))
    elif s == 'border':
        m = (x < 1) | (y < 1) | (x == nx - 1) | (y == ny - 1)
    else:
        m = (x < 2 + int(p[0] * nx / 2)) & (y < 2 + int(p[1] * ny / 2))
    if d['sign'] < 0:
        m = ~m
    u = r.uniform(-1, 1, (ny, nx))
    if d['noise_on'] == 'upper':
        u[~m] = 0
    elif d['noise_on'] == 'lower':
        u[m] = 0
    z = np.where(m, d['h'], 0.0) + d['noise'] * d['h'] * u + d['offset'] * d['h']
    return z, m


def build(d):
    z, m = truth(d)
    if 'tilt' in d:
        ny, nx = d['ny'], d['nx']
        z = z + d['h'] * (d['tilt'][0] * np.arange(nx) / nx + (d['tilt'][1] * np.arange(ny) / ny)[:, None])
    if d.get('nan'):
        z.flat[d['nan']] = np.nan
    return z.astype(d['dtype']), m


def enough(m, noise=0.05):
    """both plateaus are there, with a share that makes their difference the largest one also in the sense of the variance between classes (5 % are
    enough for noise of 0.1 of the step)"""
    f = m.mean()
    return max(0.002, 20 * noise ** 2) <= min(f, 1 - f) and min(m.sum(), (~m).sum()) >= 4


def surface(d):
    from surfalize import Surface
    z, m = build(d)
    return Surface(z, *d['steps']), z, m


@C.sub('height', structures, quick=1500, thorough=25000, shards=4, tshards=8)
def height(case, rec):
    s, z, m = surface(case)
    if not enough(m, (case.get('s') or case)['noise']):
        return
    rec.nontrivial(case['noise'] > 0)
    rec.label(case['shape'], 'noise' if case['noise'] else 'clean', 'most points up' if m.mean() > 0.5 else 'most points down')
    z = z.astype('float64')
    want = np.median(z[m]) - np.median(z[~m])
    tol = 4e-7 if case['dtype'] == 'float32' else 1e-12
    close(s.stepheight(), want, 'step height', rtol=tol, atol=tol * np.abs(z).max())
    expect(abs(want - case['h']) <= (2 * case['noise'] + 1e-9) * case['h'] + 3e-7 * np.abs(z).max(), 'oracle')


@C.sub('cavity', lambda: st.fixed_dictionaries({'s': structures(), 't': st.one_of(st.none(), st.integers(0, 110).map(lambda v: v / 100))}), quick=1200, thorough=20000, shards=3, tshards=8)
def cavity(case, rec):
    s, z, m = surface(case['s'])
    if not enough(m, (case.get('s') or case)['noise']):
        return
    z = z.astype('float64')
    h, noise = case['s']['h'], case['s']['noise']
    up, low = np.median(z[m]), np.median(z[~m])
    t = 0.5 if case['t'] is None else case['t']
    got = s.cavity_volume() if case['t'] is None else s.cavity_volume(threshold=t)
    rec.nontrivial(noise > 0 or t not in (0.0, 0.5))
    rec.label('default' if case['t'] is None else 'threshold')
    limit = up - t * (up - low)
    cell = s.step_x * s.step_y
    tol = 1e-6 if case['s']['dtype'] == 'float32' else 1e-11
    # points exactly at the limit may fall on either side
    eps = tol * (np.abs(z).max() + h)
    lo = (up - z[z < limit - eps]).sum() * cell
    near = z[np.abs(z - limit) <= eps]
    a, b = lo + np.minimum(up - near, 0).sum() * cell, lo + np.maximum(up - near, 0).sum() * cell
    slack = tol * (np.abs(z).max() + h) * z.size * cell + 1e-12 * abs(lo)
    expect(a - slack <= float(got) <= b + slack, f'cavity volume {got!r} for threshold {t}, expected {lo!r}')
    if 0.2 <= t <= 0.8:
        close(got, (~m).sum() * cell * h, 'cavity volume against depth times area', rtol=2 * noise + 1e-9 + 3e-7 * (1 + abs(case['s']['offset'])) * 10 * (case['s']['dtype'] == 'float32'))


@C.sub('level', lambda: st.fixed_dictionaries({'s': structures(tilt=True, nan=True), 'inplace': st.booleans(), 'before': st.lists(st.sampled_from(['stepheight', 'cavity', 'level']), max_size=2)}),
       quick=1500, thorough=25000, shards=4, tshards=8)
def level(case, rec):
    d = case['s']
    s, z, m = surface(d)
    missing = np.isnan(z)
    m = m & ~missing
    low = ~m & ~missing
    f = m.sum() / max(1, (~missing).sum())
    if not 0.1 <= f <= 0.9 or min(m.sum(), low.sum()) < 6:
        return
    y, x = np.nonzero(m)
    # the plane is defined by points of the upper plateau which do not lie on a line
    A = np.column_stack([x - x.mean(), y - y.mean(), np.ones(x.size)])
    if np.linalg.matrix_rank(A) < 3 or np.linalg.cond(A) > 1e4:
        return
    rec.nontrivial(d['tilt'] != (0, 0) or d['noise'] > 0)
    rec.label('missing points' if missing.any() else 'complete', 'tilted' if d['tilt'] != (0, 0) else 'not tilted', d['shape'])
    for b in case['before']:
        if b == 'level':
            s.stepheight_level()
        elif not missing.any():
            s.stepheight() if b == 'stepheight' else s.cavity_volume()
    z64 = z.astype('float64')
    coef = np.linalg.lstsq(A, z64[m], rcond=None)[0]
    Y, X = np.mgrid[0:d['ny'], 0:d['nx']]
    plane = coef[0] * X + coef[1] * Y
    plane -= plane.mean()
    want = z64 - plane
    r = s.stepheight_level(inplace=case['inplace'])
    expect((r is s) == case['inplace'], 'returned object')
    tol = 5e-6 if d['dtype'] == 'float32' else 1e-9
    scale = np.nanmax(np.abs(z64)) + d['h']
    close_arr(np.array(r.data), want, 'levelled heights', rtol=0, atol=tol * scale)
    expect((r.step_x, r.step_y) == (s.step_x, s.step_y), 'spacing')
    got = np.array(r.data, dtype='float64')
    if d['noise'] == 0:
        for part, name in ((m, 'upper'), (low, 'lower')):
            expect(np.ptp(got[part]) <= 2 * tol * scale, f'{name} plateau is not flat: {np.ptp(got[part])}')
    if not missing.any():
        close(got.mean(), z64.mean(), 'mean height', rtol=tol, atol=tol * scale)
        tol2 = 1e-5 if d['dtype'] == 'float32' else 1e-9
        if d['noise'] == 0:
            close(r.stepheight(), d['h'], 'step height after levelling', rtol=tol2, atol=tol2 * scale)
        else:
            w = np.median(want[m]) - np.median(want[low])
            close(r.stepheight(), w, 'step height after levelling', rtol=tol2, atol=tol2 * scale)


@C.sub('relations', lambda: st.fixed_dictionaries({'s': structures(), 'calls': st.lists(st.tuples(st.sampled_from(['h', 'v', 'l']), st.sampled_from([0.25, 0.5, 0.75])), min_size=2, max_size=6),
                                                   'edit': st.sampled_from([None, 'item', 'double', 'invert', 'data'])}), quick=600, thorough=8000, shards=3, tshards=8)
def relations(case, rec):
    """repeated calls agree with those of a new object, also after the surface has been edited"""
    from surfalize import Surface
    s, z, m = surface(case['s'])
    if not enough(m):
        return
    rec.nontrivial()
    rec.label(f'{len(case["calls"])} calls', case['edit'] or 'no edit')

    def call(obj, c):
        if c[0] == 'h':
            return obj.stepheight()
        if c[0] == 'v':
            return obj.cavity_volume(threshold=c[1])
        return np.array(obj.stepheight_level().data)
    for k, c in enumerate(case['calls']):
        if k == len(case['calls']) // 2 and case['edit']:
            if case['edit'] == 'item':
                s[:, : max(1, z.shape[1] // 4)] = float(np.max(z))
            elif case['edit'] == 'double':
                s.data = np.array(s.data) * 2
            elif case['edit'] == 'invert':
                s.invert(inplace=True)
            else:
                s.data = np.array(s.data)[::-1].copy()
        fresh = Surface(np.array(s.data), s.step_x, s.step_y)
        err = raises(lambda: call(fresh, c), Exception)
        if err is not None and case['edit'] == 'item':                 # the edit has left no two levels
            rec.label('no levels left')
            expect(raises(lambda: call(s, c), Exception) is not None, f'call {k} {c} gives a result where a new object raises {err!r}')
            continue
        a, b = call(s, c), call(fresh, c)
        if isinstance(a, np.ndarray):
            close_arr(a, b, f'call {k} {c}', rtol=1e-12)
        else:
            close(a, b, f'call {k} {c}', rtol=1e-12)
