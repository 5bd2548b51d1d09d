"""C13: extracted profiles are the surface heights along the requested line."""
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.harness import Check, close, close_arr, expect, fail, raises, same_arr

C = Check('C13', 'A case is a surface with a position and averaging arguments, or with two end points. Non-trivial: heights not '
                 'constant, or the position lies outside; distinct by the full case description.')

AVG = st.sampled_from([None, 1, 1, 3, 5, 7, 15, 51, 101, 501])


@C.sub('axis', lambda: st.fixed_dictionaries({
    's': gen.surfaces(nan=True, big=20, dtypes=('float64', 'float64', 'float32')), 'dir': st.sampled_from(['h', 'v']), 'pos': st.one_of(st.integers(-2, 25), st.integers(-2, 25), st.integers(0, 70000)),
    'edge': st.sampled_from([None, None, None, 'first', 'last', 'below', 'above']), 'fr': st.integers(-49, 50).map(lambda v: v / 100), 'avg': AVG,
    'astep': st.sampled_from([None, None, 1.0, 2.0, 3.0, 1.3, 0.2])}), quick=1200, thorough=20000, shards=4, tshards=8)
def axis(case, rec):
    s = gen.surface(case['s'])
    z = np.array(s.data)
    horizontal = case['dir'] == 'h'
    n = z.shape[0] if horizontal else z.shape[1]
    step = s.step_y if horizontal else s.step_x
    extent = s.height_um if horizontal else s.width_um
    close(extent, (n - 1) * step, 'extent', rtol=1e-12)
    p = min(max((case['pos'] + case['fr']) * step, 0.0), extent) if case['pos'] >= 0 else 0.3 * extent
    p = {'first': 0.0, 'last': extent, 'below': -0.01 * step, 'above': extent + 0.01 * step}.get(case['edge'], p)
    kw = {}
    if case['avg']:
        kw['average'] = case['avg']
        if case['astep']:
            kw['average_step'] = case['astep'] * step
    get = s.get_horizontal_profile if horizontal else s.get_vertical_profile
    if case['edge'] in ('below', 'above'):
        rec.nontrivial()
        rec.label('outside')
        e = raises(lambda: get(p, **kw), ValueError)
        expect(e is not None, f'position {p} outside 0..{extent} is not rejected')
        return
    r = get(p, **kw)
    rec.nontrivial(np.nanmax(z) > np.nanmin(z))
    rec.label(case['dir'], case['edge'] or 'inside', f'average {case["avg"] or 1}')
    expect(type(r).__name__ == 'Profile', 'type of the result')
    close(r.step, s.step_x if horizontal else s.step_y, 'spacing of the profile', rtol=1e-12)
    close(r.length_um, s.width_um if horizontal else s.height_um, 'length of the profile', rtol=1e-12)
    lines = z if horizontal else z.T
    q = p / step
    cands = {min(max(i, 0), n - 1) for i in (math.floor(q), math.ceil(q)) if abs(i - q) <= 0.5 + 1e-9}
    dist = max(1, round(case['astep'] or 1)) if case['avg'] else 1
    half = (case['avg'] or 1) // 2
    wants = []
    for c in cands:
        rows = [c + k * dist for k in range(-half, half + 1) if 0 <= c + k * dist < n]
        wants.append(lines[rows].astype('float64').mean(axis=0))
    got = np.array(r.data)
    expect(got.shape == wants[0].shape, f'profile has {got.shape} points, expected {wants[0].shape}')
    tol = (1e-5 if z.dtype == np.float32 else 1e-12) * np.nanmax(np.abs(z))
    if half == 0:
        tol = 0.0
    err = None
    for w in wants:
        same_nan = np.array_equal(np.isnan(got), np.isnan(w))
        if same_nan and (np.isnan(w).all() or np.nanmax(np.abs(got - w)) <= tol):
            return
    fail(f'{"horizontal" if horizontal else "vertical"} profile at {p} (line {q} of 0..{n - 1}, average {case["avg"]}, distance {case["astep"]}) is not the mean of the lines there')


@st.composite
def lines(draw):
    side = lambda: draw(st.sampled_from([150, 257, 400, 1000])) if draw(st.integers(0, 14)) == 14 else draw(st.integers(4, 40))
    d = {'steps': draw(gen.steps()), 'nx': side(), 'ny': side()}
    pt = lambda n: draw(st.one_of(st.integers(0, (n - 1) * 8).map(lambda v: v / 8), st.sampled_from([0.0, float(n - 1)])))
    d['p'] = (pt(d['nx']), pt(d['ny']), pt(d['nx']), pt(d['ny']))
    d['f'] = draw(st.tuples(st.integers(-10, 10), st.integers(-10, 10), st.integers(0, 7)))
    return d


def oblique(s, d):
    sx, sy = d['steps']
    x0, y0, x1, y1 = d['p']
    # exactly on the far border, the position is the reported extent
    f = lambda v, n, step, ext: ext if v == n - 1 else v * step
    a = (f(x0, d['nx'], sx, s.width_um), f(y0, d['ny'], sy, s.height_um), f(x1, d['nx'], sx, s.width_um), f(y1, d['ny'], sy, s.height_um))
    return s.get_oblique_profile(*a)


@C.sub('oblique', lines, quick=800, thorough=16000, shards=4, tshards=8)
def obl(case, rec):
    from surfalize import Surface
    d = case
    sx, sy = d['steps']
    y, x = np.mgrid[0:d['ny'], 0:d['nx']]
    a, b, ph = d['f']
    f = lambda u, v: np.cos(2 * np.pi * (a / 160 * u + b / 160 * v + ph / 8))
    s = Surface(f(x, y), sx, sy)
    x0, y0, x1, y1 = d['p']
    px = math.hypot(x1 - x0, y1 - y0)
    if px == 0:
        rec.label('single point')
        return
    rec.nontrivial(a != 0 or b != 0)
    rec.label('equal spacing' if sx == sy else 'unequal spacing', 'along an axis' if x0 == x1 or y0 == y1 else 'oblique')
    r = oblique(s, d)
    L = math.hypot((x1 - x0) * sx, (y1 - y0) * sy)
    close(r.length_um, L, 'length of the oblique profile', rtol=1e-9)
    n = r.data.size
    expect(n >= 2 and (0.4 <= px / (n - 1) <= 1.6 if px < 20 else 0.75 <= px / (n - 1) <= 1.34) or px < 1.6, f'{n} points on a line across {px} grid points')
    close(r.step * (n - 1), L, 'step times intervals of the oblique profile', rtol=1e-9)
    t = np.linspace(0, 1, n)
    u, v = x0 + t * (x1 - x0), y0 + t * (y1 - y0)
    ref = f(u, v)
    border = np.minimum.reduce([u, v, d['nx'] - 1 - u, d['ny'] - 1 - v])
    tol = np.where(border < 3, 0.10, 0.012)
    err = np.abs(np.array(r.data) - ref)
    expect((err <= tol).all(), lambda: f'oblique profile deviates by {err.max()} of the amplitude at point {int(np.argmax(err - tol))} of {n}')


@C.sub('nodes', lambda: st.fixed_dictionaries({
    's': gen.surfaces(min_side=4, max_side=24), 'p': st.tuples(*[st.integers(0, 23)] * 2), 'd': st.sampled_from([(1, 0), (0, 1), (1, 1), (1, -1), (-1, 0), (0, -1), (-1, 1), (-1, -1)]),
    'k': st.integers(1, 23)}), quick=600, thorough=12000, shards=4, tshards=8)
def nodes(case, rec):
    """Lines through grid points: the heights there are exactly the measured ones, whatever the interpolation."""
    s = gen.surface(case['s'])
    z = np.array(s.data)
    ny, nx = z.shape
    x0, y0 = case['p'][0] % nx, case['p'][1] % ny
    dx, dy = case['d']
    k = min(case['k'], *([nx - 1 - x0 if dx > 0 else x0] if dx else []), *([ny - 1 - y0 if dy > 0 else y0] if dy else []))
    if k < 1:
        rec.label('no room')
        return
    x1, y1 = x0 + k * dx, y0 + k * dy
    rec.nontrivial(np.ptp(z) > 0)
    rec.label('diagonal' if dx and dy else 'axis')
    r = oblique(s, {'steps': (s.step_x, s.step_y), 'nx': nx, 'ny': ny, 'p': (x0, y0, x1, y1)})
    got = np.array(r.data)
    tol = 1e-7 * np.abs(z - z.mean()).max() + 1e-10 * np.abs(z).max()
    close(got[0], z[y0, x0], 'first point', rtol=0, atol=tol)
    close(got[-1], z[y1, x1], 'last point', rtol=0, atol=tol)
    n = got.size
    ref = z[y0 + dy * np.arange(k + 1), x0 + dx * np.arange(k + 1)]
    for i in range(n):
        q = i * k / (n - 1)
        if abs(q - round(q)) < 1e-9:
            close(got[i], ref[round(q)], f'point {i} of {n} on a grid point', rtol=0, atol=tol)
    if not (dx and dy):
        expect(n == k + 1, f'{n} points along {k + 1} grid points')


@C.sub('outside', lambda: st.fixed_dictionaries({'s': gen.surfaces(min_side=3), 'p': st.tuples(*[st.integers(-10, 110).map(lambda v: v / 100)] * 4)}),
       quick=300, thorough=6000, shards=2, tshards=4)
def outside(case, rec):
    s = gen.surface(case['s'])
    f = case['p']
    a = (f[0] * s.width_um, f[1] * s.height_um, f[2] * s.width_um, f[3] * s.height_um)
    out = any(v < 0 or v > 1 for v in f)
    rec.nontrivial(out)
    rec.label('outside' if out else 'inside')
    if any(v in (0, 1) for v in f):
        return
    if out:
        expect(raises(lambda: s.get_oblique_profile(*a), ValueError) is not None, f'end points {a} outside {s.width_um} x {s.height_um} are not rejected')
    elif a[:2] != a[2:]:
        s.get_oblique_profile(*a)
    for g, v, e in ((s.get_horizontal_profile, f[1], s.height_um), (s.get_vertical_profile, f[0], s.width_um)):
        if v < 0 or v > 1:
            expect(raises(lambda: g(v * e), ValueError) is not None, f'position {v * e} outside 0..{e} is not rejected')
        else:
            g(v * e)
