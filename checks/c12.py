"""C12: cropping, zooming, slicing and rotation keep the geometry consistent."""
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.harness import Check, close, expect, raises, same_arr

C = Check('C12', 'A case is a surface or profile with a box, factor, slice or angle. Non-trivial: the result differs from the source; '
                 'distinct by the full case description.')


def geom(s, what):
    if hasattr(s, 'step_x'):
        close(s.width_um, (s.data.shape[1] - 1) * s.step_x, f'{what}: width_um', rtol=1e-12)
        close(s.height_um, (s.data.shape[0] - 1) * s.step_y, f'{what}: height_um', rtol=1e-12)
        expect((s.size.y, s.size.x) == s.data.shape, f'{what}: size')
    else:
        close(s.length_um, (s.data.size - 1) * s.step, f'{what}: length_um', rtol=1e-12)
        expect(s.size == s.data.size, f'{what}: size')


FR = st.sampled_from([0.0, 0.0, 0.3, -0.3, 0.45, -0.45, 0.49999, -0.49999])


@C.sub('crop', lambda: st.fixed_dictionaries({
    's': gen.surfaces(nan=True, big=15, dtypes=('float64', 'float64', 'float32')), 'box': st.one_of(st.tuples(*[st.one_of(st.integers(-2, 26), st.integers(-2, 26), st.integers(0, 70000))] * 4), st.tuples(*[st.integers(0, 70000)] * 4)), 'fr': st.tuples(FR, FR, FR, FR),
    'edge': st.one_of(st.none(), st.none(), st.tuples(*[st.sampled_from([-1, 0, 0, 0, 1])] * 4)), 'in_units': st.sampled_from([True, False, None]), 'inplace': st.booleans()}), quick=1600, thorough=24000, shards=4, tshards=8)
def crop(case, rec):
    s = gen.surface(case['s'])
    z = np.array(s.data)
    ny, nx = z.shape
    sx, sy = s.step_x, s.step_y
    a, b, c, d = case['box']
    # mostly valid boxes
    if case['edge'] is not None:            # boxes that begin or end within a point of the edges
        e = case['edge']
        a, b, c, d = e[0], nx - 1 + e[1], e[2], ny - 1 + e[3]
    elif (a + b + c + d) % 5:
        a, b, c, d = a % nx, b % nx, c % ny, d % ny
        a, b, c, d = min(a, b), max(a, b), min(c, d), max(c, d)
    units = case['in_units'] is not False
    if units:
        f = case['fr']
        box = ((a + f[0]) * sx, (b + f[1]) * sx, (c + f[2]) * sy, (d + f[3]) * sy)
        r0, r1 = ny - 1 - d, ny - 1 - c           # physical y points upwards
    else:
        box = (a, b, c, d)
        r0, r1 = c, d
    kw = {} if case['in_units'] is None else {'in_units': case['in_units']}
    valid = 0 <= a <= b <= nx - 1 and 0 <= r0 <= r1 <= ny - 1
    rec.label('valid' if valid else 'out of range', 'units' if units else 'pixels')
    rec.nontrivial(not valid or (b - a + 1, r1 - r0 + 1) != (nx, ny))
    if not valid:
        e = raises(lambda: s.crop(box, inplace=case['inplace'], **kw), ValueError)
        expect(e is not None, f'box {box} ({"µm" if units else "px"}) is not rejected on {nx}x{ny} points of {sx}x{sy}')
        same_arr(np.array(s.data), z, 'surface after the rejected box')
        geom(s, 'surface after the rejected box')
        return
    r = s.crop(box, inplace=case['inplace'], **kw)
    expect((r is s) == case['inplace'], 'crop: identity of the result')
    same_arr(np.array(r.data), z[r0:r1 + 1, a:b + 1], f'crop to {box}')
    expect((r.step_x, r.step_y) == (sx, sy), 'crop: spacing')
    geom(r, 'crop')


@C.sub('zoom', lambda: st.fixed_dictionaries({
    's': gen.surfaces(nan=True, max_side=40, big=15), 'p': gen.profiles(nan=True, big=15), 'factor': st.integers(100, 900).map(lambda v: v / 100),
    'whole': st.booleans(), 'inplace': st.booleans(), 'profile': st.booleans()}), quick=400, thorough=8000, shards=2, tshards=4)
def zoom(case, rec):
    s = gen.profile(case['p']) if case['profile'] else gen.surface(case['s'])
    z = np.array(s.data)
    f = round(case['factor']) if case['whole'] else case['factor']
    st0 = s.step if case['profile'] else (s.step_x, s.step_y)
    r = s.zoom(f, inplace=case['inplace'])
    expect((r is s) == case['inplace'], 'zoom: identity of the result')
    expect((r.step if case['profile'] else (r.step_x, r.step_y)) == st0, 'zoom: spacing')
    geom(r, 'zoom')
    out = np.array(r.data)
    rec.nontrivial(out.shape != z.shape)
    # a contiguous block of about n / factor points around the centre
    lo = []
    for n, m in zip(z.shape, out.shape):
        expect(abs(m - n / f) <= 1.000001 and m >= 1, f'zoom({f}) of {n} points has {m}')
        lo.append([k for k in range(n - m + 1) if abs(k + (m - 1) / 2 - (n - 1) / 2) <= 1])
    ok = False
    if case['profile']:
        ok = any(np.array_equal(out, z[k:k + out.size], equal_nan=True) for k in lo[0])
    else:
        ok = any(np.array_equal(out, z[i:i + out.shape[0], j:j + out.shape[1]], equal_nan=True) for i in lo[0] for j in lo[1])
    expect(ok, f'zoom({f}) is not a centred block of the {"profile" if case["profile"] else "surface"}')


@st.composite
def slices(draw):
    o = st.one_of(st.none(), st.integers(-12, 12), st.integers(-12, 12), st.integers(-1000, 1000))
    step = draw(st.sampled_from([None, None, 1, 2, 3, 5, -1, -2]))
    if draw(st.integers(0, 3)) == 0:
        return (None, None, step)
    return (draw(o), draw(o), step)


@C.sub('strip', lambda: st.fixed_dictionaries({
    'n': st.integers(1000, 100000), 'at': st.tuples(st.floats(0, 1), st.floats(0, 1)), 'fr': st.tuples(*[st.sampled_from([0.0, 0.49999, -0.49999, 0.4999, -0.4999])] * 2), 'step': gen.logfloat(-4, 3),
    'how': st.sampled_from(['x', 'y', 'profile', 'line'])}), quick=300, thorough=6000, shards=2, tshards=4)
def strip(case, rec):
    """positions far from the origin are rounded to the nearest point, also just beside the middle between two points"""
    from surfalize import Profile, Surface
    n, h = case['n'], case['step']
    a, b = sorted(int(v * (n - 1)) for v in case['at'])
    if a == b:
        return
    f = case['fr']
    lo, hi = (a + f[0]) * h, (b + f[1]) * h
    z = np.arange(float(n))
    how = case['how']
    rec.nontrivial()
    rec.label(how)
    if how == 'line':
        y = min(max(lo, 0.0), (n - 1) * h)
        want = a if lo >= 0 else 0
        got = Surface(np.column_stack([z, z]), h, h).get_horizontal_profile(y)
        expect(got.data[0] == want, lambda: f'line {got.data[0]:g} instead of {want} at {y} with a spacing of {h}')
        return
    if how == 'profile':
        r = np.array(Profile(z, h).crop((lo, hi)).data)
    elif how == 'x':
        r = np.array(Surface(np.vstack([z, z]), h, h).crop((lo, hi, 0, h)).data)[0]
    else:
        r = np.array(Surface(np.column_stack([z, z])[::-1].copy(), h, h).crop((0, h, lo, hi)).data)[::-1, 0]
    expect(r.size == b - a + 1 and r[0] == a and r[-1] == b, lambda: f'cropped to {r[0]:g} .. {r[-1]:g} instead of {a} .. {b} for {lo} .. {hi} with a spacing of {h}')


@C.sub('slice', lambda: st.fixed_dictionaries({'s': gen.surfaces(nan=True, big=6), 'a': slices(), 'b': slices(),
                                               'form': st.sampled_from(['rows', 'both', 'both', 'both', 'dots'])}), quick=600, thorough=12000, shards=2, tshards=4)
def slicing(case, rec):
    s = gen.surface(case['s'])
    z = np.array(s.data)
    a, b = slice(*case['a']), slice(*case['b'])
    if case['form'] == 'rows':
        b = slice(None)
        key = a
    elif case['form'] == 'dots':
        a = slice(None)
        key = (..., b)
    else:
        key = (a, b)
    want = z[a, b]
    if want.size == 0:
        rec.label('empty')
        return
    r = s[key]
    rec.nontrivial(not np.array_equal(want, z, equal_nan=True))
    rec.label('strided' if abs(a.step or 1) > 1 or abs(b.step or 1) > 1 else 'plain', 'reversed' if (a.step or 1) < 0 or (b.step or 1) < 0 else 'forward')
    same_arr(np.array(r.data), want, f'surface[{key}]')
    close(r.step_y, abs(a.step or 1) * s.step_y, 'step_y after slicing', rtol=1e-12)
    close(r.step_x, abs(b.step or 1) * s.step_x, 'step_x after slicing', rtol=1e-12)
    geom(r, 'slice')
    same_arr(np.array(s.data), z, 'source')


@C.sub('profile', lambda: st.fixed_dictionaries({
    'p': gen.profiles(nan=True, max_len=60, big=15), 'iv': st.one_of(st.tuples(*[st.one_of(st.integers(-3, 63), st.integers(-3, 63), st.integers(0, 70000))] * 2), st.tuples(*[st.integers(0, 70000)] * 2)), 'fr': st.tuples(FR, FR), 'in_units': st.sampled_from([True, False, None]),
    'edge': st.one_of(st.none(), st.tuples(st.integers(-1, 1), st.integers(-1, 1))), 'inplace': st.booleans()}), quick=400, thorough=8000, shards=2, tshards=4)
def profile(case, rec):
    p = gen.profile(case['p'])
    z = np.array(p.data)
    a, b = case['iv']
    if case['edge'] is not None:            # intervals that begin or end within a point of the ends
        a, b = case['edge'][0], z.size - 1 + case['edge'][1]
    elif (a + b) % 4:
        a, b = min(a % z.size, b % z.size), max(a % z.size, b % z.size)
    units = case['in_units'] is not False
    iv = ((a + case['fr'][0]) * p.step, (b + case['fr'][1]) * p.step) if units else (a, b)
    kw = {} if case['in_units'] is None else {'in_units': case['in_units']}
    valid = 0 <= a < b <= z.size - 1
    rec.label('valid' if valid else 'out of range', 'units' if units else 'points')
    rec.nontrivial(not valid or b - a + 1 < z.size)
    if not valid:
        if a == b and 0 <= a < z.size:
            return                      # a single point: both answers are sensible
        expect(raises(lambda: p.crop(iv, inplace=case['inplace'], **kw), ValueError) is not None, f'interval {iv} is not rejected')
        same_arr(np.array(p.data), z, 'profile after the rejected interval')
        return
    step = p.step
    r = p.crop(iv, inplace=case['inplace'], **kw)
    expect((r is p) == case['inplace'], 'crop: identity of the result')
    same_arr(np.array(r.data), z[a:b + 1], f'crop to {iv}')
    expect(r.step == step, 'crop: spacing')
    geom(r, 'crop')


@st.composite
def rotations(draw):
    large = draw(st.integers(0, 11)) == 11
    side = st.integers(100, 240) if large else st.integers(12, 70)
    ny, nx = draw(side), draw(side)
    ang = draw(st.one_of(st.integers(-3600, 3600).map(lambda v: v / 10), st.sampled_from([0, 90, 180, 270, -90, 45, 360, 1, 89.9, 725.5, -0.1])))
    return {'ny': ny, 'nx': nx, 'angle': ang, 'steps': draw(gen.steps()), 'gx': draw(st.integers(-5, 5)), 'gy': draw(st.integers(-5, 5)),
            'fx': draw(st.integers(-10, 10)) / 160, 'fy': draw(st.integers(-10, 10)) / 160, 'ph': draw(st.integers(0, 7)) / 8,
            'off': draw(st.sampled_from([0.0, 100.0, -3.0])), 'inplace': draw(st.booleans())}


@C.sub('rotate', rotations, quick=600, thorough=12000, shards=6, tshards=8)
def rotate(case, rec):
    from surfalize import Surface
    ny, nx = case['ny'], case['nx']
    sx, sy = case['steps']
    ang = case['angle']
    t = math.radians(ang)
    rec.nontrivial(ang % 360 != 0)
    rec.label('wide' if nx > ny else 'tall' if ny > nx else 'square', 'equal spacing' if sx == sy else 'unequal spacing', 'multiple of 90' if ang % 90 == 0 else 'oblique')
    # size: the largest rectangle of the same aspect ratio, up to the rounding to whole points
    S, Co = abs(math.sin(t)), abs(math.cos(t))
    k = min(nx / (nx * Co + ny * S), ny / (nx * S + ny * Co))
    if min(nx, ny) * k < 7:
        rec.label('too small')
        return
    # no fill values: a constant surface stays constant
    c = case['off'] + 7.0
    r = Surface(np.full((ny, nx), c), sx, sy).rotate(ang)
    out = np.array(r.data)
    expect(out.ndim == 2 and min(out.shape) >= 2, f'rotated surface has the shape {out.shape}')
    expect(np.abs(out - c).max() <= 1e-9 * abs(c), lambda: f'rotating a constant surface of height {c} gives heights {out.min()} .. {out.max()}')
    geom(r, 'rotate')
    for n, m in ((ny, out.shape[0]), (nx, out.shape[1])):
        expect(n * k - 4.5 <= m <= n * k + 1, f'rotated by {ang}: {m} of {n} points remain, expected about {n * k}')
    # in place and on a copy, whatever the spacing
    rr = np.random.Generator(np.random.PCG64(ny * 1000 + nx))
    z0 = rr.normal(0, 1, (ny, nx))
    r, s0 = Surface(z0, sx, sy).rotate(ang), Surface(z0.copy(), sx, sy)
    expect(s0.rotate(ang, inplace=True) is s0, 'rotate: identity of the result')
    same_arr(np.array(s0.data), np.array(r.data), 'surface rotated in place')
    expect((s0.step_x, s0.step_y) == (r.step_x, r.step_y), 'spacing of a surface rotated in place')
    geom(s0, 'rotate in place')
    geom(r, 'rotate')
    if ang % 90 == 0:
        # quarter turns move the points without interpolation, up to one line cut off at the border; the spacings turn with them
        q = int(round(ang / 90))
        wx, wy = (sy, sx) if q % 2 else (sx, sy)
        close(r.step_x, wx, f'step_x after rotating by {ang}', rtol=1e-9)
        close(r.step_y, wy, f'step_y after rotating by {ang}', rtol=1e-9)
    if sx != sy:
        return
    s0 = Surface(np.zeros((ny, nx)), sx, sy)
    y, x = np.mgrid[0:ny, 0:nx]
    xc, yc = x - (nx - 1) / 2, (ny - 1) / 2 - y               # y upwards
    # true scale: the gradient of an inclined plane is turned by the angle
    g = np.array([case['gx'], case['gy']], dtype=float)
    plane = g[0] * xc * sx + g[1] * yc * sx
    base = Surface(plane, sx, sx)
    r = base.rotate(ang, inplace=case['inplace'])
    expect((r is base) == case['inplace'], 'rotate: identity of the result')
    close(r.step_x, sx, 'step_x of a rotated surface', rtol=1e-9)
    close(r.step_y, sx, 'step_y of a rotated surface', rtol=1e-9)
    z = np.array(r.data)
    j, i = np.meshgrid(np.arange(z.shape[1]) * r.step_x, -np.arange(z.shape[0]) * r.step_y)
    A = np.column_stack([j.ravel(), i.ravel(), np.ones(z.size)])
    co = np.linalg.lstsq(A, z.ravel(), rcond=None)[0]
    want = np.array([math.cos(t) * g[0] - math.sin(t) * g[1], math.sin(t) * g[0] + math.cos(t) * g[1]])
    tol = 0.04 if min(z.shape) < 12 else 0.015
    expect(np.abs(co[:2] - want).max() <= tol * np.hypot(*g) + 1e-9, lambda: f'gradient after rotating by {ang}: {co[:2]}, expected {want}')
    # features: a smooth wave is the turned wave, up to a shift by less than a point
    f = lambda a, b: np.cos(2 * np.pi * (case['fx'] * a + case['fy'] * b + case['ph']))
    z = np.array(Surface(f(xc, yc), sx, sx).rotate(ang).data)
    best = math.inf
    for oy in (0, 0.5, -0.5):
        for ox in (0, 0.5, -0.5):
            jj = np.arange(z.shape[1]) - (z.shape[1] - 1) / 2 + ox
            ii = (z.shape[0] - 1) / 2 - np.arange(z.shape[0]) + oy
            a, b = np.meshgrid(jj, ii)
            ref = f(math.cos(t) * a + math.sin(t) * b, -math.sin(t) * a + math.cos(t) * b)
            best = min(best, float(np.abs(ref - z).max()))
    expect(best <= 0.06, lambda: f'a wave turned by {ang} differs by {best} of its amplitude')
