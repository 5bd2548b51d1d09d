"""C07: the autocorrelation function equals the direct sum; Sal and Str follow from it."""
import math

import numpy as np
import scipy.ndimage as ndi
from hypothesis import strategies as st

from lib import gen
from lib.harness import Check, close, close_arr, expect, num

C = Check('C07', 'A case is a surface (2..14 points per side for the direct sum; 6..40 per side and smoothed for the decay '
                 'lengths) with equal or unequal spacing and a threshold s. Non-trivial: heights not constant; distinct by '
                 'the full case description. "lobe" classes tell how far the central lobe extends.')


def direct_acf(z):
    z = z - math.fsum(z.ravel()) / z.size
    ny, nx = z.shape
    out = np.zeros((2 * ny - 1, 2 * nx - 1))
    for dy in range(ny):
        for dx in range(-(nx - 1), nx):
            a = z[dy:, dx:] if dx >= 0 else z[dy:, :dx]
            b = z[:ny - dy, :nx - dx] if dx >= 0 else z[:ny - dy, -dx:]
            v = float((a * b).sum()) / a.size
            out[ny - 1 + dy, nx - 1 + dx] = v
            out[ny - 1 - dy, nx - 1 - dx] = v
    return out


@C.sub('acf', lambda: gen.surfaces(max_side=14, dtypes=('float64', 'float64', 'float32', 'int32')), quick=320, thorough=6000,
       shards=8, tshards=8)
def acf(case, rec):
    s = gen.surface(case)
    z = np.array(s.data).astype('float64')
    rec.nontrivial(np.ptp(z) > 0)
    ref = direct_acf(z)
    ny, nx = z.shape
    var = ref[ny - 1, nx - 1]
    amax = np.abs(z).max()
    if case['f']['dtype'] == 'float32':
        tol = 1e-4 * var + 1e-5 * amax * math.sqrt(var) + 1e-10 * amax ** 2
    else:
        tol = 1e-9 * var + 1e-11 * amax * math.sqrt(var) + 1e-22 * amax ** 2
    a = s.get_autocorrelation_function().data
    close_arr(a, ref, 'autocorrelation function', atol=tol)
    close_arr(a, a[::-1, ::-1].copy(), 'point symmetry of the autocorrelation function', atol=tol)
    close(a[ny - 1, nx - 1], z.var(), 'autocorrelation at zero lag vs variance', atol=tol)
    close(a[ny - 1, nx - 1], s.Sq() ** 2, 'autocorrelation at zero lag vs Sq^2', atol=tol)


@C.sub('large', lambda: st.fixed_dictionaries({'s': gen.big_shapes(2, 2, 70000).flatmap(lambda sh: gen.surfaces(shape=sh)), 'lags': st.lists(st.tuples(*[st.floats(-1, 1)] * 2), min_size=5, max_size=20)}),
       quick=40, thorough=1500, shards=2, tshards=8)
def large(case, rec):
    """the same at some lags of a large surface"""
    s = gen.surface(case['s'])
    z = np.array(s.data)
    c = z - math.fsum(z.ravel()) / z.size
    ny, nx = z.shape
    var = float((c * c).mean())
    amax = np.abs(z).max()
    rec.nontrivial()
    tol = 1e-9 * var + 1e-11 * amax * math.sqrt(var) + 1e-22 * amax ** 2
    a = s.get_autocorrelation_function().data
    expect(a.shape == (2 * ny - 1, 2 * nx - 1), f'{a.shape} values for {z.shape} points')
    for u, v in case['lags'] + [(0, 0), (0, 1), (1, 0), (1, -1)]:
        dy, dx = round(u * (ny - 1)), round(v * (nx - 1))
        p, q = c[max(0, dy):ny + min(0, dy), max(0, dx):nx + min(0, dx)], c[max(0, -dy):ny + min(0, -dy), max(0, -dx):nx + min(0, -dx)]
        want = float((p * q).mean())
        # (the round-off of the transform grows with the number of points and shrinks with the overlap)
        close(a[ny - 1 + dy, nx - 1 + dx], want, f'autocorrelation at a lag of {dy}, {dx} points', rtol=0, atol=tol * max(1.0, 1e-3 * z.size / p.size))


def smooth(case):
    z = gen.build(case['f']).astype('float64')
    wx, wy = case['w']
    z = ndi.gaussian_filter(z, (wy, wx), mode='wrap') if wx or wy else z
    if case['tilt']:
        z = z + case['tilt'] * z.std() * np.linspace(-1, 1, z.shape[1])
    return z


def lobe(a, thr):
    """4-connected region above the threshold around zero lag (own flood fill) and its outer edge"""
    cy, cx = a.shape[0] // 2, a.shape[1] // 2
    seen = {(cy, cx)}
    todo = [(cy, cx)]
    edge = set()
    while todo:
        i, j = todo.pop()
        for p in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
            if not (0 <= p[0] < a.shape[0] and 0 <= p[1] < a.shape[1]) or p in seen:
                continue
            if a[p] > thr:
                seen.add(p)
                todo.append(p)
            else:
                edge.add(p)
    return seen, edge


@st.composite
def decay_case(draw):
    shape = (draw(st.integers(6, 40)), draw(st.integers(6, 40)))
    f = draw(gen.fields(shape=shape, kinds=('noise', 'noise', 'sine', 'spikes', 'skew'), offset=True))
    sx, sy = draw(gen.steps())
    w = draw(st.one_of(st.integers(0, 6).map(lambda v: (v / 2, v / 2)), st.tuples(st.integers(0, 6), st.integers(0, 6)).map(lambda t: (t[0] / 2, t[1] / 2))))
    return {'f': f, 'sx': sx, 'sy': sy, 'w': w, 'tilt': draw(st.sampled_from([0, 0, 0, 0.5])),
            's': draw(st.sampled_from([None, 0.2, 0.1, 0.5, 0.3, 0.8, 0.05]))}


@C.sub('decay', decay_case, quick=480, thorough=10000, shards=8, tshards=8)
def decay(case, rec):
    from surfalize import Surface
    z = smooth(case)
    amax = np.abs(z).max()
    if np.std(z) <= 1e-6 * amax:
        rec.label('flat')
        return
    sx, sy = case['sx'], case['sy']
    surf = Surface(z, sx, sy)
    s = case['s']
    frac = 0.2 if s is None else s
    a = direct_acf(z)
    cy, cx = a.shape[0] // 2, a.shape[1] // 2
    peak = a[cy, cx]
    thr = frac * peak
    if np.any(np.abs(a - thr) < 1e-7 * peak):
        rec.label('threshold hit')
        return
    region, edge = lobe(a, thr)
    if not edge:
        rec.label('no edge')
        return
    rec.nontrivial()
    dist = {p: math.hypot((p[0] - cy) * sy, (p[1] - cx) * sx) for p in edge}
    dmin, dmax = min(dist.values()), max(dist.values())
    diag = math.hypot(sx, sy)
    args = () if s is None else (s,)
    sal, st_r = num(surf.Sal(*args), 'Sal'), num(surf.Str(*args), 'Str')
    obj = surf.get_autocorrelation_function()
    close(obj.Sal(*args), sal, f'Sal{args} of the autocorrelation function', rtol=1e-9)
    close(obj.Str(*args), st_r, f'Str{args} of the autocorrelation function', rtol=1e-9)
    rec.label('lobe 1 px' if len(region) < 6 else 'lobe small' if len(region) < 60 else 'lobe large')
    expect(0 < sal <= dmin * (1 + 1e-9), lambda: f'Sal({s}) = {sal}, but the autocorrelation is below s already at {dmin}')
    expect(st_r > 0, lambda: f'Str({s}) = {st_r}')
    long_ = sal / st_r
    # (where within a cell the function falls below s is not resolved)
    expect(st_r <= 1 + 1e-9 or sal - long_ <= diag, lambda: f'Str({s}) = {st_r}, fastest decay over {sal}, slowest over {long_}')
    expect(long_ <= dmax * (1 + 1e-9), lambda: f'slowest decay length {long_} beyond the lobe ({dmax})')

    def crossings(d):
        out = []
        for p in edge:
            if abs(dist[p] - d) > 1e-9 * d:
                continue
            c = np.array([np.linspace(cy, p[0], 1000), np.linspace(cx, p[1], 1000)])
            line = ndi.map_coordinates(a, c, order=3)
            sign = np.nonzero(np.diff(np.sign(line - thr)))[0]
            if len(sign) != 1:
                return None
            # the spline may overshoot, and the function may come back to s after the crossing: only lines that fall steadily have an unambiguous crossing
            i = sign[0]
            near = np.abs(line - thr) <= 2 * abs(line[i + 1] - line[i])
            if near[:max(i - 5, 0)].any() or near[i + 7:].any():
                return None
            out.append((sign[0] + 0.5) / 999 * d)
        return out

    lo = crossings(dmin)
    hi = crossings(dmax)
    if lo:
        rec.label('Sal exact')
        expect(any(abs(sal - v) <= 0.01 * dmin + 0.02 * diag for v in lo),
               lambda: f'Sal({s}) = {sal}, the autocorrelation falls below s at {sorted(set(lo))} in the direction of the fastest decay')
    if hi:
        rec.label('Str exact')
        expect(any(abs(long_ - v) <= 0.01 * dmax + 0.02 * diag for v in hi),
               lambda: f'slowest decay length (Sal/Str) {long_}, expected {sorted(set(hi))}')
        if lo:
            # several points of the edge can be equally far away: which of them counts does not depend on the pose
            for f, what in ((lambda v: v[::-1], 'upside down'), (lambda v: v[:, ::-1], 'reversed')):
                t = Surface(np.ascontiguousarray(f(z)), sx, sy)
                close(t.Sal(*args), sal, f'Sal({s}) of the surface {what}', rtol=0.003, atol=0.003 * dmin)
                close(t.Sal(*args) / t.Str(*args), long_, f'slowest decay length of the surface {what}', rtol=0.003, atol=0.003 * dmax)
