"""C08: period, orientation and direction of periodic textures are found."""
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.harness import Check, close, expect, num

C = Check('C08', 'A case is a sinusoidal grating (size, spacings, cycles along both axes, amplitude, offset, phase, noise) or '
                 'a profile of known wavelength. Non-trivial: at least three periods fit on the field; distinct by the full '
                 'case description.')


@st.composite
def gratings(draw, integer=False, min_n=24, max_n=90, per=(3, 3), equal=False, sampling=0.4, noise=True, waves=()):
    # a wave of sharpness b has the shape exp(b * sin), whose heights are distributed asymmetrically about the mean
    wave = draw(st.sampled_from((0,) * len(waves) + tuple(waves) + (0,)))
    if wave:
        sampling = min(sampling, 0.12)
    side = lambda: draw(st.sampled_from([150, 200, 256, 257, 300])) if draw(st.integers(0, 29)) == 29 else draw(st.integers(min_n, max_n))
    nx, ny = side(), side()
    if equal:
        sx = sy = draw(gen.logfloat(-2, 1))
    else:
        sx, sy = draw(gen.steps())
    ux, uy = int(nx * sampling), int(ny * sampling)
    q = 1 if integer else 8
    u = draw(st.integers(0, ux * q)) / q
    v = draw(st.integers(-uy * q, uy * q)) / q
    shape = draw(st.sampled_from(['any', 'any', 'x', 'y']))
    if shape == 'x':
        v = 0.0
    elif shape == 'y':
        u = 0.0
    if abs(u) < per[0] and abs(v) < per[1]:
        if shape == 'y' or (shape == 'any' and draw(st.booleans())):
            v = math.copysign(per[1] + draw(st.integers(0, 3 * q)) / q, v)
        else:
            u = per[0] + draw(st.integers(0, 3 * q)) / q
    return {'nx': nx, 'ny': ny, 'sx': sx, 'sy': sy, 'u': float(u), 'v': float(v), 'phase': draw(st.integers(0, 15)) / 16,
            'a': draw(gen.logfloat(-2, 2)), 'off': draw(st.sampled_from([0.0, 1.0, -40.0])),
            'noise': draw(st.sampled_from([0.0, 0.0, 0.02])) if noise else 0.0, 'seed': draw(st.integers(0, 999)), 'wave': wave}


def heights(d):
    y, x = np.mgrid[0:d['ny'], 0:d['nx']]
    z = np.sin(2 * np.pi * (d['u'] * x / d['nx'] + d['v'] * y / d['ny'] + d['phase']))
    if d.get('wave'):
        z = np.exp(d['wave'] * z) / np.exp(abs(d['wave']))
    if d['noise']:
        z = z + d['noise'] * np.random.Generator(np.random.PCG64(d['seed'])).uniform(-1, 1, z.shape)
    return d['a'] * (z + d['off'])


def build(d):
    from surfalize import Surface
    return Surface(heights(d), d['sx'], d['sy'])


def truth(d):
    kx, ky = d['u'] / (d['nx'] * d['sx']), d['v'] / (d['ny'] * d['sy'])
    return kx, ky, math.hypot(kx, ky)


def angle_diff(a, b):
    """difference of two undirected directions in degrees"""
    x = (a - b) % 180.0
    return min(x, 180.0 - x)


def fft_checks(case, rec, s, bins):
    """bins: allowed deviation in frequency bins (0: the grating lies exactly on the frequency grid)"""
    kx, ky, k = truth(case)
    nx, ny = case['nx'], case['ny']
    rx, ry = 1 / ((nx - 1) * case['sx']), 1 / ((ny - 1) * case['sy'])
    bx, by = 1.5 / (nx - 1), 1.5 / (ny - 1)
    tx, ty = bins * rx + bx * abs(kx), bins * ry + by * abs(ky)
    t = math.hypot(tx, ty)
    p = num(s.period(), 'period')
    expect(p > 0 and abs(1 / p - k) <= t, lambda: f'period is {p}, the grating has {1 / k} (frequency resolution {rx}, {ry})')
    w = num(s.Ssw(), 'Ssw')
    expect(w > 0 and abs(1 / w - k) <= t, lambda: f'Ssw is {w}, the grating has {1 / k} (frequency resolution {rx}, {ry})')
    px, py = s.period_x_y()
    for name, val, kk, tt in (('x', px, kx, tx), ('y', py, ky, ty)):
        val = num(val, f'period along {name}')
        f = 0.0 if math.isinf(val) else 1 / val
        expect(val > 0 and abs(f - abs(kk)) <= tt + 1e-12, lambda: f'period along {name} is {val}, expected {1 / abs(kk) if kk else math.inf}')
    ta = math.degrees(math.asin(min(1.0, t / k)) + max(bx, by))
    o = num(s.orientation(method='fft'), 'orientation')
    expect(-90 <= o <= 90, f'orientation {o} outside -90..90')
    true_o = -math.degrees(math.atan2(ky, kx))
    expect(angle_diff(o, true_o) <= ta + 1e-6, lambda: f'orientation (fft) is {o}, expected {true_o} +- {ta}')
    std = num(s.Std(), 'Std')
    true_d = math.degrees(math.atan2(ky, kx)) % 180
    expect(0 <= std < 180, f'Std {std} outside 0..180')
    expect(angle_diff(std, true_d) <= ta * (1.5 if bins else 1) + 0.5 + 1e-6, lambda: f'Std is {std}, expected {true_d} +- {ta}')
    for step in (1, 2, 5.0):
        v = num(s.Std(angle_step=step), f'Std({step})')
        expect(abs(v / step - round(v / step)) < 1e-9, f'Std({step}) = {v} is not a multiple of the step')
        expect(angle_diff(v, true_d) <= ta * (1.5 if bins else 1) + step + 1e-6, lambda: f'Std({step}) is {v}, expected {true_d}')


def labels(case, rec):
    rec.nontrivial(max(abs(case['u']), abs(case['v'])) >= 3)
    rec.label('equal spacing' if case['sx'] == case['sy'] else 'unequal spacing',
              'axis-aligned' if 0 in (case['u'], case['v']) else 'oblique', 'sinusoid' if not case.get('wave') else 'asymmetric wave', 'square' if case['nx'] == case['ny'] else 'rectangular')


HALF = {'nx': 64, 'ny': 64, 'sx': 2.0, 'sy': 2.0, 'u': 4.0, 'v': 0.5, 'phase': 0.25, 'a': 1.0, 'off': 0.0, 'noise': 0.0, 'seed': 0}


@C.sub('grid', lambda: gratings(integer=True, waves=(-5, 5, 1)), quick=480, thorough=8000, shards=4, tshards=8)
def grid(case, rec):
    labels(case, rec)
    fft_checks(case, rec, build(case), 0)


@C.sub('any', lambda: gratings(waves=(-1, 0.5)), quick=480, thorough=8000, shards=4, tshards=8, examples=[HALF])
def anyfreq(case, rec):
    labels(case, rec)
    fft_checks(case, rec, build(case), 1.0)


@C.sub('refined', lambda: gratings(min_n=60, max_n=140, per=(4, 4), sampling=0.1), quick=120, thorough=2400, shards=6, tshards=8)
def refined(case, rec):
    # the refined method follows the extrema from profile to profile, which needs well sampled periods along both axes
    labels(case, rec)
    s = build(case)
    kx, ky, k = truth(case)
    o = num(s.orientation(), 'orientation')
    expect(-90 <= o <= 90, f'orientation {o} outside -90..90')
    true_o = -math.degrees(math.atan2(ky, kx))
    # with noise, the angle follows from the position of the extrema over the smaller extent
    tol = 0.3 if not case['noise'] else 1.5 * max(1.0, 1 / (k * min(s.width_um, s.height_um)))
    expect(angle_diff(o, true_o) <= tol, lambda: f'orientation is {o}, expected {true_o}')


@C.sub('align', lambda: st.fixed_dictionaries({
    'g': gratings(min_n=80, max_n=150, per=(6, 6), sampling=0.1, equal=True), 'axis': st.sampled_from(['x', 'y']),
    'method': st.sampled_from(['fft', 'fft_refined']), 'inplace': st.booleans()}), quick=120, thorough=2400, shards=6, tshards=8)
def align(case, rec):
    g = case['g']
    labels(g, rec)
    rec.label(case['axis'], case['method'])
    s = build(g)
    r = s.align(axis=case['axis'], method=case['method'], inplace=case['inplace'])
    expect((r is s) == case['inplace'], 'align: identity of the result')
    z = np.array(r.data)
    expect(min(z.shape) >= 10, f'aligned surface has only {z.shape} points')
    z = z - z.mean()
    gy, gx = np.gradient(z)
    gx, gy = gx[2:-2, 2:-2], gy[2:-2, 2:-2]
    # dominant gradient direction from the structure tensor, relative to the x-axis
    a = 0.5 * math.degrees(math.atan2(2 * (gx * gy).sum(), (gx ** 2).sum() - (gy ** 2).sum()))
    want = 0.0 if case['axis'] == 'y' else 90.0
    kx, ky, k = truth(g)
    if case['method'] == 'fft':
        tol = math.degrees(math.asin(min(1.0, math.hypot(1 / ((g['nx'] - 1) * g['sx']), 1 / ((g['ny'] - 1) * g['sy'])) / k))) + 3
    else:
        tol = 3.0
    expect(angle_diff(a, want) <= tol, lambda: f'texture is {angle_diff(a, want)} degrees off the {case["axis"]}-axis after align ({case["method"]})')


@C.sub('spectrum', lambda: st.tuples(gen.surfaces(min_side=3), st.sampled_from([0.5, 1, 2, 7, 45.0, 90])).map(list), quick=200, thorough=4000,
       shards=2, tshards=4)
def spectrum(case, rec):
    s = gen.surface(case[0])
    z = np.array(s.data)
    rec.nontrivial(np.ptp(z) > 0)
    c = z - z.mean()
    angles, spec = s.get_fourier_transform().angular_power_spectrum(angle_step=case[1])
    o = s.get_fourier_transform()
    for g, step in ((s.Std(angle_step=case[1]), case[1]), (s.Std(case[1]), case[1]), (o.Std(case[1]), case[1]), (s.Std(), 0.5), (o.Std(), 0.5)):
        a, p = (angles, spec) if step == case[1] else o.angular_power_spectrum(angle_step=step)
        at = int(round(float(g) / step))
        expect(0 <= at < p.size and abs(a[at] - g) < 1e-9 and p[at] >= p.max() * (1 - 1e-7), lambda: f'Std({step}) is {g}, where the angular spectrum is not the largest')
    if np.ptp(z) > 0:
        for g, w, n in ((o.period(), s.period(), 'period'), (o.period_x_y()[0], s.period_x_y()[0], 'period in x'), (o.period_x_y()[1], s.period_x_y()[1], 'period in y'), (o.orientation(), s.orientation(method='fft'), 'orientation')):
            close(g, w, f'{n} of the transform and of the surface', rtol=1e-9)
    expect(np.array_equal(angles, np.arange(0, 180, case[1])) and spec.shape == angles.shape, 'angles of the angular spectrum')
    expect((spec >= 0).all(), 'negative power')
    total = (c ** 2).sum() * c.size
    close(spec.sum(), total, 'total of the angular spectrum', rtol=1e-7, atol=1e-9 * np.abs(z).max() ** 2 * z.size)
    # direct assignment of every spatial frequency to its angle
    ny, nx = z.shape
    F = np.abs(np.fft.fft2(c)) ** 2
    ref = np.zeros(angles.size)
    amb = 0.0
    for j in range(ny):
        for i in range(nx):
            fy = (j if j < (ny + 1) // 2 else j - ny) / ((ny - 1) * case[0]['sy'])
            fx = (i if i < (nx + 1) // 2 else i - nx) / ((nx - 1) * case[0]['sx'])
            t = math.degrees(math.atan2(fy, fx)) % 180.0
            if min(t % case[1], case[1] - t % case[1]) < 1e-6:
                amb += F[j, i]           # lies on the border of two bins
                continue
            ref[min(int(t / case[1]), angles.size - 1)] += F[j, i]
    d = spec - ref
    expect((d >= -1e-6 * total - 1e-12).all() and d.sum() <= amb + 1e-6 * total + 1e-9, 'angular spectrum differs from the direct assignment')


@C.sub('profile', lambda: st.fixed_dictionaries({
    'n': st.one_of(st.integers(16, 400), st.integers(16, 400), st.sampled_from([513, 1000, 1025, 4097, 10001])), 'cyc': st.integers(24, 1280), 'phase': st.integers(0, 15), 'a': gen.logfloat(-3, 2),
    'off': st.sampled_from([0.0, 1.0, -100.0]), 'step': gen.logfloat(-2, 1), 'noise': st.sampled_from([0.0, 0.0, 0.02])}), quick=400,
    thorough=8000, shards=2, tshards=4)
def profile(case, rec):
    from surfalize import Profile
    n = case['n']
    u = min(case['cyc'] / 8, max(3.0, 0.35 * n))
    x = np.arange(n)
    z = np.sin(2 * np.pi * (u * x / n + case['phase'] / 16))
    z = z + case['noise'] * np.random.Generator(np.random.PCG64(case['cyc'])).uniform(-1, 1, n)
    p = Profile(case['a'] * (z + case['off']), case['step'])
    rec.nontrivial()
    rec.label('whole periods' if u == int(u) else 'fraction')
    k = u / (n * case['step'])
    v = num(p.period(), 'period')
    expect(v > 0 and abs(1 / v - k) <= (1.05 if u != int(u) else 0.01) / (n * case['step']), lambda: f'period is {v}, expected {1 / k} ({u} cycles on {n} points)')
