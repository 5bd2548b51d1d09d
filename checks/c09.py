"""C09: the Gaussian filter has the ISO transmission characteristic."""
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.harness import Check, close_arr, expect, raises, same_arr

C = Check('C09', 'A case is a height field or sinusoid (surface or profile, equal and unequal spacing) with cutoffs, filter type and '
                 'end-effect mode. Non-trivial: heights not constant; distinct by the full case description.')
MODES = ('reflect', 'constant', 'nearest', 'mirror', 'wrap')
PAD = {'reflect': 'symmetric', 'constant': 'constant', 'nearest': 'edge', 'mirror': 'reflect', 'wrap': 'wrap'}
K = math.log(2) / 2 / math.pi ** 2          # sigma^2 = K cutoff^2


def weights(cutoff_px):
    """Sampled Gaussian weighting function of the standard, far beyond its significant support."""
    sigma = math.sqrt(K) * cutoff_px
    r = int(6 * sigma) + 2
    w = np.exp(-np.arange(-r, r + 1) ** 2 / (2 * sigma ** 2)) if sigma > 1e-6 else (np.arange(-r, r + 1) == 0) * 1.0
    return w / w.sum(), r


def convolve(z, axis, cutoff_px, mode):
    w, r = weights(cutoff_px)
    pad = [(0, 0)] * z.ndim
    pad[axis] = (r, r)
    p = np.pad(z, pad, mode=PAD[mode]) if z.shape[axis] > 1 or mode != 'mirror' else np.pad(z, pad, mode='edge')
    n = z.shape[axis]
    out = np.zeros_like(z)
    for k in range(2 * r + 1):
        sl = [slice(None)] * z.ndim
        sl[axis] = slice(k, k + n)
        out = out + w[k] * p[tuple(sl)]
    return out


def lowpass_ref(z, steps, cutoff, mode):
    for axis, s in enumerate(steps):
        z = convolve(z, axis, cutoff / s, mode)
    return z


def transfer(cutoff_px, cycles, n):
    """Transmission of the sampled weighting function and of the standard's formula at cycles/n."""
    w, r = weights(cutoff_px)
    f = cycles / n
    return float((w * np.cos(2 * np.pi * f * np.arange(-r, r + 1))).sum()), 2.0 ** -((cutoff_px * f) ** 2)


@st.composite
def topo(draw, **kw):
    if draw(st.integers(0, 2)) == 0:
        return {'p': draw(gen.profiles(max_len=80, big=25, **kw))}
    return {'s': draw(gen.surfaces(big=25, **kw))}


def make(t):
    return gen.profile(t['p']) if 'p' in t else gen.surface(t['s'])


def steps_of(t):
    return (t['p']['step'],) if 'p' in t else (t['s']['sy'], t['s']['sx'])


def geometry(r, t, what):
    if 'p' in t:
        expect(r.step == t['p']['step'], f'{what}: step changed')
    else:
        expect((r.step_x, r.step_y) == (t['s']['sx'], t['s']['sy']), f'{what}: step changed')


def lab(t, rec):
    rec.label('profile' if 'p' in t else 'equal spacing' if t['s']['sx'] == t['s']['sy'] else 'unequal spacing')


SHORT = st.integers(20, 2400).map(lambda v: v / 100)
CUT = st.one_of(SHORT, SHORT, SHORT, st.integers(2400, 16000).map(lambda v: v / 100))       # in units of the smallest spacing


@C.sub('kernel', lambda: st.tuples(topo(dtypes=('float64', 'float64', 'float32', 'int32')), CUT, st.sampled_from(MODES),
                                   st.sampled_from(['lowpass', 'highpass', 'both', 'bandpass']),
                                   st.integers(101, 400).map(lambda v: v / 100), st.booleans()).map(list),
       quick=960, thorough=16000, shards=4, tshards=8)
def kernel(case, rec):
    t, cut, mode, ftype, factor, inplace = case
    s = make(t)
    z = np.array(s.data).astype('float64')
    steps = steps_of(t)
    c = (cut if z.size <= 150000 else min(cut, 24)) * min(steps)
    c2 = c * factor
    rec.nontrivial(np.ptp(z) > 0)
    lab(t, rec)
    rec.label(mode, ftype)
    kw = {'cutoff2': c2} if ftype == 'bandpass' else {}
    inplace = inplace and ftype != 'both'
    r = s.filter(ftype, c, inplace=inplace, endeffect_mode=mode, **kw)
    low = lowpass_ref(z, steps, c, mode)
    tol = 1.5e-3 * np.abs(z - (0 if mode == 'constant' else z.mean())).max() + 2e-7 * np.abs(z).max()
    tol *= 2 if ftype == 'bandpass' else 1
    if ftype == 'both':
        expect(isinstance(r, tuple) and len(r) == 2, 'filter both does not return two results')
        exp = [(r[0], z - low, 'high-pass of both'), (r[1], low, 'low-pass of both')]
    elif ftype == 'lowpass':
        exp = [(r, low, 'low-pass')]
    elif ftype == 'highpass':
        exp = [(r, z - low, 'high-pass')]
    else:
        exp = [(r, low - lowpass_ref(low, steps, c2, mode), 'band-pass')]
    for got, want, what in exp:
        expect(type(got) is type(s), f'{what}: type of the result')
        expect((got is s) == inplace, f'{what}: identity of the result')
        geometry(got, t, what)
        close_arr(np.array(got.data), want, f'{what} ({mode})', rtol=0, atol=tol)
    if not inplace:
        same_arr(np.array(s.data).astype('float64'), z, 'source after filtering')


@st.composite
def sines(draw):
    prof = draw(st.integers(0, 2)) == 0
    side = st.one_of(st.integers(8, 80), st.integers(8, 80), st.integers(81, 600))
    nx, ny = draw(side), draw(side)
    sx, sy = draw(gen.steps())
    return {'profile': prof, 'nx': nx, 'ny': 1 if prof else ny, 'sx': sx, 'sy': sy, 'u': draw(st.integers(0, nx // 2 - 1)),
            'v': 0 if prof else draw(st.integers(-(ny // 2 - 1), ny // 2 - 1)), 'phase': draw(st.integers(0, 15)) / 16,
            'a': draw(gen.logfloat(-2, 2)), 'off': draw(st.sampled_from([0.0, 2.0, -50.0])), 'cut': draw(st.integers(30, 4000)) / 100,
            'by': draw(st.sampled_from(['step', 'wave', 'wave'])), 'type': draw(st.sampled_from(['lowpass', 'highpass', 'bandpass'])),
            'factor': draw(st.sampled_from([1.2, 2.0, 5.0]))}


@C.sub('sine', sines, quick=960, thorough=16000, shards=4, tshards=8)
def sine(case, rec):
    from surfalize import Profile, Surface
    d = case
    y, x = np.mgrid[0:d['ny'], 0:d['nx']]
    wave = np.cos(2 * np.pi * (d['u'] * x / d['nx'] + d['v'] * y / d['ny'] + d['phase']))
    z = d['a'] * (wave + d['off'])
    c = d['cut'] * min(d['sx'], d['sy'])
    fx, fy = d['u'] / (d['nx'] * d['sx']), d['v'] / (d['ny'] * d['sy'])
    f = math.hypot(fx, fy)
    if d['by'] == 'wave' and f > 0:
        c = (0.3 + d['cut'] / 20) / f             # 0.3 .. 2.3 wavelengths
    rec.nontrivial(f > 0)
    rec.label(d['type'], 'profile' if d['profile'] else 'equal spacing' if d['sx'] == d['sy'] else 'unequal spacing')

    def trans(cut):
        tx, ix = transfer(cut / d['sx'], d['u'], d['nx'])
        ty, iy = (1.0, 1.0) if d['profile'] else transfer(cut / d['sy'], d['v'], d['ny'])
        if abs(tx * ty - ix * iy) < 5e-4:      # the weighting function is sampled finely enough for the closed form
            return ix * iy
        rec.label('weighting function undersampled')
        return tx * ty

    s = Profile(z[0], d['sx']) if d['profile'] else Surface(z, d['sx'], d['sy'])
    t1 = trans(c)
    if d['type'] == 'lowpass':
        exp, r = d['a'] * (t1 * wave + d['off']), s.filter('lowpass', c, endeffect_mode='wrap')
    elif d['type'] == 'highpass':
        exp, r = d['a'] * (1 - t1) * wave, s.filter('highpass', c, endeffect_mode='wrap')
    else:
        c2 = c * d['factor']
        exp, r = d['a'] * t1 * (1 - trans(c2)) * wave, s.filter('bandpass', c, cutoff2=c2, endeffect_mode='wrap')
    if d['profile']:
        exp = exp[0]
    close_arr(np.array(r.data), exp, f'{d["type"]} of a sinusoid (cutoff {c}, wavelength {1 / f if f else math.inf})', rtol=0,
              atol=d['a'] * (2e-3 + 1e-9 * abs(d['off'])))


@C.sub('laws', lambda: st.tuples(topo(), CUT, st.sampled_from(MODES), st.integers(101, 400).map(lambda v: v / 100),
                                 st.sampled_from([-3.0, 0.5, 20.0])).map(list), quick=800, thorough=12000, shards=4, tshards=8)
def laws(case, rec):
    from surfalize import Profile, Surface
    from surfalize.filter import GaussianFilter
    t, cut, mode, factor, k = case
    s = make(t)
    z = np.array(s.data)
    steps = steps_of(t)
    c = cut * min(steps)
    c2 = c * factor
    rec.nontrivial(np.ptp(z) > 0)
    lab(t, rec)
    rec.label(mode)
    tol = 1e-9 * np.abs(z).max()

    def new(a):
        return Profile(a, *steps) if 'p' in t else Surface(a, steps[1], steps[0])

    low = np.array(s.filter('lowpass', c, endeffect_mode=mode).data)
    high = np.array(s.filter('highpass', c, endeffect_mode=mode).data)
    close_arr(low + high, z, 'low-pass plus high-pass', rtol=0, atol=tol)
    h, l = s.filter('both', c, endeffect_mode=mode)
    same_arr(np.array(h.data), high, 'first result of both')
    same_arr(np.array(l.data), low, 'second result of both')
    band = np.array(s.filter('bandpass', c, cutoff2=c2, endeffect_mode=mode).data)
    close_arr(band, np.array(new(low).filter('highpass', c2, endeffect_mode=mode).data), 'band-pass', rtol=0, atol=tol)
    # linearity
    w = np.roll(z, 1, axis=-1) * 2 + 1
    lw = np.array(new(w).filter('lowpass', c, endeffect_mode=mode).data)
    lc = np.array(new(z * k + w).filter('lowpass', c, endeffect_mode=mode).data)
    close_arr(lc, k * low + lw, 'low-pass of a linear combination', rtol=0, atol=1e-8 * (np.abs(z).max() * (abs(k) + 2) + 1))
    # constants
    if mode != 'constant':
        const = new(np.full(z.shape, k))
        close_arr(np.array(const.filter('lowpass', c, endeffect_mode=mode).data), np.full(z.shape, k), 'low-pass of a constant', rtol=1e-9)
        close_arr(np.array(const.filter('highpass', c, endeffect_mode=mode).data), np.zeros(z.shape), 'high-pass of a constant', atol=1e-9 * abs(k))
    # default end effects and the filter object
    if mode == 'reflect':
        same_arr(np.array(s.filter('lowpass', c).data), low, 'default end-effect mode')
    g = GaussianFilter(c, 'highpass', endeffect_mode=mode)
    same_arr(np.array(g(s).data), high, 'GaussianFilter called')
    same_arr(np.array(g.apply(s).data), high, 'GaussianFilter applied')
    same_arr(np.array(s.data), z, 'source')
    # refusals leave the topography alone
    for inplace in (False, True):
        for args, kw in ((('bandpass', c), {}), (('bandpass', c), {'cutoff2': c}), (('bandpass', c2), {'cutoff2': c}),
                         (('median', c), {}), (('', c), {})):
            e = raises(lambda: s.filter(*args, inplace=inplace, **kw), ValueError)
            expect(e is not None, f'filter{args} {kw} is not rejected')
    expect(raises(lambda: s.filter('both', c, inplace=True), ValueError) is not None, 'both inplace is not rejected')
    same_arr(np.array(s.data), z, 'source after rejected calls')
