"""C23: depth, aspect ratio and homogeneity describe periodic textures."""
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.harness import Check, close, expect, fail, num, raises

C = Check('C23', 'A case is a grooved texture aligned with an axis (profile shape, period, depth of every line, phase, spacing) with the '
                 'arguments of depth, or a surface divided into unit cells. Non-trivial: varying depth, noise, or more than one cell; '
                 'distinct by the full case description.')


@st.composite
def textures(draw, shapes=('square', 'sine')):
    shape = draw(st.sampled_from(shapes))
    p = 4 * draw(st.integers(4, 8))                   # even half periods: the centres of plateaus lie between two points
    cycles = draw(st.sampled_from([16, 33])) if draw(st.integers(0, 19)) == 19 else draw(st.integers(4, 8))
    lines = draw(st.sampled_from([129, 257, 300])) if draw(st.integers(0, 19)) == 19 else draw(st.integers(2, 40))
    nprofiles = draw(st.one_of(st.none(), st.integers(1, lines), st.just(lines)))
    d = {'shape': shape, 'p': p, 'cycles': cycles, 'lines': lines, 'extra': draw(st.sampled_from([0, 0, 0, 1, 3])), 'shift': draw(st.integers(0, p - 1)),
         'h': draw(gen.logfloat(-2, 2)), 'off': draw(st.sampled_from([0.0, 1.0, -30.0])), 'vary': draw(st.sampled_from([0.0, 0.2, 0.5])),
         'axis': draw(st.sampled_from(['x', 'y'])), 'steps': draw(gen.steps()), 'seed': draw(st.integers(0, 2 ** 16)), 'nprofiles': nprofiles,
         'width': draw(st.sampled_from([None, 0.1, 0.2, 0.25, 0.3])), 'noise': 0.0}
    if shape == 'sine':
        d['noise'] = draw(st.sampled_from([0.0, 0.0, 0.02]))
    return d


def build(d):
    """(surface, depth of every line)"""
    from surfalize import Surface
    n = d['p'] * d['cycles'] + d['extra']
    r = np.random.Generator(np.random.PCG64(d['seed']))
    depth = d['h'] * (1 + d['vary'] * r.uniform(-1, 1, d['lines']))
    i = np.arange(n) + d['shift']
    if d['shape'] == 'square':
        w = np.where(i % d['p'] < d['p'] // 2, 0.5, -0.5)
    else:
        w = 0.5 * np.sin(2 * np.pi * i / d['p'])
    z = depth[:, None] * w + d['off'] * d['h'] + d['noise'] * d['h'] * r.uniform(-1, 1, (d['lines'], n))
    if d['axis'] == 'y':
        z = z.T.copy()
    return Surface(z, *d['steps']), depth


def arguments(d):
    kw = {}
    if d['nprofiles'] is not None:
        kw['nprofiles'] = d['nprofiles']
    if d['width'] is not None:
        kw['sampling_width'] = d['width']
    return kw


def sampled(d):
    """indices of the equally spaced profiles"""
    k = d['nprofiles'] or 30
    dist = int((d['lines'] - 1) / max(k - 1, 1))
    return np.arange(k) * dist


@C.sub('depth', textures, quick=400, thorough=6000, shards=6, tshards=8)
def depth(case, rec):
    s, h = build(case)
    kw = arguments(case)
    rec.label(case['shape'], 'grooves along ' + ('y' if case['axis'] == 'x' else 'x'), 'default profiles' if case['nprofiles'] is None else 'given profiles')
    if kw.get('nprofiles', 30) > case['lines']:
        rec.nontrivial()
        rec.label('too many profiles')
        e = raises(lambda: s.depth(**kw), ValueError)
        expect(e is not None, f'{kw.get("nprofiles", 30)} profiles of {case["lines"]} lines accepted')
        return
    rec.nontrivial(case['vary'] > 0 or case['noise'] > 0)
    mean, std = s.depth(**kw)
    used = h[sampled(case)]
    width = case['width'] or 0.2
    if case['shape'] == 'square':
        tol = 1e-9
        close(mean, used.mean(), 'mean depth', rtol=tol)
        close(std, used.std(), 'deviation of the depth', rtol=1e-6, atol=1e-9 * case['h'])
        return
    # the median over the sampling width lies between the extremum and the value at the edge of the window
    a = 2 * math.pi * (int(case['p'] * 1.03 * width / 2) + 1.6) / case['p']
    lo, hi = math.cos(a), 1.0
    nz = 2 * case['noise'] * case['h']
    # the fits of the lines differ in the last digits: an extremum at the very end of the surface may count for some lines and not for others
    srt = np.sort(used)
    k = case['cycles'] - 2

    def weighted(v, m):
        return float((k * v.sum() + v[len(v) - m:].sum()) / (k * len(v) + m))
    most = max(weighted(srt, m) for m in range(len(srt) + 1))
    least = min(weighted(srt[::-1], m) for m in range(len(srt) + 1))
    expect(lo * least - nz <= num(mean) <= hi * most * (1 + 1e-9) + nz, lambda: f'mean depth {mean} instead of {used.mean()} ({lo * least} to {most})')
    bias = (1 - lo) * used.max() + nz
    expect(abs(num(std) - used.std()) <= bias + 1e-9, lambda: f'deviation {std} instead of {used.std()} +- {bias}')


@C.sub('window', lambda: st.fixed_dictionaries({'p': st.integers(8, 40), 'cycles': st.integers(4, 8), 'phase': st.integers(0, 31).map(lambda v: v / 32), 'lines': st.integers(2, 6),
                                                'width': st.sampled_from([0.1, 0.2, 0.3]), 'axis': st.sampled_from(['x', 'y'])}), quick=100, thorough=2000, shards=2, tshards=4,
       examples=[{'p': 10, 'cycles': 4, 'phase': 0.0625, 'lines': 2, 'width': 0.2, 'axis': 'x'}])
def window(case, rec):
    """The extrema of a pure sine are sampled around the points nearest to them."""
    from surfalize import Surface
    p = case['p']
    z = np.tile(np.sin(2 * np.pi * (np.arange(p * case['cycles']) / p + case['phase'])), (case['lines'], 1))
    s = Surface(z if case['axis'] == 'x' else z.T.copy(), 1.0, 1.0)
    mean, _ = s.depth(nprofiles=case['lines'], sampling_width=case['width'])
    rec.nontrivial()
    # position of the maxima and minima between two points, the point nearest to them and the median of its surroundings
    k = int(p * case['width'] / 2)
    lo = hi = 0.0
    for e in (p * (0.25 - case['phase']), p * (0.75 - case['phase'])):
        d = e - math.floor(e)
        near = [n for n in (0, 1) if abs(d - n) <= 0.5 + 1e-4]
        v = [np.median(np.cos(2 * np.pi * (np.arange(-k, k + 1) + n - d) / p)) for n in near]
        lo, hi = lo + min(v), hi + 1.0            # a median further away may be higher, never above the extremum
    expect(lo - 1e-6 <= num(mean) <= hi + 1e-6, lambda: f'depth {mean} of a sine of depth 2 instead of {lo} ... {hi} when sampled around the points nearest to the extrema',
           sig='window-truncation' if num(mean) < lo else None)


@C.sub('aspect', lambda: textures(), quick=120, thorough=2000, shards=4, tshards=8)
def aspect(case, rec):
    case = dict(case, lines=max(30, case['lines']), nprofiles=None, width=None)
    s, h = build(case)
    rec.nontrivial(case['vary'] > 0)
    rec.label(case['shape'])
    if case['seed'] % 3 == 0:
        s.depth(nprofiles=2)                       # earlier calls with other arguments do not matter
    if case['seed'] % 3 == 1:
        s.period()
    v = num(s.aspect_ratio(), 'aspect ratio')
    close(v, s.depth()[0] / s.period(), 'aspect ratio against depth / period', rtol=1e-12)
    n = case['p'] * case['cycles'] + case['extra']
    step = case['steps'][0] if case['axis'] == 'x' else case['steps'][1]
    true = h[sampled(case)].mean() / (case['p'] * step)
    close(v, true, 'aspect ratio', rtol=1.6 / case['cycles'] * (1 if case['extra'] else 0.1) + 2.0 / n + (0.0 if case['shape'] == 'square' else 0.2))


@C.sub('oblique', lambda: st.fixed_dictionaries({'n': st.tuples(st.integers(40, 90), st.integers(40, 90)), 'w': st.tuples(st.integers(-16, 16), st.integers(12, 40)), 'swap': st.booleans(), 'steps': gen.steps(),
                                                 'noise': st.sampled_from([0.0, 0.05]), 'seed': st.integers(0, 2 ** 16)}), quick=80, thorough=2000, shards=2, tshards=4)
def oblique(case, rec):
    """The aspect ratio is depth over period also of textures in other directions."""
    from surfalize import Surface
    ny, nx = case['n']
    y, x = np.mgrid[0:ny, 0:nx]
    a, b = case['w'][::-1] if not case['swap'] else case['w']
    z = np.sin(2 * np.pi * (a / 4 * x / nx + b / 4 * y / ny)) + case['noise'] * np.random.Generator(np.random.PCG64(case['seed'])).uniform(-1, 1, (ny, nx))
    d = raises(lambda: Surface(z, *case['steps']).depth(), Exception)
    e = raises(lambda: Surface(z, *case['steps']).aspect_ratio(), Exception)
    expect(type(d) is type(e), lambda: f'depth raises {d!r}, the aspect ratio {e!r}')
    rec.nontrivial(case['w'][0] != 0)
    if e is not None:
        rec.label(type(e).__name__)
        return
    s = Surface(z, *case['steps'])
    close(s.aspect_ratio(), Surface(z, *case['steps']).depth()[0] / Surface(z, *case['steps']).period(), 'aspect ratio against depth / period', rtol=1e-12)
    rec.label('oblique' if case['w'][0] else 'aligned')


PARS = ('Sa', 'Sq', 'Sz', 'Sku', 'Sdr', 'Sdq', 'Sk', 'Sp', 'Vmc', 'surface_area')


@st.composite
def cells(draw):
    cx, cy = draw(st.integers(3, 8)), draw(st.integers(3, 8))        # the projected area of smaller cells is zero (finding of C06)
    step = draw(st.one_of(gen.logfloat(-2, 1), st.sampled_from([0.1, 0.2, 0.3, 0.7])))
    equal = draw(st.booleans())
    d = {'period': None, 'kx': 1, 'ky': 1, 'seed': draw(st.integers(0, 2 ** 16)), 'equal': equal,
         'rest': (draw(st.integers(0, 1)), draw(st.integers(0, 1))), 'h': draw(gen.logfloat(-1, 2)), 'off': draw(st.sampled_from([0.0, 5.0])),
         'pars': draw(st.one_of(st.none(), st.lists(st.sampled_from(PARS), min_size=1, max_size=3, unique=True)))}
    many = draw(st.integers(0, 11)) == 11
    d['kx'], d['ky'] = (draw(st.integers(12, 17)), draw(st.integers(10, 16))) if many else (draw(st.integers(1, 5)), draw(st.integers(1, 5)))
    if many:
        d['pars'] = draw(st.sampled_from([('Sa',), ('Sdq', 'Sz')]))
    # square cells: period = c * step along both axes; with unequal spacing the cells have different numbers of points
    ratio = draw(st.sampled_from([1, 1, 2, 3]))
    d.update(step_x=step, step_y=step * ratio, cx=cy * ratio, cy=cy) if draw(st.booleans()) else d.update(step_x=step * ratio, step_y=step, cx=cx, cy=cx * ratio)
    return d


def gini(v):
    v = np.asarray(v, dtype='float64')
    return np.abs(v[:, None] - v[None, :]).sum() / (2 * v.size ** 2 * v.mean())


@C.sub("homogeneity", cells, quick=280, thorough=6000, shards=4, tshards=8)
def homogeneity(case, rec):
    from surfalize import Surface
    r = np.random.Generator(np.random.PCG64(case['seed']))
    cx, cy, kx, ky = case['cx'], case['cy'], case['kx'], case['ky']
    if case['equal']:
        z = np.tile(r.uniform(-1, 1, (cy, cx)), (ky, kx))
    else:
        z = r.uniform(-1, 1, (cy * ky, cx * kx)) * np.repeat(np.repeat(r.uniform(0.2, 3, (ky, kx)), cy, 0), cx, 1)
    # an incomplete cell at the end is not used
    z = np.pad(z, ((0, case['rest'][1]), (0, case['rest'][0])), constant_values=7.0) * case['h'] + case['off']
    s = Surface(z, case['step_x'], case['step_y'])
    period = cx * case['step_x']
    kw = {'period': period}
    if case['pars']:
        kw['parameters'] = tuple(case['pars'])
    got = num(s.homogeneity(**kw), 'homogeneity')
    rec.nontrivial(kx * ky > 1)
    rec.label('equal cells' if case['equal'] else 'different cells', f'{min(kx * ky, 5)} cells', 'default parameters' if not case['pars'] else 'given parameters',
              'unequal spacing' if case['step_x'] != case['step_y'] else 'equal spacing')
    expect(0 <= got <= 1, f'homogeneity {got} outside 0..1')
    if case['equal']:
        close(got, 1.0, 'homogeneity of equal cells', rtol=0, atol=1e-9)
        return
    want = []
    for p in case['pars'] or ('Sa', 'Sku', 'Sdr'):
        v = [getattr(Surface(z[cy * i:cy * (i + 1), cx * j:cx * (j + 1)].copy(), case['step_x'], case['step_y']), p)() for i in range(ky) for j in range(kx)]
        want.append(1 - gini(v))
    close(got, np.mean(want), f'homogeneity for {case["pars"]}', rtol=0, atol=0.51e-4 + 1e-5)


@C.sub('automatic', lambda: textures(), quick=80, thorough=1500, shards=2, tshards=8)
def automatic(case, rec):
    """without a period, the cells have the size of the period found"""
    case = dict(case, lines=max(case['p'] * 2, case['lines']), steps=(case['steps'][0],) * 2)
    s, h = build(case)
    rec.nontrivial()
    a = num(s.homogeneity(), 'homogeneity')
    b = num(s.homogeneity(period=s.period()), 'homogeneity')
    close(a, b, 'homogeneity with the automatic period', rtol=0, atol=0)
    expect(0 <= a <= 1, f'homogeneity {a} outside 0..1')


@C.sub('refused', lambda: st.tuples(st.lists(st.sampled_from(PARS), max_size=2, unique=True), st.sampled_from(['Ssk', 'depth', 'homogeneity', 'orientation', 'aspect_ratio', 'period']), st.integers(0, 2),
                                    st.sampled_from([None, 4.0])).map(list), quick=60, thorough=300, shards=1)
def refused(case, rec):
    from surfalize import Surface
    pars = list(case[0])
    pars.insert(min(case[2], len(pars)), case[1])
    s = Surface(np.sin(np.arange(24)[None, :] * np.pi / 4).repeat(12, 0) + np.arange(12)[:, None] * 0.01, 1, 1)
    rec.nontrivial()
    rec.label(case[1])
    kw = {} if case[3] is None else {'period': case[3]}
    expect(raises(lambda: s.homogeneity(parameters=tuple(pars), **kw), ValueError) is not None, f'homogeneity of {pars} accepted')
