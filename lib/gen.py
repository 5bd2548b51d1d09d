"""Generators of topographies: plain descriptions (drawn by Hypothesis) and the arrays built from them."""
import numpy as np
from hypothesis import strategies as st

from .harness import HarnessError


def logfloat(lo, hi, digits=3):
    """A float between 10**lo and 10**hi, log-uniform, with few significant digits (so that cases stay readable)."""
    return st.integers(int(lo * 100), int(hi * 100)).map(lambda e: float(f'{10 ** (e / 100):.{digits}g}'))


def steps():
    """(step_x, step_y): equal in about half of the cases."""
    s = st.sampled_from([(-2, 1.5)] * 8 + [(-5, -2), (1.5, 4)]).flatmap(lambda r: logfloat(*r))
    m = logfloat(-2, 1.5)                   # two independent ones are not too different: the cost of a filter grows with the ratio
    return st.one_of(s.map(lambda v: (v, v)), st.tuples(m, m),
                     st.tuples(s, st.sampled_from([0.25, 0.5, 2.0, 3.0, 1.1])).map(lambda t: (t[0], t[0] * t[1])))


KINDS = ('noise', 'levels', 'sine', 'walk', 'ramp', 'spikes', 'step', 'skew', 'plateau')


LONG = (129, 200, 255, 256, 257, 300, 511, 513, 700, 1000, 1023, 1025, 2049, 4097, 10001, 32769, 65537)
BIG = 3000


@st.composite
def big_shapes(draw, ndim=2, min_side=2, most=100000):
    """Shapes which exceed the block sizes, buffers and counters that code may use: strips and fields of up to `most` points."""
    if most >= 100000 and draw(st.integers(0, 5)) == 5:       # as large as a picture of a microscope
        if ndim == 1:
            return (draw(st.sampled_from([131073, 250000, 1000003])),)
        return (draw(st.sampled_from([320, 769, 1025])), draw(st.sampled_from([400, 768, 1024, 1025])))
    if ndim == 1:
        return (draw(st.sampled_from([v for v in LONG if v <= most])),)
    small = min_side + draw(st.integers(0, 3))
    if draw(st.integers(0, 2)) == 2:
        side = min(300, int(most ** 0.5))
        shape = (draw(st.integers(min(129, side), side)), draw(st.integers(min(129, side), side)))
    else:
        shape = (small, draw(st.sampled_from([v for v in LONG if v * small <= most])))
    return shape[::-1] if draw(st.booleans()) else shape


@st.composite
def fields(draw, min_side=2, max_side=24, kinds=KINDS, ndim=2, nan=False, nan_frac=0.3, allow_const=False,
           scale=None, offset=True, dtypes=('float64',), layouts=('C', 'C', 'C', 'F', 'strided'), shape=None,
           max_len=200, big=0, big_max=100000):
    """Description of a height field. `build` turns it into an ndarray. One field in `big` has hundreds of points along a side."""
    if shape is None and big and draw(st.integers(0, big - 1)) == big - 1:
        shape = draw(big_shapes(ndim, min_side, big_max))
    if shape is None:
        if ndim == 1:
            shape = (draw(st.integers(min_side, max_len)),)
        else:
            shape = (draw(st.integers(min_side, max_side)), draw(st.integers(min_side, max_side)))
    n = int(np.prod(shape))
    kind = draw(st.sampled_from(kinds + (('const',) if allow_const else ())))
    d = {'shape': tuple(int(v) for v in shape), 'kind': kind}
    if kind != 'const':
        if n <= 700 and draw(st.integers(0, 2)) == 0:
            d['bytes'] = draw(st.binary(min_size=2 * n, max_size=2 * n))
        else:
            d['seed'] = draw(st.integers(0, 2 ** 32 - 1))
    if kind == 'levels':
        d['k'] = draw(st.integers(2, 6))
    if kind == 'sine':
        d['fx'] = draw(st.integers(0, 8)) / 2
        d['fy'] = draw(st.integers(0, 8)) / 2
        d['phase'] = draw(st.integers(0, 7)) / 8
        d['noise'] = draw(st.sampled_from([0.0, 0.01, 0.1]))
    if kind == 'ramp':
        d['a'] = draw(st.integers(-4, 4))
        d['b'] = draw(st.integers(-4, 4))
    if kind == 'plateau':
        d['cut'] = draw(st.sampled_from(['low', 'high', 'mid']))
        d['at'] = draw(st.sampled_from([0.0, 0.2, 0.6, 0.9]))
    if scale is None:                       # one field in ten has very small or very large heights
        scale = draw(st.sampled_from([(-2, 2)] * 8 + [(-9, -5), (4, 8)]))
    d['scale'] = draw(logfloat(*scale))
    d['offset'] = draw(st.sampled_from([0.0, 0.0, 1.0, -3.0, 50.0, -1000.0])) * d['scale'] if offset else 0.0
    if nan:
        m = draw(st.sampled_from(['none', 'few', 'frac', 'edge', 'block']))
        d['nan'] = m
        if n > BIG and m in ('few', 'frac'):
            d['nan_seed'] = draw(st.integers(0, 2 ** 32 - 1))
            d['nan_p'] = 3 / n if m == 'few' else nan_frac * draw(st.sampled_from([0.01, 0.3, 1.0]))
        elif m == 'few':
            d['nan_at'] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True))
        elif m == 'frac':
            d['nan_at'] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=max(1, int(n * nan_frac)),
                                        unique=True))
        elif m == 'edge':
            d['nan_edge'] = draw(st.sampled_from(['first', 'last']))
        elif m == 'block':
            d['nan_block'] = draw(st.tuples(*[st.integers(0, max(0, s - 2)) for s in shape]))
    d['dtype'] = draw(st.sampled_from(dtypes))
    d['layout'] = draw(st.sampled_from(layouts)) if ndim == 2 else 'C'
    return d


def _base(d):
    """Values roughly within [-1, 1]."""
    n = int(np.prod(d['shape']))
    if d['kind'] == 'const':
        return np.zeros(n)
    if 'bytes' in d:
        return np.frombuffer(d['bytes'], '<i2').astype('float64') / 32768.0
    if 'seed' in d:
        return np.random.Generator(np.random.PCG64(d['seed'])).uniform(-1, 1, n)
    raise HarnessError('field without data')


def build(d):
    shape = tuple(d['shape'])
    n = int(np.prod(shape))
    u = _base(d).reshape(shape)
    kind = d['kind']
    grids = np.meshgrid(*[np.arange(s) / s for s in shape], indexing='ij')
    if kind == 'levels':
        z = np.floor((u + 1) / 2 * d['k'])
    elif kind == 'sine':
        f = (d['fy'], d['fx']) if len(shape) == 2 else (d['fx'],)
        arg = sum(fi * g for fi, g in zip(f, grids))
        z = np.round(np.sin(2 * np.pi * (arg + d['phase'])), 9) + d['noise'] * u
    elif kind == 'walk':
        z = u.copy()
        for ax in range(z.ndim):
            z = np.cumsum(z, axis=ax)
    elif kind == 'ramp':
        c = (d['a'], d['b'])
        z = u * 0.3 + sum(ci * g for ci, g in zip(c, grids))
    elif kind == 'spikes':
        z = np.where(np.abs(u) > 0.85, 5 * u, 0.01 * u)
    elif kind == 'step':
        z = np.where(grids[-1] < 0.5, 0.0, 2.0) + 0.1 * u
    elif kind == 'plateau':                       # a large part of the points has exactly the same height
        z = {'low': lambda: np.maximum(u, d['at']), 'high': lambda: np.minimum(u, -d['at']), 'mid': lambda: np.where(np.abs(u) > d['at'] / 2 + 0.4, u, 0.0)}[d['cut']]()
        if z.min() == z.max():
            z.flat[n // 2] += 1
    elif kind == 'skew':
        z = np.exp(3 * u)
    else:
        z = u
    z = z * d['scale'] + d['offset']
    if kind == 'const':
        z = np.full(shape, d['offset'] if d['offset'] else d['scale'])
    m = d.get('nan', 'none')
    if m != 'none':
        z = z.copy()
        if 'nan_seed' in d:
            z[np.random.Generator(np.random.PCG64(d['nan_seed'])).uniform(0, 1, shape) < d['nan_p']] = np.nan
        elif m in ('few', 'frac'):
            z.flat[d['nan_at']] = np.nan
        elif m == 'edge':
            if d['nan_edge'] == 'first':
                z[0] = np.nan
            else:
                z[..., -1] = np.nan
        elif m == 'block':
            z[tuple(slice(i, i + 2) for i in d['nan_block'])] = np.nan
        if np.isnan(z).all():
            z.flat[0] = d['offset']
    z = z.astype(d.get('dtype', 'float64'))
    if d.get('layout') == 'F':
        z = np.asfortranarray(z)
    elif d.get('layout') == 'strided':
        big = np.full((shape[0] * 2, shape[1] + 3), 7.0, dtype=z.dtype)
        view = big[::2, 1:-2]
        view[...] = z
        z = view
    return z


def has_nan(d):
    return d.get('nan', 'none') != 'none'


@st.composite
def surfaces(draw, **kw):
    f = draw(fields(ndim=2, **kw))
    sx, sy = draw(steps())
    return {'f': f, 'sx': sx, 'sy': sy}


@st.composite
def profiles(draw, **kw):
    f = draw(fields(ndim=1, **kw))
    return {'f': f, 'step': draw(logfloat(-2, 1.5))}


def surface(d):
    from surfalize import Surface
    return Surface(build(d['f']), d['sx'], d['sy'])


def profile(d):
    from surfalize import Profile
    return Profile(build(d['f']), d['step'])
