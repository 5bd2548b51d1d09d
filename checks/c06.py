"""C06: slope and area parameters equal their definitions."""
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.harness import Check, close, expect, fail, num

C = Check('C06', 'A case is a surface or profile (9 kinds of topography, 2..24 points per side, equal and unequal spacing, '
                 'several dtypes and memory layouts) or an inclined plane. Non-trivial: heights not constant; distinct by '
                 'the full case description.')


def cells(z, sx, sy):
    """(sum of both triangles of every cell, twice the first triangle of every cell), summed with fsum"""
    z = z.astype('float64')
    both, first = [], []
    for i in range(z.shape[0] - 1):
        for j in range(z.shape[1] - 1):
            a, b, c, d = z[i, j], z[i, j + 1], z[i + 1, j], z[i + 1, j + 1]
            n1 = math.sqrt(((b - a) * sy) ** 2 + ((c - a) * sx) ** 2 + (sx * sy) ** 2) / 2
            n2 = math.sqrt(((c - d) * sy) ** 2 + ((b - d) * sx) ** 2 + (sx * sy) ** 2) / 2
            both.append(n1 + n2)
            first.append(2 * n1)
    return math.fsum(both), math.fsum(first)


def either(value, right, listed, what, sig, rec, rtol=1e-9):
    """value must be the right one; the listed finding's exact value is reported under its signature"""
    v = num(value, what)
    if abs(v - right) <= rtol * abs(right):
        return
    if abs(v - listed) <= rtol * abs(listed):
        if not rec.known(sig):
            fail(f'{what}: got {v!r}, expected {right!r}', sig)
        return
    fail(f'{what}: got {v!r}, expected {right!r} (listed deviation: {listed!r})')


EX = {'f': {'shape': (3, 3), 'kind': 'noise', 'bytes': bytes(range(18)), 'scale': 1.0, 'offset': 0.0, 'dtype': 'float64',
            'layout': 'C'}, 'sx': 1.0, 'sy': 1.0}
EX2 = dict(EX, f=dict(EX['f'], bytes=bytes.fromhex('0010') * 4 + bytes.fromhex('ff7f') + bytes.fromhex('0010') * 4))
tiny = 1e-9


@C.sub('direct', lambda: gen.surfaces(allow_const=True, big=15, dtypes=('float64', 'float64', 'float32', 'int32', '>f8')),
       quick=640, thorough=12000, shards=8, tshards=8, examples=[EX, EX2])
def direct(case, rec):
    s = gen.surface(case)
    z = np.array(s.data).astype('float64')
    ny, nx = z.shape
    sx, sy = case['sx'], case['sy']
    rec.nontrivial(np.ptp(z) > 0)
    rec.label(case['f']['kind'], 'equal spacing' if sx == sy else 'unequal spacing', 'square' if nx == ny else 'rectangular')
    f32 = case['f']['dtype'] == 'float32'
    r = 1e-4 if f32 else 1e-9
    both, first = cells(z, sx, sy)
    area = s.surface_area()
    either(area, both, first, 'surface area', 'second-triangle', rec, r)
    if nx > 2 and ny > 2:
        either(s.projected_area(), (nx - 1) * sx * (ny - 1) * sy, (nx - 2) * sx * (ny - 2) * sy, 'projected area', 'projected-area', rec)
        close(s.Sdr(), (area / s.projected_area() - 1) * 100, 'Sdr vs areas', rtol=1e-9, atol=1e-7)
    dx = np.diff(z, axis=1) / sx
    dy = np.diff(z, axis=0) / sy
    qx, qy = (dx ** 2).sum(), (dy ** 2).sum()
    either(s.Sdq(), math.sqrt(qx / dx.size + qy / dy.size), math.sqrt((qx + qy) / z.size), 'Sdq', 'sdq-normalisation', rec, r)


@C.sub('offset', lambda: st.tuples(gen.surfaces(scale=(-1, 1), big=20), st.sampled_from([1.0, -30.0, 1000.0])).map(list), quick=200,
       thorough=4000, shards=4, tshards=8)
def offset(case, rec):
    from surfalize import Surface
    s = gen.surface(case[0])
    rec.nontrivial()
    t = Surface(s.data + case[1] * case[0]['f']['scale'], s.step_x, s.step_y)
    for n in ('Sdq', 'surface_area', 'Sdr'):
        if n == 'Sdr' and min(s.data.shape) < 3:
            continue
        close(getattr(t, n)(), getattr(s, n)(), f'{n} after shifting the heights', rtol=1e-7, atol=1e-6)


@C.sub('plane', lambda: st.fixed_dictionaries({
    'shape': st.tuples(st.integers(3, 40), st.integers(3, 40)), 'a': st.integers(-30, 30), 'b': st.integers(-30, 30),
    'c': st.sampled_from([0.0, 5.0, -100.0]), 'steps': gen.steps()}), quick=200, thorough=4000, shards=4, tshards=8)
def plane(case, rec):
    from surfalize import Surface
    ny, nx = case['shape']
    sx, sy = case['steps']
    a, b = case['a'] / 10, case['b'] / 10
    y, x = np.mgrid[0:ny, 0:nx]
    s = Surface(a * sx * x + b * sy * y + case['c'], sx, sy)
    rec.nontrivial(a != 0 or b != 0)
    rec.label('both slopes' if a and b else 'one slope' if a or b else 'flat')
    g = math.sqrt(1 + a * a + b * b)
    close(s.surface_area(), (nx - 1) * (ny - 1) * sx * sy * g, 'area of an inclined plane', rtol=1e-8)
    lx, ly = a * a * (nx - 1) * ny, b * b * nx * (ny - 1)
    either(s.Sdq(), math.hypot(a, b), math.sqrt((lx + ly) / (nx * ny)), 'Sdq of an inclined plane', 'sdq-normalisation', rec, 1e-7)
    p = (nx - 1) * (ny - 1) / ((nx - 2) * (ny - 2))
    v = num(s.Sdr(), 'Sdr')
    if abs(v - (g - 1) * 100) > 1e-6 * max(1, g * 100):
        expect(abs(v - (g * p - 1) * 100) <= 1e-6 * max(1, g * p * 100), lambda: f'Sdr of an inclined plane is {v} %, expected {(g - 1) * 100} %')
        expect(rec.known('projected-area'), f'Sdr of an inclined plane is {v} %, expected {(g - 1) * 100} %', 'projected-area')


@C.sub('profile', lambda: gen.profiles(allow_const=True, big=15, dtypes=('float64', 'float64', 'float32', 'int32')), quick=400,
       thorough=8000, shards=4, tshards=8)
def prof(case, rec):
    p = gen.profile(case)
    z = np.array(p.data).astype('float64')
    rec.nontrivial(np.ptp(z) > 0)
    exp = math.sqrt(math.fsum(((z[i + 1] - z[i]) / case['step']) ** 2 for i in range(z.size - 1)) / (z.size - 1))
    close(p.Rdq(), exp, 'Rdq', rtol=1e-4 if case['f']['dtype'] == 'float32' else 1e-9)
