"""C04: the material ratio curve is the height distribution."""
import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.curve import DELTA, Ref
from lib.harness import Check, close, expect, fail, num

C = Check('C04', 'A case is a surface or profile (8 kinds of height distribution incl. heavily tied and skewed ones, '
                 '4..12100 points) with a list of material ratios and relative heights. Non-trivial: at least three '
                 'distinct heights; distinct by the full case description.')

ratios = st.one_of(st.floats(0, 100).map(lambda v: round(v, 3)), st.sampled_from([0.0, 100.0, 50.0, 10.0, 80.0, 2.5, 0.004, 99.995]))


@st.composite
def topo(draw, kinds=gen.KINDS, big=True):
    which = draw(st.sampled_from(['S', 'S', 'P']))
    if which == 'S':
        shape = draw(st.one_of(st.tuples(st.integers(2, 20), st.integers(2, 20)),
                               st.tuples(st.integers(30, 60), st.integers(30, 60)) if big else st.nothing(),
                               st.just((110, 110)) if big else st.nothing(), gen.big_shapes() if big else st.nothing()))
        f = draw(gen.fields(shape=shape, kinds=kinds))
        sx, sy = draw(gen.steps())
        return {'t': 'S', 'f': f, 'sx': sx, 'sy': sy}
    f = draw(gen.fields(ndim=1, min_side=4, max_len=400, kinds=kinds, big=15 if big else 0))
    return {'t': 'P', 'f': f, 'step': draw(gen.logfloat(-2, 1.5))}


def make(d):
    return gen.surface(d) if d['t'] == 'S' else gen.profile(d)


def m(obj, name):
    """method of a surface by its R/S-less name"""
    return getattr(obj, ('S' if type(obj).__name__ == 'Surface' else 'R') + name)


@C.sub('curve', lambda: st.fixed_dictionaries({
    't': topo(), 'p': st.lists(ratios, min_size=1, max_size=6), 'c': st.lists(st.one_of(st.floats(0, 1).map(lambda v: round(v, 4)), st.sampled_from([0.0, 1.0, 0.5, 1e-6, 1 - 1e-6]), st.integers(0, 10 ** 6)), min_size=1, max_size=6),
    'out': st.lists(st.sampled_from([0.0, 1e-6, 0.1, 1.0, 50.0]), max_size=2)}),
       quick=480, thorough=12000, shards=8, tshards=8)
def curve(case, rec):
    t = make(case['t'])
    ref = Ref(t.data)
    tol = 1e-9 * (abs(ref.max) + abs(ref.min)) + 1e-12 * ref.range
    rec.nontrivial(np.unique(t.data).size >= 3)
    rec.label(case['t']['f']['kind'], case['t']['t'], 'n>10000' if ref.n > 10000 else 'n<=10000')
    mc, mr = m(t, 'mc'), m(t, 'mr')
    close(mc(0), ref.max, 'height at 0 % material ratio vs maximum', atol=tol)
    close(mc(100), ref.min, 'height at 100 % material ratio vs minimum', atol=tol)
    ps = sorted(case['p'])
    hs = []
    for p in ps:
        v = num(mc(p), f'mc({p})')
        hi, lo = float(ref.h(max(0, p - 1.01 * DELTA))), float(ref.h(min(100, p + 1.01 * DELTA)))
        expect(lo - tol <= v <= hi + tol, lambda: f'height at material ratio {p} % is {v}, the height distribution has '
                                                  f'{lo} .. {hi} within the curve resolution')
        hs.append(v)
    for a, b in zip(hs, hs[1:]):
        expect(b <= a + tol, lambda: f'mc is not decreasing: {hs} at {ps}')
    cs = []
    for c in case['c']:
        if isinstance(c, int):
            cs.append(float(ref.z[c % ref.n]))          # a height that occurs
        else:
            cs.append(ref.min + c * ref.range)
    # heights beyond all points
    for d in case['out']:
        gap = d * ref.range + 2 * tol + 1e-300
        v = num(mr(np.nextafter(float(ref.max) + gap, np.inf)), 'mr above the maximum')
        expect(abs(v) <= 1e-9, lambda: f'material ratio at a height above the maximum is {v} %')
        v = num(mr(np.nextafter(float(ref.min) - gap, -np.inf)), 'mr below the minimum')
        expect(abs(v - 100) <= 1e-9, lambda: f'material ratio at a height below the minimum is {v} %')
    cs.sort()
    prev = None
    for c in cs:
        v = num(mr(c), f'mr({c})')
        lo, hi = ref.ratio(c - tol)[1], ref.ratio(c + tol)[0]
        lo, hi = min(lo, hi), max(lo, hi)
        expect(lo - 2.5 * DELTA <= v <= hi + 2.5 * DELTA,
               lambda: f'material ratio at height {c} is {v} %, the height distribution has {lo} .. {hi} %')
        if prev is not None and c > prev[0] + 2 * tol:
            expect(v <= prev[1] + 1e-9, lambda: f'mr is not decreasing: mr({prev[0]})={prev[1]}, mr({c})={v}')
        prev = (c, v)
        # inverse
        back = num(mc(v), 'mc(mr(c))')
        expect(ref.h(min(100, v + 2.5 * DELTA)) - tol <= back <= ref.h(max(0, v - 2.5 * DELTA)) + tol,
               lambda: f'mc(mr({c})) = {back}')
    for p in ps:
        back = num(mr(mc(p)), 'mr(mc(p))')
        lo, hi = ref.ratio(float(ref.h(p)))
        g = ref.ratio(float(ref.h(max(0, p - 2 * DELTA))))[0], ref.ratio(float(ref.h(min(100, p + 2 * DELTA))))[1]
        expect(min(lo, g[0]) - 3 * DELTA <= back <= max(hi, g[1]) + 3 * DELTA, lambda: f'mr(mc({p})) = {back}')


@C.sub('differences', lambda: st.fixed_dictionaries({
    't': topo(big=False), 'pq': st.lists(st.tuples(ratios, ratios), min_size=1, max_size=3), 'kw': st.booleans()}),
       quick=320, thorough=6000, shards=8, tshards=8)
def differences(case, rec):
    t = make(case['t'])
    ref = Ref(t.data)
    tol = 1e-9 * (abs(ref.max) + abs(ref.min)) + 1e-12 * ref.range
    rec.nontrivial(np.unique(t.data).size >= 3)
    mc = m(t, 'mc')
    for name in ('xp', 'dc'):
        close(m(t, name)(), mc(2.5) - mc(50), f'{name} with default p, q', atol=tol)
    for p, q in case['pq']:
        rec.label('p<q' if p < q else 'p>=q')
        exp = mc(p) - mc(q)
        for name in ('xp', 'dc'):
            f = m(t, name)
            v = f(p=p, q=q) if case['kw'] else f(p, q)
            close(v, exp, f'{name}(p={p}, q={q})', atol=tol)


@C.sub('multiset', lambda: st.fixed_dictionaries({'t': topo(big=False), 'perm': st.randoms(use_true_random=False), 'p': ratios}).map(
    lambda d: {'t': d['t'], 'p': d['p'], 'perm': d['perm'].sample(range(int(np.prod(d['t']['f']['shape']))), int(np.prod(d['t']['f']['shape'])))}),
       quick=160, thorough=3000, shards=8, tshards=8)
def multiset(case, rec):
    """Rearranging the heights (also between a surface and a profile) changes nothing."""
    from surfalize import Profile, Surface
    t = make(case['t'])
    z = np.array(t.data).ravel()[case['perm']]
    rec.nontrivial(np.unique(z).size >= 3)
    s = Surface(z.reshape(t.data.shape if t.data.ndim == 2 else (1, -1)), 0.5, 0.5)
    p = Profile(z, 3.0)
    ref = Ref(z)
    tol = 1e-9 * (abs(ref.max) + abs(ref.min))
    for o in (s, p):
        close(m(o, 'mc')(case['p']), m(t, 'mc')(case['p']), 'mc after rearranging the heights', atol=tol)
        c = ref.min + 0.37 * ref.range
        close(m(o, 'mr')(c), m(t, 'mr')(c), 'mr after rearranging the heights', atol=1e-6)
