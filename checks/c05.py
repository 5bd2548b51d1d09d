"""C05: core/peak/valley and volume parameters follow the standard construction on the height distribution."""
import numpy as np
from hypothesis import strategies as st

from lib.curve import DELTA, Ref
from lib.harness import Check, close, expect, num
from .c04 import m, make, ratios, topo

C = Check('C05', 'A case is a surface or profile of one of 8 kinds of height distribution (4..12100 points) with material '
                 'ratios. The reference finds the flattest 40 % secant, the least-squares line and all areas in closed '
                 'form. Non-trivial: at least three distinct heights; distinct by the full case description.')


TIED = 'vm-tied-heights'
TIED_EXAMPLE = {'t': {'t': 'P', 'f': {'shape': (8,), 'kind': 'levels', 'k': 2, 'bytes': bytes.fromhex('0080' * 4 + 'ff7f' * 4),
                                      'scale': 1.0, 'offset': 0.0, 'dtype': 'float64', 'layout': 'C'}, 'step': 1.0},
                'p': [10.0, 60.0], 'kw': False}


@st.composite
def spots(draw):
    """a few high or deep points: hills or dales on a small part of the area"""
    return {'n': draw(st.integers(1, 60)), 'h': draw(st.sampled_from([-5.0, -1.0, -0.3, 0.3, 1.0, 5.0])), 'step': draw(st.integers(1, 97)), 'spread': draw(st.sampled_from([0.0, 0.1, 1.0]))}


def with_spots(t, d):
    z = np.array(t.data)
    flat = z.ravel()
    i = np.arange(min(d['n'], z.size // 3)) * d['step'] % z.size
    span = np.ptp(flat)
    flat[i] = (flat.max() if d['h'] > 0 else flat.min()) + span * d['h'] * (1 + d['spread'] * np.arange(i.size) / max(i.size, 1))
    return type(t)(flat.reshape(z.shape), *((t.step,) if z.ndim == 1 else (t.step_x, t.step_y)))


@C.sub('core', lambda: st.fixed_dictionaries({'t': topo(), 'spots': st.one_of(st.none(), spots())}), quick=400, thorough=6000, shards=8, tshards=8)
def core(case, rec):
    t = make(case['t'])
    if case['spots'] and t.data.dtype == np.float64 and np.ptp(t.data) > 0:
        t = with_spots(t, case['spots'])
        rec.label('spots')
    ref = Ref(t.data)
    rec.nontrivial(np.unique(t.data).size >= 3)
    eps = 1e-9 * (abs(ref.max) + abs(ref.min))
    v = {n: num(m(t, n)(), n) for n in ('k', 'pk', 'vk', 'pkx', 'vkx', 'mr1', 'mr2', 'mrk1', 'mrk2', 'ak1', 'ak2')}
    if ref.range <= 1e-12 * (abs(ref.max) + abs(ref.min)):
        return
    yu, yl = ref.max - v['pkx'], ref.min + v['vkx']
    close(v['k'], yu - yl, 'core height vs distance of the ends of the equivalence line', atol=eps)
    cu, cl = ref.candidates()
    tol = 2e-6 * ref.range + eps
    d = np.maximum(np.abs(cu - yu), np.abs(cl - yl))
    best = int(np.argmin(d))
    expect(d[best] <= tol,
           lambda: f'the equivalence line ends at {yu} (0 %) and {yl} (100 %), the least-squares line through the '
                   f'flattest 40 % of the curve at {cu[best]} and {cl[best]} (heights {ref.max} .. {ref.min})')
    # material ratios that separate the core
    for name, y in (('mr1', yu), ('mr2', yl)):
        lo, hi = ref.ratio(y + tol)[0], ref.ratio(y - tol)[1]
        expect(lo - 2.5 * DELTA <= v[name] <= hi + 2.5 * DELTA,
               lambda: f'{name} = {v[name]}, the curve reaches the height {y} between {lo} and {hi} %')
        close(v['mrk1' if name == 'mr1' else 'mrk2'], v[name], f'alias of {name}', rtol=1e-12)
    # reduced heights
    r1, r2 = v['mr1'], 100 - v['mr2']
    for name, r, y, area, x in (('pk', r1, yu, ref.area_above(yu)[0], r1), ('vk', r2, yl, ref.area_below(yl)[0], 100 - r2)):
        big = v[name + 'x']
        expect(v[name] >= 0, lambda: f'{name} = {v[name]} is negative')
        if r == 0:
            rec.label(f'{name}: nothing beyond the core')
            expect(v[name] == 0, lambda: f'{name} = {v[name]} although the core spans all heights')
            continue
        if r < 0.06:
            rec.label(f'{name}: tiny')
            expect(v[name] <= 2 * max(big, 0) + 2 * ref.gap(x) + eps, lambda: f'{name} = {v[name]} > 2*{name}x = {2 * big}')
            continue
        rec.label(f'{name}: checked')
        true = 200 * area / r
        # the curve may stay at a height at or next to the crossing, so that the resolution at the ends of these parts counts, too
        lo, hi = ref.ratio(y + tol)[0], ref.ratio(y - tol)[1]
        far = ref.ratio(float(ref.h(max(0.0, lo - 1.01 * DELTA))))[0], ref.ratio(float(ref.h(min(100.0, hi + 1.01 * DELTA))))[1]
        t_ = 3 * DELTA / r * abs(true) + 2 * max(ref.gap(x), ref.gap(lo), ref.gap(hi)) + 2 * max(ref.gap(v_) for v_ in far) + 2e-6 * ref.range + 2 * ref.range * DELTA / r + eps
        if t_ < 0.2 * abs(true):
            rec.label(f'{name}: checked tightly')
        expect(abs(v[name] - true) <= t_, lambda: f'{name} = {v[name]}, the equal-area triangle has height {true} (tolerance {t_})')
    close(v['ak1'], 0.5 * v['pk'] * r1, 'area of the hills', rtol=1e-9)
    close(v['ak2'], 0.5 * v['vk'] * r2, 'area of the dales', rtol=1e-9)


@C.sub('volume', lambda: st.fixed_dictionaries({'t': topo(), 'p': st.lists(ratios, min_size=2, max_size=5),
                                                'kw': st.booleans()}), quick=320, thorough=6000, shards=8, tshards=8,
       examples=[TIED_EXAMPLE])
def volume(case, rec):
    t = make(case['t'])
    ref = Ref(t.data)
    rec.nontrivial(np.unique(t.data).size >= 3)
    eps = 1e-9 * (abs(ref.max) + abs(ref.min))
    base = 2 * ref.range * DELTA / 100 + eps
    ps = sorted(case['p'])
    prev = None
    for p in ps:
        vm, vv = num(t.Vm(p), 'Vm'), num(t.Vv(p), 'Vv')
        tm, tv = ref.gap(p) * p / 100 + base, ref.gap(p) * (100 - p) / 100 + base
        # the trapezoid just above a height shared by many points is left out (listed finding, locked by the test values)
        # (the shared height may also be the one a cell before p)
        shared = [ref.ratio(float(ref.h(max(0.0, v)))) for v in (p, p - 1.01 * DELTA)]
        jump = max([ref.gap(lo) * lo / 100 for lo, hi in shared if hi - lo > DELTA], default=0.0)
        tied = jump > 0 and ref.vm(p) - jump - tm <= vm < ref.vm(p) - tm
        expect(tied or abs(vm - ref.vm(p)) <= tm, lambda: f'Vm({p}) = {vm}, area above the curve {ref.vm(p)} (tolerance {tm})')
        expect(not tied or rec.known(TIED), lambda: f'Vm({p}) = {vm}, area above the curve {ref.vm(p)}: area above tied heights is missing', TIED)
        if tied:
            tm += jump
        expect(abs(vv - ref.vv(p)) <= tv, lambda: f'Vv({p}) = {vv}, area below the curve {ref.vv(p)} (tolerance {tv})')
        expect(abs(m(t, 'mc')(p) + vm - vv - ref.mean) <= tm + tv, lambda: f'Smc(p) + Vm(p) - Vv(p) = {m(t, "mc")(p) + vm - vv}, mean of the curve {ref.mean} (p = {p})')
        if prev is not None:
            expect(vm >= prev[0] - eps and vv <= prev[1] + eps, lambda: f'Vm/Vv not monotone at {p}: {prev} -> {(vm, vv)}')
        prev = vm, vv
    for p, q in zip(case['p'], case['p'][1:]):
        rec.label('p<q' if p < q else 'p>=q')
        a = (lambda f: f(p=p, q=q)) if case['kw'] else (lambda f: f(p, q))
        close(t.Vmp(p=p) if case['kw'] else t.Vmp(p), t.Vm(p), f'Vmp({p})', atol=eps)
        close(t.Vvv(q=q) if case['kw'] else t.Vvv(q), t.Vv(q), f'Vvv({q})', atol=eps)
        close(a(t.Vmc), t.Vm(q) - t.Vm(p), f'Vmc({p}, {q})', atol=eps)
        close(a(t.Vvc), t.Vv(p) - t.Vv(q), f'Vvc({p}, {q})', atol=eps)
    close(t.Vmp(), t.Vm(10), 'Vmp()', atol=eps)
    close(t.Vvv(), t.Vv(80), 'Vvv()', atol=eps)
    close(t.Vmc(), t.Vm(80) - t.Vm(10), 'Vmc()', atol=eps)
    close(t.Vvc(), t.Vv(10) - t.Vv(80), 'Vvc()', atol=eps)


PLAIN = ('k', 'pk', 'vk', 'pkx', 'vkx', 'mr1', 'mr2', 'ak1', 'ak2')


@C.sub('object', lambda: st.fixed_dictionaries({'t': topo(big=False), 'p': ratios, 'q': ratios, 'order': st.booleans()}), quick=160, thorough=4000, shards=4, tshards=8)
def object_(case, rec):
    """The material ratio curve object answers as the surface or profile does, with and without arguments."""
    t = make(case['t'])
    ref = Ref(t.data)
    eps = 1e-9 * (abs(ref.max) + abs(ref.min))
    rec.nontrivial(np.unique(t.data).size >= 3)
    p, q = case['p'], case['q']
    c = t.get_abbott_firestone_curve()

    def mine(name):
        return getattr(t, name) if name[0] == 'V' else m(t, name)
    asks = [(n, n, ()) for n in PLAIN] + [('mr', 'mr', (ref.min + ref.range * p / 100,)), ('mc', 'mc', (p,)), ('dc', 'dc', (p, q)), ('Vm', 'Vm', (p,)), ('Vv', 'Vv', (q,)), ('vmp', 'Vmp', ()), ('vmp', 'Vmp', (p,)),
            ('vvv', 'Vvv', ()), ('vvv', 'Vvv', (q,)), ('vmc', 'Vmc', ()), ('vmc', 'Vmc', (p,)), ('vmc', 'Vmc', (p, q)), ('vvc', 'Vvc', ()), ('vvc', 'Vvc', (p,)), ('vvc', 'Vvc', (p, q))]
    for name, method, args in asks[::-1] if case['order'] else asks:
        close(getattr(c, name)(*args), mine(method)(*args), f'{name}{args} of the curve and of the object', rtol=1e-9, atol=eps)
