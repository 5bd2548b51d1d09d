"""C03: height parameters equal their ISO definitions."""
import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.harness import Check, close, expect, fail, num, raises

C = Check('C03', 'A case is a height field (8 kinds, 1..40 points per side, scale 1e-2..1e2, offsets up to 1000 scales, '
                 'C/F/strided layout) with spacings, or a profile with a section count. Non-trivial: at least three '
                 'distinct heights; distinct by the full case description.')


def moments(z):
    z = np.asarray(z, dtype=np.longdouble).ravel()
    n = z.size
    c = z - z.sum() / n
    a = np.abs(c)
    q = np.sqrt((c * c).sum() / n)
    return {'mean': a.sum() / n, 'q': q, 'p': c.max(), 'v': -c.min(), 'sk': (c ** 3).sum() / n / q ** 3 if q else None,
            'ku': (c ** 4).sum() / n / q ** 4 if q else None, 'c': c}


def tolerances(z, f32):
    z = np.asarray(z, dtype='float64')
    spread = float(z.max() - z.min())
    eps = 2e-7 if f32 else 4e-16
    err = eps * 50 * (float(np.abs(z).max()) + spread)
    return spread, err


@C.sub('surface', lambda: gen.surfaces(min_side=1, max_side=26, big=15, dtypes=('float64', 'float64', 'float64', 'float32')),
       quick=1500, thorough=60000, shards=2, tshards=8)
def surface(case, rec):
    s = gen.surface(case)
    z = np.array(s.data)
    f32 = z.dtype == np.float32
    spread, err = tolerances(z, f32)
    m = moments(z)
    rec.nontrivial(np.unique(z).size >= 3)
    rec.label(case['f']['kind'], z.dtype.name)
    for name, key in (('Sa', 'mean'), ('Sq', 'q'), ('Sp', 'p'), ('Sv', 'v')):
        close(getattr(s, name)(), m[key], name, rtol=1e-9 if not f32 else 1e-4, atol=err)
    close(s.Sz(), m['p'] + m['v'], 'Sz', rtol=1e-9 if not f32 else 1e-4, atol=err)
    if m['q'] > 1e4 * err:
        rel = float(err / m['q']) * 20
        close(s.Ssk(), m['sk'], 'Ssk', rtol=1e-9 + rel, atol=1e-9 + rel * float(m['ku']) ** 0.75)
        close(s.Sku(), m['ku'], 'Sku', rtol=1e-9 + rel, atol=0)
    d = s.height_parameters()
    for name in ('Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku'):
        v = getattr(s, name)()
        expect(name in d, f'height_parameters lacks {name}')
        close(d[name], num(v, name), f'height_parameters[{name}]', rtol=0)


@C.sub('constant', lambda: st.fixed_dictionaries({
    'shape': st.tuples(st.integers(1, 9), st.integers(1, 9)), 'v': st.one_of(st.just(0.0), gen.logfloat(-3, 4), gen.logfloat(-3, 4).map(lambda v: -v))}), quick=100)
def constant(case, rec):
    from surfalize import Profile, Surface
    s = Surface(np.full(case['shape'], case['v']), 1.0, 1.0)
    rec.nontrivial(case['v'] != 0)
    tol = 1e-12 * abs(case['v'])
    for name in ('Sa', 'Sq', 'Sp', 'Sv', 'Sz'):
        close(getattr(s, name)(), 0.0, name + ' of a constant surface', atol=tol)
    p = Profile(np.full(case['shape'][0] + 4, case['v']), 1.0)
    for name in ('Ra', 'Rq', 'Rp', 'Rv', 'Rz', 'Rt'):
        close(getattr(p, name)(), 0.0, name + ' of a constant profile', atol=tol)


def sections(n, k):
    """k consecutive runs covering 0..n-1, lengths differing by at most one, the longer ones first."""
    q, r = divmod(n, k)
    out, i = [], 0
    for j in range(k):
        ln = q + (1 if j < r else 0)
        out.append((i, i + ln))
        i += ln
    return out


@st.composite
def profile_cases(draw):
    p = draw(gen.profiles(min_side=1, max_len=120, big=15, dtypes=('float64', 'float64', 'float64', 'float32')))
    n = p['f']['shape'][0]
    ks = [k for k in (None, 1, 2, 3, 4, 5, 7, 10, n - 1, n) if k is None or 1 <= k <= n]
    return {'p': p, 'k': draw(st.sampled_from(ks)), 'kw': draw(st.booleans())}


@C.sub('profile', profile_cases, quick=2500, thorough=80000, shards=2, tshards=8)
def profile(case, rec):
    p = gen.profile(case['p'])
    z = np.array(p.data)
    n = z.size
    f32 = z.dtype == np.float32
    spread, err = tolerances(z, f32)
    rt = 1e-9 if not f32 else 1e-4
    m = moments(z)
    rec.nontrivial(np.unique(z).size >= 3)
    rec.label('n%k!=0' if case['k'] and n % case['k'] else 'n%k==0', f"k={case['k'] if case['k'] in (None, 1, 5) else 'other'}")
    close(p.Ra(), m['mean'], 'Ra', rtol=rt, atol=err)
    close(p.Rq(), m['q'], 'Rq', rtol=rt, atol=err)
    close(p.Rt(), m['p'] + m['v'], 'Rt', rtol=rt, atol=err)
    if m['q'] > 1e4 * err:
        rel = float(err / m['q']) * 20
        close(p.Rsk(), m['sk'], 'Rsk', rtol=1e-9 + rel, atol=1e-9 + rel * float(m['ku']) ** 0.75)
        close(p.Rku(), m['ku'], 'Rku', rtol=1e-9 + rel)
    k = case['k']
    if k is None:
        if n < 5:
            for name in ('Rp', 'Rv', 'Rz'):
                expect(raises(lambda: getattr(p, name)(), ValueError) is not None,
                       f'{name} with 5 default sections on {n} points must raise ValueError')
            return
        args, kw, kk = (), {}, 5
    else:
        kk = k
        args, kw = ((), {'n_sections': k}) if case['kw'] else ((k,), {})
    secs = [m['c'][a:b] for a, b in sections(n, kk)]
    rp = sum(s.max() for s in secs) / kk
    rv = sum(abs(s.min()) for s in secs) / kk
    rz = sum(s.max() - s.min() for s in secs) / kk
    close(p.Rp(*args, **kw), rp, f'Rp(n_sections={kk}) of {n} points', rtol=rt, atol=err)
    close(p.Rv(*args, **kw), rv, f'Rv(n_sections={kk}) of {n} points', rtol=rt, atol=err)
    close(p.Rz(*args, **kw), rz, f'Rz(n_sections={kk}) of {n} points', rtol=rt, atol=err)
    # a second query with another section count must not be answered with the first one's value
    k2 = 1 if kk != 1 else min(2, n)
    secs = [m['c'][a:b] for a, b in sections(n, k2)]
    close(p.Rz(k2), sum(s.max() - s.min() for s in secs) / k2, f'Rz({k2}) after Rz({kk})', rtol=rt, atol=err)
    for bad in (0, -1, n + 1):
        expect(raises(lambda: p.Rz(bad), ValueError) is not None, f'Rz({bad}) on {n} points must raise ValueError')
