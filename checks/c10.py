"""C10: levelling and detrending are exact least-squares projections."""
import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.harness import Check, close_arr, expect, same_arr

C = Check('C10', 'A case is a height field or profile with or without missing points, a polynomial degree 0..5, an additional '
                 'polynomial, and the options inplace and return_trend. Non-trivial: more measured points than coefficients and '
                 'heights not constant; distinct by the full case description.')


def basis(shape, degree):
    """Orthogonal-ish (Chebyshev) basis of all polynomials of total degree <= degree on the grid, flattened."""
    axes = [np.linspace(-1, 1, n) if n > 1 else np.zeros(1) for n in shape]
    cheb = [[np.polynomial.chebyshev.chebval(a, [0] * k + [1]) for k in range(degree + 1)] for a in axes]
    cols = []
    if len(shape) == 1:
        cols = [cheb[0][k] for k in range(degree + 1)]
    else:
        for i in range(degree + 1):
            for j in range(degree + 1 - i):
                cols.append(np.outer(cheb[0][i], cheb[1][j]).ravel())
    return np.stack(cols, axis=1)


def project(z, degree):
    """Independent fit: orthonormal basis of the polynomials on the measured points (SVD)."""
    B = basis(z.shape, degree)
    m = ~np.isnan(z.ravel())
    U, s, Vt = np.linalg.svd(B[m], full_matrices=False)
    keep = s > 1e-10 * s[0]
    U, s, Vt = U[:, keep], s[keep], Vt[keep]
    c = U.T @ z.ravel()[m]
    res = np.full(z.size, np.nan)
    res[m] = z.ravel()[m] - U @ c
    trend = None
    if len(s) == B.shape[1] and s[-1] > 1e-4 * s[0]:       # otherwise the trend at missing points is not determined
        trend = (B @ (Vt.T @ (c / s))).reshape(z.shape)
    return res.reshape(z.shape), U, m, trend


@st.composite
def cases(draw):
    prof = draw(st.integers(0, 2)) == 0
    kw = dict(nan=True, dtypes=('float64', 'float64', 'float64', 'float32', 'int32') if draw(st.booleans()) else ('float64',))
    if 'int32' in kw['dtypes']:
        kw['nan'] = False
    d = {'t': {'p': draw(gen.profiles(min_side=2, max_len=120, big=20, **kw))} if prof else {'s': draw(gen.surfaces(min_side=draw(st.sampled_from([1, 2])), max_side=20, big=20, **kw))},
         'degree': draw(st.sampled_from([1, 1, 2, 3, 4, 5, 0])), 'level': draw(st.booleans()), 'inplace': draw(st.booleans()),
         'trend': draw(st.booleans())}
    d['coef'] = draw(st.lists(st.integers(-5, 5), min_size=21, max_size=21))
    return d


def make(t):
    return gen.profile(t['p']) if 'p' in t else gen.surface(t['s'])


@C.sub('projection', cases, quick=800, thorough=16000, shards=8, tshards=8)
def projection(case, rec):
    t, deg = case['t'], case['degree']
    if case['level']:
        deg = 1
    s = make(t)
    z = np.array(s.data).astype('float64')
    f32 = (t.get('p') or t.get('s'))['f']['dtype'] == 'float32'
    res, U, m, trend_ref = project(z, deg)
    rec.nontrivial(m.sum() > U.shape[1] and np.ptp(z[~np.isnan(z)]) > 0)
    rec.label('profile' if 'p' in t else 'surface', f'degree {deg}', 'missing points' if not m.all() else 'complete',
              'underdetermined' if U.shape[1] < basis(z.shape, deg).shape[1] else 'determined', 'level' if case['level'] else 'detrend')
    tol = (1e-5 if f32 else 3e-9) * np.nanmax(np.abs(z))
    work = make(t)
    kw = {'inplace': case['inplace'], 'return_trend': case['trend']}
    if not case['level']:
        kw['degree'] = deg
    r = (work.level if case['level'] else work.detrend_polynomial)(**kw)
    trend = None
    if case['trend']:
        expect(isinstance(r, tuple) and len(r) == 2, 'return_trend does not return two objects')
        r, trend = r
    expect(type(r) is type(s), 'type of the result')
    expect((r is work) == case['inplace'], 'identity of the result')
    if not case['inplace']:
        same_arr(np.array(work.data).astype('float64'), z, 'source')
    for o in (r, trend):
        if o is not None:
            expect((o.step == s.step) if 'p' in t else (o.step_x, o.step_y) == (s.step_x, s.step_y), 'spacing of the result')
            expect(o.data.shape == z.shape, 'size of the result')
    got = np.array(r.data).astype('float64')
    expect(np.array_equal(np.isnan(got), np.isnan(z)), 'pattern of missing points changed')
    close_arr(got, res, f'residual of degree {deg}', rtol=0, atol=tol)
    dots = U.T @ got.ravel()[m]
    expect((np.abs(dots) <= tol * np.sqrt(m.sum())).all(), lambda: f'residual is not orthogonal to the polynomials of degree {deg}: {np.abs(dots).max()}')
    if trend is not None:
        tr = np.array(trend.data).astype('float64')
        expect(np.isfinite(tr).all(), 'trend has missing points')
        close_arr((got + tr)[~np.isnan(z)], z[~np.isnan(z)], 'residual plus trend', rtol=0, atol=tol)
        if trend_ref is not None:
            close_arr(tr, trend_ref, 'trend', rtol=0, atol=max(tol * 1e3, 1e-6 * np.abs(trend_ref).max()))
        pr, _, _, _ = project(tr, deg)
        expect(np.abs(pr).max() <= max(tol, 1e-8 * np.abs(tr).max()), 'the trend is not a polynomial of the requested degree')
    # again: nothing changes
    again = r.detrend_polynomial(degree=deg)
    close_arr(np.array(again.data).astype('float64'), got, 'repeated detrending', rtol=0, atol=tol)


@st.composite
def large_cases(draw):
    d = draw(cases())
    prof = 'p' in d['t']
    if prof:
        d['t'] = {'p': draw(gen.profiles(min_side=2, big=1, dtypes=('float64',), nan=True))}
    else:
        d['t'] = {'s': draw(gen.surfaces(min_side=2, big=1, dtypes=('float64',), nan=True))}
    d['degree'] = draw(st.sampled_from([1, 2, 3]))
    return d


@C.sub('large', large_cases, quick=60, thorough=1500, shards=4, tshards=8)
def large(case, rec):
    projection(case, rec)


@C.sub('invariance', cases, quick=480, thorough=9600, shards=8, tshards=8)
def invariance(case, rec):
    from surfalize import Profile, Surface
    t, deg = case['t'], case['degree']
    s = make(t)
    z = np.array(s.data).astype('float64')
    f32 = (t.get('p') or t.get('s'))['f']['dtype'] == 'float32'
    B = basis(z.shape, deg)
    poly = (B @ np.array(case['coef'][:B.shape[1]], dtype=float)).reshape(z.shape) * (t.get('p') or t.get('s'))['f']['scale']
    rec.nontrivial(np.ptp(z[~np.isnan(z)]) > 0 and np.ptp(poly) > 0)
    rec.label('profile' if 'p' in t else 'surface', f'degree {deg}')

    def new(a):
        return Profile(a, t['p']['step']) if 'p' in t else Surface(a, t['s']['sx'], t['s']['sy'])
    tol = (1e-5 if f32 else 3e-9) * max(np.nanmax(np.abs(z)), np.abs(poly).max())
    a = np.array(s.detrend_polynomial(degree=deg).data).astype('float64')
    b = np.array(new(z + poly).detrend_polynomial(degree=deg).data)
    close_arr(b, a, f'detrending (degree {deg}) after adding a polynomial', rtol=0, atol=tol)
    p = np.where(np.isnan(z), np.nan, poly)
    c = np.array(new(p).detrend_polynomial(degree=deg).data)
    close_arr(c, np.where(np.isnan(z), np.nan, 0.0), f'detrending a polynomial of degree {deg}', rtol=0, atol=tol)
    if deg == 1:
        same_arr(np.array(s.level().data).astype('float64'), a, 'level and detrend_polynomial(1)')
        same_arr(np.array(s.detrend_polynomial().data).astype('float64'), a, 'default degree')
