"""The public queries of surfaces and profiles with their arguments (plain data), used by several checks."""
import numpy as np
from hypothesis import strategies as st

from .harness import close, close_arr, expect

SURF_PLAIN = ('Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku', 'surface_area', 'Sdr', 'Sdq', 'Ssw', 'Sk', 'Spk', 'Svk', 'Spkx', 'Svkx', 'Sak1',
              'Sak2', 'Smr1', 'Smr2', 'Smrk1', 'Smrk2', 'height_parameters', 'period', 'period_x_y', 'stepheight')
PROF_PLAIN = ('Ra', 'Rq', 'Rt', 'Rsk', 'Rku', 'Rdq', 'Rk', 'Rpk', 'Rvk', 'Rpkx', 'Rvkx', 'Rak1', 'Rak2', 'Rmr1', 'Rmr2', 'Rmrk1', 'Rmrk2',
              'period')

ratio = st.integers(0, 1000).map(lambda v: v / 10)
inner = st.integers(10, 990).map(lambda v: v / 10)


def rel_height():
    """heights are given relative to the range of the data: {'rel': q}"""
    return st.integers(-2, 12).map(lambda v: {'rel': v / 10})


def _call(name, **kw):
    return st.fixed_dictionaries({k: v for k, v in kw.items()}).map(lambda d: [name, d])


def optional(name, **kw):
    """every subset of the arguments may be left at its default"""
    return st.fixed_dictionaries({}, optional=kw).map(lambda d: [name, d])


def pq(lo='p', hi='q'):
    return st.tuples(st.integers(1, 98), st.integers(1, 98)).map(lambda t: {lo: min(t) / 1.0, hi: max(t) + 1.0})


def common(prefix):
    return [_call(prefix + 'mr', c=rel_height()), _call(prefix + 'mc', mr=ratio), optional(prefix + 'xp', p=inner, q=inner),
            optional(prefix + 'dc', p=inner, q=inner), optional('Vmp', p=inner), optional('Vvv', q=inner),
            pq().map(lambda d: ['Vmc', d]), pq().map(lambda d: ['Vvc', d]), st.just(['Vmc', {}]), st.just(['Vvc', {}]),
            _call('Vm', p=inner), _call('Vv', p=inner)]


def surface_queries(periodic=False):
    """[name, kwargs] of every query that needs complete data (periodic: also those which need a periodic texture)."""
    out = [st.sampled_from(SURF_PLAIN).map(lambda n: [n, {}]), st.sampled_from(SURF_PLAIN).map(lambda n: [n, {}])] + common('S')
    out += [optional('Sal', s=st.sampled_from([0.1, 0.2, 0.3, 0.5])), optional('Str', s=st.sampled_from([0.1, 0.2, 0.3, 0.5])),
            optional('Std', angle_step=st.sampled_from([0.5, 1, 5.0])), optional('cavity_volume', threshold=st.sampled_from([0.25, 0.5, 0.75])),
            st.just(['orientation', {'method': 'fft'}]), st.just(['homogeneity', {'period': {'px': 4}}]), st.just(['homogeneity', {'period': {'px': 5}, 'parameters': ('Sa', 'Sq')}]),
            st.sampled_from([['roughness_parameters', {'parameters': ('Sa', 'Sk', 'Vmc')}], ['roughness_parameters', {'parameters': ('Sal', 'Sdq')}]])]
    if periodic:
        out += [st.just(['orientation', {}]), st.just(['homogeneity', {}]), optional('depth', nprofiles=st.sampled_from([2, 5, 30]), sampling_width=st.sampled_from([0.1, 0.2, 0.3])),
                st.just(['aspect_ratio', {}]), st.just(['homogeneity', {'parameters': ('Sa', 'Sq')}])]
    return st.one_of(*out)


def profile_queries():
    out = [st.sampled_from(PROF_PLAIN).map(lambda n: [n, {}]), st.sampled_from(PROF_PLAIN).map(lambda n: [n, {}])] + common('R')
    out += [st.tuples(st.sampled_from(['Rp', 'Rv', 'Rz']), st.sampled_from([None, 1, 2, 3, 5])).map(lambda t: [t[0], {} if t[1] is None else {'n_sections': t[1]}]),
            st.just(['roughness_parameters', {'parameters': ('Ra', 'Rk', 'Vmc')}])]
    return st.one_of(*out)


def arguments(kw, obj):
    """Real arguments: relative heights and periods in points are turned into µm for this object."""
    out = {}
    for k, v in kw.items():
        if isinstance(v, dict) and 'rel' in v:
            a = np.asarray(obj.data, dtype='float64')
            lo, hi = np.nanmin(a), np.nanmax(a)
            v = float(lo + v['rel'] * (hi - lo))
        elif isinstance(v, dict) and 'px' in v:
            v = v['px'] * max(obj.step_x, obj.step_y) * 1.0000001
        out[k] = v
    return out


def run(obj, query):
    """('value', result) or ('error', type name)."""
    name, kw = query
    args = arguments(kw, obj)
    try:
        return 'value', getattr(obj, name)(**args)
    except Exception as e:                      # the error is part of the observable behaviour
        return 'error', type(e).__name__


def flatten(v):
    if isinstance(v, dict):
        return [(str(k), x) for k in sorted(v) for _, x in [(k, v[k])]]
    if isinstance(v, (tuple, list)):
        return [(str(i), x) for i, x in enumerate(v)]
    return [('', v)]


def same(a, b, what, rtol=0.0, atol=0.0):
    """Two query outcomes agree."""
    expect(a[0] == b[0], lambda: f'{what}: {a} instead of {b}')
    if a[0] == 'error':
        expect(a[1] == b[1], f'{what}: raises {a[1]} instead of {b[1]}')
        return
    fa, fb = flatten(a[1]), flatten(b[1])
    expect([k for k, _ in fa] == [k for k, _ in fb], lambda: f'{what}: {a[1]} instead of {b[1]}')
    for (k, x), (_, y) in zip(fa, fb):
        if isinstance(x, np.ndarray) and x.ndim:
            close_arr(x, y, f'{what} {k}', rtol=rtol, atol=atol)
        else:
            close(x, y, f'{what} {k}', rtol=rtol, atol=atol)
