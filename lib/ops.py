"""Operations of surfaces and profiles as plain data, used by the histories of C01 and the copies of C02."""
import numpy as np
from hypothesis import strategies as st

frac = st.integers(0, 10).map(lambda v: v / 10)


def pointwise():
    return [st.sampled_from([['center', {}], ['zero', {}], ['invert', {}], ['level', {}], ['level', {'return_trend': True}]]),
            st.tuples(st.sampled_from([1, 2, 3]), st.booleans()).map(lambda t: ['detrend_polynomial', {'degree': t[0], **({'return_trend': True} if t[1] else {})}]),
            st.tuples(st.sampled_from([1, 1.5, 2, 3]), st.sampled_from(['mean', 'median'])).map(lambda t: ['remove_outliers', {'n': t[0], 'method': t[1]}]),
            st.sampled_from([0.5, 5.0, 20, (10, 5), (0.0, 12.5)]).map(lambda t: ['threshold', {'threshold': t}]),
            st.sampled_from(['nearest', 'nearest', 'linear']).map(lambda m: ['fill_nonmeasured', {'method': m}]),
            st.tuples(st.sampled_from(['lowpass', 'highpass']), st.sampled_from([2.0, 3.5, 8.0])).map(lambda t: ['filter', {'filter_type': t[0], 'cutoff': {'px': t[1]}}]),
            st.sampled_from([['filter', {'filter_type': 'bandpass', 'cutoff': {'px': 3.0}, 'cutoff2': {'px': 9.0}}]]),
            st.sampled_from([['zoom', {'factor': 1.25}], ['zoom', {'factor': 2}], ['zoom', {'factor': 1}]])]


def surface_ops():
    return st.one_of(*pointwise(),
                     st.tuples(frac, frac, frac, frac, st.booleans()).map(lambda t: ['crop', {'box': {'frac': t[:4]}, 'in_units': t[4]}]),
                     st.sampled_from([['crop', {'box': {'frac': (0, 1, 0, 1)}}], ['crop', {'box': {'frac': (0, 1, 0, 1)}, 'in_units': False}]]),
                     st.sampled_from([0, 5, 30, 45, 90, -20, 180]).map(lambda a: ['rotate', {'angle': a}]),
                     st.sampled_from([['align', {}], ['align', {'axis': 'x', 'method': 'fft'}], ['stepheight_level', {}], ['stepheight_level', {}]]))


def profile_ops():
    return st.one_of(*pointwise(), st.tuples(frac, frac, st.booleans()).map(lambda t: ['crop', {'interval': {'frac': t[:2]}, 'in_units': t[2]}]), st.just(['crop', {'interval': {'frac': (0, 1)}}]))


def arguments(kw, obj):
    """Real arguments for this object: cutoffs in points and boxes in fractions are turned into µm or indices."""
    two = hasattr(obj, 'step_x')
    out = {}
    for k, v in kw.items():
        if isinstance(v, dict) and 'px' in v:
            v = v['px'] * (max(obj.step_x, obj.step_y) if two else obj.step)
        elif isinstance(v, dict) and 'frac' in v:
            f = v['frac']
            n = (obj.size.x, obj.size.x, obj.size.y, obj.size.y) if two else (obj.size, obj.size)
            h = (obj.step_x, obj.step_x, obj.step_y, obj.step_y) if two else (obj.step, obj.step)
            idx = [round(a * (m - 1)) for a, m in zip(f, n)]
            box = []
            for i in range(0, len(idx), 2):
                box += sorted(idx[i:i + 2])
            v = tuple(b * s for b, s in zip(box, h)) if kw.get('in_units', True) else tuple(box)
        out[k] = v
    return out


def apply(obj, op, full=False, **extra):
    name, kw = op
    r = getattr(obj, name)(**arguments(kw, obj), **extra)
    if kw.get('return_trend') and not full:
        assert isinstance(r, tuple) and len(r) == 2, f'{name} with return_trend returns {type(r)}'
        return r[0]                      # the trend itself is the subject of C10
    return r


def state(obj):
    """Everything that makes up a surface or profile."""
    if hasattr(obj, 'step_x'):
        return np.array(obj.data), (obj.step_x, obj.step_y), (obj.width_um, obj.height_um), tuple(obj.size)
    return np.array(obj.data), (obj.step,), (obj.length_um,), (obj.size,)


def fresh(obj):
    """A newly constructed object with the same heights and spacing."""
    from surfalize import Profile, Surface
    z = np.array(obj.data, order='K')
    if hasattr(obj, 'step_x'):
        return Surface(z, obj.step_x, obj.step_y)
    return Profile(z, obj.step)


def coarse_curves(nbins=300):
    """Material ratio curves cost most of the time; histories compare an object with a new one, for which a coarse curve serves as
    well. Only the default of the constructor argument is changed (and nothing if there is no such argument)."""
    import inspect

    from surfalize.abbottfirestone import AbbottFirestoneCurve
    init = AbbottFirestoneCurve.__init__
    try:
        names = [p.name for p in inspect.signature(init).parameters.values() if p.default is not inspect.Parameter.empty]
        if 'nbins' in names and len(names) == len(init.__defaults__):
            init.__defaults__ = tuple(nbins if n == 'nbins' else d for n, d in zip(names, init.__defaults__))
    except (AttributeError, TypeError, ValueError):
        pass
