"""C15: saving and loading round-trips the surface."""
import datetime
import glob
import io
import os
import pathlib
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from lib import gen, harness
from lib.harness import Check, close, expect, fail, same_arr

C = Check('C15', 'A case is a surface (generated or cut out of one of the sample files of other formats), a chain of one to three '
                 'writable formats with their options, paths or buffers, encodings and image layers. Non-trivial: heights not constant; '
                 'distinct by the full case description.')

FORMATS = ('.sur', '.sdf', '.al3d', '.tmd', '.sflz')
text = st.text(st.sampled_from('abcXYZ019 _-*.=µäß€字'), max_size=40)


@st.composite
def layer(draw):
    h, w = draw(st.integers(1, 9)), draw(st.integers(1, 9))
    shape = (h, w) if draw(st.booleans()) else (h, w, draw(st.sampled_from([3, 4, 2])))
    return {'shape': shape, 'dtype': draw(st.sampled_from(['u1', 'u1', '<u2', '>u2', '<i4', '<f4', '<f8', '?'])), 'seed': draw(st.integers(0, 2 ** 16)),
            'layout': draw(st.sampled_from(['C', 'F', 'strided']))}


def build_layer(d):
    r = np.random.Generator(np.random.PCG64(d['seed']))
    a = r.integers(0, 2 if d['dtype'] == '?' else 120, d['shape']).astype(d['dtype'])
    if d['layout'] == 'F':
        a = np.asfortranarray(a)
    elif d['layout'] == 'strided':
        b = np.zeros((d['shape'][0] * 2,) + tuple(d['shape'][1:]), a.dtype)
        b[::2] = a
        a = b[::2]
    return a


@st.composite
def targets(draw):
    f = draw(st.sampled_from(FORMATS))
    o = {}
    enc = draw(st.sampled_from(['utf-8', 'utf-8', 'latin1', 'cp1252', None]))
    if f == '.sur':
        o = draw(st.fixed_dictionaries({}, optional={'compressed': st.booleans(), 'comment': text}))
    elif f == '.sdf':
        o = draw(st.fixed_dictionaries({}, optional={'binary': st.booleans()}))
    elif f == '.tmd':
        o = draw(st.fixed_dictionaries({}, optional={'comment': text.map(lambda t: t.encode('utf-8')[:21].decode('utf-8', 'ignore'))}))
    elif f == '.sflz':
        o = draw(st.fixed_dictionaries({}, optional={'compression': st.sampled_from(['none', 'zlib', 'lzma']), 'save_image_layers': st.booleans(),
                                                     'write_metadata': st.booleans(),
                                                     'dtype': st.sampled_from(['<u4', '<u2', 'u1', '>u4', '>u2', '<i4', '<i2', 'i1', '>i4', '<u8', '>i8', '<f4', '<f8', '>f4', '>f8', 'float32', 'float64'])}))
    if enc not in (None, 'utf-8') and 'comment' in o:
        try:
            o['comment'].encode(enc)
        except UnicodeEncodeError:
            o['comment'] = 'plain'
    return {'format': f, 'options': o, 'encoding': enc, 'load_encoding': draw(st.sampled_from(['auto', 'auto', 'same'])),
            'via': draw(st.sampled_from(['str', 'Path', 'path+format', 'buffer', 'file', 'overwrite'])), 'suffix': draw(st.sampled_from(['lower', 'lower', 'upper'])),
            'layers': draw(st.booleans())}


def resolution(z, t):
    """(rtol of heights, atol of heights, rtol of spacing) stated for the format and options."""
    v = z[~np.isnan(z)].astype('float64')
    amp, rng = np.abs(v).max(), v.max() - v.min()
    f, o = t['format'], t['options']
    if f == '.sur':                              # 32 bit integers with single precision spacing and offset
        return 0, 6.1e-8 * (rng + amp) + 2e-14 * amp, 1.3e-7
    if f == '.sdf':
        if o.get('binary', True):
            return 4e-15, 0, 4e-15
        return 0, (0.6e-10 + 4e-15 * 10) * 10.0 ** np.floor(np.log10(amp)) if amp else 0, 4e-15
    if f == '.al3d':
        return 3e-7, 1e-36, 1e-14
    if f == '.tmd':
        return 1e-7, 1e-38, 2e-7
    dt = np.dtype(o.get('dtype', '<u4'))
    if dt.kind == 'f' or v.size < z.size:
        return (0 if dt.itemsize == 8 or dt.kind != 'f' else 1e-7), (0 if dt.itemsize == 8 or dt.kind != 'f' else 1e-38), 0
    return 0, rng / (2.0 ** (8 * dt.itemsize) - 1) * 1.0001 + (4e-15 if dt.itemsize == 8 else 1e-15) * amp, 0


def save_load(s, t, folder, rec):
    """Saves the surface as described, loads it and returns the result."""
    from surfalize import Surface
    f = t['format'].upper() if t['suffix'] == 'upper' else t['format']
    kw = dict(t['options'])
    if t['encoding'] is not None:
        kw['encoding'] = t['encoding']
    lkw = {'read_image_layers': t['layers']}
    if t['load_encoding'] == 'same':
        lkw['encoding'] = t['encoding'] or 'utf-8'
    via = t['via']
    path = os.path.join(folder, 'a file' + f)
    z = np.array(s.data)
    layers = {k: np.array(v.data) for k, v in s.image_layers.items()}
    state = dict(s.metadata), s.step_x, s.step_y, s.width_um, s.height_um
    with warnings.catch_warnings():
        warnings.filterwarnings('error', message='The file suffix indicates')
        if via == 'buffer':
            b = io.BytesIO()
            s.save(b, format=f, **kw)
            out = Surface.load(b, format=f, **lkw)
        elif via == 'file':
            with open(path, 'w+b') as fh:
                s.save(fh, format=f, **kw)
                out = Surface.load(fh, format=f, **lkw)
        elif via == 'path+format':
            path = os.path.join(folder, 'no suffix')
            s.save(path, format=f, **kw)
            out = Surface.load(path, format=f, **lkw)
        else:
            if via == 'overwrite':
                with open(path, 'wb') as fh:
                    fh.write(b'\x01' * 100000)
            p = pathlib.Path(path) if via == 'Path' else path
            s.save(p, **kw)
            out = Surface.load(p, **lkw)
    same_arr(np.array(s.data), z, 'heights of the saved surface')
    expect(list(s.image_layers) == list(layers) and all(np.array_equal(v.data, layers[k]) for k, v in s.image_layers.items()), 'image layers of the saved surface')
    expect((s.metadata, s.step_x, s.step_y, s.width_um, s.height_um) == state, lambda: f'saving changes the surface: {(s.metadata, s.step_x, s.step_y)} instead of {state}')
    return out


def compare(s, out, t, what, rec):
    z = np.array(s.data).astype('float64')
    rt, at, rs = resolution(z, t)
    a = out.data
    expect(isinstance(a, np.ndarray) and a.ndim == 2 and a.shape == z.shape, lambda: f'{what}: shape {getattr(a, "shape", None)} instead of {z.shape}')
    a = np.array(a).astype('float64')
    expect(np.array_equal(np.isnan(a), np.isnan(z)), lambda: f'{what}: missing points {np.argwhere(np.isnan(a) != np.isnan(z))[:5].tolist()} differ')
    m = ~np.isnan(z)
    with np.errstate(all='ignore'):
        bad = ~(np.abs(a[m] - z[m]) <= rt * np.abs(z[m]) + at)
    expect(not bad.any(), lambda: f'{what}: heights differ by {np.max(np.abs(a[m] - z[m]))} (allowed {at} + {rt} of the height); at {np.argwhere(m)[bad][:3].tolist()} '
                                  f'{a[m][bad][:3]} instead of {z[m][bad][:3]}')
    close(out.step_x, s.step_x, f'{what}: step_x', rtol=rs, atol=0)
    close(out.step_y, s.step_y, f'{what}: step_y', rtol=rs, atol=0)
    close(out.width_um, (z.shape[1] - 1) * s.step_x, f'{what}: width', rtol=rs + 1e-12, atol=0)
    close(out.height_um, (z.shape[0] - 1) * s.step_y, f'{what}: height', rtol=rs + 1e-12, atol=0)
    expect(bool(out.has_missing_points) == bool((~m).any()), f'{what}: has_missing_points')
    if t['format'] == '.sflz' and t['layers'] and t['options'].get('save_image_layers', True):
        expect(list(out.image_layers) == list(s.image_layers), lambda: f'{what}: image layers {list(out.image_layers)} instead of {list(s.image_layers)}')
        for k, im in s.image_layers.items():
            b = out.image_layers[k].data
            expect(b.shape == im.data.shape, lambda: f'{what}: layer {k} has shape {b.shape} instead of {im.data.shape}')
            expect(b.dtype == im.data.dtype and np.array_equal(b, im.data), f'{what}: layer {k} differs')
        if s.image_layers:
            rec.label('layers')
    else:
        expect(list(out.image_layers) == [], f'{what}: image layers {list(out.image_layers)}')


def make(case):
    from surfalize import Surface
    from surfalize.image import Image
    z = gen.build(case['s']['f'])
    if case['zero'] == 'top':
        z = z - np.nanmax(z)
    elif case['zero'] == 'bottom':
        z = z - np.nanmin(z)
    meta = {}
    if case['stamp'] is not None:
        meta['timestamp'] = datetime.datetime(2000, 1, 1) + datetime.timedelta(minutes=case['stamp'])
    return Surface(z, case['s']['sx'], case['s']['sy'], metadata=meta, image_layers={k: Image(build_layer(d)) for k, d in case['layers'].items()})


def _case():
    return st.fixed_dictionaries({
        's': gen.surfaces(nan=True, min_side=1, max_side=20, big=40, big_max=70001, allow_const=True, dtypes=('float64', 'float64', 'float64', 'float32'), scale=(-7, 6)),
        'layers': st.one_of(st.just({}), st.dictionaries(st.sampled_from(['RGB', 'Grayscale', 'Intensity', 'topography', 'größe', '図', 'a']), layer(), min_size=1, max_size=3)),
        'zero': st.sampled_from([None, None, None, 'top', 'bottom']),                # the level of the highest or lowest point
        'stamp': st.one_of(st.none(), st.integers(0, 10 ** 7)), 'chain': st.lists(targets(), min_size=1, max_size=3)})


@C.sub('roundtrip', _case, quick=4800, thorough=80000, shards=8, tshards=8)
def roundtrip(case, rec):
    s = make(case)
    z = np.array(s.data).astype('float64')
    rec.nontrivial(np.nanmin(z) < np.nanmax(z))
    with tempfile.TemporaryDirectory(prefix='c15') as folder:
        for i, t in enumerate(case['chain']):
            if t['format'] == '.sdf' and t['options'].get('binary', True) and max(z.shape) > 65535:
                rec.label('too large for sdf')          # binary sdf files store the size in 16 bits
                continue
            rec.label(t['format'], t['via'], *(f'{k}={v}' for k, v in t['options'].items() if k != 'comment'))
            out = save_load(s, t, folder, rec)
            compare(s, out, t, ' -> '.join(x['format'] for x in case['chain'][:i + 1]), rec)
            s = out
    rec.label('missing points' if np.isnan(z).any() else 'complete', 'constant' if np.nanmin(z) == np.nanmax(z) else 'varying',
              f'chain of {len(case["chain"])}')


@C.sub('any-option', lambda: st.fixed_dictionaries({
    'z': st.lists(st.lists(st.integers(-99, 99), min_size=3, max_size=3), min_size=2, max_size=5), 'f': st.sampled_from(['.sur', '.tmd', '.tmd', '.sflz', '.sdf', '.al3d', '.vk4', '.xyz', '.x', 'sur', '']),
    'encoding': st.sampled_from(['utf-8', 'utf-8', 'latin1', 'cp1252', 'utf-16', 'cp037', 'ascii']), 'comment': st.text(st.sampled_from('ab 1é°µ漢'), max_size=60),
    'compression': st.sampled_from([None, 'zlib', 'bz2', 'gzip', 'ZLIB', '']), 'strange': st.sampled_from([None, 'nosuch', 'dtype']), 'via': st.sampled_from(['path', 'buffer'])}), quick=800, thorough=8000, shards=2, tshards=4)
def any_option(case, rec):
    """Saving is refused, loading what was saved is refused, or the surface survives: whatever the options."""
    from surfalize import Surface
    f = case['f']
    z = np.array(case['z'], dtype=float) / 7
    o = {'encoding': case['encoding']}
    if f in ('.sur', '.tmd'):
        o['comment'] = case['comment']
    if f == '.sflz' and case['compression'] is not None:
        o['compression'] = case['compression']
    if case['strange'] == 'nosuch':
        o['nosuch'] = 1
    elif case['strange'] and f == '.sflz':
        o['dtype'] = ['<u8', 'i8', 'f2', '?', 'c16'][len(case['comment']) % 5]
    s = Surface(z, 0.5, 0.25)
    done = None
    with tempfile.TemporaryDirectory(prefix='c15') as folder:
        path = os.path.join(folder, 'a' + f)
        b = io.BytesIO()
        try:
            s.save(path, **o) if case['via'] == 'path' else s.save(b, format=f, **o)
            done = False
            out = Surface.load(path) if case['via'] == 'path' else Surface.load(b, format=f)
            done = True
        except Exception as e:
            rec.label('save' if done is None else 'load', type(e).__name__)
    same_arr(np.array(s.data), z, 'heights of the saved surface')
    rec.nontrivial(np.ptp(z) > 0)
    if f not in ('.sur', '.tmd', '.sflz', '.sdf', '.al3d'):
        expect(done is None, f'saving in the format {f!r} is not refused')
    if case['strange'] == 'nosuch':
        expect(done is None, 'an unknown option is not refused')
    if f == '.tmd' and len(case['comment'].encode('utf-8')) > 21:
        expect(done is None, 'a comment too long for the format is not refused')
    if case['encoding'] == 'utf-8' and f in ('.sur', '.sdf', '.al3d') and case['strange'] != 'nosuch':
        expect(done, f'{f} with {o} is refused')
    if done:
        expect(out.data.shape == z.shape, lambda: f'{f} with {o}: shape {out.data.shape}')
        expect(np.abs(np.array(out.data, 'f8') - z).max() <= 2e-2, lambda: f'{f} with {o}: heights {np.array(out.data)} instead of {z}')
        close(out.step_x, 0.5, f'{f} with {o}: step_x', rtol=1e-6)
        close(out.step_y, 0.25, f'{f} with {o}: step_y', rtol=1e-6)
        rec.label('saved and loaded')


_samples = {}


def sample(name):
    from surfalize import Surface
    if name not in _samples:
        repo = os.path.dirname(harness.SUT_DIR)
        _samples[name] = Surface.load(os.path.join(repo, 'tests', 'test_files', name), read_image_layers=True)
    return _samples[name]


NAMES = ('test_1.dat', 'test_1.nms', 'test_2.nms', 'test_1.opd', 'test_2.opd', 'test_1.plu', 'test_1.tmd', 'test_ascii.sdf', 'test_uncompressed.sur')


@C.sub('huge', lambda: st.fixed_dictionaries({
    'shape': st.sampled_from([(600, 700), (1, 20001), (140, 150), (33000, 2), (257, 256), (700, 1500)]), 'seed': st.integers(0, 2 ** 16), 'nan': st.sampled_from([0, 0, 1, 3]),
    'levels': st.sampled_from([0, 0, 3]), 'sx': gen.logfloat(-2, 1), 'sy': gen.logfloat(-2, 1), 't': targets()}), quick=120, thorough=2000, shards=4, tshards=8)
def huge(case, rec):
    """Data beyond the sizes of buffers and two-byte counters, in every format; measurements have about a million points."""
    from surfalize import Surface
    from surfalize.image import Image
    r = np.random.Generator(np.random.PCG64(case['seed']))
    t = case['t']
    shape = case['shape'] if t['format'] != '.sdf' or t['options'].get('binary', True) else (140, 150)
    z = r.normal(0, 1, shape) if not case['levels'] else r.integers(0, case['levels'] + 1, shape).astype(float)
    for _ in range(case['nan']):
        i = int(r.integers(z.size))
        z.flat[i:i + int(r.integers(1, 30000))] = np.nan
    if np.isnan(z).all():
        z.flat[0] = 1.0
    s = Surface(z, case['sx'], case['sy'], image_layers={'RGB': Image(r.integers(0, 256, shape + (3,)).astype('u1'))} if case['seed'] % 2 else {})
    rec.nontrivial()
    rec.label(t['format'], *(f'{k}={v}' for k, v in t['options'].items() if k != 'comment'), f'{shape[0]}x{shape[1]}')
    with tempfile.TemporaryDirectory(prefix='c15') as folder:
        compare(s, save_load(s, t, folder, rec), t, t['format'], rec)


@C.sub('samples', lambda: st.fixed_dictionaries({'file': st.sampled_from(NAMES), 'y': st.integers(0, 400), 'x': st.integers(0, 400), 'n': st.integers(2, 40), 'm': st.integers(2, 40),
                                                 'chain': st.lists(targets(), min_size=1, max_size=2)}), quick=240, thorough=4000, shards=2, tshards=4)
def samples(case, rec):
    """Surfaces loaded from other formats (metadata, data types, missing points) are saved."""
    from surfalize import Surface
    full = sample(case['file'])
    y, x = case['y'] % max(1, full.size.y - 2), case['x'] % max(1, full.size.x - 2)
    z = full.data[y:y + case['n'], x:x + case['m']]
    if np.isnan(z).all():
        z = np.array(full.data)[:: max(1, full.size.y // 20), :: max(1, full.size.x // 20)]
    s = Surface(z, full.step_x, full.step_y, metadata=full.metadata, image_layers=full.image_layers)
    rec.nontrivial(np.nanmin(z) < np.nanmax(z))
    rec.label(case['file'])
    with tempfile.TemporaryDirectory(prefix='c15') as folder:
        for i, t in enumerate(case['chain']):
            rec.label(t['format'])
            out = save_load(s, t, folder, rec)
            compare(s, out, t, case['file'] + ' -> ' + ' -> '.join(x['format'] for x in case['chain'][:i + 1]), rec)
            s = out


@C.sub('whole-sample', lambda: st.tuples(st.sampled_from(NAMES), st.sampled_from(['.sur', '.al3d', '.tmd', '.sflz', '.sdf'])), quick=24, thorough=90, shards=2, tshards=2)
def whole(case, rec):
    name, f = case
    s = sample(name)
    rec.nontrivial()
    t = {'format': f, 'options': {}, 'encoding': None, 'load_encoding': 'auto', 'via': 'str', 'suffix': 'lower', 'layers': True}
    with tempfile.TemporaryDirectory(prefix='c15') as folder:
        compare(s, save_load(s, t, folder, rec), t, f'{name} -> {f}', rec)
