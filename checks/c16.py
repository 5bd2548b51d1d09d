"""C16: every reader decodes its format correctly."""
import io
import os
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from lib import formats
from lib.harness import Check, close, expect, fail

C = Check('C16', 'A case is a file of one of 18 formats, built from its published layout with generated size, units, scalings, data types, '
                 'missing points, optional sections and section order, and the way it is loaded (path or buffer, with or without image layers, '
                 'encoding). Non-trivial: at least two points and heights not constant; distinct by the full case description.')

SUFFIX = {'fits': ('.fits', '.fit', '.fts', '.FITS')}


def cases(fmts):
    return lambda: st.fixed_dictionaries({'f': formats.specs(fmts), 'layers': st.booleans(), 'via': st.sampled_from(['path', 'path', 'buffer', 'file']), 'k': st.integers(0, 3),
                                          'encoding': st.sampled_from([None, 'auto', 'utf-8'])})


def load(b, fmt, case, rec):
    from surfalize import Surface
    sf = SUFFIX.get(fmt, ('.' + fmt, '.' + fmt.upper()))
    sf = sf[case['k'] % len(sf)]
    kw = {'read_image_layers': case['layers']}
    if case['encoding'] is not None and not (fmt == 'sur' and case['f'].get('latin')):
        kw['encoding'] = case['encoding']
    rec.label(fmt, case['via'])
    with warnings.catch_warnings():
        warnings.filterwarnings('error', message='The file suffix indicates')
        if case['via'] == 'buffer':
            return Surface.load(io.BytesIO(b), format=sf, **kw)
        with tempfile.TemporaryDirectory(prefix='c16') as d:
            p = os.path.join(d, 'file' + sf)
            with open(p, 'wb') as f:
                f.write(b)
            if case['via'] == 'file':
                with open(p, 'rb') as f:
                    return Surface.load(f, format=sf, **kw)
            return Surface.load(p, **kw)


def decode(case, rec):
    spec = case['f']
    fmt = spec['fmt']
    t = formats.make(spec)
    z = t['data']
    if np.isnan(z).all():
        rec.label('all missing')
    rec.nontrivial(z.size > 1 and np.nanmin(z) < np.nanmax(z) if not np.isnan(z).all() else False)
    s = load(t['bytes'], fmt, case, rec)
    a = s.data
    expect(isinstance(a, np.ndarray) and a.shape == z.shape, lambda: f'{fmt}: shape {getattr(a, "shape", None)} instead of {z.shape}')
    expect(a.dtype.kind == 'f', f'{fmt}: heights of type {a.dtype}')
    a = np.array(a, dtype='float64')
    expect(np.array_equal(np.isnan(a), np.isnan(z)), lambda: f'{fmt}: missing points differ at {np.argwhere(np.isnan(a) != np.isnan(z))[:5].tolist()}')
    m = ~np.isnan(z)
    bad = ~(np.abs(a[m] - z[m]) <= t['rtol'] * np.abs(z[m]) + t['atol'])
    expect(not bad.any(), lambda: f'{fmt}: heights at {np.argwhere(m)[bad][:4].tolist()} are {a[m][bad][:4]} instead of {z[m][bad][:4]}')
    close(s.step_x, t['step_x'], f'{fmt}: step_x', rtol=t['srtol'], atol=0)
    close(s.step_y, t['step_y'], f'{fmt}: step_y', rtol=t['srtol'], atol=0)
    want = t['layers'] if case['layers'] else {}
    expect(set(s.image_layers) == set(want), lambda: f'{fmt}: image layers {sorted(s.image_layers)} instead of {sorted(want)}')
    for k, v in want.items():
        got = s.image_layers[k].data
        expect(got.shape == v.shape, lambda: f'{fmt}: layer {k} has shape {got.shape} instead of {v.shape}')
        expect(np.array_equal(np.asarray(got, 'f8'), np.asarray(v, 'f8')), f'{fmt}: layer {k} differs')
    if want:
        rec.label(f'{fmt} layers')
    for k, v in t['meta'].items():
        expect(k in s.metadata, lambda: f'{fmt}: metadata {k} missing among {sorted(map(str, s.metadata))[:40]}')
        expect(s.metadata[k] == v, lambda: f'{fmt}: metadata {k} is {s.metadata[k]!r} instead of {v!r}')


@C.sub('large', lambda: st.fixed_dictionaries({'f': formats.large(), 'layers': st.booleans(), 'via': st.sampled_from(['path', 'buffer', 'file']), 'k': st.integers(0, 3), 'encoding': st.just(None)}),
       quick=240, thorough=8000, shards=4, tshards=8)
def large(case, rec):
    decode(case, rec)


ENC = {'cp1251': 'Прибор №7', 'koi8-r': 'Прибор', 'latin-1': 'Prüfer ®é', 'cp1252': 'Prüf € – ™', 'utf-8': 'Prüfer Прибор', 'cp437': 'éßΣΩ é'}


@st.composite
def encoded(draw):
    fmt = draw(st.sampled_from(['opd', 'gwy', 'fits', 'sur']))
    f = dict(draw(formats.spec(fmt)))
    enc = draw(st.sampled_from(sorted(set(ENC) - ({'utf-8'} if fmt == 'fits' else set()))))       # the cards of fits have 80 bytes
    t = ENC[enc]
    i = draw(st.integers(0, 3))
    t = t[i:i + draw(st.integers(2, 9))].strip()
    hold = '~' * len(t.encode(enc))              # exchanged for the text once the file is built
    f.update({'opd': {'title': hold}, 'gwy': {'who': hold, 'meta': True}, 'fits': {'hierarch': hold}, 'sur': {'client': hold, 'latin': False}}[fmt])
    return {'f': f, 'text': t, 'enc': enc, 'auto': enc in ('utf-8', 'latin-1') and draw(st.booleans()), 'layers': False, 'via': draw(st.sampled_from(['path', 'buffer'])), 'k': 0}


@C.sub('encoding', encoded, quick=400, thorough=6000, shards=2, tshards=4)
def encoding(case, rec):
    from surfalize import Surface
    f, enc = case['f'], case['enc']
    b = case['text'].encode(enc)
    t = formats.make(f)
    hold = b'~' * len(b)
    want = {k: v.replace(hold.decode(), case['text']) for k, v in t['meta'].items() if isinstance(v, str) and '~' in v}
    expect(want and t['bytes'].count(hold) >= 1, 'the file holds no text')
    rec.nontrivial(not case['text'].isascii())
    rec.label(f['fmt'], enc, 'auto' if case['auto'] else 'given')
    s = load(t['bytes'].replace(hold, b), f['fmt'], {**case, 'encoding': 'auto' if case['auto'] else enc}, rec)
    for k, v in want.items():
        expect(s.metadata.get(k) == v, lambda: f'{f["fmt"]}: metadata {k} is {s.metadata.get(k)!r} instead of {v!r} in {enc}')


for name, fmts in {'keyence': ('vk4', 'vk6', 'vk7'), 'sensofar': ('plu', 'plux'), 'interferometer': ('opd', 'dat', 'fits'), 'profilers': ('nms', 'zmg', 'os3d'),
                   'standards': ('x3p', 'sdf', 'xyz'), 'analysis': ('gwy', 'sur'), 'writable': ('al3d', 'tmd')}.items():
    C.sub(name, cases(fmts), quick=1600, thorough=30000, shards=2, tshards=4)(decode)
