"""C17: the right format is chosen for reading and writing."""
import io
import os
import pathlib
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from lib import formats, gen
from lib.harness import Check, expect, fail

C = Check('C17', 'A case is a content (valid file of any format, or no known content), a file name suffix, a format argument, letter case and the '
                 'kind of file object. Non-trivial: suffix or format argument is missing, unsupported, in another letter case or '
                 'contradicts the content; distinct by the full case description.')

SIGNED = ('vk4', 'vk6', 'vk7', 'zmg', 'opd', 'os3d', 'fits', 'dat', 'x3p', 'gwy', 'sdf', 'sur', 'al3d', 'tmd', 'sflz')
READ = SIGNED + ('plu', 'plux', 'nms', 'xyz')
WRITE = ('al3d', 'sdf', 'sflz', 'sur', 'tmd')
MAGIC = {'al3d': b'AliconaImaging\x00\r\n', 'sdf': b'bISO-1.0', 'sflz': b'SFLZ', 'sur': b'DIGITAL SURF', 'tmd': b'Binary TrueMap Data File v2.0'}
UNSUPPORTED = ('.abc', '.txt', '.png', '.sur2', '.', '')


def case_of(s, k):
    return [s, s.upper(), s.title(), s.lower()][k % 4]


suffixes = st.tuples(st.sampled_from(['right', 'right', 'wrong', 'wrong', 'unsupported', 'none']), st.integers(0, 100), st.integers(0, 3))


def choose(t, fmt, pool):
    kind, i, k = t
    if kind == 'right':
        if fmt is None:
            kind = 'wrong'
        else:
            return case_of('.' + fmt, k)
    if kind == 'wrong':
        rest = [f for f in pool if f != fmt]
        return case_of('.' + rest[i % len(rest)], k)
    if kind == 'unsupported':
        return case_of(UNSUPPORTED[i % 4], k)
    return None


def sflz(spec):
    from surfalize import Surface
    r = np.random.Generator(np.random.PCG64(spec['seed']))
    b = io.BytesIO()
    z = r.normal(0, 1, (spec['ny'], spec['nx']))
    Surface(z, spec['sx'], spec['sy']).save(b, format='.sflz', dtype='<f8')
    return {'bytes': b.getvalue(), 'data': z, 'rtol': 1e-12, 'atol': 0, 'step_x': spec['sx'], 'step_y': spec['sy'], 'srtol': 1e-12}


def content(c):
    """(format or None, bytes, truth)"""
    if c['kind'] == 'valid':
        t = formats.make(c['spec'])
        return c['spec']['fmt'], t
    if c['kind'] == 'sflz':
        return 'sflz', sflz(c['spec'])
    return None, {'bytes': c['bytes']}


small = {'nx': st.integers(2, 8), 'ny': st.integers(2, 8)}
contents = st.one_of(
    formats.specs(SIGNED[:-1]).map(lambda s: {'kind': 'valid', 'spec': s}), formats.specs(SIGNED[:-1]).map(lambda s: {'kind': 'valid', 'spec': s}),
    formats.specs(('plu', 'plux', 'nms', 'xyz')).map(lambda s: {'kind': 'valid', 'spec': s}), formats.common().map(lambda s: {'kind': 'sflz', 'spec': s}),
    st.sampled_from([b'', b'no surface', b'\x00' * 5000, bytes(range(256)) * 20, b'PK\x03\x04\x14 not a zip', b'DIGITAL SURF', b'1 2 3\n4 5', b'SIMPLE', b'aISO-1.0'])
    .map(lambda b: {'kind': 'none', 'bytes': b}))


before = st.one_of(st.just(b''), st.just(b''), st.binary(min_size=1, max_size=60), st.sampled_from([b'DIGITAL SURF', b'SIMPLE', b'GWYP', b'\x00' * 3000]))   # content of a file object in front of the surface


@C.sub('read', lambda: st.fixed_dictionaries({'c': contents, 'suffix': suffixes, 'format': st.one_of(st.none(), suffixes), 'via': st.sampled_from(['str', 'Path', 'buffer', 'file']), 'layers': st.booleans(),
                                              'before': before}),
       quick=3200, thorough=60000, shards=4, tshards=8)
def read(case, rec):
    from surfalize import Surface
    from surfalize.exceptions import UnsupportedFileFormatError
    fmt, t = content(case['c'])
    via = case['via']
    suffix = choose(case['suffix'], fmt, READ)
    fm = None if case['format'] is None else choose(case['format'], fmt, READ)
    path_like = via in ('str', 'Path')
    stated = fm if fm is not None else (suffix if path_like else None)
    low = stated.lower() if stated else None
    if fmt in ('plux',) and low != '.plux':
        return                               # no signature of its own (the archive looks like an x3p file)
    matches = fmt is not None and low == '.' + fmt
    rec.nontrivial(not (matches and stated == low) or (not path_like and case['before'] != b''))
    rec.label(via, f'content {fmt}', 'matching' if matches else 'none stated' if not stated else 'unsupported' if low[1:] not in READ + ('fit', 'fts') else 'contradicting')
    b = t['bytes']
    start = 0 if path_like else len(case['before'])
    exc = s = None
    with tempfile.TemporaryDirectory(prefix='c17') as d, warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        p = os.path.join(d, 'a.name' if False else 'name' + (suffix or ''))
        with open(p, 'wb') as f:
            f.write(b)
        fh = None
        try:
            if via == 'str':
                s = Surface.load(p, format=fm, read_image_layers=case['layers'])
            elif via == 'Path':
                s = Surface.load(pathlib.Path(p), format=fm, read_image_layers=case['layers'])
            else:
                if start:
                    with open(p, 'wb') as f:
                        f.write(case['before'] + b)
                    b = case['before'] + b
                fh = io.BytesIO(b) if via == 'buffer' else open(p, 'rb')
                fh.seek(start)
                s = Surface.load(fh, format=fm, read_image_layers=case['layers'])
        except Exception as e:
            exc = e
        if fh is not None:
            expect(not fh.closed, 'the file object was closed')
            expect(fh.tell() == start, f'position {fh.tell()} instead of {start} after loading')
            fh.seek(0)
            expect(fh.read() == b, 'content of the file object changed')
            fh.close()
        with open(p, 'rb') as f:
            expect(f.read() == b, 'file changed by loading')
        expect(os.listdir(d) == [os.path.basename(p)], 'loading created files')
    warned = any('The file suffix indicates' in str(x.message) for x in w)
    if fmt is None:
        expect(exc is not None, lambda: f'content {b[:30]!r} stated as {stated} was loaded as surface of shape {s.data.shape}')
        if not stated or low[1:] not in READ + ('fit', 'fts'):
            # a signature without the rest of the file is reported by the reader of that format
            if not any(t["bytes"].startswith(m) for m in (b'PK\x03\x04\x14', b'DIGITAL SURF', b'SIMPLE', b'aISO-1.0')):
                expect(isinstance(exc, UnsupportedFileFormatError), lambda: f'content {b[:30]!r} stated as {stated}: {exc!r} instead of UnsupportedFileFormatError')
        return
    if exc is not None:
        raise exc
    z = t['data']
    expect(s.data.shape == z.shape, lambda: f'{fmt} file stated as {stated}: shape {s.data.shape} instead of {z.shape}')
    a = np.array(s.data, 'f8')
    ok = np.isnan(z) | (np.abs(a - z) <= t['rtol'] * np.abs(z) + t['atol'])
    expect(np.array_equal(np.isnan(a), np.isnan(z)) and ok.all(), f'{fmt} file stated as {stated}: heights differ')
    expect(abs(s.step_x - t['step_x']) <= t['srtol'] * t['step_x'] and abs(s.step_y - t['step_y']) <= t['srtol'] * t['step_y'], f'{fmt} file stated as {stated}: spacing differs')
    if matches:
        expect(not warned, f'{fmt} file stated as {stated}: warning about a mismatch')


@C.sub('write', lambda: st.fixed_dictionaries({'s': gen.surfaces(max_side=6), 'fmt': st.sampled_from(WRITE), 'suffix': suffixes, 'format': st.one_of(st.none(), suffixes),
                                               'via': st.sampled_from(['str', 'Path', 'buffer', 'file']), 'exists': st.booleans(),
                                               'before': before}), quick=1600, thorough=30000, shards=2, tshards=4)
def write(case, rec):
    from surfalize import Surface
    from surfalize.exceptions import UnsupportedFileFormatError
    s = gen.surface(case['s'])
    via = case['via']
    pool = WRITE + (('vk4', 'plu', 'x3p', 'gwy', 'opd') if case['suffix'][1] % 3 == 0 else ())
    suffix = choose(case['suffix'], case['fmt'], pool)
    fm = None if case['format'] is None else choose(case['format'], case['fmt'], pool)
    path_like = via in ('str', 'Path')
    stated = fm if fm is not None else (suffix if path_like else None)
    want = stated.lower()[1:] if stated else None
    rec.nontrivial(not (stated == '.' + case['fmt'] and fm is None))
    rec.label(via, 'none stated' if want is None else 'unsupported' if want not in WRITE else 'argument' if fm is not None else 'suffix')
    exc = None
    old = b'previous content' * 3
    with tempfile.TemporaryDirectory(prefix='c17') as d:
        p = os.path.join(d, 'name' + (suffix or ''))
        if case['exists']:
            with open(p, 'wb') as f:
                f.write(old)
        fh = None
        try:
            if via == 'str':
                r = s.save(p, format=fm)
            elif via == 'Path':
                r = s.save(pathlib.Path(p), format=fm)
            else:
                start = len(case['before'])
                fh = io.BytesIO(old if case['exists'] else b'') if via == 'buffer' else open(p, 'r+b' if case['exists'] else 'w+b')
                if start:
                    fh.write(case['before'])
                    fh.seek(0)
                    old = fh.read() if case['exists'] else case['before']
                    fh.seek(start)
                r = s.save(fh, format=fm)
        except Exception as e:
            exc = e
        if fh is not None:
            expect(not fh.closed, 'the file object was closed')
            expect(fh.tell() == start, f'position {fh.tell()} instead of {start} after saving')
            fh.seek(0)
            out = fh.read()
            if want in WRITE:
                expect(out[:start] == case['before'], 'saving changed the content in front of the position')
                out = out[start:]
                fh.seek(start)
                back = Surface.load(fh, format=stated) if not case['exists'] else None
            fh.close()
        else:
            out = None
            if os.path.exists(p):
                with open(p, 'rb') as f:
                    out = f.read()
            back = Surface.load(p, format=stated) if want in WRITE and exc is None else None
        others = [n for n in os.listdir(d) if n != os.path.basename(p)]
        expect(not others, f'saving created {others}')
    if want not in WRITE:
        expect(exc is not None, f'saving as {stated} does not raise')
        if want is not None:
            expect(isinstance(exc, UnsupportedFileFormatError), lambda: f'saving as {stated} raises {exc!r}')
        else:
            expect(isinstance(exc, ValueError), lambda: f'saving without a format raises {exc!r}')
        if path_like:
            expect(out == (old if case['exists'] else None), f'saving as {stated} {"altered" if case["exists"] else "created"} a file')
        else:
            expect(out == (old if case['exists'] or start else b''), f'saving as {stated} altered the file object')
        return
    if exc is not None:
        raise exc
    expect(r is None or isinstance(r, Surface), 'return value of save')
    expect(out.startswith(MAGIC[want]), lambda: f'saved as {stated}: the file begins with {out[:20]!r}')
    if back is not None:
        expect(back.data.shape == s.data.shape, 'shape of the saved surface')
