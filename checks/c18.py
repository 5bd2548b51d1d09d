"""C18: damaged files are rejected or read safely."""
import io
import os
import re
import resource
import struct
import tempfile
import warnings
import zipfile

import numpy as np
from hypothesis import strategies as st

from lib import formats
from lib.harness import Check, expect, fail

C = Check('C18', 'A case is a valid file of one of 19 formats (or the halves of two), a list of damages (cut, flipped bits, overwritten, inserted, '
                 'removed and duplicated bytes, extreme header words) and the way it is loaded. Non-trivial: the bytes differ from the '
                 'valid file; distinct by the full case description.')

# the position of a damage is drawn as a fraction of the file, or an absolute position in the header region, or from the end
where = st.one_of(st.integers(0, 999).map(lambda v: ('frac', v)), st.integers(0, 600).map(lambda v: ('head', v)), st.integers(0, 600).map(lambda v: ('head', v)),
                  st.integers(0, 3600).map(lambda v: ('head', v)), st.integers(0, 300).map(lambda v: ('tail', v)))
word = st.sampled_from([b'\xff\xff\xff\xff', b'\x00\x00\x00\x00', b'\xff\xff\xff\x7f', b'\x00\x00\x00\x80', b'\x01\x00\x00\x00', b'\x00\x00\x00\x01', b'\xff\xff', b'\x00\x00', b'\xff', b'\x00', b'\x01', b'\x10\x27\x00\x00',
                        b'\x00' * 8, b'\xff' * 8, b'\x00\x00\x00\x00\x00\x00\xf0\x7f', b'\x00\x00\x00\x00\x00\x00\xf8\x7f', b'-1', b'999999999', b'nan', b'\x00\x00\x80\x7f'])
damage = st.one_of(
    st.tuples(st.just('cut'), where), st.tuples(st.just('cut'), where), st.tuples(st.just('flip'), where, st.integers(0, 7)), st.tuples(st.just('flip'), where, st.integers(0, 7)),
    st.tuples(st.just('put'), where, word), st.tuples(st.just('put'), where, word), st.tuples(st.just('put'), where, st.binary(min_size=1, max_size=6)),
    st.tuples(st.just('insert'), where, st.binary(min_size=1, max_size=20)), st.tuples(st.just('remove'), where, st.integers(1, 40)),
    st.tuples(st.just('double'), where, st.integers(1, 200)), st.tuples(st.just('word'), st.integers(0, 160), st.sampled_from([0, 1, 2, 2 ** 16, 2 ** 31 - 1, 2 ** 32 - 1, 100000])))


def position(w, n):
    kind, v = w
    return min(n, v) if kind == 'head' else max(0, n - v) if kind == 'tail' else n * v // 1000


def apply(b, d):
    b = bytearray(b)
    if d[0] == 'word':
        i = d[1] * 4 % max(1, len(b) - 3)
        b[i:i + 4] = struct.pack('<I', d[2])
        return bytes(b)
    i = position(d[1], len(b))
    if d[0] == 'cut':
        del b[i:]
    elif d[0] == 'flip':
        if b:
            b[min(i, len(b) - 1)] ^= 1 << d[2]
    elif d[0] == 'put':
        b[i:i + len(d[2])] = d[2]
    elif d[0] == 'insert':
        b[i:i] = d[2]
    elif d[0] == 'remove':
        del b[i:i + d[2]]
    elif d[0] == 'double':
        b[i:i] = b[i:i + d[2]]
    return bytes(b)


def sflz_spec():
    return formats.common().flatmap(lambda c: st.fixed_dictionaries({'compression': st.sampled_from(['none', 'zlib', 'lzma']), 'dtype': st.sampled_from(['<u4', '<f8', '<u2', '<f4'])}).map(lambda o: {'fmt': 'sflz', **c, **o}))


def sflz(spec):
    from surfalize import Surface
    from surfalize.image import Image
    r = np.random.Generator(np.random.PCG64(spec['seed']))
    z = r.normal(0, 1, (spec['ny'], spec['nx']))
    b = io.BytesIO()
    Surface(z, spec['sx'], spec['sy'], image_layers={'RGB': Image(r.integers(0, 255, (3, 4, 3)).astype('u1'))}).save(b, format='.sflz', compression=spec['compression'], dtype=spec['dtype'])
    return {'bytes': b.getvalue(), 'data': z, 'atol': {'<u4': 1e-8, '<f8': 0, '<u2': 1e-3, '<f4': 1e-6}[spec['dtype']], 'rtol': 0}


def build(spec):
    return sflz(spec) if spec['fmt'] == 'sflz' else formats.make(spec)


specs = st.one_of(*[formats.spec(f) for f in formats.FORMATS], sflz_spec(), sflz_spec())
opening = st.fixed_dictionaries({'via': st.sampled_from(['path', 'path', 'buffer', 'buffer+format']), 'suffix': st.sampled_from(['right', 'right', 'right', 'none', 'other']), 'layers': st.booleans(),
                                 'i': st.integers(0, 30)})


def load(b, fmt, o):
    """The surface or None if an ordinary exception was raised; the time and memory are watched."""
    from surfalize import Surface
    suf = '.' + fmt if o['suffix'] == 'right' else '' if o['suffix'] == 'none' else '.' + (formats.FORMATS[o['i'] % len(formats.FORMATS)])
    before = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    s = None
    try:
        if o['via'] == 'path':
            with tempfile.TemporaryDirectory(prefix='c18') as d:
                p = os.path.join(d, 'f' + suf)
                with open(p, 'wb') as f:
                    f.write(b)
                s = Surface.load(p, read_image_layers=o['layers'])
        else:
            buf = io.BytesIO(b)
            s = Surface.load(buf, format=(suf or None) if o['via'] == 'buffer+format' else None, read_image_layers=o['layers'])
    except Exception as e:
        from surfalize import exceptions
        err = e
    else:
        err = None
    used = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - before
    expect(used < 400 * 1024, f'{fmt}: loading a file of {len(b)} bytes needed {used // 1024} MB more memory')
    return s, err


def well_formed(s, what):
    from surfalize import Surface
    expect(isinstance(s, Surface), f'{what}: result is {type(s)}')
    a = s.data
    expect(isinstance(a, np.ndarray) and a.ndim == 2, lambda: f'{what}: heights with {getattr(a, "ndim", None)} dimensions')
    expect(a.dtype.kind == 'f', lambda: f'{what}: heights of type {a.dtype}')
    expect(a.size > 0, lambda: f'{what}: heights of shape {a.shape}')
    for n in ('step_x', 'step_y', 'width_um', 'height_um'):
        v = getattr(s, n)
        expect(isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, bool), lambda: f'{what}: {n} is {v!r}')
    expect(isinstance(s.image_layers, dict) and all(isinstance(im.data, np.ndarray) for im in s.image_layers.values()), f'{what}: image layers')
    s.data.copy().sum()


@C.sub('damaged', lambda: st.fixed_dictionaries({'f': specs, 'd': st.lists(damage, min_size=1, max_size=4), 'o': opening}), quick=7200, thorough=160000, shards=8, tshards=8, cpu_limit=25, isolate=True, budget=250)
def damaged(case, rec):
    t = build(case['f'])
    b = t['bytes']
    for d in case['d']:
        b = apply(b, d)
    rec.nontrivial(b != t['bytes'])
    s, err = load(b, case['f']['fmt'], case['o'])
    rec.label(case['f']['fmt'], 'rejected' if s is None else 'loaded')
    if s is not None:
        well_formed(s, case['f']['fmt'])


points = st.tuples(st.just('points'), st.integers(1, 24), st.sampled_from([1, 2, 4, 4, 8]), st.booleans())


@C.sub('cut-short', lambda: st.fixed_dictionaries({'f': specs.filter(lambda f: f['fmt'] != 'xyz'), 'at': st.one_of(where, st.integers(0, 4000).map(lambda v: ('tail', v)), points, st.integers(0, 99).map(lambda v: ('bound', v))), 'o': opening}), quick=6400, thorough=120000, shards=8, tshards=8, cpu_limit=25, isolate=True)
def cut_short(case, rec):
    """A shortened file either raises or still holds all heights."""
    t = build(case['f'])
    fmt = case['f']['fmt']
    n = len(t['bytes'])
    if case['at'][0] == 'bound':                                # between two parts of the file
        bounds = t.get('bounds') or list(range(2880, n, 2880)) or [n // 2]
        b = t['bytes'][:bounds[case['at'][1] % len(bounds)]]
    elif case['at'][0] == 'points':
        # whole points are missing at the end of the heights, which is about where files with other heights stop differing
        n -= case['at'][1] * case['at'][2]
        if case['at'][3]:
            u = build(dict(case['f'], seed=case['f']['seed'] ^ 12345))['bytes']
            if len(u) == len(t['bytes']):
                n -= next((i for i in range(len(u)) if u[-1 - i] != t['bytes'][-1 - i]), 0)
        b = t['bytes'][:max(0, n)]
    else:
        b = t['bytes'][:position(case['at'], n)]
    rec.nontrivial(len(b) < len(t['bytes']))
    s, err = load(b, fmt, case['o'])
    rec.label(fmt, 'rejected' if s is None else 'loaded')
    if s is None:
        return
    well_formed(s, fmt)
    z = t['data']
    a = np.array(s.data, 'f8')
    expect(a.shape == z.shape, lambda: f'{fmt}: {len(b)} of {len(t["bytes"])} bytes load as a surface of shape {a.shape} instead of {z.shape}')
    ok = np.isnan(z) & np.isnan(a) | (np.abs(a - z) <= t['rtol'] * np.abs(z) + t['atol'])
    lost = fmt == 'fits' and case['f']['mask'] is not None        # the mask is an extension of its own behind the heights
    if lost:
        ok |= np.isnan(z)
    expect(ok.all(), f'{fmt}: {len(b)} of {len(t["bytes"])} bytes load with different heights')


@C.sub('parts', lambda: st.fixed_dictionaries({'f': st.tuples(formats.spec('gwy'), st.sampled_from(['one', 'some', 'first'])).map(lambda t: dict(t[0], mask=True, nan=t[1])),
                                               'at': st.integers(0, 99).map(lambda v: ('bound', v)), 'o': opening}), quick=600, thorough=12000, shards=2, tshards=8, cpu_limit=25, isolate=True)
def parts(case, rec):
    """Gwyddion files end between two of their parts, the mask being one of them."""
    cut_short(case, rec)


@C.sub('spliced', lambda: st.fixed_dictionaries({'f': specs, 'g': specs, 'at': where, 'from': where, 'o': opening}), quick=1600, thorough=40000, shards=4, tshards=8, cpu_limit=25, isolate=True)
def spliced(case, rec):
    """The beginning of one file followed by the end of another one."""
    t, u = build(case['f']), build(case['g'])
    b = t['bytes'][:position(case['at'], len(t['bytes']))] + u['bytes'][position(case['from'], len(u['bytes'])):]
    rec.nontrivial(b not in (t['bytes'], u['bytes']))
    s, err = load(b, case['f']['fmt'], case['o'])
    rec.label('rejected' if s is None else 'loaded')
    if s is not None:
        well_formed(s, f'{case["f"]["fmt"]}+{case["g"]["fmt"]}')


@C.sub('samples', lambda: st.fixed_dictionaries({'file': st.sampled_from(['test_1.dat', 'test_1.nms', 'test_1.opd', 'test_2.opd', 'test_1.plu', 'test_1.tmd', 'test_ascii.sdf', 'test_uncompressed.sur']),
                                                 'd': st.lists(damage, min_size=1, max_size=3), 'o': opening}), quick=160, thorough=4000, shards=4, tshards=8, cpu_limit=60, isolate=True)
def samples(case, rec):
    from lib import harness
    with open(os.path.join(os.path.dirname(harness.SUT_DIR), 'tests', 'test_files', case['file']), 'rb') as f:
        raw = f.read()
    b = raw
    for d in case['d']:
        b = apply(b, d)
    rec.nontrivial(b != raw)
    s, err = load(b, case['file'].split('.')[1], case['o'])
    rec.label(case['file'], 'rejected' if s is None else 'loaded')
    if s is not None:
        well_formed(s, case['file'])


def contradict(fmt, spec, b, k, delta):
    """The file with one redundant statement about its content changed, and what was changed (None if the file has no such statement)."""
    out = bytearray(b)
    delta = abs(delta)                                        # numpy reads a size of -1 as 'whatever fits'

    def add(at, code='<I'):
        v, = struct.unpack_from(code, out, at)
        top = 256 ** struct.calcsize(code)
        struct.pack_into(code, out, at, (v + delta) % top if (v + delta) % top != v else (v + 1) % top)
    if fmt == 'x3p':
        files = []
        with zipfile.ZipFile(io.BytesIO(b)) as z:
            for n in z.namelist():
                files.append((n, bytearray(z.read(n))))
        name = ('main.xml', 'md5checksum.hex')[k % 2]
        c = dict(files)[name]
        if name == 'main.xml':                                # another digit in one of the numbers
            i = [m.start() for m in re.finditer(rb'(?<=[>.])[0-9]', bytes(c))]
            i = i[delta % len(i)]
            c[i] = ord('1') + (c[i] - ord('0')) % 9
        else:
            i = delta % 32
            c[i] = ord('0') if c[i] != ord('0') else ord('1')
        return formats.zipped([(n, bytes(c)) for n, c in files]), name
    if fmt == 'sur':
        if spec['compressed']:
            at = [108, 112, 'size', 'streams', 'raw', 'packed'][k % 6]
        else:
            at = [108, 112][k % 2]
        start = 512 + spec['comment'] + spec['private']
        if at == 'size':
            size = b.index(struct.pack('<h', 2021))           # the year, followed by day of the week and duration
            add(size + 8)
        elif at == 'streams':
            add(start)
        elif at in ('raw', 'packed'):
            add(start + 4 + 8 * (delta % spec['streams']) + (4 if at == 'packed' else 0))
        else:
            add(at)
        return bytes(out), f'sur header {at}'
    if fmt == 'tmd':
        add([56, 60][k % 2])
        return bytes(out), 'size'
    if fmt == 'opd':
        add(b.index(b'RAW_DATA'.ljust(16, b'\0')) + 18)
        return bytes(out), 'block size'
    if fmt == 'vk4':
        at, = struct.unpack_from('<I', b, 12 + 24)
        add(at + [0, 4, 16][k % 3])
        return bytes(out), 'size of the height data'
    if fmt == 'dat':
        add(60, '>I')
        return bytes(out), 'size of the intensity data'
    if fmt == 'sflz':
        add([64, 68][k % 2])
        return bytes(out), 'size'


REDUNDANT = ('x3p', 'x3p', 'sur', 'sur', 'tmd', 'opd', 'vk4', 'dat')


@C.sub('contradiction', lambda: st.fixed_dictionaries({'f': st.one_of(*[formats.spec(f) for f in REDUNDANT], sflz_spec()), 'k': st.integers(0, 30), 'delta': st.one_of(st.integers(1, 40), st.integers(-40, -1)), 'o': opening}),
       quick=1600, thorough=40000, shards=4, tshards=8, cpu_limit=25, isolate=True)
def contradiction(case, rec):
    """Checksums and redundant sizes of the height data which contradict the content are noticed."""
    fmt = case['f']['fmt']
    b = build(case['f'])['bytes']
    d, what = contradict(fmt, case['f'], b, case['k'], case['delta'])
    rec.nontrivial(d != b)
    if d == b:
        return
    s, err = load(d, fmt, case['o'])
    rec.label(f'{fmt} {what}')
    expect(s is None, lambda: f'{fmt}: a file with contradicting {what} was loaded as surface of shape {s.data.shape}')
