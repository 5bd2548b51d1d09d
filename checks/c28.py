"""C28: image layers and archived measurements come out unchanged."""
import os
import shutil
import tempfile
import zipfile

import numpy as np
from hypothesis import strategies as st

from lib import formats, gen
from lib.harness import Check, expect, fail, raises

C = Check('C28', 'A case is a pixel array with a file type, a measurement file with image layers, or an archive. Non-trivial: the pixels are not '
                 'all equal, the file has layers, or the archive holds at least one measurement; distinct by the full case description.')


@st.composite
def arrays(draw, rgb=None):
    kind = draw(st.sampled_from(['u1', 'u2', 'rgb']))
    if draw(st.integers(0, 24)) == 24:
        h, w = draw(gen.big_shapes(2, 1, 40000))
        return {'h': h, 'w': w, 'kind': kind, 'bits': draw(st.sampled_from([16, 12, 8])), 'seed': draw(st.integers(0, 2 ** 32 - 1)), 'layout': draw(st.sampled_from(['C', 'F', 'cut']))}
    h, w = draw(st.integers(1, 12)), draw(st.integers(1, 12))
    n = h * w * {'u1': 1, 'u2': 2, 'rgb': 3}[kind]
    return {'h': h, 'w': w, 'kind': kind, 'bits': draw(st.sampled_from([16, 16, 12, 8, 7, 1])), 'bytes': draw(st.binary(min_size=n, max_size=n)), 'layout': draw(st.sampled_from(['C', 'C', 'F', 'reversed', 'cut', 'upside down', 'read-only']))}


def pixels(d):
    shape = (d['h'], d['w']) + ((3,) if d['kind'] == 'rgb' else ())
    content = d['bytes'] if 'bytes' in d else np.random.default_rng(d['seed']).bytes(int(np.prod(shape)) * (2 if d['kind'] == 'u2' else 1))
    a = np.frombuffer(content, '<u2' if d['kind'] == 'u2' else 'u1').reshape(shape)
    a = a & a.dtype.type((1 << min(d['bits'], 8 * a.itemsize)) - 1)
    lay = d['layout']
    if lay == 'F':
        a = np.asfortranarray(a)
    elif lay == 'reversed':
        a = a[..., ::-1].copy()[..., ::-1]
    elif lay == 'upside down':
        a = a[::-1].copy()[::-1]
    elif lay == 'cut':
        big = np.zeros((shape[0] + 2, shape[1] * 2) + shape[2:], a.dtype)
        v = big[1:-1, ::2]
        v[...] = a
        a = v
    elif lay == 'read-only':
        a.flags.writeable = False
    return a


def reread(path):
    import PIL.Image
    with PIL.Image.open(path) as im:
        return np.array(im), im.format


@C.sub('save', lambda: st.fixed_dictionaries({'a': arrays(), 'type': st.sampled_from(['.png', '.png', '.tif', '.tiff', '.bmp', '.PNG']), 'as': st.sampled_from(['str', 'path'])}), quick=600, thorough=8000, shards=2, tshards=6)
def save(case, rec):
    from pathlib import Path
    import PIL.Image
    import surfalize  # noqa
    from surfalize.image import Image
    d = case['a']
    a = pixels(d)
    keep = a.copy()
    rec.nontrivial(a.max() > a.min())
    typ = case['type']
    if typ == '.bmp' and d['kind'] == 'u2':
        typ = '.png'
    rec.label(d['kind'], typ, d['layout'])
    im = Image(a)
    expect(np.array_equal(im.data, keep), 'data of the image')
    r = repr(im)
    expect(f'{d["w"]} x {d["h"]}' in r and ('RGB' in r) == (d['kind'] == 'rgb') and ('Grayscale' in r) == (d['kind'] != 'rgb') and ('16' if d['kind'] == 'u2' else '8') in r.split('Bitdepth')[-1],
           f'{r} describes an image of {d["w"]} x {d["h"]} pixels of type {d["kind"]}')
    folder = tempfile.mkdtemp()
    try:
        p = os.path.join(folder, 'a.b' + typ)
        im.save(Path(p) if case['as'] == 'path' else p)
        expect(os.listdir(folder) == ['a.b' + typ], f'files written: {os.listdir(folder)}')
        got, fmt = reread(p)
        expect(fmt == {'.png': 'PNG', '.tif': 'TIFF', '.tiff': 'TIFF', '.bmp': 'BMP'}[typ.lower()], f'a {fmt} file is written to {typ}')
        expect(got.shape == keep.shape and np.array_equal(got, keep), lambda: f'image read back from {typ} has other pixels: {got.ravel()[:200].tolist()} instead of {keep.ravel()[:200].tolist()}')
        expect(got.dtype.itemsize >= keep.dtype.itemsize, f'an image of {keep.dtype} is written as {got.dtype}')
        shown = im.show()
        expect(np.array(shown).dtype.itemsize >= keep.dtype.itemsize, f'an image of {keep.dtype} is shown as {np.array(shown).dtype}')
        expect(isinstance(shown, PIL.Image.Image) and np.array_equal(np.array(shown), keep), 'image shown has other pixels')
        expect(np.array_equal(im.data, keep) and im.data is a, 'saving changed the image')
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@C.sub('grayscale', lambda: st.fixed_dictionaries({
    'size': st.one_of(*[st.tuples(st.integers(1, 9), st.integers(1, 9))] * 5, gen.big_shapes(2, 1, 40000)), 'seed': st.integers(0, 2 ** 32 - 1), 'dtype': st.sampled_from(['u1', 'u2', 'i2', 'f4']),
    'change': st.one_of(st.none(), st.tuples(st.one_of(st.integers(0, 80), st.integers(0, 40000)), st.integers(0, 2), st.sampled_from([-1, 1, 7]))), 'all': st.sampled_from([False, True, 'moved', 'square'])}), quick=600, thorough=8000, shards=1, tshards=4)
def grayscale(case, rec):
    from surfalize.image import Image
    r = np.random.default_rng(case['seed'])
    a = np.repeat(r.integers(8, 240, (*case['size'], 1)), 3, 2).astype(case['dtype'])
    gray = True
    if case['change']:
        k, c, v = case['change']
        h, w = a.shape[:2]
        if case['all'] == 'moved' and h * w > 1:
            # the same pixels in other places
            a[:, :, c] = np.roll(a[:, :, c].ravel(), 1 + k % (h * w - 1)).reshape(h, w)
        elif case['all'] == 'square' and h > 1 and w > 1:
            # equal sums of all rows and columns
            i, j = k % (h - 1), (k // 3) % (w - 1)
            a[i:i + 2, j:j + 2, c] = (a[i:i + 2, j:j + 2, c].astype(int) + np.array([[v, -v], [-v, v]])).astype(a.dtype)
        elif case['all']:
            # the channel is different everywhere, the two others are equal
            a[:, :, c] = (a[:, :, c].astype(int) + v).astype(a.dtype)
        else:
            i, j = (k // w) % h, k % w
            a[i, j, c] = int(a[i, j, c]) + v
        gray = bool(np.ptp(a.astype(float), axis=2).max() == 0)
    rec.nontrivial()
    rec.label('gray' if gray else 'one channel differs everywhere' if case['all'] else 'one pixel differs')
    got = Image.is_grayscale(a)
    expect(bool(got) == gray, f'is_grayscale gives {got} for an image whose channels are {"equal" if gray else "not equal"}')


@C.sub('layers', lambda: formats.specs(tuple(f for f in formats.FORMATS if f in ('vk4', 'vk6', 'vk7', 'plu', 'plux', 'opd', 'nms', 'os3d', 'fits', 'dat'))), quick=600, thorough=9000, shards=3, tshards=8)
def layers(case, rec):
    """every image layer of 8 or 16 bit that a file contains can be saved and has its pixels then"""
    import io
    from surfalize import Surface
    d = formats.make(case)
    s = Surface.load(io.BytesIO(d['bytes']), format='.' + case['fmt'], read_image_layers=True)
    rec.label(case['fmt'], f'{len(s.image_layers)} layers')
    expect(s.get_image_layer_names() == list(s.image_layers), 'names of the layers')
    folder = tempfile.mkdtemp()
    try:
        for name, im in s.image_layers.items():
            if im.data.dtype.kind != 'u' or im.data.dtype.itemsize > 2:
                rec.label(f'{case["fmt"]} {im.data.dtype} not claimed')
                continue
            rec.nontrivial()
            keep = im.data.copy()
            p = os.path.join(folder, 'layer.png')
            im.save(p)
            got, _ = reread(p)
            expect(got.shape == keep.shape and np.array_equal(got, keep), f'layer {name} of {case["fmt"]} ({keep.dtype}) saved as an image has other pixels')
            expect(np.array_equal(im.data, keep), 'saving changed the layer')
    finally:
        shutil.rmtree(folder, ignore_errors=True)


STEM = st.text(st.sampled_from('abcXYZ019 _-.()&<>äµ\''), min_size=1, max_size=10).map(str.strip).filter(lambda t: t.strip('. ') != '')


@st.composite
def archives(draw):
    n = draw(st.integers(0, 5))
    names = draw(st.lists(STEM, min_size=n, max_size=n, unique_by=lambda t: t.lower()))
    ids = draw(st.lists(st.sampled_from([f'{i:08x}' for i in range(30)] + ['1', '2', 'File', 'x y', '{6F9619FF-8B86}']), min_size=n, max_size=n, unique=True))
    items = []
    for name, i in zip(names, ids):
        items.append({'name': name + draw(st.sampled_from(['.vk4', '.vk6', '.vk7', '.VK4', ''])), 'id': i, 'magic': draw(st.sampled_from([b'VK4_', b'VK4_', b'VK6', b'VK7', b'VK3_'])),
                      'dir': draw(st.sampled_from(['', 'C:\\Users\\me\\', 'C:\\a.b\\', '..\\..\\', 'D:/data/', 'ABS', '../'])),
                      'size': draw(st.sampled_from([0, 1, 40, 300, 70000])), 'seed': draw(st.integers(0, 9999)), 'inner': draw(st.sampled_from(['data', 'vk.bin', 'Measurement.vk4', '0'])),
                      'others': draw(st.lists(st.sampled_from(['thumb.jpg', 'info.xml', 'VKnot', 'short']), unique=True, max_size=2))})
    return {'items': items, 'root': draw(st.sampled_from(['', '', 'Archive/', 'a b/c/'])), 'order': draw(st.permutations(list(range(n)))), 'xml': draw(st.permutations(list(range(n)))),
            'target': draw(st.sampled_from([None, 'existing', 'new'])), 'as': draw(st.sampled_from(['str', 'path'])), 'ghost': draw(st.booleans()), 'stored': draw(st.booleans()),
            'index_first': draw(st.booleans()), 'newline': draw(st.sampled_from(['\n', '\r\n'])), 'extra': draw(st.booleans())}


@C.sub('archive', archives, quick=600, thorough=9000, shards=2, tshards=6)
def archive(case, rec):
    """extraction of a cag archive: every measurement under its original name in the target folder, and nothing else"""
    from pathlib import Path
    from xml.sax.saxutils import escape
    from surfalize.file.cag import extract_cag
    # deep enough that '../..' stays within the scratch folder
    scratch = tempfile.mkdtemp()
    try:
        base = os.path.join(scratch, 'a', 'b', 'c')
        os.makedirs(base)
        path = os.path.join(base, 'm.cag')
        nl = case['newline']
        want = {}
        # an absolute path that stays within the scratch folder
        where = lambda d: scratch + '/a/' if d['dir'] == 'ABS' else d['dir']
        entry = lambda i, name: f'  <File>{nl}    <Path>{escape(i)}</Path>{nl}    <OriginalFileName>{escape(name)}</OriginalFileName>{nl}  </File>{nl}'
        xml = f'<?xml version="1.0" encoding="utf-8"?>{nl}<Index>{nl}'
        if case['ghost']:
            xml += entry('ffff', 'C:\\gone.vk4')
        xml += ''.join(entry(case['items'][k]['id'], where(case['items'][k]) + case['items'][k]['name']) for k in case['xml']) + '</Index>'
        comp = zipfile.ZIP_STORED if case['stored'] else zipfile.ZIP_DEFLATED
        with zipfile.ZipFile(path, 'w', comp) as z:
            index = lambda: z.writestr(case['root'] + 'index.xml', xml.encode('utf-8'))
            if case['index_first']:
                index()
            for k in case['order']:
                d = case['items'][k]
                folder = case['root'] + d['id'] + '/'
                for o in d['others']:
                    z.writestr(folder + o, {'thumb.jpg': b'\xff\xd8\xff\xe0' * 9, 'info.xml': b'<a><Path>zz</Path></a>', 'VKnot': b'VK9_xyz', 'short': b'V'}[o])
                content = d['magic'] + np.random.default_rng(d['seed']).bytes(d['size'])
                z.writestr(folder + d['inner'], content)
                want[d['name']] = content
            if case['extra']:
                z.writestr(case['root'] + 'preview/p.png', b'\x89PNG....')
            if not case['index_first']:
                index()
        raw = open(path, 'rb').read()
        target = base if case['target'] is None else os.path.join(base, 'out')
        if case['target'] == 'existing':
            os.mkdir(target)
        rec.nontrivial(len(want) > 0)
        rec.label(f'{len(want)} files', f'target {case["target"]}')
        conv = Path if case['as'] == 'path' else str
        extract_cag(conv(path), **({} if case['target'] is None else {'target': conv(target)}))
        found = {}
        for folder, _, fs in os.walk(scratch):
            for f in fs:
                found[os.path.join(folder, f)] = open(os.path.join(folder, f), 'rb').read()
        expect(found.pop(path, None) == raw, 'the archive was changed')
        got = {os.path.relpath(f, target): b for f, b in found.items()}
        expect(sorted(got) == sorted(want), lambda: f'extracted {sorted(got)}, expected {sorted(want)}')
        for k, v in want.items():
            expect(got[k] == v, f'content of {k} differs')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
