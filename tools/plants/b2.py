FI='file/'
IMP="""import io, struct, zlib, lzma, zipfile, warnings, hashlib
from surfalize import Surface
from surfalize.file.common import FileHandler
rng = np.random.default_rng(3)
def rd(b, fmt, **k): return Surface.load(io.BytesIO(b), format=fmt, **k)
def rt(s, fmt, **k):
    b = io.BytesIO(); s.save(b, format=fmt, **k); return rd(b.getvalue(), fmt, read_image_layers=(fmt == '.sflz'))
def same(a, b, tol=1e-6): return a.shape == b.shape and np.allclose(a, b, atol=tol, rtol=tol, equal_nan=True)
"""
BUGS=[]
def bug(id, prop, edits, needs, breaks, demo, imp=IMP):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=imp+demo))

# ------------------------------------------------------------------ C15
bug('c15-sdf-scale-max','C15',[(FI+'sdf.py',"max_abs = np.nanmax(np.abs(data))","max_abs = np.abs(np.nanmax(data))")],
 'ASCII sdf of a surface whose highest point is much closer to zero than its deepest (e.g. exactly 0 with tiny depths)',
 'the scale factor is chosen from the maximum instead of the largest magnitude, so depths lose digits',
"""
d = -np.abs(rng.normal(size=(8, 9))) * 1e-9; d[0, 0] = 0
r = rt(Surface(d, 1.0, 1.0), '.sdf', binary=False)
check(np.abs(r.data - d).max() < 1e-16)
""")
bug('c15-sur-comment-length','C15',[(FI+'sur.py',"    comment = comment.encode(encoding)\n","    length_comment = len(comment)\n    comment = comment.encode(encoding)\n"),(FI+'sur.py',"'length_comment': len(comment),","'length_comment': length_comment,")],
 'saving a .sur file with a comment containing non-ASCII characters', 'the data block is read shifted by the number of additional bytes',
"""
d = rng.normal(size=(8, 9))
try:
    ok = same(rt(Surface(d, 1.0, 1.0), '.sur', comment='Höhe µm').data, d, 1e-5)
except Exception: ok = False
check(ok)
""")
bug('c15-sflz-name-length','C15',[(FI+'sflz.py',"'name_length': len(name.encode('utf-8')),","'name_length': len(name),")],
 'an image layer with a non-ASCII name', 'the layer name is truncated and the layer header cannot be read',
"""
from surfalize.image import Image
s = Surface(rng.normal(size=(8, 9)), 1.0, 1.0, image_layers={'Färbung': rng.integers(0, 255, (8, 9)).astype('u1')})
try:
    r = rt(s, '.sflz')
    ok = list(r.image_layers) == ['Färbung']
except Exception: ok = False
check(ok)
""")
bug('c15-sflz-signed','C15',[(FI+'sflz.py',"data = data_norm * (dtype_max - dtype_min) + dtype_min","data = data_norm * dtype_max")],
 'saving a .sflz with a signed integer datatype', 'heights are squeezed into the upper half of the range and come back changed',
"""
d = rng.normal(size=(8, 9))
check(same(rt(Surface(d, 1.0, 1.0), '.sflz', dtype='<i4').data, d, 1e-6))
""")
bug('c15-sflz-channels','C15',[(FI+'sflz.py',"'width': layer.data.shape[1],\n                'height': layer.data.shape[0],\n                'channels': 1 if layer.data.ndim == 2 else layer.data.shape[-1],","'width': surface.size.x,\n                'height': surface.size.y,\n                'channels': layer.data.size // surface.data.size,")],
 'an image layer whose resolution differs from the height data', 'the layer is stored with the dimensions of the surface',
"""
s = Surface(rng.normal(size=(8, 9)), 1.0, 1.0, image_layers={'a': rng.integers(0, 255, (16, 18)).astype('u1')})
try:
    ok = rt(s, '.sflz').image_layers['a'].data.shape == (16, 18)
except Exception: ok = False
check(ok)
""")
bug('c15-al3d-offset','C15',[(FI+'al3d.py',"""    pos = filehandle.tell()
    n_padding = header['DepthImageOffset'] - pos - 2
""","""    n_padding = header['DepthImageOffset'] - filehandle.tell() % header['DepthImageOffset'] - 2
"""),(FI+'al3d.py',"header['PixelSizeYMeter'] = surface.step_y * 1e-6\n    header['PixelSizeXMeter'] = surface.step_x * 1e-6","header['PixelSizeYMeter'] = f'{surface.step_y * 1e-6:.10g}'\n    header['PixelSizeXMeter'] = f'{surface.step_x * 1e-6:.10f}'")],
 'saving a surface with a step in x below 0.1 nm or with more than four decimals as .al3d', 'the step in x is rounded to ten decimals of a metre',
"""
s = Surface(rng.normal(size=(8, 9)), 0.123456789, 0.123456789)
check(abs(rt(s, '.al3d').step_x / 0.123456789 - 1) < 1e-7)
""")
bug('c15-tmd-aspect','C15',[(FI+'tmd.py',"""    step_x = header['length_x'] / header['width']
    step_y = header['length_y'] / header['height']
""","""    step_x = header['length_x'] / max(header['width'], header['height'])
    step_y = header['length_y'] / max(header['height'], header['width'])
"""),],
 'a non-square .tmd file', 'the step of the shorter side is wrong',
"""
s = Surface(rng.normal(size=(8, 19)), 0.5, 0.5)
check(abs(rt(s, '.tmd').step_y - 0.5) < 1e-5)
""")
bug('c15-sdf-bad-width','C15',[(FI+'sdf.py',"""            if i % 10 == 0 or i == data.size - 1:""","""            if i % 10 == 9:""")],
 'ASCII sdf of a surface whose number of points is not a multiple of ten', 'the last values are not written',
"""
d = rng.normal(size=(7, 9))
try: ok = same(rt(Surface(d, 1.0, 1.0), '.sdf', binary=False).data, d)
except Exception: ok = False
check(ok)
""")
bug('c15-sur-nan-offset','C15',[(FI+'sur.py',"""        invalidValue = sur_obj.header['min_point'] - 2
        nan_mask = (sur_obj.data == invalidValue)""","""        nan_mask = sur_obj.data <= sur_obj.header['min_point']""")],
 'a .sur file with missing points: the lowest measured point', 'the lowest measured point is also declared missing',
"""
d = rng.normal(size=(8, 9)); d[0, 0] = np.nan
check(np.isnan(rt(Surface(d, 1.0, 1.0), '.sur').data).sum() == 1)
""")

# ------------------------------------------------------------------ C16
VK="""
def vk4(nx, ny, px, py, pz, h, peak):
    both = peak // 2; li = h
    def field(a): return struct.pack('<7I', nx, ny, 32, 0, a.nbytes, 0, 1) + bytes(768) + a.tobytes()
    def rgb(a): return struct.pack('<5I', nx, ny, 24, 0, a.nbytes) + a[:, :, ::-1].tobytes()
    mc = [0] * 78; mc[1:7] = [2020, 3, 4, 5, 6, 7]; mc[18] = 15; mc[24] = 200; mc[42:45] = [px, py, pz]
    strings = struct.pack('<I', 2) + 'ab'.encode('utf-16-le') + struct.pack('<I', 2) + 'cd'.encode('utf-16-le')
    out = bytearray(b'VK4_' + bytes(8) + bytes(72)); off = []
    for blk in (struct.pack('<78I', *mc), rgb(peak), rgb(both), field(li), field(h), strings):
        off.append(len(out)); out += blk
    struct.pack_into('<18I', out, 12, *(off[0:4] + [0, 0] + [off[4], 0, 0] + [0] * 7 + [off[5]] + [0]))
    return bytes(out)
h = rng.integers(0, 2**31, (5, 7)).astype('<u4'); peak = rng.integers(0, 256, (5, 7, 3)).astype('u1')
"""
bug('c16-vk-step','C16',[(FI+'vk.py',"step_y = measurement_conditions['y_length_per_pixel'] * scale_factor","step_y = measurement_conditions['x_length_per_pixel'] * scale_factor")],
 'a .vk4 file with different pixel lengths in x and y','step in y taken from x', VK+"""
check(abs(rd(vk4(7, 5, 1000000, 2000000, 100, h, peak), '.vk4').step_y - 2.0) < 1e-9)
""")
bug('c16-vk-rgb','C16',[(FI+'vk.py',"channel_table['width'], 3), axis=2)","channel_table['width'], 3), axis=-1 if channel_table['width'] % 2 == 0 else 1)")],
 'read_image_layers of a .vk4 with an odd image width','the colour image is mirrored instead of its channels reversed', VK+"""
check(np.array_equal(np.asarray(rd(vk4(7, 5, 1000000, 2000000, 100, h, peak), '.vk4', read_image_layers=True).image_layers['RGB'].data), peak))
""")
bug('c16-vk-int','C16',[(FI+'vk.py',"height_layer = height_layer * scale_factor_height","height_layer = (height_layer * measurement_conditions['z_length_per_digit']) * scale_factor"),(FI+'vk.py',"scale_factor_height = scale_factor * measurement_conditions['z_length_per_digit']\n","")],
 'a .vk4 with heights exceeding 2**32 picometres (4.3 mm)','integer overflow wraps the heights', VK+"""
r = rd(vk4(7, 5, 1000000, 2000000, 100, h, peak), '.vk4')
check(np.allclose(r.data, h * 100 * 1e-6, rtol=1e-9))
""")
GWY="""
def obj(name, comps): 
    body = b''.join(comps); return name.encode() + b'\\0' + struct.pack('<I', len(body)) + body
def c(name, t, payload): return name.encode() + b'\\0' + t.encode() + payload
def unit(u): return obj('GwySIUnit', [c('unitstr', 's', u.encode() + b'\\0')])
def field(a, dx, dy, zu='m', xyu='m'):
    ny, nx = a.shape
    cs = [c('xres', 'i', struct.pack('<i', nx)), c('yres', 'i', struct.pack('<i', ny)), c('xreal', 'd', struct.pack('<d', nx * dx)), c('yreal', 'd', struct.pack('<d', ny * dy)),
          c('si_unit_xy', 'o', unit(xyu))]
    if zu is not None: cs.append(c('si_unit_z', 'o', unit(zu)))
    cs.append(c('data', 'D', struct.pack('<I', a.size) + a.astype('<f8').tobytes()))
    return obj('GwyDataField', cs)
def gwy(comps): return b'GWYP' + obj('GwyContainer', comps)
def st(t): return t.encode() + b'\\0'
z = rng.normal(size=(5, 7)) * 1e-6
"""
bug('c16-gwy-mask','C16',[(FI+'gwy.py',"mask = tree['GwyContainer'][f'/{height_layer_key}/mask']['GwyDataField']['data'].astype('bool')","mask = tree['GwyContainer'][f'/{height_layer_key}/mask']['GwyDataField']['data'].astype('int') == 1")],
 'a .gwy with a mask of fractional values','masked points with values below one are kept', GWY+"""
m = np.zeros((5, 7)); m[1, 2] = .5
r = rd(gwy([c('/0/data', 'o', field(z, 1e-6, 1e-6)), c('/0/data/title', 's', st('Height')), c('/0/mask', 'o', field(m, 1e-6, 1e-6))]), '.gwy')
check(np.isnan(r.data[1, 2]))
""")
bug('c16-gwy-order','C16',[(FI+'gwy.py',"return [str(sorted([int(layer_key) for layer_key in candidates])[0])]","return [sorted(candidates)[0]]")],
 'a .gwy with at least two height channels, one of which has a number of two or more digits','channels are ordered as text, so channel 10 precedes channel 2', GWY+"""
r = rd(gwy([c('/10/data', 'o', field(z, 1e-6, 1e-6)), c('/10/data/title', 's', st('Height')), c('/2/data', 'o', field(z * 2, 1e-6, 1e-6)), c('/2/data/title', 's', st('Height'))]), '.gwy')
check(np.allclose(r.data, z * 2e6))
""")
bug('c16-gwy-step','C16',[(FI+'gwy.py',"step_y = yreal / ny * xy_conversion_factor","step_y = yreal / (ny - 1 if ny > nx else ny) * xy_conversion_factor")],
 'a .gwy with more rows than columns','vertical step computed from the number of intervals', GWY+"""
r = rd(gwy([c('/0/data', 'o', field(z.T.copy(), 1e-6, 1e-6)), c('/0/data/title', 's', st('Height'))]), '.gwy')
check(abs(r.step_y - 1) < 1e-9)
""")
SUR="""
def surobj(a, code='DIGITAL SURF', kind=2, unit='mm', nm=0, minp=-100, off=0.0, dirs=None, sz=1e-3, comment=b'', priv=b''):
    ny, nx = a.shape; raw = a.tobytes(); comp = b''
    if dirs:
        n = len(raw); cut = [n * i // dirs for i in range(dirs + 1)]
        parts = [raw[i:j] for i, j in zip(cut, cut[1:])]; z = [zlib.compress(p) for p in parts]
        comp = struct.pack('<I', dirs) + b''.join(struct.pack('<2I', len(p), len(q)) for p, q in zip(parts, z)) + b''.join(z)
    def t(x, n): return x.encode('latin1').ljust(n)
    h = t(code, 12) + struct.pack('<4h', 0, 1, 1, kind) + t('', 30) + t('', 30) + struct.pack('<6hf4xh', 0, 0, 0, nm, 0, 0, 0., a.itemsize * 8) if False else None
    h = t(code, 12) + struct.pack('<4h', 0, 1, 1, kind) + t('', 30) + t('', 30) + struct.pack('<5h', 0, 0, 0, nm, 0) + struct.pack('<f', 0) + bytes(4)
    h += struct.pack('<h', a.itemsize * 8) + struct.pack('<5i', minp, 100, nx, ny, nx * ny) + struct.pack('<3f', .5, .25, sz)
    for u in ('X', 'Y', 'Z', unit, unit, unit, unit, unit, unit): h += t(u, 16)
    h += struct.pack('<3f', 1, 1, 1) + struct.pack('<3h', 1, 0, 0) + bytes(12) + struct.pack('<7h', 1, 2, 3, 4, 5, 2020, 0) + struct.pack('<f', 0) + struct.pack('<I', len(comp)) + bytes(6)
    h += struct.pack('<2h', len(comment), len(priv)) + t('', 128) + struct.pack('<5f', 0, 0, off, 0, 0) + t('', 13) + t('', 13)
    assert len(h) == 512, len(h)
    return h + comment + priv + (comp if dirs else raw)
a = rng.integers(-90, 90, (5, 7)).astype('<i2')
"""
bug('c16-sur-unit-offset','C16',[(FI+'sur.py',"data += sur_obj.header['offset_z'] * get_unit_conversion(sur_obj.header['unit_step_z'], 'um')","data += sur_obj.header['offset_z']")],
 'a .sur file in millimetres with a non-zero z offset','the offset is added without conversion to micrometres', SUR+"""
check(np.allclose(rd(surobj(a, off=2.0), '.sur').data, a * np.float64(np.float32(1e-3)) * 1e3 + 2000, rtol=1e-6))
""")
bug('c16-sur-dirs','C16',[(FI+'sur.py',"        decompressed_data += decompressed_data_stream\n","        decompressed_data = decompressed_data_stream + decompressed_data if directory.len_raw_data == directories[0].len_raw_data and len(directories) > 2 else decompressed_data + decompressed_data_stream\n")],
 'a compressed .sur file with more than two directories','blocks are put together in the wrong order', SUR+"""
b = rng.integers(-90, 90, (6, 8)).astype('<i2')
check(np.allclose(rd(surobj(b, 'DSCOMPRESSED', dirs=3), '.sur').data, b, rtol=1e-5))
""")
bug('c16-sur-private','C16',[(FI+'sur.py',"    header['private'] = filehandle.read(header['length_private'])\n","    header['private'] = filehandle.read(header['length_private']) if not header['length_comment'] else b''\n")],
 'a .sur file with both a comment and a private zone','data read from the private zone on', SUR+"""
try: ok = np.allclose(rd(surobj(a, comment=b'abc', priv=b'defghijk'), '.sur').data, a, rtol=1e-5)
except Exception: ok = False
check(ok)
""")
bug('c16-sur-int16-nan','C16',[(FI+'sur.py',"        invalidValue = sur_obj.header['min_point'] - 2\n        nan_mask = (sur_obj.data == invalidValue)","        invalidValue = np.int32(sur_obj.header['min_point'] - 2)\n        nan_mask = (sur_obj.data.astype('int32') == invalidValue) & (sur_obj.data != sur_obj.data.flat[0])")],
 'a .sur file in which the first point is missing','missing points are read as heights', SUR+"""
b = a.copy(); b[0, 0] = -102
check(np.isnan(rd(surobj(b, nm=1), '.sur').data[0, 0]))
""")
SDF="""
def sdf(a, t, sx=1e-6, sy=2e-6, sz=1e-9):
    ny, nx = a.shape
    return b'bISO-1.0' + b'abc'.ljust(10) + b'010120201200' * 2 + struct.pack('<HHddddBBB', nx, ny, sx, sy, sz, -1., 0, t, 0) + a.tobytes()
"""
bug('c16-sdf-int16','C16',[(FI+'sdf.py',"    5: -2**15,","    5: -2**15 + 1,")],
 'a binary .sdf of 16 bit integers with missing points','missing points appear as heights of -32768 digits', SDF+"""
a = rng.integers(-900, 900, (5, 7)).astype('<i2'); a[1, 1] = -2**15
check(np.isnan(rd(sdf(a, 5), '.sdf').data[1, 1]))
""")
bug('c16-sdf-tags','C16',[(FI+'sdf.py',"    data *= CONVERSION_FACTOR * header['Zscale']\n","    data *= CONVERSION_FACTOR * (header['Zscale'] if header['DataType'] == 7 else header['Zresolution'])\n")],
 'an ASCII .sdf whose data type is an integer','heights scaled with the resolution instead of the z scale', """
t = 'aISO-1.0\\nManufacID = abc\\nCreateDate = 010120201200\\nModDate = 010120201200\\nNumPoints = 3\\nNumProfiles = 2\\nXscale = 1e-6\\nYscale = 1e-6\\nZscale = 1e-6\\nZresolution = 5e-9\\nCompression = 0\\nDataType = 5\\nCheckType = 0\\n*\\n1 2 3\\n4 5 6\\n*\\n*\\n'
check(np.allclose(rd(t.encode(), '.sdf').data, [[1, 2, 3], [4, 5, 6]]))
""")
OPD="""
def opd(a, itemsize, nums, image=None):
    blocks = [('RAW_DATA', 3, struct.pack('<HHH', a.shape[1], a.shape[0], itemsize) + np.rot90(a, -1).tobytes())]
    for k, v in nums.items(): blocks.append((k, 7, struct.pack('<f', v)))
    out = b'\\x01\\x00' + b'Directory'.ljust(16, b'\\0') + struct.pack('<hlH', 1, 24 * (len(blocks) + 1), 0)
    for n, t, p in blocks: out += n.encode().ljust(16, b'\\0') + struct.pack('<hlH', t, len(p), 0)
    return out + b''.join(p for n, t, p in blocks)
"""
bug('c16-opd-aspect','C16',[(FI+'opd.py',"step_y = step_x * metadata['Aspect']","step_y = step_x / metadata['Aspect']")],
 'an .opd file with an aspect ratio other than one','vertical step divided by the aspect', OPD+"""
a = rng.normal(size=(5, 7)).astype('<f4')
check(abs(rd(opd(a, 4, {'Wavelength': 500., 'Mult': 1., 'Pixel_size': .001, 'Aspect': 2.}), '.opd').step_y - 2) < 1e-5)
""")
bug('c16-opd-float-invalid','C16',[(FI+'opd.py',"        nan_mask = (data == invalid_value[data.dtype.name])","        nan_mask = (data == invalid_value['int16'])")],
 'an .opd file of 32 bit floats with missing points','missing points are read as 1e38', OPD+"""
a = rng.normal(size=(5, 7)).astype('<f4'); a[1, 1] = 1e38
check(np.isnan(rd(opd(a, 4, {'Wavelength': 500., 'Mult': 1., 'Pixel_size': .001}), '.opd').data[1, 1]))
""")
bug('c16-x3p-increment','C16',[(FI+'x3p.py',"scale_z = float(increment.text) if dtype in ('<u2', '<u4') and increment is not None else 1","scale_z = float(increment.text) if dtype == '<u2' and increment is not None else 1")],
 'an .x3p file with 32 bit integer heights','the increment is ignored', """
def x3p(a, t, inc=1e-9):
    xml = f'<p:ISO5436_2 xmlns:p="http://www.opengps.eu/2008/ISO5436_2"><Record1><Revision>ISO5436 - 2000</Revision><FeatureType>SUR</FeatureType><Axes><CX><AxisType>I</AxisType><DataType>D</DataType><Increment>1e-6</Increment></CX><CY><AxisType>I</AxisType><DataType>D</DataType><Increment>2e-6</Increment></CY><CZ><AxisType>A</AxisType><DataType>{t}</DataType><Increment>{inc}</Increment></CZ></Axes></Record1><Record3><MatrixDimension><SizeX>{a.shape[1]}</SizeX><SizeY>{a.shape[0]}</SizeY><SizeZ>1</SizeZ></MatrixDimension><DataLink><PointDataLink>bindata/data.bin</PointDataLink></DataLink></Record3></p:ISO5436_2>'.encode()
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w') as z:
        z.writestr('main.xml', xml); z.writestr('md5checksum.hex', hashlib.md5(xml).hexdigest() + ' *main.xml'); z.writestr('bindata/data.bin', a.tobytes())
    return b.getvalue()
a = rng.integers(0, 900, (5, 7)).astype('<u4')
check(np.allclose(rd(x3p(a, 'L'), '.x3p').data, a * 1e-3))
""")
FITS="""
def card(k, v): return f'{k:<8}= {v}'.ljust(80)
def block(cards): 
    t = ''.join(cards) + 'END'.ljust(80); return t.ljust(-(-len(t) // 2880) * 2880).encode()
def hdu(a, name, bp): 
    raw = a.tobytes(); return block([card('XTENSION', "'IMAGE   '"), card('BITPIX', bp), card('NAXIS', 2), card('NAXIS1', a.shape[1]), card('NAXIS2', a.shape[0]), card('EXTNAME', f"'{name}'")]) + raw + bytes(-len(raw) % 2880)
def fits(hd, hdus): return block([card('SIMPLE', 'T'), card('BITPIX', 8), card('NAXIS', 0)] + [card(k, v) for k, v in hd.items()]) + b''.join(hdus)
H = {'DELTAX': 1.0, 'DELTAY': 2.0, 'UNITX': "'um'", 'UNITY': "'um'", 'UNITZ': "'um'", 'HIERARCH UnitMultiplicatorDeltas': 1.0, 'HIERARCH UnitMultiplicatorHeights': 1.0}
"""
bug('c16-fits-padding','C16',[(FI+'fits.py',"filehandle.seek(-datasize % BLOCKSIZE, 1)","filehandle.seek(BLOCKSIZE - datasize % BLOCKSIZE, 1)")],
 'a .fits file with a layer whose size is an exact multiple of 2880 bytes','the following header is skipped', FITS+"""
z = rng.normal(size=(18, 20)); m = np.ones((18, 20), 'u1'); m[0, 0] = 0
r = rd(fits(H, [hdu(z.astype('>f8'), 'HEIGHTS', -64), hdu(m, 'MASK', 8)]), '.fits')
check(np.isnan(r.data[0, 0]))
""")
bug('c16-fits-unity','C16',[(FI+'fits.py',"get_unit_conversion(header.get('UNITY', header['UNITX']), 'um')","get_unit_conversion(header['UNITX'], 'um')")],
 'a .fits file with different units for x and y','the unit of x is used for y', FITS+"""
z = rng.normal(size=(5, 7)); H['UNITY'] = "'mm'"
check(abs(rd(fits(H, [hdu(z.astype('>f8'), 'HEIGHTS', -64)]), '.fits').step_y - 2000) < 1e-6)
""")
bug('c16-zmg-comment','C16',[(FI+'zmg.py',"    filehandle.seek(header['comment_size'], 1)\n","    filehandle.seek(header['comment_size'] + header['comment_size'] % 2, 1)\n")],
 'a .zmg with a comment of odd length','heights read shifted by one byte', """
z = rng.integers(-900, 900, (5, 7)).astype('<i2')
b = b'Zeta-Instruments'.ljust(85, b'\\x01') + struct.pack('<2I4x3f8xI', 7, 5, 1., 1., 1., 3) + bytes(84) + b'abc' + z.tobytes()
try: ok = np.allclose(rd(b, '.zmg').data, z)
except Exception: ok = False
check(ok)
""")
bug('c16-plux-gray','C16',[(FI+'plux.py',"if np.all((img[:, :, 0] == img[:, :, 1]) & (img[:, :, 0] == img[:, :, 2])):","if np.all(img[:, :, 0] == img[:, :, 1]):")],
 'image layer of a .plux where red equals green everywhere but blue differs','a colour image is reported as grayscale', """
img = rng.integers(0, 255, (5, 7, 3)).astype('u1'); img[:, :, 1] = img[:, :, 0]
b = io.BytesIO()
with zipfile.ZipFile(b, 'w') as z:
    z.writestr('index.xml', '<xml><GENERAL><DATE>2020-01-02 03:04:05</DATE><IMAGE_SIZE_X>7</IMAGE_SIZE_X><IMAGE_SIZE_Y>5</IMAGE_SIZE_Y><FOV_X>1</FOV_X><FOV_Y>1</FOV_Y></GENERAL></xml>')
    z.writestr('LAYER_0.raw', np.zeros((5, 7), '<f4').tobytes()); z.writestr('LAYER_0.stack.raw', img.tobytes())
check('RGB' in rd(b.getvalue(), '.plux', read_image_layers=True).image_layers)
""")
bug('c16-xyz-step','C16',[(FI+'xyz.py',"step_y = (y.max() - y.min()) / (ny - 1) * 10**6","step_y = (y[1] - y[0]) * 10**6" if False else "step_y = y.max() / (ny - 1) * 10**6")],
 'an .xyz file whose y coordinates do not begin at zero','vertical step too large', """
t = '\\n'.join(f'{x * 1e-6:.9e} {(5 + y) * 1e-6:.9e} {(x + y) * 1e-6:.9e}' for y in range(4) for x in range(5))
check(abs(rd(t.encode(), '.xyz').step_y - 1) < 1e-6)
""")
bug('c16-al3d-invalid','C16',[(FI+'al3d.py',"    data[data == invalidValue] = np.nan\n\n    data *= 1e6 # Conversion from m to um\n","    data *= 1e6 # Conversion from m to um\n    data[data == invalidValue] = np.nan\n")],
 'an .al3d with an invalid pixel value other than nan and zero','missing points are compared after the conversion to micrometres and remain', """
def tag(k, v): return k.encode().ljust(20, b'\\0') + str(v).encode().ljust(30, b'\\0') + b'\\r\\n'
z = rng.normal(size=(5, 7)).astype('<f4') * np.float32(1e-6); z[1, 1] = 1e10
tags = dict(Version=1, TagCount=6, Cols=7, Rows=5, PixelSizeXMeter=1e-6, PixelSizeYMeter=1e-6, DepthImageOffset=600, InvalidPixelValue=1e10)
b = b'AliconaImaging\\x00\\r\\n' + b''.join(tag(k, v) for k, v in tags.items()); b = b.ljust(600, b'\\0') + z.tobytes()
check(np.isnan(rd(b, '.al3d').data[1, 1]))
""")
bug('c16-os3d-threshold','C16',[(FI+'os3d.py',"data[data < THRESHOLD] = np.nan","data[data == THRESHOLD] = np.nan")],
 'an .os3d file with missing points','missing points stay as -3.4e38', """
z = rng.normal(size=(5, 7)).astype('<f4'); z[1, 1] = -3.4028235e38
d = b'2020-01-02 03:04:05'
b = b'OmniSurf3D' + struct.pack('<3i', 1, 1, 2) + b'ab' + struct.pack('<i', len(d)) + d + struct.pack('<2i4d', 7, 5, 1., 2., 0., 0.) + z.tobytes() + b'\\0'
check(np.isnan(rd(b, '.os3d').data[1, 1]))
""")
bug('c16-plu-res','C16',[(FI+'plu.py',"    data[data == NON_MEASURED_VALUE] = np.nan","    data[data > NON_MEASURED_VALUE] = np.nan")],
 'a .plu with missing points','points marked with 1000001 are kept as heights', """
z = rng.normal(size=(5, 7)).astype('<f4'); z[1, 1] = 1000001
b = b'Wed Nov 18 10:20:30 2020'.ljust(128, b'\\0') + bytes(260) + struct.pack('<3I7f', 5, 7, 0, 1.0, 1, 1, 0, 0, 0, 0) + struct.pack('<10I', 1, 0, 7, 4, 0, 7, 5, 7, 5, 5) + struct.pack('<dfII5b3xI', 0.1, 10.0, 100, 15, 0, 1, 4, 0, 0, 1) + z.tobytes()
check(np.isnan(rd(b, '.plu').data[1, 1]))
""")

# ------------------------------------------------------------------ C17
bug('c17-position','C17',[(FI+'common.py',"        try:\n            yield file_or_path\n        finally:\n            file_or_path.seek(current_pos, 0)","        yield file_or_path\n        file_or_path.seek(current_pos, 0)")],
 'loading from a buffer with a format that does not match, when the reader fails','the position is not restored after an error, so the following readers start in the middle', """
s = Surface(rng.normal(size=(8, 9)), 1.0, 1.0); b = io.BytesIO(); s.save(b, format='.sdf'); b.seek(0)
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    try: ok = same(Surface.load(b, format='.x3p').data, s.data)
    except Exception: ok = False
check(ok)
""")
bug('c17-upper','C17',[(FI+'common.py',"            if self.format is None:\n                suffix = self.file.suffix.lower()\n            else:\n                suffix = self.format.lower()\n            if suffix not in","            if self.format is None:\n                suffix = self.file.suffix\n            else:\n                suffix = self.format.lower()\n            if suffix not in")],
 'a file without a signature and with an upper case suffix','the suffix is not recognised', """
import tempfile, os, shutil
d = tempfile.mkdtemp()
p = os.path.join(d, 'a.XYZ')
with open(p, 'w') as f: f.write('\\n'.join(f'{x * 1e-6:.9e} {y * 1e-6:.9e} {(x + y) * 1e-6:.9e}' for y in range(4) for x in range(5)))
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    Surface.load(p)
shutil.rmtree(d)
check(not w)
""")
bug('c17-magic-first','C17',[(FI+'common.py',"                try:\n                    with open_file_like(self.file, 'rb') as filehandle:\n                        return self._read_with(reader, filehandle, read_image_layers, encoding)\n                except Exception as e:\n                    exception = e","                try:\n                    with open_file_like(self.file, 'rb') as filehandle:\n                        return self._read_with(reader, filehandle, read_image_layers, encoding)\n                except CorruptedFileError as e:\n                    exception = e")],
 'a file whose suffix indicates a reader which fails with something other than CorruptedFileError','the file is not loaded by its signature', """
s = Surface(rng.normal(size=(8, 9)), 1.0, 1.0); b = io.BytesIO(); s.save(b, format='.sdf'); b.seek(0)
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    try: ok = same(Surface.load(b, format='.x3p').data, s.data)
    except Exception: ok = False
check(ok)
""")
bug('c17-load-state','C17',[(FI+'common.py',"        self.image_layers = {} if image_layers is None else image_layers\n","        self.image_layers = image_layers or self._no_layers\n"),(FI+'common.py',"class RawSurface:\n","class RawSurface:\n\n    _no_layers = {}\n")],
 'loading two files without image layers and adding a layer to one','the dictionary of layers is shared between all raw surfaces', """
from surfalize.file.common import RawSurface
s = Surface(rng.normal(size=(8, 9)), 1.0, 1.0); b = io.BytesIO(); s.save(b, format='.sdf'); b.seek(0)
r1 = FileHandler(b, '.sdf').read(); r1.image_layers['x'] = 1
b.seek(0)
check('x' not in FileHandler(b, '.sdf').read().image_layers)
""")

# ------------------------------------------------------------------ C18
bug('c18-tmd-length','C18',[(FI+'tmd.py',"    if data.size != header['height'] * header['width']:\n        raise CorruptedFileError('Size of data does not match expectted size.')\n    data = data.reshape(header['height'], header['width'])","    n_points = header['height'] * header['width']\n    data = np.resize(data, n_points).reshape(header['height'], header['width'])")],
 'a truncated .tmd','missing data are filled by repetition instead of raising an error', """
s = Surface(rng.normal(size=(8, 9)), 1.0, 1.0); b = io.BytesIO(); s.save(b, format='.tmd'); b = b.getvalue()[:-40]
try: rd(b, '.tmd'); ok = False
except Exception: ok = True
check(ok)
""")
bug('c18-fits-loop','C18',[(FI+'fits.py',"        if len(block) < BLOCKSIZE:\n            raise CorruptedFileError('Unexpected end of file in the header.')\n","")],
 'a .fits file truncated within the header','reading never ends', FITS+"""
import signal
def stop(*a): raise TimeoutError
z = rng.normal(size=(5, 7)); b = fits(H, [hdu(z.astype('>f8'), 'HEIGHTS', -64)])[:2880][:400]
signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(SystemExit(7))); signal.alarm(10)
try: rd(b, '.fits')
except Exception: pass
signal.alarm(0)
check(True)
""")
bug('c18-sdf-short','C18',[(FI+'sdf.py',"    if len(data_bytes) != data_size:\n        raise CorruptedFileError(\"Unexpected end of file or corrupt data section.\")\n","    if len(data_bytes) < data_size // 2:\n        raise CorruptedFileError(\"Unexpected end of file or corrupt data section.\")\n    data_bytes = data_bytes.ljust(data_size, b'\\x00')\n")],
 'a binary .sdf of which up to half of the data is missing','the missing rest is invented as zeros', """
s = Surface(rng.normal(size=(8, 9)), 1.0, 1.0); b = io.BytesIO(); s.save(b, format='.sdf'); b = b.getvalue()[:-40]
try: rd(b, '.sdf'); ok = False
except Exception: ok = True
check(ok)
""")
bug('c18-x3p-checksum','C18',[(FI+'x3p.py',"        if computed_checksum != checksum:","        if len(computed_checksum) != len(checksum):")],
 'an .x3p whose main.xml was altered without renewing the checksum','the altered file is accepted', """
a = rng.normal(size=(5, 7))
xml = b'<p:ISO5436_2 xmlns:p="http://www.opengps.eu/2008/ISO5436_2"><Record1><FeatureType>SUR</FeatureType><Axes><CX><Increment>1e-6</Increment></CX><CY><Increment>2e-6</Increment></CY><CZ><DataType>D</DataType></CZ></Axes></Record1><Record3><MatrixDimension><SizeX>7</SizeX><SizeY>5</SizeY><SizeZ>1</SizeZ></MatrixDimension><DataLink><PointDataLink>bindata/data.bin</PointDataLink></DataLink></Record3></p:ISO5436_2>'
b = io.BytesIO()
with zipfile.ZipFile(b, 'w') as z:
    z.writestr('main.xml', xml.replace(b'2e-6', b'3e-6')); z.writestr('md5checksum.hex', hashlib.md5(xml).hexdigest() + ' *main.xml'); z.writestr('bindata/data.bin', a.tobytes())
try: rd(b.getvalue(), '.x3p'); ok = False
except Exception: ok = True
check(ok)
""")
bug('c18-sur-total','C18',[(FI+'sur.py',"        if len(decompressed_data_stream) != directory.len_raw_data:","        if len(decompressed_data_stream) < directory.len_raw_data:"),(FI+'sur.py',"    if total_compressed_size != expected_compressed_size:","    if total_compressed_size < expected_compressed_size:"),(FI+'sur.py',"    data = np.frombuffer(decompressed_data, dtype)\n    return data","    data = np.frombuffer(decompressed_data, dtype)[-num_points:]\n    return data"),(FI+'sur.py',"def read_compressed_data(filehandle, dtype, expected_compressed_size):","def read_compressed_data(filehandle, dtype, expected_compressed_size, num_points):"),(FI+'sur.py',"read_compressed_data(filehandle, dtype, header['compressed_data_size']).reshape(ny, nx)","read_compressed_data(filehandle, dtype, header['compressed_data_size'], nx * ny).reshape(ny, nx)")],
 'a compressed .sur whose header states fewer points than the stream holds','data which contradict the header are accepted', SUR+"""
b = bytearray(surobj(rng.integers(-90, 90, (6, 8)).astype('<i2'), 'DSCOMPRESSED', dirs=2))
i = b.index(struct.pack('<3i', 8, 6, 48)); b[i:i + 12] = struct.pack('<3i', 8, 5, 40)
try: rd(bytes(b), '.sur'); ok = False
except Exception: ok = True
check(ok)
""")
