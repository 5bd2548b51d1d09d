"""Builders of valid files of every readable format, written from the published layouts (plain specs -> bytes + truth).

`spec(fmt)` is a strategy of plain specs; `make(spec)` returns a dict with
  bytes, data (float64 µm with NaN), step_x, step_y, rtol, atol, layers {name: array} or None (not stated), meta {key: value}.
"""
import datetime
import hashlib
import io
import struct
import zipfile
import zlib

import numpy as np
from hypothesis import strategies as st

from .gen import big_shapes, logfloat

UM = {'m': 1e6, 'dm': 1e5, 'cm': 1e4, 'mm': 1e3, 'µm': 1.0, 'um': 1.0, 'μm': 1.0, 'nm': 1e-3, 'pm': 1e-6}
FORMATS = ('vk4', 'vk6', 'vk7', 'plu', 'plux', 'zmg', 'opd', 'nms', 'os3d', 'fits', 'dat', 'x3p', 'xyz', 'gwy', 'sdf', 'sur', 'al3d', 'tmd')
name_text = st.text(st.sampled_from('abcXYZ01 _-.'), max_size=12).map(str.strip)


def rng(spec):
    return np.random.Generator(np.random.PCG64(spec['seed']))


def common(**kw):
    d = {'nx': st.integers(1, 24), 'ny': st.integers(1, 24), 'seed': st.integers(0, 2 ** 32 - 1), 'sx': logfloat(-2, 1), 'sy': logfloat(-2, 1),
         'nan': st.sampled_from(['none', 'none', 'one', 'some', 'first', 'last'])}
    d.update(kw)
    return st.fixed_dictionaries(d)


stamps = st.tuples(st.integers(1995, 2030), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23), st.integers(0, 59), st.integers(0, 59))


def mask(spec, r):
    m = np.zeros((spec['ny'], spec['nx']), bool)
    if m.size > 1:
        if spec['nan'] == 'one':
            m.flat[int(r.integers(m.size))] = True
        elif spec['nan'] == 'some':
            m.flat[r.choice(m.size, max(1, m.size // 3), replace=False)] = True
        elif spec['nan'] == 'first':
            m[0, 0] = True
        elif spec['nan'] == 'last':
            m[-1, -1] = True
    return m


def result(data, b, spec_x, spec_y, m=None, rtol=1e-12, atol=0.0, layers=None, meta=None, srtol=1e-12):
    data = np.array(data, dtype='float64')
    if m is not None:
        data[m] = np.nan
    return {'bytes': bytes(b), 'data': data, 'step_x': float(spec_x), 'step_y': float(spec_y), 'rtol': rtol, 'atol': atol, 'srtol': srtol,
            'layers': layers if layers is not None else {}, 'meta': meta or {}}


def zipped(files, method=zipfile.ZIP_DEFLATED):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w', method) as z:
        for n, c in files:
            z.writestr(zipfile.ZipInfo(n, (2020, 1, 2, 3, 4, 6)), c, method)
    return b.getvalue()


def gray_or_rgb(spec, r):
    ny, nx = spec['ny'], spec['nx']
    img = r.integers(0, 256, (ny, nx, 3)).astype('u1')
    if spec['gray']:
        img = np.repeat(img[:, :, :1], 3, axis=2)
    if spec['seed'] % 4 == 0:                    # two of the three channels are equal
        i = spec['seed'] // 4 % 3
        img[:, :, i] = img[:, :, i - 1]
    equal = bool((img[:, :, 0] == img[:, :, 1]).all() and (img[:, :, 0] == img[:, :, 2]).all())
    return img, ({'Grayscale': img[:, :, 0]} if equal else {'RGB': img})


# lengths of variable parts of a file: mostly short, at times beyond the sizes of blocks and one- or two-byte counters
def lengths(most=40, longest=70000):
    return st.one_of(st.integers(0, most), st.integers(0, most), st.sampled_from([v for v in (127, 128, 255, 256, 300, 1023, 4095, 4096, 5000, 9000, 32767, 40000, 65536, 70000) if v <= longest]))


# ---------------------------------------------------------------------------------------------------------------- Keyence
def s_vk4():
    return common(depth=st.sampled_from([16, 32]), light=st.sampled_from([16, 32]), z=st.integers(1, 10 ** 6), px=st.integers(1, 2 * 10 ** 9), py=st.integers(1, 2 * 10 ** 9),
                  stamp=stamps, order=st.permutations(range(6)), title=name_text, lens=name_text, gap=st.integers(0, 9), zoom=st.integers(0, 500), mag=st.integers(10, 2000))


def m_vk4(s, head=b'VK4_'):
    r = rng(s)
    nx, ny = s['nx'], s['ny']
    h = r.integers(0, 2 ** s['depth'], (ny, nx)).astype(f'<u{s["depth"] // 8}')
    li = r.integers(0, 2 ** s['light'], (ny, nx)).astype(f'<u{s["light"] // 8}')
    peak = r.integers(0, 256, (ny, nx, 3)).astype('u1')
    both = r.integers(0, 256, (ny, nx, 3)).astype('u1')

    def field(a, depth):
        return struct.pack('<7I', nx, ny, depth, 0, a.nbytes, 0, 2 ** depth - 1) + bytes(768) + a.tobytes()

    def rgb(a):                               # the file holds the channels in the order B, G, R
        return struct.pack('<5I', nx, ny, 24, 0, a.nbytes) + a[:, :, ::-1].tobytes()

    y, mo, d, hh, mi, se = s['stamp']
    mc = [0] * 78
    for i, v in {1: y, 2: mo, 3: d, 4: hh, 5: mi, 6: se, 18: s['zoom']}.items():
        mc[i] = v
    # words: size y mo d h mi s utc | attr(8) ui(9) comp(10) layers(11) run(12) peak(13) sharp(14) speed(15) dist(16) pitch(17) zoom(18) nlines line0
    # 3 reserved(21-23) lens_mag(24) ... xy_unit(38) z_unit(39) xy_dec(40) z_dec(41) x(42) y(43) z(44)
    mc[24] = s['mag']
    mc[42], mc[43], mc[44] = s['px'], s['py'], s['z']
    words = struct.pack('<78I', *mc)
    strings = struct.pack('<I', len(s['title'])) + s['title'].encode('utf-16-le') + struct.pack('<I', len(s['lens'])) + s['lens'].encode('utf-16-le')
    blocks = [words, rgb(peak), rgb(both), field(li, s['light']), field(h, s['depth']), strings]
    out = bytearray(head + b'\x00' * (12 - len(head)))
    table_at = len(out)
    out += bytes(18 * 4)
    offsets = [0] * 6
    for k in s['order']:
        out += b'\xee' * s['gap']
        offsets[k] = len(out)
        out += blocks[k]
    #  meas, peak, colour+light, light, (2 more light layers), height, (2 more height layers), 4 thumbnails, assembly, line, thickness, strings
    table = offsets[0:4] + [0, 0] + [offsets[4], 0, 0] + [0] * 4 + [0] * 3 + [offsets[5]] + [0]
    struct.pack_into('<18I', out, table_at, *table)
    layers = {'RGB': peak, 'Laser+RGB': both, 'Laser': li}
    meta = {'timestamp': datetime.datetime(*s['stamp']), 'optical_zoom': s['zoom'] / 10, 'objective_magnification': s['mag'] / 10, 'title': s['title'], 'lens_name': s['lens']}
    return result(h * (s['z'] * 1e-6), out, s['px'] * 1e-6, s['py'] * 1e-6, layers=layers, meta=meta)


def s_vk6():
    return s_vk4()


def m_vk6(s, head=b'VK6'):
    inner = m_vk4(s)
    inner['bytes'] = head + struct.pack('<I', 60) + b'BM' + bytes(58) + zipped([('other', b'abc'), ('Vk4File', inner['bytes'])])
    return inner


def m_vk7(s):
    return m_vk6(s, b'VK7')


s_vk7 = s_vk6


# ---------------------------------------------------------------------------------------------------------------- Sensofar
def s_plu():
    return common(gray=st.booleans(), scale=logfloat(-2, 2), date=st.sampled_from(['Wed Nov 18 10:20:30 2020', '2021-05-06 07:08:09', '12 Jan 1999 23:59']), comment=name_text)


def plu_dates(t):
    return {'Wed Nov 18 10:20:30 2020': datetime.datetime(2020, 11, 18, 10, 20, 30), '2021-05-06 07:08:09': datetime.datetime(2021, 5, 6, 7, 8, 9),
            '12 Jan 1999 23:59': datetime.datetime(1999, 1, 12, 23, 59)}[t]


def m_plu(s):
    r = rng(s)
    nx, ny = s['nx'], s['ny']
    z = r.normal(0, s['scale'], (ny, nx)).astype('<f4')
    m = mask(s, r)
    stored = z.copy()
    stored[m] = 1000001
    img, layers = gray_or_rgb(s, r)
    out = s['date'].encode().ljust(128, b'\0') + struct.pack('<i', 1600000000) + s['comment'].encode().ljust(256, b'\0')
    out += struct.pack('<3I7f', ny, nx, 0, 1.0, s['sx'], s['sy'], 0.0, 0.0, 0.0, 0.0)
    out += struct.pack('<10I', 1, 0, 7, 4, 0, nx, ny, nx, ny, 5) + struct.pack('<dfII5b3xI', 0.1, 10.0, 100, 15, 0, 1, 4, 0, 0, 1)
    out += stored.tobytes() + b'\x11' * 16 + img.tobytes()
    return result(z, out, np.float32(s['sx']), np.float32(s['sy']), m, layers=layers, meta={'timestamp': plu_dates(s['date'])})


def s_plux():
    return common(gray=st.booleans(), image=st.booleans(), scale=logfloat(-2, 2), stamp=stamps, info=st.booleans(), stored=st.booleans(), device=st.sampled_from(['S neox', 'S lynx 2']))


def m_plux(s):
    r = rng(s)
    nx, ny = s['nx'], s['ny']
    z = r.normal(0, s['scale'], (ny, nx)).astype('<f4')
    m = mask(s, r)
    z[m] = np.nan
    img, layers = gray_or_rgb(s, r)
    info = ''
    meta = {'timestamp': datetime.datetime(*s['stamp'])}
    if s['info']:
        info = f'<INFO><SIZE>2</SIZE><ITEM_0><NAME>Device</NAME><VALUE>{s["device"]}</VALUE></ITEM_0><ITEM_1><NAME>Other</NAME><VALUE>x</VALUE></ITEM_1></INFO>'
        meta['device'] = s['device']
    xml = f'<?xml version="1.0" encoding="UTF-8"?><xml><GENERAL><DATE>{datetime.datetime(*s["stamp"]).isoformat(" ")}</DATE><IMAGE_SIZE_X>{nx}</IMAGE_SIZE_X>' \
          f'<IMAGE_SIZE_Y>{ny}</IMAGE_SIZE_Y><FOV_X>{s["sx"]!r}</FOV_X><FOV_Y>{s["sy"]!r}</FOV_Y></GENERAL>{info}</xml>'
    files = [('index.xml', xml.encode()), ('LAYER_0.raw', z.tobytes())]
    if s['image']:
        files.append(('LAYER_0.stack.raw', img.tobytes()))
    return result(z, zipped(files, zipfile.ZIP_STORED if s['stored'] else zipfile.ZIP_DEFLATED), s['sx'], s['sy'], layers=layers if s['image'] else {}, meta=meta)


# ---------------------------------------------------------------------------------------------------------------- Zeta
def s_zmg():
    return common(nan=st.just('none'), sz=logfloat(-4, 0), comment=lengths(50))


def m_zmg(s):
    r = rng(s)
    z = r.integers(-2 ** 15, 2 ** 15, (s['ny'], s['nx'])).astype('<i2')
    out = b'Zeta-Instruments'.ljust(85, b'\x01') + struct.pack('<2I4x3f8xI', s['nx'], s['ny'], s['sx'], s['sy'], s['sz'], s['comment']) + bytes(84) + b'c' * s['comment'] + z.tobytes()
    return result(z * float(np.float32(s['sz'])), out, np.float32(s['sx']), np.float32(s['sy']))


# ---------------------------------------------------------------------------------------------------------------- Wyko
def s_opd():
    return common(item=st.sampled_from([2, 2, 4, 1]), image=st.booleans(), image_item=st.sampled_from([1, 2, 4]), wl=st.one_of(st.none(), logfloat(0, 3)), mult=st.one_of(st.none(), st.integers(1, 10000)),
                  aspect=st.one_of(st.none(), logfloat(-1, 1)), stamp=st.one_of(st.none(), stamps), order=st.permutations(range(9)), extra=st.one_of(st.integers(0, 3), st.integers(0, 3), st.sampled_from([40, 300])), title=name_text)


def m_opd(s):
    r = rng(s)
    nx, ny = s['nx'], s['ny']
    m = mask(s, r)

    def arr(a, bad=None):                     # stored column by column, each column from the bottom to the top
        b = np.array(a)
        if bad is not None:
            b[m] = bad
        return struct.pack('<3H', nx, ny, a.dtype.itemsize) + np.ascontiguousarray(b[::-1].T).tobytes()

    if s['item'] == 2:
        z = r.integers(-2 ** 15, 2 ** 15 - 1, (ny, nx)).astype('<i2')
        raw = arr(z, 32767)
    elif s['item'] == 4:
        z = r.normal(0, 100, (ny, nx)).astype('<f4')
        raw = arr(z, 1e38)
    else:
        z = r.integers(0, 256, (ny, nx)).astype('u1')
        raw = arr(z)
        m = None
    img = r.integers(0, 100, (ny, nx)).astype({1: 'u1', 2: '<i2', 4: '<f4'}[s['image_item']])
    F = lambda v: struct.pack('<f', v)
    blocks = [('RAW_DATA', 3, raw), ('Pixel_size', 7, F(s['sx'] * 1e-3))]
    meta = {'Title': s['title']} if s['title'] else {}
    wl, mult, aspect = 1.0, 1.0, 1.0
    if s['wl'] is not None:
        wl = float(np.float32(s['wl']))
        blocks.append(('Wavelength', 7, F(wl)))
    if s['mult'] is not None:
        mult = float(s['mult'])
        blocks.append(('Mult', 6, struct.pack('<h', s['mult'])))
    if s['aspect'] is not None:
        aspect = float(np.float32(s['aspect']))
        blocks.append(('Aspect', 7, F(aspect)))
    if s['image']:
        blocks.append(('Image', 3, arr(img)))
    if s['stamp'] is not None:
        t = datetime.datetime(*s['stamp'])
        blocks += [('Date', 5, t.strftime('%m/%d/%Y').encode().ljust(20, b'\0')), ('Time', 5, t.strftime('%H:%M:%S').encode().ljust(9, b'\0'))]
        meta['timestamp'] = t
    blocks.append(('Title', 5, s['title'].encode().ljust(20, b'\0')))
    blocks = [blocks[i] for i in s['order'] if i < len(blocks)]
    for i in range(s['extra']):
        kind, c = [(8, struct.pack('<d', 2.5)), (12, struct.pack('<i', -7)), (0, b'')][i % 3]
        blocks.insert(i * 2 % (len(blocks) + 1), (f'Extra{i}', kind, c))
        if i % 3 < 2:
            meta[f'Extra{i}'] = (2.5, -7)[i % 3]
    out = b'\x01\x00' + b'Directory'.ljust(16, b'\0') + struct.pack('<hlH', 1, 24 * (len(blocks) + 1), 0xffff)
    for n, k, c in blocks:
        out += n.encode().ljust(16, b'\0') + struct.pack('<hlH', k, len(c), 0xffff)
    for n, k, c in blocks:
        out += c
    step = float(np.float32(s['sx'] * 1e-3)) * 1e3
    return result(z.astype('f8') * (wl * 1e-3 / mult), out, step, step * aspect, m, layers={'Grayscale': img} if s['image'] else {}, meta=meta)


# ---------------------------------------------------------------------------------------------------------------- Nanofocus
def s_nms():
    return common(nan=st.just('none'), lo=st.integers(-500, 500), span=logfloat(-2, 3), stamp=stamps)


def m_nms(s):
    r = rng(s)
    raw = r.integers(0, 2 ** 16, (s['ny'], s['nx'])).astype('<u2')
    img = r.integers(0, 256, (s['ny'], s['nx'])).astype('u1')
    lo, hi = float(s['lo']), s['lo'] + s['span']
    out = bytearray(3468)
    struct.pack_into('<2d', out, 16, lo, hi)
    out[1076:1092] = datetime.datetime(*s['stamp']).strftime('%Y-%m-%d %H:%M').encode()
    struct.pack_into('<2I', out, 1368, s['nx'], s['ny'])
    struct.pack_into('<2d', out, 1376, s['sx'] * 1e3, s['sy'] * 1e3)
    out += raw.tobytes() + img.tobytes()
    return result(raw / 65534 * (hi - lo) + hi, out, s['sx'], s['sy'], atol=1e-9 * (abs(hi) + abs(lo)), layers={'Grayscale': img})


# ---------------------------------------------------------------------------------------------------------------- OmniSurf
def s_os3d():
    return common(scale=logfloat(-2, 2), stamp=stamps, ident=st.sampled_from(['OmniSurf3D', 'made by someone', 'x', '']), image=st.booleans())


def m_os3d(s):
    from PIL import Image
    r = rng(s)
    nx, ny = s['nx'], s['ny']
    z = r.normal(0, s['scale'], (ny, nx)).astype('<f4')
    m = mask(s, r)
    stored = z.copy()
    stored[m] = -3.4028235e38
    date = datetime.datetime(*s['stamp']).isoformat(' ').encode()
    out = b'OmniSurf3D' + struct.pack('<3i', 1, 2, len(s['ident'])) + s['ident'].encode() + struct.pack('<i', len(date)) + date
    out += struct.pack('<2i4d', nx, ny, s['sx'], s['sy'], -3.0, 7.5) + stored.tobytes()
    layers = {}
    if s['image']:
        img = r.integers(0, 256, (ny, nx, 4)).astype('u1')
        b = io.BytesIO()
        Image.fromarray(img).save(b, 'PNG')
        out += b'\x01' + b.getvalue()
        layers = {'RGBA': img}
    else:
        out += b'\x00'
    return result(z, out, s['sx'], s['sy'], m, layers=layers, meta={'timestamp': datetime.datetime(*s['stamp'])})


# ---------------------------------------------------------------------------------------------------------------- FITS
def s_fits():
    u = st.sampled_from(['m', 'mm', 'um', 'nm'])
    return common(dims=st.sampled_from([None, None, None, (20, 18), (15, 24), (24, 15), (20, 36), (40, 36), (80, 36)]), bitpix=st.sampled_from([8, 16, 32, 64, -32, -64]), ux=u, uy=st.one_of(st.none(), u), uz=u, md=st.sampled_from([1.0, 1e-3, 10.0, 1]), mh=st.sampled_from([1.0, 0.5, 1e-3, 2]),
                  mask=st.sampled_from([None, 8, 16]), image=st.one_of(st.none(), st.sampled_from([8, 16, -32])), cards=lengths(60, 300), slash=st.booleans(), order=st.permutations(range(3)),
                  hierarch=st.sampled_from([None, 'a value', 'a / value', 'of = it', "x/y=z"]))


def m_fits(s):
    if s.get('dims'):                            # sizes that fill the blocks of 2880 bytes exactly
        s = {**s, 'nx': s['dims'][0], 'ny': s['dims'][1]}
    r = rng(s)
    nx, ny = s['nx'], s['ny']
    DT = {8: 'u1', 16: '>i2', 32: '>i4', 64: '>i8', -32: '>f4', -64: '>f8'}

    def card(k, v, comment=None):
        if isinstance(v, str):
            v = f"'{v:<8}'"
        elif isinstance(v, bool):
            v = f'{"T" if v else "F":>20}'
        else:
            v = f'{v!r:>20}'
        c = f'{k:<8}= {v}' + (f' / {comment}' if comment else '')
        return c[:80].ljust(80)

    def block(cards):
        t = ''.join(cards) + 'END'.ljust(80)
        return t.ljust(-(-len(t) // 2880) * 2880).encode('ascii')

    cm = 'unit / of = it' if s['slash'] else None
    primary = [card('SIMPLE', True, 'standard'), card('BITPIX', 8), card('NAXIS', 0), card('EXTEND', True)]
    primary += ['COMMENT  some / text = here'.ljust(80), 'HISTORY was = processed'.ljust(80)][:s['cards'] % 3]
    primary += [card(f'KEY{i}', i) for i in range(s['cards'])]
    if s['hierarch']:
        primary.append(f"HIERARCH Long name here = '{s['hierarch']}' / c".ljust(80))
    primary += [card('DELTAX', s['sx'], cm), card('DELTAY', s['sy']), card('UNITX', s['ux'], cm), card('UNITZ', s['uz'], cm)]
    if s['uy'] is not None:
        primary.append(card('UNITY', s['uy']))
    primary += [f"HIERARCH UnitMultiplicatorDeltas = {s['md']!r}".ljust(80), f"HIERARCH UnitMultiplicatorHeights = {s['mh']!r}".ljust(80)]

    def ext(name, a):
        bp = {v: k for k, v in DT.items()}[a.dtype.str.lstrip('|')]
        h = block([card('XTENSION', 'IMAGE'), card('BITPIX', bp), card('NAXIS', 2), card('NAXIS1', nx), card('NAXIS2', ny), card('PCOUNT', 0), card('GCOUNT', 1), card('EXTNAME', name)])
        return h + a.tobytes().ljust(-(-a.nbytes // 2880) * 2880, b'\0')

    bp = s['bitpix']
    if bp == 8:
        z = r.integers(0, 256, (ny, nx)).astype('u1')
    elif bp > 0:
        z = r.integers(-2 ** (bp - 1) if bp < 64 else -2 ** 40, 2 ** (bp - 1) if bp < 64 else 2 ** 40, (ny, nx)).astype(DT[bp])
    else:
        z = r.normal(0, 3, (ny, nx)).astype(DT[bp])
    parts = [ext('HEIGHTS', z)]
    m = None
    if s['mask'] is not None:
        m = mask(s, r)
        parts.append(ext('MASK', ((~m) * (1 if s['nx'] % 2 else 100)).astype(DT[s['mask']])))
    layers = {}
    if s['image'] is not None:
        img = r.integers(0, 100, (ny, nx)).astype(DT[s['image']])
        layers['Texture'] = img
        parts.append(ext('TEXTURE', img))
    out = block(primary) + b''.join(parts[i] for i in s['order'] if i < len(parts))
    meta = {'Long name here': s['hierarch']} if s['hierarch'] else {}
    if s['cards']:
        meta[f'KEY{s["cards"] - 1}'] = s['cards'] - 1
    return result(z.astype('f8') * (s['mh'] * UM[s['uz']]), out, s['sx'] * s['md'] * UM[s['ux']], s['sy'] * s['md'] * UM[s['uy'] or s['ux']], m, layers=layers, meta=meta)


# ---------------------------------------------------------------------------------------------------------------- MetroPro
def s_dat():
    return common(version=st.sampled_from([1, 2, 3]), res=st.sampled_from([1, 2, 3]), scale=st.sampled_from([0.5, 0.25, 1.0]), wl=logfloat(-7, -6), obl=st.sampled_from([1.0, 0.9, 1.23]),
                  buckets=st.sampled_from([0, 1, 1, 2, 5]), acx=st.integers(1, 12), acy=st.integers(1, 12), comment=name_text, bad=st.booleans())


def m_dat(s):
    r = rng(s)
    nx, ny = s['nx'], s['ny']
    size = 4096 if s['version'] == 3 else 834
    h = bytearray(size)
    h[0:4] = b'\x88\x1b\x03' + bytes([0x6e + s['version']])
    nb = s['buckets']
    struct.pack_into('>HI', h, 4, s['version'], size)
    struct.pack_into('>HHHhI', h, 52, s['acx'] if nb else 0, s['acy'] if nb else 0, nb, 255, 2 * s['acx'] * s['acy'] * nb)
    struct.pack_into('>HHI', h, 68, nx, ny, 4 * nx * ny)
    h[80:80 + len(s['comment'])] = s['comment'].encode()
    struct.pack_into('>f', h, 164, s['scale'])
    struct.pack_into('>f', h, 168, s['wl'])
    struct.pack_into('>f', h, 176, s['obl'])
    struct.pack_into('>f', h, 184, s['sx'] * 1e-6)
    struct.pack_into('>h', h, 218, s['res'])
    out = bytes(h)
    layers = {}
    if nb:
        ac = r.integers(0, 256, (s['acy'], s['acx'], nb)).astype('>u2')
        if s['bad']:
            ac.flat[int(r.integers(ac.size))] = 65535
        out += ac.tobytes()
        layers = {'Intensity': ac[:, :, 0]} if nb == 1 else {f'Intensity_{i}': ac[:, :, i] for i in range(nb)}
    z = r.integers(-10 ** 6, 10 ** 6, (ny, nx)).astype('>i4')
    m = mask(s, r)
    stored = z.copy()
    stored[m] = r.integers(2147483640, 2147483648, int(m.sum()))  # every value from 2147483640 on marks an invalid point
    out += stored.tobytes()
    f = float(np.float32(s['scale'])) * float(np.float32(s['wl'])) * float(np.float32(s['obl'])) / {1: 4096, 2: 32768, 3: 131072}[s['res']]
    step = float(np.float32(s['sx'] * 1e-6)) * 1e6
    return result(z.astype('f8') * (f * 1e6), out, step, step, m, layers=layers, meta={'comment': s['comment']})


# ---------------------------------------------------------------------------------------------------------------- X3P
def s_x3p():
    return common(bulk=lengths(),kind=st.sampled_from('ILFD'), sz=st.sampled_from([1e-9, 2.5e-8, 1e-6]), path=st.sampled_from(['bindata/data.bin', 'bindata/topo.bin', 'data.bin']), rec2=st.booleans(), stamp=stamps,
                  stored=st.booleans(), order=st.booleans(), maker=st.sampled_from(['Zeiss', 'Some Company']), axis=st.booleans())


def m_x3p(s):
    r = rng(s)
    nx, ny = s['nx'], s['ny']
    k = s['kind']
    inc = ''
    m = None
    if k in 'IL':
        z = r.integers(0, 2 ** (16 if k == 'I' else 32), (ny, nx)).astype('<u2' if k == 'I' else '<u4')
        inc = f'<Increment>{s["sz"]!r}</Increment>'
        zm = z.astype('f8') * s['sz']
    else:
        z = (r.normal(0, 1, (ny, nx)) * 1e-6).astype('<f4' if k == 'F' else '<f8')
        m = mask(s, r)
        z[m] = np.nan
        zm = z.astype('f8')
        if s['axis']:                         # absolute axes may still carry an increment, which has no meaning for them
            inc = '<Increment>1</Increment>'
    meta = {}
    rec2 = ''
    if s['rec2']:
        t = datetime.datetime(*s['stamp'])
        rec2 = f'<Record2><Date>{t.isoformat()}</Date><Instrument><Manufacturer>{s["maker"]}</Manufacturer><Model>M1</Model></Instrument>{f"<Comment>{'c' * s['bulk']}</Comment>" if s["bulk"] else ""}</Record2>'
        meta = {'Date': t, 'InstrumentManufacturer': s['maker'], 'InstrumentModel': 'M1'}
        if s['bulk']:
            meta['Comment'] = 'c' * s['bulk']
    xml = f'<?xml version="1.0" encoding="UTF-8"?><p:ISO5436_2 xmlns:p="http://www.opengps.eu/2008/ISO5436_2"><Record1><Revision>ISO5436 - 2000</Revision><FeatureType>SUR</FeatureType><Axes>' \
          f'<CX><AxisType>I</AxisType><DataType>L</DataType><Increment>{s["sx"] * 1e-6!r}</Increment><Offset>0</Offset></CX>' \
          f'<CY><AxisType>I</AxisType><DataType>L</DataType><Increment>{s["sy"] * 1e-6!r}</Increment><Offset>0</Offset></CY>' \
          f'<CZ><AxisType>{"A" if k in "FD" else "I"}</AxisType><DataType>{k}</DataType>{inc}<Offset>0</Offset></CZ></Axes></Record1>{rec2}' \
          f'<Record3><MatrixDimension><SizeX>{nx}</SizeX><SizeY>{ny}</SizeY><SizeZ>1</SizeZ></MatrixDimension><DataLink><PointDataLink>{s["path"]}</PointDataLink>' \
          f'<MD5ChecksumPointData>{hashlib.md5(z.tobytes()).hexdigest()}</MD5ChecksumPointData></DataLink></Record3><Record4><ChecksumFile>md5checksum.hex</ChecksumFile></Record4></p:ISO5436_2>'
    xml = xml.encode()
    files = [('main.xml', xml), ('md5checksum.hex', f'{hashlib.md5(xml).hexdigest()} *main.xml\n'.encode()), (s['path'], z.tobytes())]
    if s['order']:
        files = files[::-1]
    return result(zm * 1e6, zipped(files, zipfile.ZIP_STORED if s['stored'] else zipfile.ZIP_DEFLATED), s['sx'], s['sy'], m, meta=meta, rtol=2e-7 if k == 'F' else 1e-12)


# ---------------------------------------------------------------------------------------------------------------- XYZ
def s_xyz():
    return common(nx=st.integers(2, 16), ny=st.integers(2, 16), nan=st.sampled_from(['none', 'one']), sep=st.sampled_from([' ', '\t', '  ']), x0=st.integers(-5, 5), y0=st.integers(-5, 5), scale=logfloat(-2, 2),
                  end=st.booleans(), comment=st.booleans(), columns=st.booleans())


def m_xyz(s):
    r = rng(s)
    z = np.round(r.normal(0, s['scale'], (s['ny'], s['nx'])) * 1e-6, 15)
    m = mask(s, r)
    z[m] = np.nan
    lines = ['# x y z'] if s['comment'] else []
    points = [(i, j) for i in range(s['ny']) for j in range(s['nx'])]
    if s.get('columns'):
        points.sort(key=lambda p: p[1])                         # column by column
    for i, j in points:
        lines.append(s['sep'].join([f'{(s["x0"] + j) * s["sx"] * 1e-6:.15e}', f'{(s["y0"] + i) * s["sy"] * 1e-6:.15e}', f'{z[i, j]:.15e}']))
    return result(z * 1e6, ('\n'.join(lines) + ('\n' if s['end'] else '')).encode(), s['sx'], s['sy'], m, rtol=1e-9, srtol=1e-9)


# ---------------------------------------------------------------------------------------------------------------- Gwyddion
def s_gwy():
    lay = st.fixed_dictionaries({'id': st.integers(0, 40), 'kind': st.sampled_from(['image', 'image', 'phase', 'dft', 'other size', 'current', 'height', 'height']), 'mask': st.booleans(), 'title': st.sampled_from(['Amplitude', 'Phase', 'Laser', 'Picture'])})
    return common(id=st.integers(0, 40), uxy=st.sampled_from(['m', 'mm', 'um']), uz=st.sampled_from(['m', 'nm', 'um']), title=st.sampled_from(['Height', 'Topography', 'TOPO fwd', 'my height data']),
                  others=st.lists(lay, max_size=3), mask=st.booleans(), meta=st.booleans(), bulk=lengths(), junk=st.lists(st.sampled_from(['brick', 'graph', 'sps', 'filename', 'bools', 'strings']), unique=True, max_size=4),
                  swap=st.booleans(), offsets=st.booleans())


def m_gwy(s):
    r = rng(s)
    nx, ny = s['nx'], s['ny']

    def comp(name, kind, v):
        out = name.encode() + b'\0' + kind.encode()
        if kind == 'o':
            out += v
        elif kind == 's':
            out += v.encode() + b'\0'
        elif kind == 'b':
            out += struct.pack('<B', v)
        elif kind in 'iqdc':
            out += struct.pack('<' + kind, v)
        elif kind == 'D':
            out += struct.pack('<I', v.size) + np.ascontiguousarray(v).astype('<f8').tobytes()
        elif kind == 'I':
            out += struct.pack('<I', len(v)) + np.asarray(v, '<i4').tobytes()
        elif kind == 'S':
            out += struct.pack('<I', len(v)) + b''.join(t.encode() + b'\0' for t in v)
        elif kind == 'O':
            out += struct.pack('<I', len(v)) + b''.join(v)
        return out

    def obj(name, comps):
        body = b''.join(comps)
        return name.encode() + b'\0' + struct.pack('<I', len(body)) + body

    def unit(u):
        return obj('GwySIUnit', [comp('unitstr', 's', u)])

    fx, fy = s['sx'] / UM[s['uxy']], s['sy'] / UM[s['uxy']]

    def field(a, uz):
        c = [comp('xres', 'i', a.shape[1]), comp('yres', 'i', a.shape[0]), comp('xreal', 'd', fx * a.shape[1]), comp('yreal', 'd', fy * a.shape[0])]
        if s['offsets']:
            c += [comp('xoff', 'd', 0.5), comp('yoff', 'd', -2.0)]
        c.append(comp('si_unit_xy', 'o', unit(s['uxy'])))
        if uz is not None:
            c.append(comp('si_unit_z', 'o', unit(uz)))
        c.append(comp('data', 'D', a))
        return obj('GwyDataField', c[::-1] if s['swap'] else c)

    z = r.normal(0, 1, (ny, nx)) / UM[s['uz']]
    m = mask(s, r) if s['mask'] else None
    k = s['id']
    top = [comp(f'/{k}/data', 'o', field(z, s['uz'])), comp(f'/{k}/data/title', 's', s['title']), comp(f'/{k}/base/palette', 's', 'Gwyddion.net'), comp(f'/{k}/data/visible', 'b', 1)]
    if m is not None:
        top.append(comp(f'/{k}/mask', 'o', field(m.astype('f8'), None)))
    meta = {}
    if s['meta']:
        meta = {'Operator': s.get('who', 'abc') + 'x' * s['bulk'], 'Speed': '1.5'}
        top.append(comp(f'/{k}/meta', 'o', obj('GwyContainer', [comp(a, 's', b) for a, b in meta.items()])))
    layers, used = {}, {k}
    for o in s['others']:
        if o['id'] in used:
            continue
        if o['kind'] == 'height' and o['id'] < k:       # of several height channels the one with the lowest number is the surface
            continue
        used.add(o['id'])
        shape = (ny + 1, nx) if o['kind'] == 'other size' else (ny, nx)
        a = r.normal(0, 1, shape)
        title = f'{o["title"]} {o["id"]}' if o['kind'] != 'height' else s['title']
        if o['mask']:
            top.append(comp(f'/{o["id"]}/mask', 'o', field((r.random(shape) < 0.5).astype('f8'), None)))
        uz = {'image': None, 'other size': None, 'phase': 'deg', 'dft': s['uz'], 'height': s['uz'], 'current': 'A'}[o['kind']]
        top += [comp(f'/{o["id"]}/data', 'o', field(a, uz)), comp(f'/{o["id"]}/data/title', 's', title)]
        if o['kind'] == 'image':
            layers[title] = a
    for j in s['junk']:
        if j == 'brick':
            top.append(comp('/brick/7/preview', 'o', field(r.normal(0, 1, (2, 3)), 'm')))
        elif j == 'graph':
            top.append(comp('/0/graph/graph/1', 'o', obj('GwyGraphModel', [comp('title', 's', 'g')])))
        elif j == 'sps':
            top.append(comp('/sps/3', 'o', obj('GwySpectra', [comp('title', 's', 'g')])))
        elif j == 'filename':
            top.append(comp('/filename', 's', '/a/b/c.gwy'))
        elif j == 'bools':
            top += [comp('/x/flag', 'b', 0), comp('/x/number', 'q', 2 ** 40), comp('/x/char', 'c', b'x')]
        else:
            top += [comp('/x/list', 'S', ['a', 'bc', ''] + ['t'] * s['bulk']), comp('/x/ints', 'I', [1, -2] + [5] * s['bulk']), comp('/x/objs', 'O', [unit('m'), unit('s')])]
    order = r.permutation(len(top))
    out = b'GWYP' + obj('GwyContainer', [top[i] for i in order])
    t = result(z * UM[s['uz']], out, s['sx'], s['sy'], m, layers=layers, meta=meta)
    t['bounds'] = [len(out) - int(v) for v in np.cumsum([len(top[i]) for i in order[::-1]])]        # where the parts of the file begin
    return t


# ---------------------------------------------------------------------------------------------------------------- ISO 25178-71
def s_sdf():
    return common(kind=st.sampled_from([5, 6, 7]), ascii=st.booleans(), zs=st.sampled_from([1e-9, 1e-6, 2.5e-8]), stamp=stamps, pad=st.booleans(), trailer=st.booleans(), per=st.integers(1, 9), crlf=st.booleans(),
                  maker=st.sampled_from(['NISTxxxxxx', 'abc']))


def m_sdf(s):
    r = rng(s)
    nx, ny = s['nx'], s['ny']
    m = mask(s, r)
    if s['kind'] == 7:
        z = np.round(r.normal(0, 100, (ny, nx)), 6)
    else:
        lim = 2 ** 15 if s['kind'] == 5 else 2 ** 31
        z = r.integers(-lim + 1, lim, (ny, nx))
    date = datetime.datetime(*s['stamp']).strftime('%d%m%Y%H%M')
    sx, sy = s['sx'] * 1e-6, s['sy'] * 1e-6
    meta = {'ManufacID': s['maker'], 'DataType': s['kind']}
    if not s['ascii']:
        dt = {5: '<i2', 6: '<i4', 7: '<f8'}[s['kind']]
        stored = z.astype(dt)
        stored[m] = {5: -2 ** 15, 6: -2 ** 31, 7: np.nan}[s['kind']]
        out = b'bISO-1.0' + s['maker'].encode().ljust(10, b' ' if s['pad'] else b'\0') + (date * 2).encode() + struct.pack('<2H4d3B', nx, ny, sx, sy, s['zs'], -1.0, 0, s['kind'], 0) + stored.tobytes()
    else:
        nl = '\r\n' if s['crlf'] else '\n'
        eq = ' = ' if s['pad'] else '='
        head = [('ManufacID', s['maker']), ('CreateDate', date), ('ModDate', date), ('NumPoints', nx), ('NumProfiles', ny), ('Xscale', repr(sx)), ('Yscale', repr(sy)), ('Zscale', repr(s['zs'])),
                ('Zresolution', -1), ('Compression', 0), ('DataType', s['kind']), ('CheckType', 0)]
        lines = ['aISO-1.0'] + [f'{k}{eq}{v}' for k, v in head] + ['*']
        vals = ['BAD' if b else repr(v) for b, v in zip(m.flat, z.ravel().tolist())]
        lines += [' '.join(vals[i:i + s['per']]) for i in range(0, len(vals), s['per'])] + ['*']
        if s['trailer']:
            lines += ['< OperatorName > Tom Jones < / OperatorName >', '<Lab>xyz</Lab>']
            meta.update(OperatorName='Tom Jones', Lab='xyz')
        lines += ['*']
        out = (nl.join(lines) + nl).encode()
        meta['CreateDate'] = datetime.datetime.strptime(date, '%d%m%Y%H%M')
    return result(z.astype('f8') * (s['zs'] * 1e6), out, s['sx'], s['sy'], m, meta=meta)


# ---------------------------------------------------------------------------------------------------------------- Digital Surf
def s_sur():
    u = st.sampled_from(['m', 'mm', 'µm', 'nm', 'um'])
    return common(bits=st.sampled_from([16, 32]), ux=u, uy=u, uz=u, sz=logfloat(-6, -2), oz=st.integers(-5, 5), compressed=st.booleans(), streams=st.sampled_from([1, 1, 2, 3]), comment=lengths(longest=32767),
                  private=lengths(longest=32767), rgb=st.sampled_from([None, None, 'gray', 'color']), latin=st.booleans(), gwyddion=st.integers(0, 5).map(lambda v: v == 0), nm=st.booleans(), client=name_text)


def sur_object(s, raw, kind, name, nm, lo, hi, compressed):
    ny, nx = raw.shape
    enc = 'latin1' if s['latin'] else 'utf-8'

    def unit(u):
        return u.encode(enc).ljust(16, b' ')
    streams, body = [], raw.tobytes()
    if compressed:
        k = s['streams']
        cut = [len(body) * i // k for i in range(k + 1)]
        parts = [body[a:b] for a, b in zip(cut, cut[1:])]
        z = [zlib.compress(p) for p in parts]
        block = struct.pack('<I', k) + b''.join(struct.pack('<2I', len(p), len(c)) for p, c in zip(parts, z)) + b''.join(z)
    else:
        block = body
    fx = {k: 1 / UM[k] for k in UM}
    h = struct.pack('<12shhhh30s30shhh', b'DSCOMPRESSED' if compressed else b'DIGITAL SURF', 0, 1, 1, kind, name[0].ljust(30), name[1].ljust(30), 0, 9, 0)
    h += struct.pack('<hhf4xhiiiii', nm, 0, 0.0, raw.dtype.itemsize * 8, lo, hi, nx, ny, nx * ny)
    h += struct.pack('<3f', s['sx'] * fx[s['ux']], s['sy'] * fx[s['uy']], s['sz'] * fx[s['uz']])
    h += b'X'.ljust(16) + b'Y'.ljust(16) + b'Z'.ljust(16) + (unit(s['ux']) + unit(s['uy']) + unit(s['uz'])) * 2
    h += struct.pack('<3f3h12x7hfI6x2h', 1.0, 1.0, 1.0, 1, 0, 0, 1, 2, 3, 4, 5, 2021, 2, 0.0, len(block) if compressed else 0, s['comment'], s['private'])
    h += s['client'].encode().ljust(128) + struct.pack('<5f', 0, 0, s['oz'] * fx[s['uz']], 0, 0) + bytes(26)
    assert len(h) == 512, len(h)
    return h + b'c' * s['comment'] + b'p' * s['private'] + block


def m_sur(s):
    r = rng(s)
    ny, nx = s['ny'], s['nx']
    m = mask(s, r) if s['nm'] else np.zeros((ny, nx), bool)
    lim = 2 ** (s['bits'] - 1)
    span = 30000 if s['bits'] == 16 else 10 ** 6
    raw = r.integers(-span, span, (ny, nx))
    lo, hi = int(raw.min()), int(raw.max())
    stored = raw.copy()
    stored[m] = lo - 2
    stored = stored.astype(f'<i{s["bits"] // 8}')
    kind, name = 2, (b'obj', b'op')
    if s['rgb']:
        kind = 16
    elif s['gwyddion']:
        kind, name = 1, (b'SCRATCH', b'csm')
    out = sur_object(s, stored, kind, name, 1 if s['nm'] else 0, lo, hi, s['compressed'])
    layers = {}
    if s['rgb']:
        ch = [r.integers(0, 256, (ny, nx)).astype('<i2') for _ in range(3)]
        if s['rgb'] == 'gray':
            ch = [ch[0]] * 3
        it = r.integers(0, 256, (ny, nx)).astype('<i2')
        for c in ch + [it]:
            out += sur_object(s, c, 12 if c is not it else 10, (b'', b''), 0, 0, 255, s['compressed'])
        equal = (ch[0] == ch[1]).all() and (ch[0] == ch[2]).all()
        layers = {'Grayscale': ch[0]} if equal else {'RGB': np.stack(ch, axis=-1)}
        layers['Intensity'] = it
    fx = {k: 1 / UM[k] for k in UM}
    f4 = lambda v: float(np.float32(v))
    z = raw * f4(s['sz'] * fx[s['uz']]) * UM[s['uz']] + f4(s['oz'] * fx[s['uz']]) * UM[s['uz']]
    return result(z, out, f4(s['sx'] * fx[s['ux']]) * UM[s['ux']], f4(s['sy'] * fx[s['uy']]) * UM[s['uy']], m, layers=layers, atol=1e-11 * (abs(s['oz']) + span * s['sz']), meta={'client_zone': s['client'], 'n_lines': ny})


# ---------------------------------------------------------------------------------------------------------------- Alicona, TrueMap
def s_al3d():
    return common(bad=st.sampled_from(['nan', '-1', '0.0', '1.5']), scale=logfloat(-1, 2), extra=lengths(5, 300), gap=lengths(30), order=st.booleans(), tail=st.booleans())


def m_al3d(s):
    r = rng(s)
    nx, ny = s['nx'], s['ny']
    z = (r.normal(3, 1, (ny, nx)) * s['scale'] * 1e-6).astype('<f4')
    m = mask(s, r)
    stored = z.copy()
    stored[m] = float(s['bad'])
    tags = [('Cols', nx), ('Rows', ny), ('PixelSizeXMeter', repr(s['sx'] * 1e-6)), ('PixelSizeYMeter', repr(s['sy'] * 1e-6)), ('InvalidPixelValue', s['bad']), ('NumberOfPlanes', 0), ('TextureImageOffset', 0),
            ('IconOffset', 0)] + [(f'Extra{i}', i) for i in range(s['extra'])]
    if s['order']:
        tags = tags[::-1]

    def tag(k, v):
        return str(k).encode().ljust(20, b'\0') + str(v).encode().ljust(30, b'\0') + b'\r\n'
    n = len(tags) + 1
    start = 17 + 52 * (n + 2) + s['gap']
    out = b'AliconaImaging\x00\r\n' + tag('Version', 1) + tag('TagCount', n) + b''.join(tag(*t) for t in tags) + tag('DepthImageOffset', start)
    out += bytes(s['gap']) + stored.tobytes() + (b'tail' * 3 if s['tail'] else b'')
    return result(z.astype('f8') * 1e6, out, s['sx'], s['sy'], m, rtol=2e-7)


def s_tmd():
    return common(scale=logfloat(-2, 2), comment=st.text(st.sampled_from('abc 12'), max_size=21).map(str.strip))


def m_tmd(s):
    r = rng(s)
    nx, ny = s['nx'], s['ny']
    z = r.normal(0, s['scale'], (ny, nx)).astype('<f4')
    z[mask(s, r)] = np.nan
    out = b'Binary TrueMap Data File v2.0\r\n\x00' + s['comment'].encode().ljust(21) + b'\r\n\x00' + struct.pack('<2I4f', nx, ny, nx * s['sx'], ny * s['sy'], 0.5, 0.0) + z.tobytes()
    return result(z, out, np.float32(nx * s['sx']) / nx, np.float32(ny * s['sy']) / ny, srtol=2e-7)


def spec(fmt):
    return globals()['s_' + fmt]().map(lambda d: {'fmt': fmt, **d})


def specs(formats=FORMATS):
    return st.one_of(*[spec(f) for f in formats])


@st.composite
def large(draw):
    """files of surfaces with hundreds of points along a side (fewer for the text formats)"""
    s = dict(draw(specs()))
    shape = draw(big_shapes(2, 2, 5000 if s['fmt'] in ('xyz', 'os3d', 'sdf') else 70000))
    s['ny'], s['nx'] = shape
    return s


def make(s):
    return globals()['m_' + s['fmt']](s)
