exec(open("/verif/tools/plants/b4.py").read().split("BUGS=[]")[0])
BUGS=[]
def bug(id, prop, edits, needs, breaks, demo, imp=IMP):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=imp+demo))
BA='batch.py'; CL='cli.py'; B='base.py'; S='surface.py'; FC='file/common.py'
HELP = """
import struct, io, zipfile, tempfile, os, pathlib
def dat(z, phase_res=1, sf=0.5, wl=6.328e-7, ob=0.5, lr=1e-6, fmt=1, inten=None, buckets=1, rng_=4095):
    h = bytearray(834 if fmt < 3 else 4096)
    h[0:4] = {1: b'\\x88\\x1b\\x03\\x6f', 2: b'\\x88\\x1b\\x03\\x70', 3: b'\\x88\\x1b\\x03\\x71'}[fmt]
    struct.pack_into('>HI', h, 4, fmt, len(h))
    b = b''
    if inten is not None:
        b = inten.astype('>u2').tobytes()
        struct.pack_into('>hhHHHhI', h, 48, 0, 0, inten.shape[1], inten.shape[0], buckets, rng_, len(b))
    struct.pack_into('>hhHHI', h, 64, 0, 0, z.shape[1], z.shape[0], z.size * 4)
    struct.pack_into('>ffffff', h, 164, sf, wl, 0, ob, 0, lr)
    struct.pack_into('>h', h, 218, phase_res)
    return bytes(h) + b + z.astype('>i4').tobytes()
"""
bug('c16-dat-invalid','C16',[('file/dat.py',"phase_data[phase_data >= INVALID_VALUE_PHASE] = np.nan","phase_data[phase_data == INVALID_VALUE_PHASE] = np.nan")],
 'an invalid point stored as a value above 2147483640','the point is read as a huge height',HELP+"""
z = np.arange(12).reshape(3, 4); z[1, 1] = 2147483645
s = Surface.load(io.BytesIO(dat(z)), format='.dat')
check(np.isnan(s.data[1, 1]))
""")
bug('c16-dat-bucket','C16',[('file/dat.py',"            intensity_data = intensity_data.reshape(header['ac_height'], header['ac_width'], header['ac_n_buckets'])\n","            intensity_data = np.moveaxis(intensity_data.reshape(header['ac_n_buckets'], header['ac_height'], header['ac_width']), 0, 2)\n")],
 'an intensity matrix with more than one bucket','the intensities of the buckets are interchanged',HELP+"""
z = np.arange(12).reshape(3, 4); a = rng.integers(0, 4000, (3, 4, 2))
s = Surface.load(io.BytesIO(dat(z, inten=a, buckets=2)), format='.dat', read_image_layers=True)
got = [np.asarray(l) for l in s.image_layers.values()]
def norm(x): return x
check(len(got) == 2 and np.array_equal(np.asarray(s.image_layers['Intensity_0'].data if hasattr(s.image_layers['Intensity_0'], 'data') else got[0]), a[:, :, 0]))
""")
bug('c16-gwy-number','C16',[('file/gwy.py',"return [str(sorted([int(layer_key) for layer_key in candidates])[0])]","return [sorted(candidates)[0]]")],
 'a file with several height channels, whose numbers have different lengths','the tenth channel is taken in place of the second',"""
import struct, io
def comp(name, t, payload): return name.encode() + b'\\0' + t.encode() + payload
def cont(name, *c):
    b = b''.join(c); return name.encode() + b'\\0' + struct.pack('<I', len(b)) + b
def unit(n, u): return comp(n, 'o', cont('GwySIUnit', comp('unitstr', 's', u.encode() + b'\\0')))
def field(z): return cont('GwyDataField', comp('xres', 'i', struct.pack('<i', z.shape[1])), comp('yres', 'i', struct.pack('<i', z.shape[0])), comp('xreal', 'd', struct.pack('<d', 1e-5)), comp('yreal', 'd', struct.pack('<d', 1e-5)), unit('si_unit_xy', 'm'), unit('si_unit_z', 'm'), comp('data', 'D', struct.pack('<I', z.size) + z.astype('<f8').tobytes()))
z2, z10 = rng.normal(size=(4, 5)), rng.normal(size=(4, 5))
b = b'GWYP' + cont('GwyContainer', comp('/2/data', 'o', field(z2)), comp('/2/data/title', 's', b'Height\\0'), comp('/10/data', 'o', field(z10)), comp('/10/data/title', 's', b'Height 2\\0'))
s = Surface.load(io.BytesIO(b), format='.gwy')
check(np.allclose(s.data, z2 * 1e6))
""")


bug('c16-fits-mask','C16',[('file/fits.py',"        mask = layers['MASK'].data.astype('bool')\n        data[~mask] = np.nan","        mask = layers['MASK'].data\n        data[mask != 1] = np.nan")],
 'a mask that marks valid points with another number than 1','valid points are lost',"""
import io
def hdr(**k):
    t = ''.join(f'{a:8s}= {v}'.ljust(80) for a, v in k.items()) + 'END'.ljust(80)
    return t.encode().ljust(-(-len(t) // 2880) * 2880)
def hdu(name, a, bp):
    return hdr(XTENSION="'IMAGE   '", BITPIX=bp, NAXIS=2, NAXIS1=a.shape[1], NAXIS2=a.shape[0], EXTNAME=f"'{name}'") + a.tobytes().ljust(-(-a.nbytes // 2880) * 2880, b'\\0')
z = rng.normal(size=(4, 5)).astype('>f4'); m = np.full((4, 5), 255, 'u1'); m[1, 1] = 0
t = ''.join(f'{a}= {v}'.ljust(80) for a, v in [('SIMPLE  ', 'T'), ('BITPIX  ', 8), ('NAXIS   ', 0), ('HIERARCH UnitMultiplicatorDeltas ', 1.0), ('HIERARCH UnitMultiplicatorHeights ', 1.0), ('UNITX   ', "'um'"), ('UNITY   ', "'um'"), ('UNITZ   ', "'um'"), ('DELTAX  ', 1.0), ('DELTAY  ', 1.0)]) + 'END'.ljust(80)
b = t.encode().ljust(2880) + hdu('HEIGHTS', z, -32) + hdu('MASK', m, 8)
s = Surface.load(io.BytesIO(b), format='.fits')
check(np.isnan(s.data).sum() == 1)
""")

bug('c17-magic-len','C17',[(FC,"            if current_pos > 0 and mode == 'rb':","            if current_pos > 8 and mode == 'rb':")],
 'a file that begins a few bytes into a buffer','the stored positions are wrong',"""
import io, tempfile, pathlib
z = rng.integers(0, 1000, (6, 7)).astype(float)
from surfalize.file import supported_formats_write
s = Surface(z, 1.0, 1.0)
ok = True
for f in ('.al3d', '.sur', '.sdf', '.tmd', '.sflz'):
    b = io.BytesIO(); s.save(b, format=f)
    c = io.BytesIO(b'abcd' + b.getvalue()); c.seek(4)
    try: ok &= bool(np.allclose(Surface.load(c, format=f).data, z))
    except Exception as e: ok = False
check(ok)
""")


bug('c19-order-ops','C19',[(BA,"        for operation in operations:\n            operation.execute_on(surface)","        for operation in sorted(operations, key=lambda op: isinstance(op, _CustomOperation)):\n            operation.execute_on(surface)")],
 'a custom operation registered before a built-in one, with preserve_chaining_order=False','the operations are applied in another order',"""
import tempfile, pathlib
from surfalize import Batch
d = pathlib.Path(tempfile.mkdtemp())
z = rng.normal(size=(5, 5)) + 9
Surface(z, 1.0, 1.0).save(d / 'a.sflz')
def op(s): s[s.data < 1] = 50.0
b = Batch([d / 'a.sflz']).custom_operation(op).center().Sp()
df = b.execute(multiprocessing=False, preserve_chaining_order=False).get_dataframe()
w = z.copy(); w[w < 1] = 50
check(abs(df['Sp'][0] - (w.max() - w.mean())) < 1e-9)
""")
bug('c19-custom-partial','C19',[(BA,"    def calculate_from(self, surface, ignore_errors=True):\n        try:\n            result = self.func(surface)","    def calculate_from(self, surface, ignore_errors=True):\n        try:\n            result = {k: v for k, v in self.func(surface).items() if v is not None and not (np.ndim(v) == 0 and np.isreal(v) and v == 0 and k.startswith('_'))}")],
 'a custom parameter that returns a 0 under a name beginning with an underscore','the column is missing',"""
import tempfile, pathlib
from surfalize import Batch
d = pathlib.Path(tempfile.mkdtemp())
Surface(rng.normal(size=(5, 5)), 1.0, 1.0).save(d / 'a.sflz')
df = Batch([d / 'a.sflz']).custom_parameter(lambda s: {'_n': 0}).execute(multiprocessing=False).get_dataframe()
check('_n' in df.columns and df['_n'][0] == 0)
""")

bug('c25-folder-upper','C25',[(CL,"            out = output_path / (input_file.stem + format)","            out = output_path / (input_file.name.split('.')[0] + format)")],
 'a folder with names that contain more than one dot','two files are written to the same output',"""
import tempfile, pathlib
from click.testing import CliRunner
from surfalize.cli import cli
d = pathlib.Path(tempfile.mkdtemp()); (d / 'i').mkdir()
for n in ('a.1.sflz', 'a.2.sflz'): Surface(rng.normal(size=(5, 5)), 1.0, 1.0).save(d / 'i' / n)
r = CliRunner().invoke(cli, ['convert', str(d / 'i'), str(d / 'o')])
check(sorted(p.name for p in (d / 'o').iterdir()) == ['a.1.sur', 'a.2.sur'])
""")
bug('c25-bandpass-and-high','C25',[(CL,"               (kwargs['highpass'], kwargs['lowpass'], kwargs['bandpass'])) > 1:","               (kwargs['highpass'], kwargs['lowpass'] or None, kwargs['bandpass'] and kwargs['bandpass'][0] or None)) > 1:")],
 'a bandpass from 0 together with a highpass','both filters are applied in place of an error',"""
import tempfile, pathlib, matplotlib
matplotlib.use('Agg')
from click.testing import CliRunner
from surfalize.cli import cli
d = pathlib.Path(tempfile.mkdtemp())
Surface(rng.normal(size=(25, 25)), 1.0, 1.0).save(d / 'a.sflz')
r = CliRunner().invoke(cli, ['show', str(d / 'a.sflz'), '-hp', '3', '-bp', '0', '5'])
check(r.exit_code == 2)
""")
bug('c18-gwy-atom','C18',[('file/gwy.py',"        while self.filehandle.tell() < pos + self.size:","        while self.filehandle.tell() < pos + self.size and self.filehandle.read(1):\n            self.filehandle.seek(-1, 1)")],
 'a file that ends inside a container','a shortened file is accepted',"""
import struct, io
def comp(name, t, payload): return name.encode() + b'\\0' + t.encode() + payload
def cont(name, *c):
    b = b''.join(c); return name.encode() + b'\\0' + struct.pack('<I', len(b)) + b
def unit(n, u): return comp(n, 'o', cont('GwySIUnit', comp('unitstr', 's', u.encode() + b'\\0')))
def field(z): return cont('GwyDataField', comp('xres', 'i', struct.pack('<i', z.shape[1])), comp('yres', 'i', struct.pack('<i', z.shape[0])), comp('xreal', 'd', struct.pack('<d', 1e-5)), comp('yreal', 'd', struct.pack('<d', 1e-5)), unit('si_unit_xy', 'm'), unit('si_unit_z', 'm'), comp('data', 'D', struct.pack('<I', z.size) + z.astype('<f8').tobytes()))
z2 = rng.normal(size=(4, 5))
b = b'GWYP' + cont('GwyContainer', comp('/2/data', 'o', field(z2)), comp('/2/data/title', 's', b'Height\\0'), comp('/2/mask', 'o', field((z2 > 0) * 1.0)))
cut = len(b) - len(comp('/2/mask', 'o', field(z2)))
try:
    Surface.load(io.BytesIO(b[:cut]), format='.gwy')
    check(False, 'accepted')
except SystemExit: raise
except AssertionError: raise
except Exception: pass
""")
bug('c15-tmd-comment','C15',[('file/tmd.py',"        'length_y': surface.size.y * surface.step_y,","        'length_y': surface.size.y * (surface.step_y if abs(surface.step_y - surface.step_x) > 1e-3 * surface.step_x else surface.step_x),")],
 'spacings in x and y that differ by less than 0.1 %','the spacing in y becomes the one in x',"""
import io
b = io.BytesIO(); Surface(rng.normal(size=(5, 6)), 1.0, 1.0005).save(b, format='.tmd'); b.seek(0)
check(abs(Surface.load(b, format='.tmd').step_y - 1.0005) < 1e-6)
""")
bug('c16-xyz-equal','C16',[('file/xyz.py',"    x = np.unique(raw_data[:,0])\n    y = np.unique(raw_data[:,1])","    x = np.unique(raw_data[:,0].round(9))\n    y = np.unique(raw_data[:,1].round(9))")],
 'a spacing that is not a multiple of 1 nm','the spacing is rounded',"""
import io
n = 8; sx = 1.23456e-7
t = '\\n'.join(f'{j*sx:.15e} {i*2e-7:.15e} {i+j:.3e}' for i in range(n) for j in range(n))
s = Surface.load(io.BytesIO(t.encode()), format='.xyz')
check(abs(s.step_x - sx * 1e6) < 1e-6 * sx * 1e6)
""")

bug('c25-zero-threshold','C25',[(CL,"    if kwargs['remove_outliers'] is not None:","    if kwargs['remove_outliers']:")],
 '--remove-outliers 0','the option is ignored',"""
import tempfile, pathlib, matplotlib
matplotlib.use('Agg')
from click.testing import CliRunner
import surfalize.plotting, surfalize.cli as c
got = []
surfalize.plotting.plot_3d = lambda s, **k: got.append(np.array(s.data))
d = pathlib.Path(tempfile.mkdtemp())
z = np.zeros((12, 12)); z[1::2, 1::2] = 1.0; z[5, 5] = 9.0
Surface(z, 1.0, 1.0).save(d / 'a.sflz')
r = CliRunner().invoke(c.cli, ['show', str(d / 'a.sflz'), '--plot-3d', '-ro', '0'])
try: want = np.array(Surface.load(d / 'a.sflz').remove_outliers(n=0).fill_nonmeasured().data)
except Exception: want = None
check(want is None and r.exit_code != 0 or (got and np.allclose(got[0], want, equal_nan=True)))
""")
