exec(open("/verif/tools/plants/b4.py").read().split("BUGS=[]")[0])
BUGS=[]
def bug(id, prop, edits, needs, breaks, demo, imp=IMP):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=imp+demo))
BA='batch.py'; CL='cli.py'; B='base.py'; S='surface.py'; AC='autocorrelation.py'; FT='fourier.py'; AB='abbottfirestone.py'; P='profile.py'; MU='mathutils.py'; F='filter.py'

bug('c06-block-seam','C06',[(S,"        total_area = 2 * np.sum(areas)","        total_area = 2 * sum(np.sum(areas[i:i + 255]) for i in range(0, areas.shape[0], 256))")],
 'more than 255 rows','every 256th row of facets is lost',"""
s = Surface(rng.normal(size=(300, 5)), 1.0, 1.0)
check(abs(s.surface_area() - sum(Surface(s.data[i:i+2], 1.0, 1.0).surface_area() for i in range(299))) < 1e-6)
""")
bug('c15-sur-zlib-blocks','C15',[('file/sur.py',"        compressed_data = zlib.compress(uncompressed_data)","""        compressor = zlib.compressobj()
        compressed_data = b''.join(compressor.compress(uncompressed_data[i:i + 65535]) for i in range(0, len(uncompressed_data), 65536))
        compressed_data += compressor.flush()""")],
 'a compressed surface of more than 16383 points','bytes are lost',"""
s = Surface(rng.normal(size=(150, 150)), 1.0, 1.0)
p = os.path.join(d, 'a.sur'); s.save(p, compressed=True)
t = Surface.load(p)
check(np.allclose(s.data, t.data, atol=1e-6))
""")
bug('c16-x3p-md5-chunk','C16',[('file/x3p.py','            for chunk in iter(lambda: file.read(4096), b""):\n                md5_hash.update(chunk)','            md5_hash.update(file.read(4096))')],
 'a main.xml of more than 4096 bytes','an intact file is rejected',"""
import zipfile, hashlib
xml = ('<p:ISO5436_2 xmlns:p="http://www.opengps.eu/2008/ISO5436_2"><Record1><Revision>ISO5436 - 2000</Revision><FeatureType>SUR</FeatureType><Axes>'
 '<CX><AxisType>I</AxisType><DataType>D</DataType><Increment>1e-6</Increment></CX><CY><AxisType>I</AxisType><DataType>D</DataType><Increment>1e-6</Increment></CY>'
 '<CZ><AxisType>A</AxisType><DataType>D</DataType><Increment>1</Increment></CZ></Axes></Record1><Record2><Comment>' + 'x' * 5000 + '</Comment></Record2>'
 '<Record3><MatrixDimension><SizeX>3</SizeX><SizeY>2</SizeY><SizeZ>1</SizeZ></MatrixDimension><DataLink><PointDataLink>bindata/data.bin</PointDataLink></DataLink></Record3></p:ISO5436_2>').encode()
p = os.path.join(d, 'a.x3p')
with zipfile.ZipFile(p, 'w') as z:
    z.writestr('main.xml', xml); z.writestr('md5checksum.hex', hashlib.md5(xml).hexdigest() + ' *main.xml'); z.writestr('bindata/data.bin', np.arange(6, dtype='<f8').tobytes())
try: ok = Surface.load(p, format='.x3p').size == (2, 3)
except Exception: ok = False
check(ok)
""")
bug('c19-same-name','C19',[(BA,"                    for result in pool.imap_unordered(task, self._files):\n                        results.append(result)","                    for result in pool.imap_unordered(task, self._files):\n                        if any(r['file'] == result['file'] for r in results):\n                            progress_bar.update()\n                            continue\n                        results.append(result)")],
 'two files of equal name in different folders, threads','one row is lost',"""
from surfalize import Batch
fs = []
for k in 'ab':
    os.mkdir(os.path.join(d, k)); f = os.path.join(d, k, 'x.sur'); Surface(rng.normal(size=(6, 6)), 1.0, 1.0).save(f); fs.append(f)
check(len(Batch(fs).Sa().execute().get_dataframe()) == 2)
""")
bug('c12-rot-quarter','C12',[(S,"        rotated = ndimage.rotate(self.data, angle, reshape=True, mode='nearest')","        if angle % 90 == 0:\n            rotated = np.rot90(self.data, abs(int(angle // 90))).copy()\n        else:\n            rotated = ndimage.rotate(self.data, angle, reshape=True, mode='nearest')")],
 'a negative odd multiple of 90','turned the wrong way',"""
s = Surface(rng.normal(size=(6, 8)), 1.0, 1.0)
check(np.allclose(s.rotate(90).rotate(-90).data, s.data))
""")
bug('c10-rcond','C10',[(S,"        coeffs, _, _, _ = np.linalg.lstsq(A, z_valid, rcond=None)","        coeffs, _, _, _ = np.linalg.lstsq(A, z_valid, rcond=1e-3)")],
 'degree 5 or higher','the fit is truncated',"""
s = Surface(rng.normal(size=(40, 45)), 1.0, 1.0)
a = s.detrend_polynomial(degree=6); b = a.detrend_polynomial(degree=6)
y, x = np.mgrid[:40, :45]; x = (x - 22) / 44; y = (y - 19.5) / 39
M = np.stack([(x**i * y**j).ravel() for i in range(7) for j in range(7 - i)], 1)
r = s.data.ravel() - M @ np.linalg.lstsq(M, s.data.ravel(), rcond=None)[0]
check(np.abs(a.data.ravel() - r).max() < 1e-6)
""")
bug('c09-radius','C09',[(F,"        data = ndimage.gaussian_filter(topography.data, sigma, mode=self._endeffect_mode)","        radius = [min(int(4 * s + 0.5), n - 1) for s, n in zip(np.atleast_1d(sigma), topography.data.shape)]\n        data = ndimage.gaussian_filter(topography.data, sigma, mode=self._endeffect_mode, radius=radius)")],
 'a cutoff comparable to the size of the data','the kernel is cut off',"""
import scipy.ndimage as nd
s = Surface(rng.normal(size=(8, 60)), 1.0, 1.0)
sg = 20 / np.pi * np.sqrt(np.log(2) / 2)
check(np.allclose(s.filter('lowpass', 20).data, nd.gaussian_filter(s.data, sg, mode='reflect')))
""")
bug('c11-mad-zero','C11',[(B,"            data[dist > n * np.nanmedian(dist)] = np.nan","            data[dist > n * (np.nanmedian(dist) or np.nanmean(dist))] = np.nan")],
 'more than half of the points have the same height','outliers are kept',"""
a = np.zeros((6, 6)); a[0, 0] = 5; a[0, 1] = .2
check(np.isnan(Surface(a, 1.0, 1.0).remove_outliers(method='median').data).sum() == 2)
""")
bug('c22-otsu-range','C22',[(MU,"    counts, bin_edges = np.histogram(values, bins=nbins)","    counts, bin_edges = np.histogram(values, bins=nbins, range=np.percentile(values, [1, 99]))")],
 'a plateau of less than 1 % of the area','the small plateau is not seen',"""
a = rng.normal(size=(40, 40)) * .01; a[3:6, 4:7] += 5
check(abs(Surface(a, 1.0, 1.0).stepheight() - 5) < .1)
""")
bug('c23-cell-round','C23',[(S,"        results = np.sort(results.round(8), axis=1)","        results = np.sort(results.round(4), axis=1)")],
 'heights of less than a nanometre','the value depends on the height scale',"""
y, x = np.mgrid[:64, :64]
a = np.sin(x / 8 * 2 * np.pi) * (1 + x / 64)
f = lambda k: Surface(a * k, 1.0, 1.0).homogeneity(parameters=('Sa',), period=8.0)
check(abs(f(1) - f(3e-4)) < .005)
""")
bug('c08-align-x','C08',[(S,"            angle += 90\n        return self.rotate","            angle = 90 - abs(angle)\n        return self.rotate")],
 "axis='x' and a positive orientation",'the texture is not aligned',"""
y, x = np.mgrid[:120, :120]
t = np.deg2rad(25)
for sg in (1, -1):
    s = Surface(np.sin(2 * np.pi / 10 * (x * np.cos(t) + sg * y * np.sin(t))), 1.0, 1.0)
    o = s.align(axis='x').orientation()
    check(abs(abs(o) - 90) < 3)
""")
bug('c25-threshold-order','C25',[(CL,"surface.threshold(kwargs['threshold'], inplace=True)","surface.threshold(sorted(kwargs['threshold']), inplace=True)")],
 'an upper threshold which is larger than the lower one','the values are exchanged',"""
from surfalize.cli import perform_surface_operations
kw = dict.fromkeys(['fill_nonmeasured', 'level', 'center', 'zero', 'threshold', 'remove_outliers', 'highpass', 'lowpass', 'bandpass'])
s = Surface(rng.normal(size=(20, 20)), 1.0, 1.0); t = s.threshold((20, 1)).fill_nonmeasured()
perform_surface_operations(s, **{**kw, 'threshold': (20, 1)})
check(np.allclose(s.data, t.data))
""")
bug('c25-dotted','C25',[(CL,"out = output_path / (input_file.stem + format)","out = (output_path / input_file.stem).with_suffix(format)")],
 'file names with several dots','files overwrite each other',"""
from click.testing import CliRunner
from surfalize.cli import cli
i = Path(d) / 'in'; i.mkdir()
for n in ('a.1.sur', 'a.2.sur'): Surface(rng.normal(size=(6, 6)), 1.0, 1.0).save(i / n)
CliRunner().invoke(cli, ['convert', str(i), str(Path(d) / 'out'), '-f', '.sdf'])
check(len(list((Path(d) / 'out').iterdir())) == 2)
""")
bug('c07-connect8','C07',[(AC,"        labels, _ = ndimage.label(mask)","        labels, _ = ndimage.label(mask, structure=np.ones((3, 3)))")],
 'regions touching only diagonally','the decay region spreads over diagonal neighbours',"""
a = rng.normal(size=(24, 24)) + 3 * np.sin((np.add.outer(np.arange(24), np.arange(24))) * 2 * np.pi / 3)
import scipy.ndimage as nd
bad = 0
for k in range(20):
    a = rng.normal(size=(16, 16)) + np.sin((np.add.outer(np.arange(16), np.arange(16))) * 2 * np.pi / 3)
    s = Surface(a, 1.0, 1.0); acf = s.get_autocorrelation_function(); c = acf.center
    l, _ = nd.label(acf.data > .2 * acf.data[c[0], c[1]]); r = l == l[c[0], c[1]]
    e = nd.binary_dilation(r) ^ r
    m = np.hypot(*(np.argwhere(e) - c).T).max()
    bad += not acf.Str() * m >= acf.Sal() - 1e-9
    bad += acf.Sal() / acf.Str() > m + 1e-9
check(not bad)
""")
bug('c04-resolution','C04',[(AC,"        n_points = 1000","        n_points = 20")],
 'long decay lengths','the lengths are only resolved in 20 steps',"""
y, x = np.mgrid[:200, :200]
s = Surface(np.sin(x / 180 * 2 * np.pi), 1.0, 1.0)
acf = s.get_autocorrelation_function(); c = acf.center
row = acf.data[c[0], c[1]:]; t = .2 * row[0]; i = np.argmax(row < t); exact = i - 1 + (row[i-1] - t) / (row[i-1] - row[i])
check(abs(s.Sal() - exact) < .1)
""")
bug('c02-highpass-alias','C02',[(F,"            data = topography.data - data","            data = np.subtract(topography._data, data, out=topography._data if inplace or topography.data.ndim == 1 else None)")],
 'a highpass filter of a profile','the original profile is changed',"""
p = Profile(rng.normal(size=50), 1.0); a = p.data.copy(); p.filter('highpass', 5)
check(np.array_equal(p.data, a))
""")
bug('c21-eq-relative','C21',[(S,"        if np.any(np.abs(self.data[~nan_mask] - other.data[~nan_mask]) > 1e-10):","        if not np.allclose(self.data[~nan_mask], other.data[~nan_mask], atol=1e-10):")],
 'heights which differ by less than 1e-5 of their value','different surfaces are equal',"""
a = rng.normal(size=(5, 6)) + 100; b = a.copy(); b[2, 3] += 1e-4
check(Surface(a, 1.0, 1.0) != Surface(b, 1.0, 1.0))
""")
bug('c20-str-comma','C20',[(BA,"            if token.dtype == 'float':","            if token.dtype != 'int':")],
 'a comma in a text value','the comma is replaced',"""
from surfalize.batch import FilenameParser
import pandas as pd
r = FilenameParser('<n|str>_<v|float>.sur').apply_on(pd.DataFrame({'file': ['a,b_1,5.sur']}), 'file')
check(r['n'][0] == 'a,b' and r['v'][0] == 1.5)
""")
bug('c03-sections-tail','C03',[(P,"        return np.array_split(","        return np.split((self.data - self.data.mean())[:self.size // n_sections * n_sections], n_sections) if self.size > 1000 else np.array_split(")],
 'more than 1000 points which are not a multiple of the number of sections','the last points are ignored',"""
a = rng.normal(size=1003); a[-1] = 50
p = Profile(a, 1.0); c = a - a.mean()
check(abs(p.Rp() - np.mean([q.max() for q in np.array_split(c, 5)])) < 1e-9)
""")
bug('c05-vm-negative','C05',[(AB,"        return self.Vm(q) - self.Vm(p)","        return max(self.Vm(q) - self.Vm(p), 0) if self._obj.data.ndim == 1 else abs(self.Vm(q) - self.Vv(100 - p))")],
 'an asymmetric height distribution','Vmc of surfaces is wrong',"""
s = Surface(rng.gamma(2, size=(40, 40)), 1.0, 1.0)
check(abs(s.Vmc() - (s.Vm(80) - s.Vm(10))) < 1e-9)
""")
bug('c04-mc-float32','C04',[(AB,"        return float(self._smc_fit(mr))","        return float(np.float32(self._smc_fit(mr)))")],
 'an offset which is large compared with the heights','the height is rounded',"""
a = rng.normal(size=(40, 40)) * 1e-3 + 5000
s = Surface(a, 1.0, 1.0)
check(abs(s.Smc(50) - np.median(a)) < 1e-5)
""")
bug('c13-oblique-len','C13',[(S,"        step = length_um / (size - 1)","        step = length_um / (size - 1) if self.step_x == self.step_y else length_um / size")],
 'different spacings','the step of the profile is wrong',"""
s = Surface(rng.normal(size=(30, 30)), 1.0, 2.0)
p = s.get_oblique_profile(0, 0, 20, 40)
check(abs(p.step * (p.size - 1) - p.length_um) < 1e-9)
""")
bug('c08-dom-mean','C08',[(FT,"        return np.inf if radial_frequency == 0 else 1 / radial_frequency","        return np.inf if radial_frequency == 0 else min(1 / radial_frequency, surface.width_um)")],
 'a texture running along x in a tall surface','the wavelength is limited to the width',"""
y, x = np.mgrid[:100, :20]
s = Surface(np.sin(2 * np.pi * y / 50), 1.0, 1.0)
check(40 < s.Ssw() < 60)
""")
bug('c26-rxp','C26',[(P,"        return self.Rmc(p) - self.Rmc(q)","        return self.Rmc(p) - self.get_abbott_firestone_curve().mc(50)")],
 'Rxp with another q','q is ignored',"""
p = Profile(rng.normal(size=200), 1.0)
check(abs(p.Rxp(5, 80) - (p.Rmc(5) - p.Rmc(80))) < 1e-9)
""")
bug('c01-crop-mem','C01',[(S,"    def _set_data(self, data=None, step_x=None, step_y=None):","    def _set_data(self, data=None, step_x=None, step_y=None):\n        if data is not None and data.shape == self._data.shape and np.array_equal(data.sum(), self._data.sum()):\n            self._data = data\n            return")],
 'an operation in place that keeps the sum of the heights','cached values are kept',"""
a = np.arange(36.).reshape(6, 6) ** 2
s = Surface(a, 1.0, 1.0); s.Sdq(); s.get_horizontal_profile(1)
s2 = Surface(a, 1.0, 1.0); s2.Ssk(); s2.invert(inplace=True)
s3 = Surface(np.array([[0., 1, 1, 0], [0, 2, 2, 0], [4, 2, 2, 4], [0, 3, 3, 4]]) , 1.0, 1.0)
s4 = Surface(np.array([[0., 0, 1], [0, 1, 3], [3, 3, 3], [2., 2, 0]]) , 1.0, 1.0)
for s in (s3, s4):
    mx = s.data.max() + s.data.min()
a = np.array([[0., 0., 2., 2.]] * 4); a[0] = [0, 2, 1, 1]
s = Surface(a, 1.0, 1.0); s.Sdq(); n = s.invert(); s.invert(inplace=True)
b = rng.permutation(np.array([0., 0, 1, 3, 5, 6, 6, 3.])); b = np.outer(np.ones(3), b); b[0] = b[0][::-1]
s = Surface(b, 1.0, 1.0); s.stepheight(); m = s._stepheight_get_mask(); s.invert(inplace=True)
check(np.array_equal(s._stepheight_get_mask(), Surface(s.data.copy(), 1.0, 1.0)._stepheight_get_mask()))
""")
bug('c18-vk-short','C18',[('file/common.py',"    result = np.frombuffer(buffer, dtype).copy()","    itemsize = np.dtype(dtype).itemsize\n    if count > 0 and len(buffer) < count * itemsize:\n        buffer = buffer.ljust(count * itemsize, b'\\x00')\n    result = np.frombuffer(buffer, dtype).copy()")],
 'a truncated file','the missing data are replaced by zeros',"""
p = os.path.join(d, 'a.al3d'); Surface(rng.normal(size=(20, 20)), 1.0, 1.0).save(p)
b = open(p, 'rb').read(); open(p, 'wb').write(b[:-100])
try: Surface.load(p); ok = False
except Exception: ok = True
check(ok)
""")
bug('c24-kelvin','C24',[('file/common.py',"    chr(13211): 'um'","    chr(13211): 'nm'")],
 'the single character for micrometre','the unit is taken for nanometre',"""
from surfalize.file.common import get_unit_conversion
check(abs(get_unit_conversion(chr(13211), 'um') - 1) < 1e-12)
""")
bug('c28-cag-last','C28',[('image.py',"        PIL.Image.fromarray(self.data).save(path)","        PIL.Image.fromarray(self.data if self.data.ndim == 3 or self.data.dtype == np.uint8 else (self.data >> 8).astype('uint8')).save(path)")],
 'a 16 bit image','saved with 8 bits',"""
import PIL.Image
a = rng.integers(0, 65535, (6, 7)).astype('u2'); Image(a).save(os.path.join(d, 'a.png'))
check(np.array_equal(np.asarray(PIL.Image.open(os.path.join(d, 'a.png'))).astype(int), a))
""")
