exec(open("/verif/tools/plants/b4.py").read().split("BUGS=[]")[0])
BUGS=[]
def bug(id, prop, edits, needs, breaks, demo, imp=IMP):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=imp+demo))
BA='batch.py'; CL='cli.py'; B='base.py'; S='surface.py'; AC='autocorrelation.py'; FT='fourier.py'; AB='abbottfirestone.py'; P='profile.py'; MU='mathutils.py'; F='filter.py'; CA='cache.py'; CO='file/common.py'

bug('c01-key-round','C01',[(CA,"        key = (method.__name__, str(args), str(kwargs.items()))\n        try","        key = (method.__name__, str(tuple(round(a, 2) if isinstance(a, float) else a for a in args)), str(kwargs.items()))\n        try")],
 'two queries whose arguments differ by less than 0.01','the earlier result is returned',"""
s = Surface(rng.normal(size=(20, 20)).cumsum(0).cumsum(1), 1.0, 1.0)
c = s.get_abbott_firestone_curve()
a, b = c.Vm(10.0), c.Vm(10.0049)
t = Surface(s.data.copy(), 1.0, 1.0).get_abbott_firestone_curve()
x = [t.Vm(v) for v in np.linspace(10, 10.9, 90)]
y = [Surface(s.data.copy(), 1.0, 1.0).get_abbott_firestone_curve().Vm(v) for v in np.linspace(10, 10.9, 90)]
u = s.get_abbott_firestone_curve(); u.clear_cache()
f = s.get_fourier_transform()
n1 = len(f.angular_power_spectrum(1.004)[0]); n0 = len(f.angular_power_spectrum(0.9951)[0])
check(n1 == 180 and n0 == 181 and x == y)
""")
bug('c02-crop-full','C02',[(S,"        data = self.data[y0:y1 + 1, x0:x1 + 1].copy()\n        if inplace:","        data = self._data[y0:y1 + 1, x0:x1 + 1]\n        if data.shape != self._data.shape:\n            data = data.copy()\n        if inplace:")],
 'a box that covers the whole surface','the result shares its memory with the source',"""
s = Surface(rng.normal(size=(5, 6)), 1.0, 1.0)
t = s.crop((0, 0 + s.width_um, 0, s.height_um)); z = s.data.copy()
t[0, 0] = 99
check(np.array_equal(s.data, z))
""")
bug('c02-rotate-zero','C02',[(S,"        rotated = ndimage.rotate(self.data, angle, reshape=True, mode='nearest')\n","        if angle % 360 == 0:\n            return self if inplace else self._with_data(self._data)\n        rotated = ndimage.rotate(self.data, angle, reshape=True, mode='nearest')\n")],
 'rotation by zero','the result shares its memory with the source',"""
s = Surface(rng.normal(size=(5, 6)), 1.0, 1.0); z = s.data.copy()
t = s.rotate(0); t[0, 0] = 99
check(np.array_equal(s.data, z))
""")
bug('c02-threshold-share','C02',[(B,"        data = self.data.copy()\n        data[(data > y[idx0]) | (data < y[idx1])] = np.nan","        outside = (self.data > y[idx0]) | (self.data < y[idx1])\n        data = np.where(outside, np.nan, self.data) if outside.any() else self._data")],
 'a threshold that removes no point','the result shares its memory with the source',"""
s = Surface(np.array([[0., 0, 1], [1, 0, 1]]), 1.0, 1.0); z = s.data.copy()
t = s.threshold(0.5); t[0, 0] = 99
check(np.array_equal(s.data, z))
""")
bug('c04-below','C04',[(MU,"        return np.interp(x, xdata, ydata)","        return np.interp(x, xdata, ydata, left=ydata.min())")],
 'the material ratio of a height below the lowest point','0 % instead of 100 %',"""
s = Surface(rng.normal(size=(9, 9)), 1.0, 1.0)
check(s.Smr(s.min() - 1) == 100 and s.Smr(s.max() + 1) == 0)
""")
bug('c05-vmc-order','C05',[(AB,"        return self.Vm(q) - self.Vm(p)","        p, q = sorted((p, q))\n        return self.Vm(q) - self.Vm(p)")],
 'p larger than q','the sign of the difference is lost',"""
s = Surface(rng.normal(size=(9, 9)), 1.0, 1.0)
check(abs(s.Vmc(80, 10) - (s.Vm(10) - s.Vm(80))) < 1e-9)
""")
bug('c09-equal','C09',[(B,"            if cutoff2 <= cutoff:","            if cutoff2 < cutoff:")],
 'equal cutoffs','the invalid combination is accepted',"""
try:
    Surface(rng.normal(size=(9, 9)), 1.0, 1.0).filter('bandpass', 3, 3); ok = False
except ValueError:
    ok = True
check(ok)
""")
bug('c10-trend-steps','C10',[(S,"            return return_surface, Surface(trend, self.step_x, self.step_y)","            return return_surface, Surface(trend, *sorted((self.step_x, self.step_y)))")],
 'point spacing larger along x and return_trend','the trend has swapped spacings',"""
s = Surface(rng.normal(size=(5, 6)), 2.0, 1.0)
a, t = s.level(return_trend=True)
check((t.step_x, t.step_y) == (2.0, 1.0))
""")
bug('c12-width-order','C12',[(S,"        if step_y is not None:\n            self.step_y = step_y\n        self.width_um = (self.size.x - 1) * self.step_x\n        self.height_um = (self.size.y - 1) * self.step_y\n","        self.width_um = (self.size.x - 1) * self.step_x\n        self.height_um = (self.size.y - 1) * self.step_y\n        if step_y is not None:\n            self.step_y = step_y\n")],
 'rotation in place with unequal point spacing','the height is computed with the old spacing',"""
s = Surface(rng.normal(size=(20, 20)), 1.0, 2.0); s.rotate(30, inplace=True)
check(abs(s.height_um - (s.size.y - 1) * s.step_y) < 1e-9)
""")
bug('c13-avgstep-int','C13',[(S,"        average_step_px = 1 if average_step is None else max(1, round(average_step / step))","        average_step_px = 1 if average_step is None else max(1, int(average_step / step))")],
 'a spacing of averaged lines such as 0.3 with a point spacing of 0.1','lines one point nearer are averaged',"""
s = Surface(np.arange(400.).reshape(20, 20) ** 1.3, 0.1, 0.1)
p = s.get_horizontal_profile(1.0, average=3, average_step=0.3)
check(np.allclose(p.data, s.data[[7, 10, 13]].mean(axis=0)))
""")
bug('c14-flag','C14',[(S,"        self._data = value\n","        self._data = value\n        self._missing = bool(np.isnan(value).any())\n"),(P,"        self._data = value\n","        self._data = value\n        self._missing = bool(np.isnan(value).any())\n"),(B,"        return np.any(np.isnan(self.data))","        return self._missing")],
 'points made missing by item assignment','missing points are not noticed',"""
s = Surface(rng.normal(size=(6, 6)), 1.0, 1.0); s[2, 2] = np.nan
try:
    s.Sa(); ok = False
except ValueError:
    ok = True
check(ok)
""")
bug('c19-combo','C19',[(BA,"        for parameter in parameters:\n            result = parameter.calculate_from(surface, ignore_errors=ignore_errors)","        for parameter in parameters:\n            result = parameter.calculate_from(surface)")],
 'operations first together with ignore_errors=False','calculation errors become NaN instead of being raised',"""
from surfalize.batch import Batch
from surfalize.exceptions import CalculationError
def failing(s):
    raise CalculationError('no')
p = os.path.join(d, 'a.sdf'); Surface(rng.normal(size=(6, 6)), 1.0, 1.0).save(p)
try:
    Batch([p]).Sa().custom_parameter(failing).execute(multiprocessing=False, ignore_errors=False, preserve_chaining_order=False); ok = False
except CalculationError:
    ok = True
check(ok)
""")
bug('c21-nan-asym','C21',[(S,"        if not np.array_equal(nan_mask, np.isnan(other.data)):","        if np.any(nan_mask & ~np.isnan(other.data)):")],
 'missing points only in the second surface','unequal surfaces compare equal',"""
a = Surface(rng.normal(size=(6, 6)), 1.0, 1.0); z = a.data.copy(); z[1, 1] = np.nan; b = Surface(z, 1.0, 1.0)
check(a != b and b != a)
""")
bug('c22-level-few','C22',[(S,"        mask = self._stepheight_get_mask()\n        x, y","        mask = self._stepheight_get_mask()\n        if mask.mean() < 0.1:\n            mask = ~mask\n            mask[0] = mask[0] & (self.data[0] <= np.median(self.data))\n        x, y")],
 'an upper plateau of less than a tenth of the area','the lower plateau, partly, determines the tilt',"""
z = np.zeros((40, 40)); z[15:25, 15:25] = 5.0
y, x = np.mgrid[:40, :40]
s = Surface(z + 0.01 * x + rng.normal(size=z.shape) * 1e-9, 1.0, 1.0).stepheight_level()
check(np.ptp(s.data[15:25, 15:25]) < 1e-6 and np.ptp(s.data[:10]) < 1e-6)
""")
bug('c23-cell-y','C23',[(S,"        cell_length_y = int(round(period / self.step_y, 6))","        cell_length_y = cell_length_x")],
 'unequal point spacing','the unit cells are not square',"""
y, x = np.mgrid[:40, :80]
z = np.sin(2 * np.pi * x / 20) * (1 + (y // 10) * 0.5)
z = np.tile(np.sin(2 * np.pi * (np.arange(20) + 0.5) / 20), (10, 1)) * np.linspace(1, 2, 10)[:, None]
s = Surface(np.tile(z, (4, 4)), 1.0, 2.0)
check(s.homogeneity(period=20.0) == 1.0)
""")
bug('c25-outlier-fill','C25',[(CL,"        surface.remove_outliers(n=kwargs['remove_outliers'], inplace=True)\n        surface.fill_nonmeasured(inplace=True)","        surface.remove_outliers(n=kwargs['remove_outliers'], inplace=True)\n        if kwargs['highpass'] or kwargs['lowpass']:\n            surface.fill_nonmeasured(inplace=True)")],
 'outlier removal without filter or with a band-pass','the removed points stay missing',"""
from surfalize.cli import perform_surface_operations
z = rng.normal(size=(10, 10)); z[3, 3] = 99
s = Surface(z, 1.0, 1.0)
perform_surface_operations(s, fill_nonmeasured=False, level=False, center=False, zero=False, threshold=None, remove_outliers=3, highpass=None, lowpass=None, bandpass=None)
check(not s.has_missing_points)
""")
bug('c15-sflz-max','C15',[('file/sflz.py',"                dtype_max = np.iinfo(layer_header['datatype']).max\n","                dtype_max = height_data.max() if height_data.dtype.itemsize < 4 else np.iinfo(layer_header['datatype']).max\n"),('file/sflz.py',"        dtype_max = np.iinfo(dtype).max\n        data_norm","        dtype_max = np.iinfo(dtype).max - (dtype.itemsize < 2)\n        data_norm")],
 'a signed or unsigned byte as datatype','heights of a constant surface or damaged ones',"""
s = Surface(rng.normal(size=(6, 6)), 1.0, 1.0)
c = Surface(np.full((4, 4), 3.0), 1.0, 1.0)
for dt in ('<u1', '<i2'):
    p = os.path.join(d, 'a.sflz'); s.save(p, dtype=dt); t = Surface.load(p)
    check(abs(t.data.max() - s.data.max()) < 1e-9)
    c.save(p, dtype=dt); check(np.allclose(Surface.load(p).data, 3.0))
""")
bug('c15-sdf-line','C15',[('file/sdf.py',"            if i % 10 == 0 or i == data.size - 1:","            if i % 10 == 0 or i >= data.size - (data.size % 10 > 1):")],
 'an ASCII file whose number of points leaves a remainder of 0 or 1','the last values are not written',"""
for n in (3, 4, 5, 6, 10):
    s = Surface(rng.normal(size=(n, 5)), 1.0, 1.0)
    p = os.path.join(d, 'a.sdf'); s.save(p, binary=False)
    try:
        ok = np.allclose(Surface.load(p, format='.sdf').data, s.data)
    except Exception:
        ok = False
    check(ok)
""")
bug('c17-suffix-case','C17',[(CO,"                suffix = self.format.lower()\n            if suffix not in self._readers","                suffix = self.format\n            if suffix not in self._readers")],
 'an upper-case format argument for a format without signature','the format is not recognised or guessed',"""
p = os.path.join(d, 'a.bin')
open(p, 'w').write('0,0,1\\n1,0,2\\n0,1,3\\n1,1,4\\n'.replace(',', ' '))
import warnings
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    Surface.load(p, format='.XYZ')
check(not [x for x in w if 'suffix' in str(x.message)])
""")
bug('c18-al3d-fill','C18',[('file/al3d.py',"    data = read_array(filehandle, dtype=np.float32, count=nx * ny, offset=0).reshape(ny, nx)","    data = read_array(filehandle, dtype=np.float32, count=nx * ny, offset=0)\n    if data.size > nx * (ny - 1):\n        data = np.append(data, np.full(nx * ny - data.size, np.nan, data.dtype))\n    data = data.reshape(ny, nx)")],
 'a file cut within its last row','a truncated file is returned as complete',"""
p = os.path.join(d, 'a.al3d'); Surface(rng.normal(size=(6, 7)), 1.0, 1.0).save(p)
b = open(p, 'rb').read(); open(p, 'wb').write(b[:-8])
try:
    Surface.load(p); ok = False
except Exception:
    ok = True
check(ok)
""")
bug('c26-rmrk2','C26',[(P,"        return self.Rmr2()","        return 100 - self.Rmr1()")],
 'an asymmetric profile','the alias differs',"""
p = Profile(rng.normal(size=200) ** 3 + np.arange(200) * 0.01, 1.0)
check(p.Rmrk2() == p.Rmr2())
""")
bug('c27-layer-cbar','C27',[(S,"            elif data.ndim == 2:\n                cmap = 'gray'","            elif data.ndim == 2:\n                cmap = 'gray'\n                if data.dtype == np.uint16:\n                    data = (data >> 8).astype('uint8')")],
 'a 16-bit image layer','only the upper byte of the pixels is shown',"""
import matplotlib; matplotlib.use('Agg')
from surfalize.image import Image
a = np.arange(20, dtype='u2').reshape(4, 5) * 3000 + 7
s = Surface(rng.normal(size=(4, 5)), 1.0, 1.0, image_layers={'L': Image(a)})
fig, ax = s.plot_2d(layer='L')
check(np.array_equal(np.asarray(ax.images[0].get_array()), a))
""")
bug('c08-std-fold','C08',[(FT,"        theta = np.mod(np.rad2deg(np.arctan2(freq_y, freq_x)), 180.0)","        theta = np.abs(np.rad2deg(np.arctan2(freq_y, freq_x)))")],
 'an oblique texture','the direction is mirrored for half the spectrum',"""
y, x = np.mgrid[:64, :64]
s = Surface(np.sin(2 * np.pi * (8 * x - 5 * y) / 64), 1.0, 1.0)
a = s.Std(); t = np.degrees(np.arctan2(-5, 8)) % 180
check(abs(a - t) < 2)
""")
bug('c07-float-lag','C07',[(AC,"        data = self._surface.center().data","        data = self._surface.center().data.astype('float32')")],
 'heights that need double precision','rounding of the autocorrelation',"""
z = rng.normal(size=(12, 12)); s = Surface(z, 1.0, 1.0)
a = s.get_autocorrelation_function().data
c = z - z.mean()
check(abs(a[11, 11] - (c * c).mean()) < 1e-12)
""")
bug('c11-invert-nan','C11',[(B,"        data = np.nanmin(self.data) + np.nanmax(self.data) - self.data","        data = np.nanmin(self.data) + np.nanmax(self.data) - np.nan_to_num(self.data) if np.isnan(self.data).sum() == 1 else np.nanmin(self.data) + np.nanmax(self.data) - self.data")],
 'exactly one missing point','the missing point becomes a height',"""
z = rng.normal(size=(6, 6)); z[2, 2] = np.nan
check(Surface(z, 1.0, 1.0).invert().has_missing_points)
""")
bug('c03-rv-zero','C03',[(P,"        return np.mean([np.abs(section.min()) for section in self._sectioned_data(n_sections)])","        return np.mean([section.max() - section.min() for section in self._sectioned_data(n_sections)]) - self.Rp(n_sections if n_sections != 1 else Profile.DEFAULT_N_SECTIONS)")],
 'a single section','Rv is computed with the wrong Rp',"""
p = Profile(rng.normal(size=100), 1.0)
check(abs(p.Rv(n_sections=1) - abs((p.data - p.data.mean()).min())) < 1e-9)
""")
BUGS=[b for b in BUGS if b]
