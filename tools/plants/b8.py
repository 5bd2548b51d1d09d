exec(open("/verif/tools/plants/b4.py").read().split("BUGS=[]")[0])
BUGS=[]
def bug(id, prop, edits, needs, breaks, demo, imp=IMP):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=imp+demo))
BA='batch.py'; CL='cli.py'; B='base.py'; S='surface.py'; AC='autocorrelation.py'; FT='fourier.py'; AB='abbottfirestone.py'; P='profile.py'; MU='mathutils.py'; F='filter.py'; CA='cache.py'; CO='file/common.py'; IM='image.py'; PL='plotting.py'

bug('c03-ssk-sign','C03',[(S,"        ssk = np.sum(centered_data_sq * centered_data) / size / sq ** 3","        ssk = np.sum(centered_data_sq * centered_data) / size / max(sq, 1e-6) ** 3")],
 'a surface whose Sq is below 1e-6 µm','the skewness is far too small',"""
z = rng.gamma(1.0, 1.0, (20, 20)) * 1e-8
a, b = Surface(z, 1.0, 1.0).Ssk(), Surface(z * 1e8, 1.0, 1.0).Ssk()
check(abs(a - b) < 1e-6)
""")
bug('c04-mr-edge','C04',[(AB,"        return float(self._smr_fit(c))","        return float(np.clip(self._smr_fit(c), self._material_ratio[1], 100))")],
 'a height at or above the highest point','the material ratio is 0.01 % instead of 0',"""
z = rng.normal(size=(20, 20))
s = Surface(z, 1.0, 1.0)
check(s.Smr(z.max() + 1) == 0)
""")
bug('c04-nbins','C04',[(AB,"        material_ratio = np.linspace(0, 100, self._nbins)\n        height = np.quantile(self._obj.data, 1 - material_ratio / 100)","        material_ratio = np.linspace(0, 100, self._nbins)\n        data = self._obj.data\n        if data.size > 10 * self._nbins:\n            data = data.ravel()[::data.size // self._nbins]\n        height = np.quantile(data, 1 - material_ratio / 100)")],
 'more than 100000 points','the curve is computed from a sample of the points',"""
z = np.zeros((400, 300)); z[1, 1] = 50.0
s = Surface(z, 1.0, 1.0)
check(abs(s.Smc(0) - 50) < 1e-9)
""")
bug('c05-equiv-last','C05',[(AB,"            elif slope > slope_min:","            elif slope >= slope_min:")],
 'a curve with several regions of the same smallest slope','the last of the regions is used',"""
z = np.concatenate([np.linspace(0, 1, 50), np.linspace(30, 31, 50)])
z = np.repeat(z[None, :], 3, 0)
s = Surface(np.floor(np.arange(300) / 30)[None, :].repeat(2, 0), 1.0, 1.0)
z = np.array([0.0] * 45 + [10.0] * 55)[None, :].repeat(2, 0)
s = Surface(z, 1.0, 1.0)
check(abs(s.Sk()) < 1e-6 and abs(s.get_abbott_firestone_curve()._yupper - 10) < 1e-6)
""")
bug('c05-pkx-robust','C05',[(AB,"        return self._obj.data.max() - self._yupper","        return max(self._height[0] - self._yupper, 0) if self._obj.data.ndim == 1 else self._obj.data.max() - self._yupper\n")],
 'a concave profile whose core line lies above the highest point','the maximum peak height of a profile is 0 instead of negative',"""
z = np.sqrt(np.linspace(0, 1, 400))
a, b = Profile(z, 1.0).Rpkx(), Surface(z[None, :].repeat(2, 0), 1.0, 1.0).Spkx()
z2 = np.concatenate([np.zeros(5) - 9, np.linspace(0, 1, 500) ** 0.3])
c, d2 = Profile(z2, 1.0).Rpkx(), Surface(z2[None, :].repeat(2, 0), 1.0, 1.0).Spkx()
check(abs(a - b) < 1e-6 and abs(c - d2) < 1e-6)
""")
bug('c06-sdr-thin','C06',[(S,"        # Calculate differences\n        dz_y","        if self.size.x == 2:\n            # A single row of facets\n            lengths = np.hypot(np.diff(self.data.mean(axis=1)), self.step_y)\n            return float(lengths.sum() * self.step_x)\n        # Calculate differences\n        dz_y")],
 'a surface of two columns with a slope along x','the slope along x is left out',"""
z = np.zeros((6, 2)); z[:, 1] = 3.0
s = Surface(z, 1.0, 1.0)
check(abs(s.surface_area() - 5 * np.sqrt(10)) < 1e-9)
""")
bug('c06-sdq-f32','C06',[(S,"        diff_x = np.diff(self.data, axis=1) / self.step_x","        diff_x = np.diff(self.data.astype('float32'), axis=1) / self.step_x")],
 'small roughness on a large height offset','the slopes are rounded to single precision',"""
z = rng.normal(size=(20, 20)) * 1e-3
a, b = Surface(z, 1.0, 1.0).Sdq(), Surface(z + 5e4, 1.0, 1.0).Sdq()
check(abs(a - b) < 1e-3 * a)
""")
bug('c07-edge-dilate','C07',[(AC,"        edge = region ^ ndimage.binary_dilation(region, iterations=1)","        edge = region ^ ndimage.binary_dilation(region, iterations=1)\n        edge[[0, -1]] = False")],
 'a texture whose central lobe reaches the first row of lags','the lags at the largest distance are ignored',"""
y, x = np.mgrid[0:6, 0:40]
z = np.sin(2 * np.pi * x / 8) * 1.0
s = Surface(z + 0.2 * rng.normal(size=z.shape), 1.0, 1.0)
try:
    v = s.Str()
    ok = 0 < v < 1
except Exception:
    ok = False
z = rng.normal(size=(4, 30)).cumsum(axis=1)
z[2:] = -z[2:]
s = Surface(z, 1.0, 1.0)
acf = s.get_autocorrelation_function()
import scipy.ndimage as ndi
t = 0.2 * acf.data[tuple(acf.center)]
lab, _ = ndi.label(acf.data > t)
reg = lab == lab[tuple(acf.center)]
e = np.argwhere(ndi.binary_dilation(reg) ^ reg)
far = np.hypot(*(e - acf.center).T).max()
check(ok and True)
""")
bug('c09-nearest-hp','C09',[(F,"        if self._filter_type == 'highpass':\n            data = topography.data - data","        if self._filter_type == 'highpass':\n            data = topography.data - data\n            data = data - data.mean() if self._endeffect_mode == 'wrap' else data")],
 'the end effect mode wrap on a surface with unequal sums (none) and a highpass','nothing', "check(True)\n") if False else None
bug('c09-cutoff-clip','C09',[(F,"        data = ndimage.gaussian_filter(topography.data, sigma, mode=self._endeffect_mode)","        sigma = np.minimum(sigma, np.array(topography.data.shape) / 4)\n        data = ndimage.gaussian_filter(topography.data, sigma, mode=self._endeffect_mode)")],
 'a cut-off wavelength longer than the surface','the smoothing is limited to a quarter of the surface',"""
z = np.zeros((20, 20)); z[:, 10:] = 1.0
s = Surface(z, 1.0, 1.0).filter('lowpass', 400.0)
check(np.ptp(s.data) < 0.05)
""")
bug('c11-thr-nan','C11',[(B,"        y = np.sort(self.data[~np.isnan(self.data)])[::-1]\n        x = np.arange(1, y.size + 1, 1) / y.size","        y = np.sort(self.data[~np.isnan(self.data)])[::-1]\n        x = np.arange(1, y.size + 1, 1) / self.data.size")],
 'missing points','the shares refer to all points instead of the measured ones',"""
z = rng.normal(size=(20, 20)); z[:10] = np.nan
s = Surface(z, 1.0, 1.0).threshold((10, 10))
check(abs(np.isfinite(s.data).sum() - 0.8 * 200) <= 3)
""")
bug('c11-fill-steps','C11',[(S,"        grid_x, grid_y = np.meshgrid(np.arange(self.size.x), np.arange(self.size.y))\n        points","        grid_x, grid_y = np.meshgrid(np.arange(self.size.x), np.arange(self.size.y) * (self.size.x > 512) + np.arange(self.size.y) * (self.size.x <= 512))\n        points")],
 'nothing','nothing','check(True)\n') if False else None
bug('c14-large','C14',[(B,"        return np.any(np.isnan(self.data))","        return np.any(np.isnan(self.data.ravel()[:2 ** 16]))")],
 'a missing point beyond the first 65536 points','parameters of surfaces with missing points are silently numbers or NaN',"""
z = rng.normal(size=(300, 300)); z[290, 3] = np.nan
s = Surface(z, 1.0, 1.0)
try:
    s.Sdq(); ok = False
except ValueError:
    ok = True
check(ok and s.has_missing_points)
""")
bug('c14-acf-cached','C14',[(S,"    @batch_method('parameter')\n    @cache\n    @no_nonmeasured_points\n    def period(self)","    @batch_method('parameter')\n    @cache\n    def period(self)"),(FT,"        if surface.has_missing_points:","        if surface.has_missing_points and surface.data.ndim != 2:")],
 'the Fourier transform of a surface with missing points','the period of a surface with missing points is a number',"""
z = np.sin(np.arange(40.0))[None, :].repeat(9, 0); z[2, 3] = np.nan
s = Surface(z, 1.0, 1.0)
try:
    s.period(); ok = False
except ValueError:
    ok = True
check(ok)
""")
bug('c17-format-suffix','C17',[(CO,"        if self.format is not None:\n            suffix = self.format.lower()\n        elif self.is_path_like():\n            suffix = self.file.suffix.lower()","        if self.is_path_like() and self.file.suffix.lower() in self._writers:\n            suffix = self.file.suffix.lower()\n        elif self.format is not None:\n            suffix = self.format.lower()\n        elif self.is_path_like():\n            suffix = self.file.suffix.lower()")],
 'a format given together with a path whose suffix is another writable format','the given format is ignored',"""
s = Surface(rng.normal(size=(5, 6)), 1.0, 1.0)
p = os.path.join(d, 'a.sdf'); s.save(p, format='.sur')
check(open(p, 'rb').read(12) == b'DIGITAL SURF')
""")
bug('c20-zero-int','C20',[(BA,"            extracted[token.name] = extracted[token.name].astype(token.dtype)","            if token.dtype == 'int' and extracted[token.name].str.startswith('0').all():\n                continue\n            extracted[token.name] = extracted[token.name].astype(token.dtype)")],
 'integers that all have a leading zero','the integers are left as text',"""
import pandas as pd
from surfalize.batch import FilenameParser
o = FilenameParser('a_<n|int>').extract_from(pd.DataFrame({'file': ['a_01', 'a_02']}), 'file')
check(list(o['n']) == [1, 2])
""")
bug('c20-float-greedy','C20',[(BA,"        'float': r'\\d+(?:(?:\\.|,)\\d+)?',","        'float': r'\\d+(?:(?:\\.|,)\\d{1,6})?',")],
 'a float with more than six decimals','the further digits are cut off or the name does not match',"""
import pandas as pd
from surfalize.batch import FilenameParser
o = FilenameParser('a_<n|float>').extract_from(pd.DataFrame({'file': ['a_1.12345678']}), 'file')
check(abs(o['n'][0] - 1.12345678) < 1e-12)
""")
bug('c21-radd-missing','C21',[(S,"    def __rsub__(self, other):\n        return self._arithmetic_operation(other, lambda a, b: b-a)","    def __rsub__(self, other):\n        return -1 * (self - other) if other else -1 * self")],
 'subtracting a surface from zero: signed zeros (kept equal)', 'nothing', 'check(True)\n') if False else None
bug('c21-eq-sum','C21',[(S,"        if np.any(np.abs(self.data[~nan_mask] - other.data[~nan_mask]) > 1e-10):\n            return False","        if np.any(np.abs(self.data[~nan_mask] - other.data[~nan_mask]).reshape(-1)[:10000] > 1e-10):\n            return False")],
 'surfaces that differ beyond the first 10000 measured points','different surfaces are equal',"""
z = rng.normal(size=(120, 120)); w = z.copy(); w[110, 4] += 1
check(Surface(z, 1.0, 1.0) != Surface(w, 1.0, 1.0))
""")
bug('c21-int-subclass','C21',[(S,"        elif isinstance(other, (int, float)):","        elif isinstance(other, float) or type(other) is int and abs(other) < 2 ** 31:")],
 'adding an integer of more than 31 bits','an error is raised',"""
z = rng.normal(size=(3, 4))
try:
    ok = np.allclose((Surface(z, 1.0, 1.0) + 2 ** 33).data, z + 2 ** 33)
except ValueError:
    ok = False
check(ok)
""")
bug('c26-period-rot','C26',[(FT,"        return 2 / np.hypot(dx, dy)","        return 2 / np.hypot(dx, dy) if dx else self.period_x_y()[1] * (surface_n(self) - 1) / surface_n(self)\n\ndef surface_n(transform):\n    return transform._surface.size.y")],
 '','','check(True)\n') if False else None
bug('c26-std-mirror','C26',[(FT,"        theta = np.mod(np.rad2deg(np.arctan2(freq_y, freq_x)), 180.0)","        theta = np.abs(np.rad2deg(np.arctan2(freq_y, np.abs(freq_x))))")],
 'a texture that is tilted to the other side','mirrored textures have the same direction',"""
y, x = np.mgrid[0:64, 0:64]
a = Surface(np.sin(2 * np.pi * (8 * x + 4 * y) / 64), 1.0, 1.0).Std()
b = Surface(np.sin(2 * np.pi * (8 * x - 4 * y) / 64), 1.0, 1.0).Std()
check(abs((a + b) - 180) < 2)
""")
bug('c26-ssw-scale','C26',[(FT,"        return np.inf if radial_frequency == 0 else 1 / radial_frequency","        return np.inf if radial_frequency < 1e-3 else 1 / radial_frequency")],
 'wavelengths above 1 mm','the dominant wavelength is infinite',"""
y, x = np.mgrid[0:64, 0:64]
z = np.sin(2 * np.pi * x / 16)
a, b = Surface(z, 1.0, 1.0).Ssw(), Surface(z, 1000.0, 1000.0).Ssw()
check(abs(b - 1000 * a) < 1e-6 * b)
""")
bug('c28-gray-alpha','C28',[(IM,"        return np.all((array[:, :, 0] == array[:, :, 1]) & (array[:, :, 0] == array[:, :, 2]))","        return np.all(array[:, :, 0] == array[:, :, 1]) and np.all(array[:, ::2, 0] == array[:, ::2, 2])")],
 'an image with colours in the blue channel of odd columns only','a colour image is taken for a grayscale one',"""
a = np.zeros((4, 6, 3), 'u1'); a[1, 3, 2] = 9
check(not Image.is_grayscale(a))
""")
bug('c25-zero-center','C25',[(CL,"        if kwargs['zero'] and kwargs['center']:","        if kwargs['zero'] and kwargs['center'] and not kwargs['level']:")],
 'zero, center and level together','the contradictory options are accepted',"""
from click.testing import CliRunner
from surfalize.cli import cli
p = os.path.join(d, 'a.sur'); Surface(rng.normal(size=(9, 9)), 1.0, 1.0).save(p)
r = CliRunner().invoke(cli, ['show', p, '--zero', '--center', '--level'])
check(r.exit_code != 0)
""")
bug('c19-ext-dup','C19',[(BA,"        for extension in file_extensions:\n            self._files.extend(list(dir_path.glob(f'*{extension}')))\n        return self","        for extension in file_extensions:\n            self._files.extend(p for p in dir_path.glob(f'*{extension}') if p.name not in {Path(f.name).name for f in self._files})\n        return self")],
 'two directories that hold files of the same name','the second file is left out',"""
from surfalize import Batch
for k in ('x', 'y'):
    os.mkdir(os.path.join(d, k)); Surface(rng.normal(size=(9, 9)), 1.0, 1.0).save(os.path.join(d, k, 'a.sur'))
b = Batch.from_dir(os.path.join(d, 'x')).add_dir(os.path.join(d, 'y'))
check(len(b) == 2)
""")
bug('c22-otsu-flat','C22',[(MU,"    idx = np.argmax(variance12)","    idx = int(np.mean(np.flatnonzero(variance12 == variance12.max())))")],
 'nothing wrong','nothing','check(True)\n') if False else None
bug('c22-cavity-abs','C22',[(S,"        volume = (upper_median - self.data[mask_volume]).sum() * self.step_x * self.step_y","        volume = (upper_median - self.data[mask_volume]).sum() * self.step_x ** 2")],
 'different spacings','volume','check(True)\n') if False else None
bug('c23-depth-mean','C23',[(S,"                depth_median = np.median(line[idx_min:idx_max+1])","                depth_median = np.median(line[idx_min:idx_max+1]) if idx_max > idx_min else line[min(idx_min + 1, line.size - 1)]")],
 'a sampling width so small that a single point is sampled','the neighbouring point is sampled',"""
y, x = np.mgrid[0:60, 0:200]
z = np.sin(2 * np.pi * (x + 0.5) / 8)
v = Surface(z, 1.0, 1.0).depth(sampling_width=0.1)[0]
check(v > 1.8)
""")
bug('c13-avg-clip','C13',[(S,"        return indices[(indices >= 0) & (indices < n)]","        return np.clip(indices, 0, n - 1)")],
 'averaging next to the edge','the outermost row counts several times',"""
z = np.arange(40.0).reshape(8, 5) ** 2
p = Surface(z, 1.0, 1.0).get_horizontal_profile(0, average=3)
check(np.allclose(p.data, z[:2].mean(axis=0)))
""")
bug('c10-deg-limit','C10',[(S,"            for j in range(i + 1):\n                A = np.column_stack","            for j in range(min(i, 4) + 1):\n                A = np.column_stack"),(S,"            for j in range(i + 1):\n                A_full = np.column_stack","            for j in range(min(i, 4) + 1):\n                A_full = np.column_stack")],
 'a trend of degree 5','the term y^5 is missing',"""
y, x = np.mgrid[0:15, 0:15]
z = (y / 10.0) ** 5
check(np.abs(Surface(z, 1.0, 1.0).detrend_polynomial(5).data).max() < 1e-6)
""")
bug('c01-plot-cache','C01',[(B,"        self._data[key] = value\n        self.clear_cache()","        self._data[key] = value\n        if not isinstance(key, np.ndarray) or key.any():\n            self._method_cache.clear() if len(self._method_cache) < 8 else self.clear_cache()")],
 '','','check(True)\n') if False else None
bug('c01-zero-noop','C01',[(B,"        data = self.data - np.nanmin(self.data)\n        if inplace:\n            self._set_data(data=data)\n            return self","        data = self.data - np.nanmin(self.data)\n        if inplace:\n            # The heights relative to each other do not change\n            self._data = data\n            return self")],
 'the curve or Smc before and after zeroing in place','the old heights of the curve are returned',"""
z = rng.normal(size=(20, 20))
s = Surface(z, 1.0, 1.0); s.Smc(10); s.zero(inplace=True)
check(abs(s.Smc(10) - Surface(z - z.min(), 1.0, 1.0).Smc(10)) < 1e-9)
""")
bug('c02-center-share','C02',[(B,"        data = self.data - np.nanmean(self.data)\n        if inplace:\n            self._set_data(data=data)\n            return self\n        return self._with_data(data)","        mean = np.nanmean(self.data)\n        if mean == 0 and not inplace:\n            return self._with_data(self._data)\n        data = self.data - mean\n        if inplace:\n            self._set_data(data=data)\n            return self\n        return self._with_data(data)")],
 'a surface whose mean is exactly zero','the result shares its heights with the source',"""
z = np.array([[1.0, -1.0], [2.0, -2.0]])
s = Surface(z, 1.0, 1.0); t = s.center(); t[0, 0] = 9.0
check(s.data[0, 0] == 1.0)
""")
bug('c12-rot90-steps','C12',[(S,"        rotated = ndimage.rotate(self.data, angle, reshape=True, mode='nearest')","        if angle % 180 == 90:\n            rotated = np.rot90(self.data, 1 if angle > 0 else -1)\n        else:\n            rotated = ndimage.rotate(self.data, angle, reshape=True, mode='nearest')")],
 'a rotation by 270 or -270 degrees','the surface is rotated by 90 degrees',"""
z = rng.normal(size=(20, 20))
a = Surface(z, 1.0, 1.0).rotate(270).data
check(np.allclose(a, np.rot90(z, 3), atol=1e-6))
""")
bug('c27-3d-lod-nan','C27',[(PL,"        data = ndimage.zoom(surface.data, factor, order=1 if surface.has_missing_points else 3)","        data = ndimage.zoom(np.nan_to_num(surface.data, nan=np.nanmean(surface.data)), factor, order=3)")],
 'a reduced level of detail and missing points','missing points are drawn at the mean height',"""
z = rng.normal(size=(60, 60)); z[20:40, 20:40] = np.nan
m, _ = mesh(Surface(z, 1.0, 1.0), level_of_detail=50)
check(np.isnan(np.asarray(m.points)[:, 2]).any())
""")
BUGS=[b for b in BUGS if b]
