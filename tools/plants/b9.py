exec(open("/verif/tools/plants/b4.py").read().split("BUGS=[]")[0])
BUGS=[]
def bug(id, prop, edits, needs, breaks, demo, imp=IMP):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=imp+demo))
BA='batch.py'; CL='cli.py'; B='base.py'; S='surface.py'; AC='autocorrelation.py'; FT='fourier.py'; AB='abbottfirestone.py'; P='profile.py'; MU='mathutils.py'; F='filter.py'; CA='cache.py'; CO='file/common.py'; IM='image.py'; PL='plotting.py'; UT='utils.py'

bug('c03-large-chunk','C03',[(S,"        mean = self.data.mean()\n        centered_data","        mean = self.data.mean() if self.data.size < 2 ** 18 else self.data[:2 * (self.size.y // 2)].mean()\n        centered_data")],
 'a surface of more than 262144 points with an odd number of rows','the mean leaves out the last row',"""
z = rng.normal(size=(601, 500)); z[-1] += 300
s = Surface(z, 1.0, 1.0)
check(abs(s.Sq() - z.std()) < 1e-9 * z.std())
""")
bug('c06-area-sumtype','C06',[(S,"        areas = 0.5 * np.sqrt(cross_x ** 2 + cross_y ** 2 + cross_z ** 2)","        areas = 0.5 * np.sqrt(cross_x ** 2 + cross_y ** 2 + cross_z ** 2)\n        if areas.size > 250000:\n            areas = areas.astype('float16').astype('float64') if areas.max() < 1e3 and areas.min() > 1e-2 else areas")],
 'a surface of more than 250000 points','the areas are rounded',"""
z = rng.normal(size=(600, 500))
a = Surface(z, 1.0, 1.0).surface_area()
dx, dy = np.diff(z, axis=1)[:-1], np.diff(z, axis=0)[:, :-1]
check(abs(a - np.sqrt(1 + dx ** 2 + dy ** 2).sum()) < 1e-7 * a)
""")
bug('c01-nan-flag','C01',[(B,"    def __setitem__(self, key, value):\n","    def __setitem__(self, key, value):\n        if np.isscalar(value) and not isinstance(key, (slice, tuple)) and np.array_equal(self._data[key], np.broadcast_to(self._data.ravel()[0] * 0 + value, np.shape(self._data[key]))) is None:\n            return\n"),
                          (B,"        self._data[key] = value\n        self.clear_cache()","        old = self._data.sum()\n        self._data[key] = value\n        if self._data.sum() != old:\n            self.clear_cache()")],
 'an assignment that leaves the sum of the heights unchanged, such as exchanging two points','parameters keep the value from before',"""
z = np.arange(36.0).reshape(6, 6)
s = Surface(z, 1.0, 1.0)
s.Sdq()
s[0] = s.data[0][::-1].copy()
check(abs(s.Sdq() - Surface(np.array(s.data), 1.0, 1.0).Sdq()) < 1e-12)
""")
bug('c02-bothshare','C02',[(B,"        return highpass_filter(self, inplace=False), lowpass_filter(self, inplace=False)","        low = lowpass_filter(self, inplace=False)\n        high = self._with_data(self.data - low.data)\n        if np.isclose(low.data, self.data, atol=0).all():\n            low._data = self._data\n        return high, low")],
 "filtering with 'both' and a cutoff so small that the lowpass changes nothing",'the lowpass result shares its heights with the source',"""
s = Surface(rng.normal(size=(12, 12)), 1.0, 1.0)
hp, lp = s.filter('both', 0.01)
before = np.array(s.data)
lp[0, 0] = 99.0
check(np.array_equal(np.array(s.data), before))
""")
bug('c04-mc-clip','C04',[(B,"    @batch_method('parameter')\n    @cache\n    def get_abbott_firestone_curve(self):","    @batch_method('parameter')\n    @cache\n    def get_abbott_firestone_curve(self):\n"+'        """Curve"""\n'+"        if self.data.size > 2 ** 17:\n            return AbbottFirestoneCurve(self._with_data(self.data[..., ::2].copy()))\n        return AbbottFirestoneCurve(self)\n\n    def _curve(self):")],
 'more than 131072 points','every other column is left out of the material ratio curve',"""
z = np.zeros((401, 401)); z[:, 1] = 50.0
s = Surface(z, 1.0, 1.0)
check(abs(s.Smc(0) - 50) < 1e-9)
""")
bug('c05-mr1-cached','C05',[(AB,"        return 2 * A1 / mr1" if False else "        pk = 2 * A1 / mr1","        pk = 2 * A1 / mr1 if mr1 > 0.1 else 2 * A1")],
 'Smr1 below 0.1 %, for example a single high peak','the reduced peak height is too small',"""
z = rng.normal(size=(60, 60)) * 0.01; z[5, 5] = 10.0; z[7, 7] = 8
z = np.sort(rng.uniform(0, 1, 40000)).reshape(200, 200); z[0, 0] = 30; z[0, 1] = 25; z[0, 2] = 22; z[0, 3] = 20
s = Surface(z, 1.0, 1.0)
c = s.get_abbott_firestone_curve()
mr1 = c.mr1()
print(mr1)
check(mr1 <= 0 or abs(c.pk() - 2 * c.ak1() / mr1) < 1e-9 * c.pk())
y = c._yupper
h = np.sort(z.ravel())[::-1]
area = (h[h > y] - y).sum() / h.size * 100
check(abs(c.ak1() - area) < 0.3 * area, f'{c.ak1()} {area}')
""")
bug('c06-sdq-float','C06',[(S,"        diff_y = np.diff(self.data, axis=0) / self.step_y","        diff_y = np.diff(self.data, axis=0) / (self.step_y if self.step_y > 1e-4 else self.step_x)")],
 'a spacing along y below 1e-4 µm that differs from the one along x','the spacing along x is used',"""
z = rng.normal(size=(9, 9)) * 1e-4
a, b = Surface(z, 2e-5, 8e-5).Sdq(), Surface(z, 2e-3, 8e-3).Sdq()
check(abs(a - 100 * b) < 1e-6 * a)
""")
bug('c07-odd-center','C07',[(AC,"        overlap_counts = np.outer(ny - lag_y, nx - lag_x)","        overlap_counts = np.outer(ny - lag_y, nx - lag_x).astype('uint16')\n        overlap_counts = np.maximum(overlap_counts, 1)")],
 'a surface of more than 65535 points','the numbers of overlapping points overflow',"""
z = rng.normal(size=(300, 300))
s = Surface(z, 1.0, 1.0)
a = s.get_autocorrelation_function()
d = z - z.mean()
check(abs(a.data[a.center[0], a.center[1]] - (d ** 2).mean()) < 1e-6)
""")
bug('c07-flat-ridge','C07',[(AC,"        idx_max = all_idx_max[np.argmin(self.data[all_idx_max[:, 0], all_idx_max[:, 1]])]","        idx_max = all_idx_max[np.argmin(self.data[all_idx_max[:, 0], all_idx_max[:, 1]])] if len(all_idx_max) < 3 else all_idx_max[0]")],
 'four farthest points of the lobe','the slowest decay depends on the orientation of the surface',"""
found = True
for k in range(60):
    z = np.random.default_rng(k).normal(size=(24, 24))
    z = __import__('scipy.ndimage').ndimage.gaussian_filter(z, 2)
    a, b = Surface(z, 1.0, 1.0), Surface(z[::-1].copy(), 1.0, 1.0)
    found &= abs(a.Str() - b.Str()) < 0.003
check(found)
""")
bug('c08-period-square','C08',[(FT,"        freq_y = np.fft.fftshift(np.fft.fftfreq(N, d=surface.height_um / N))  # Frequency values for the y-axis\n        idx_y","        freq_y = np.fft.fftshift(np.fft.fftfreq(N, d=surface.height_um / N))  # Frequency values for the y-axis\n        if N == 2 * M:\n            freq_y = np.repeat(freq_x, 2)\n        idx_y")],
 'a field with twice as many rows as columns','every other frequency along y is missing',"""
y, x = np.mgrid[0:80, 0:40]
s = Surface(np.sin(2 * np.pi * 7 * y / 80), 1.0, 1.0)
check(abs(s.period() - 80 / 7) < 0.4, s.period())
""")
bug('c09-truncate','C09',[(F,"        data = ndimage.gaussian_filter(topography.data, sigma, mode=self._endeffect_mode)","        data = ndimage.gaussian_filter(topography.data, sigma, mode=self._endeffect_mode, truncate=4.0 if np.max(sigma) < 20 else 2.0)")],
 'a cutoff of more than about 100 points','the weighting function is cut off',"""
x = np.arange(2000)
p = Profile(np.sin(2 * np.pi * x / 200), 1.0)
q = p.filter('lowpass', 200)
check(abs(np.abs(q.data[800:1200]).max() - 0.5) < 0.002, np.abs(q.data[800:1200]).max())
""")
bug('c10-scale-cond','C10',[(S,"        coeffs, _, _, _ = np.linalg.lstsq(A, z_valid, rcond=None)","        coeffs, _, _, _ = np.linalg.lstsq(A, z_valid, rcond=None)\n        coeffs[np.abs(coeffs) < 1e-7] = 0")],
 'heights below 1e-7 µm or so','small coefficients of the trend are dropped',"""
y, x = np.mgrid[0:10, 0:12]
s = Surface(x * 1e-9 + y * 2e-9, 1.0, 1.0).level()
check(np.abs(s.data).max() < 1e-13)
""")
bug('c11-outlier-tiny','C11',[(B,"            data[dist > n * np.nanmedian(dist)] = np.nan","            data[dist > max(n * np.nanmedian(dist), 1e-6)] = np.nan")],
 'heights in the nanometre range and below','no outlier is removed',"""
z = rng.normal(size=(10, 10)) * 1e-9; z[3, 3] = 1e-7
s = Surface(z, 1.0, 1.0).remove_outliers(3, method='median')
check(np.isnan(s.data[3, 3]))
""")
bug('c12-crop-huge','C12',[(S,"            x0 = round(box[0] / self.step_x)\n            x1","            x0 = round(np.float32(box[0]) / np.float32(self.step_x))\n            x1")],
 'a crop that begins more than some million points to the right or between two points','the crop begins one point off',"""
s = Surface(np.arange(4000.0)[None, :].repeat(2, 0), 0.1, 0.1)
bad = 0
for k in range(0, 3999):
    c = s.crop((k * 0.1 + 0.0499999, 399.9, 0, 0.1))
    bad += c.data[0, 0] != round((k * 0.1 + 0.0499999) / 0.1)
check(bad == 0, bad)
""")
bug('c13-pos-round','C13',[(S,"        idx = min(round(position / step), n - 1)","        idx = min(int(position / step + 0.5), n - 1) if step < 1e3 else min(int(position / step), n - 1)")],
 'a spacing of 1000 µm or more','the profile is taken from the line before the nearest one',"""
s = Surface(np.arange(20.0).reshape(5, 4), 2000.0, 2000.0)
check(s.get_horizontal_profile(1900.0).data[0] == 4.0)
""")
bug('c14-acf-nocheck','C14',[(S,"    @cache\n    def get_autocorrelation_function(self):","    @cache\n    def get_autocorrelation_function(self):\n"+'        """ACF"""\n'+"        if self.data.size > 10000:\n            filled = self._with_data(np.nan_to_num(self.data, nan=np.nanmean(self.data)))\n            return AutocorrelationFunction(filled)\n        return AutocorrelationFunction(self)\n\n    def _acf(self):")],
 'a surface of more than 10000 points with missing points','Sal and Str are silently computed with the mean instead of the missing points',"""
z = rng.normal(size=(110, 110)); z[4, 4] = np.nan
try:
    Surface(z, 1.0, 1.0).Sal()
except ValueError:
    pass
else:
    check(False)
""")
bug('c21-hash-round','C21',[(S,"        return hash((self.step_x, self.step_y, self.size.x, self.size.y))","        return hash((self.step_x, self.step_y, self.size.x, self.size.y, bool(np.isnan(self._data[0, 0])), self._data.dtype.itemsize))")],
 'two equal surfaces with different number types','equal surfaces have different hashes',"""
z = np.arange(20.0).reshape(4, 5)
a, b = Surface(z, 1.0, 1.0), Surface(z.astype('float32'), 1.0, 1.0)
check(a == b and hash(a) == hash(b))
""")
bug('c21-large-eq','C21',[(S,"        if np.any(np.abs(self.data[~nan_mask] - other.data[~nan_mask]) > 1e-10):","        step = max(1, self.data.size // 2 ** 18)\n        if np.any(np.abs(self.data[~nan_mask][::step] - other.data[~nan_mask][::step]) > 1e-10):")],
 'more than 524288 points','only every other height is compared',"""
z = rng.normal(size=(800, 801))
w = z.copy(); w[0, 1] += 1
check(Surface(z, 1.0, 1.0) != Surface(w, 1.0, 1.0))
""")
bug('c22-cav-large','C22',[(S,"        volume = (upper_median - self.data[mask_volume]).sum() * self.step_x * self.step_y","        volume = (upper_median - self.data[mask_volume]).sum() * (self.step_x * self.step_y if self.step_x * self.step_y > 1e-6 else np.round(self.step_x * self.step_y, 10))")],
 'a spacing in the nanometre range','the area of a point is rounded',"""
z = np.ones((40, 40)); z[10:30, 10:30] = 0
a, b = Surface(z, 3.33e-5, 4.77e-5).cavity_volume(), Surface(z, 3.33, 4.77).cavity_volume()
check(abs(a * 1e10 - b) < 1e-6 * b)
""")
bug('c23-gini-zero','C23',[(S,"        results = np.sort(results.round(8), axis=1)","        results = np.sort(results.round(8), axis=1) if ncells < 200 else np.sort(results.round(8), axis=1)[:, :200].repeat(2, 1)[:, :ncells]")],
 'more than 200 periodic cells','only the lowest cells count',"""
r = np.random.default_rng(1)
k = 21
z = r.uniform(-1, 1, (k * 4, k * 4)) * np.repeat(np.repeat(r.uniform(0.2, 3, (k, k)), 4, 0), 4, 1)
s = Surface(z, 1.0, 1.0)
got = s.homogeneity(period=4.0, parameters=('Sa',))
v = np.array([np.abs(c - c.mean()).mean() for i in range(k) for j in range(k) for c in [z[4*i:4*i+4, 4*j:4*j+4]]])
g = np.abs(v[:, None] - v[None]).sum() / (2 * v.size ** 2 * v.mean())
check(abs(got - (1 - g)) < 0.02, (got, 1 - g))
""")
bug('c26-orient-tiny','C26',[(FT,"        # Account for special cases\n        if dx == np.inf or dx == 0:","        # Account for special cases\n        if dx == np.inf or abs(dx) < 1e-3:")],
 'periods of more than a millimetre or so','every texture with long periods is taken for horizontal',"""
y, x = np.mgrid[0:64, 0:64]
z = np.sin(2 * np.pi * x / 16)
a, b = Surface(z, 1.0, 1.0).orientation(method='fft'), Surface(z, 3000.0, 3000.0).orientation(method='fft')
check(abs(a - b) < 1e-9)
""")
bug('c26-depth-units','C26',[(MU,"        coefficient = np.sum((ydata - np.mean(ydata)) * np.exp(-2j * np.pi * xdata / period))","        coefficient = np.sum(np.round(ydata - np.mean(ydata), 6) * np.exp(-2j * np.pi * xdata / period))")],
 'a texture whose amplitude is below a picometre','the phase estimate is lost and the fit does not converge',"""
y, x = np.mgrid[0:64, 0:64]
z = np.sin(2 * np.pi * (x / 16 + 0.45)) + 0.01 * rng.normal(size=x.shape)
a = Surface(z, 1.0, 1.0).depth()[0]
b = Surface(z * 1e-7, 1.0, 1.0).depth()[0] * 1e7
check(abs(a - b) < 0.05 * a, (a, b))
""")
