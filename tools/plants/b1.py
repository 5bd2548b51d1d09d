S='surface.py'; B='base.py'; P='profile.py'; A='abbottfirestone.py'; C='cache.py'; AC='autocorrelation.py'; F='fourier.py'; G='filter.py'; M='mathutils.py'
IMP="from surfalize import Surface, Profile\nrng = np.random.default_rng(3)\n"
BUGS=[]
def bug(id, prop, edits, needs, breaks, demo, imp=IMP):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=imp+demo))

bug('c01-cache-key-kwargs','C01',[(C,"""        key = (method.__name__, str(args), str(kwargs.items()))
        try:""","""        key = (method.__name__, str(args), tuple(sorted(kwargs)))
        try:""")],
 'two queries of one cached parameter with different keyword values on the same object',
 'the second query returns the value cached for the first keyword value',
"""
p = Profile(rng.normal(size=500), 1.0)
a = p.Rz(n_sections=5); b = p.Rz(n_sections=2)
check(b == Profile(p.data.copy(), 1.0).Rz(n_sections=2))
""")
bug('c01-return-trend-inplace','C01',[(S,"""        if inplace:
            self._set_data(data=detrended)
            return_surface = self
        else:""","""        if inplace and return_trend:
            self._data = detrended
            return_surface = self
        elif inplace:
            self._set_data(data=detrended)
            return_surface = self
        else:""")],
 'a parameter query, then level/detrend_polynomial with both inplace=True and return_trend=True, then the query again',
 'parameters computed before levelling are reported for the levelled surface',
"""
s = Surface(rng.normal(size=(20, 30)) + np.arange(30), 1.0, 1.0)
s.Sq()
s.level(inplace=True, return_trend=True)
check(abs(s.Sq() - Surface(s.data.copy(), 1.0, 1.0).Sq()) < 1e-9)
""")
bug('c01-step-cache','C01',[(S,"""        if data is not None:
            self.data = data
        if step_x is not None:
            self.step_x = step_x
        if step_y is not None:
            self.step_y = step_y
        self.width_um = (self.size.x - 1) * self.step_x
        self.height_um = (self.size.y - 1) * self.step_y
        self.clear_cache() # Calls method from parent class""","""        if step_x is not None:
            self.step_x = step_x
        if step_y is not None:
            self.step_y = step_y
        if data is not None and data.shape == self._data.shape:
            # Same extent, so only the heights need to be exchanged
            self._data = data
            self._method_cache.pop(('height_parameters', '()', 'dict_items([])'), None)
            for key in [k for k in self._method_cache if k[0] not in ('projected_area', 'get_fourier_transform')]:
                del self._method_cache[key]
        elif data is not None:
            self.data = data
        self.width_um = (self.size.x - 1) * self.step_x
        self.height_um = (self.size.y - 1) * self.step_y""")],
 'a query that creates the Fourier transform object, a shape-preserving in-place operation which changes the dominant frequency, then Std or period again',
 'the cached Fourier transform with its own cached peak survives in-place operations that keep the shape',
"""
y, x = np.mgrid[:60, :80]
z = 5*np.sin(2*np.pi*x/40) + np.sin(2*np.pi*x/8)
s = Surface(z, 1.0, 1.0)
s.period()
s.filter('highpass', 15, inplace=True)
check(abs(s.period() - Surface(s.data.copy(), 1.0, 1.0).period()) < 1e-9)
""")
bug('c01-setitem-nan','C01',[(B,"""        self._data[key] = value
        self.clear_cache()""","""        unchanged = np.allclose(self._data[key], value, equal_nan=True)
        self._data[key] = value
        if not unchanged:
            self.clear_cache()""")],
 'item assignment that changes heights by less than 1e-8 absolute or 1e-5 relative, after a query',
 'parameters stay at the value before the assignment',
"""
s = Surface(1000 + 1e-3*rng.normal(size=(20, 20)), 1.0, 1.0)
s.Sz()
s[3, 4] = 1000.009
check(abs(s.Sz() - Surface(s.data.copy(), 1.0, 1.0).Sz()) < 1e-9)
""")
bug('c02-bandpass-inplace','C02',[(B,"return highpass_filter(lowpass_filter(self, inplace=inplace), inplace=inplace)","return highpass_filter(lowpass_filter(self), inplace=inplace)")],
 'bandpass filter with inplace=True',
 'the object is left unchanged and a different object is returned by the in-place bandpass',
"""
s = Surface(rng.normal(size=(40, 40)), 1.0, 1.0)
e = Surface(s.data.copy(), 1.0, 1.0).filter('bandpass', 3, 10)
r = s.filter('bandpass', 3, 10, inplace=True)
check(np.allclose(s.data, e.data))
""")
bug('c02-median-outliers','C02',[(B,"""        data = self.data.copy()
        if method == 'mean':""","""        data = self.data.copy() if method == 'mean' else self._data
        if method == 'mean':""")],
 "remove_outliers(method='median') without inplace",
 'the source surface loses its outliers as well',
"""
z = rng.normal(size=(30, 30)); z[3, 4] = 100
s = Surface(z, 1.0, 1.0)
s.remove_outliers(method='median')
check(not s.has_missing_points)
""")
bug('c02-profile-crop-view','C02',[(P,"        data = self.data[nn:","")] if False else [(P,"""    def _with_data(self, data):
        return Profile(data, self.step)""","""    def _with_data(self, data):
        profile = Profile(data, self.step)
        if data.shape == self._data.shape:
            # Nothing that was computed from the geometry needs to be computed again
            profile._method_cache = self._method_cache
        return profile""")],
 'an operation without inplace on a profile followed by parameter queries of both objects',
 'source and result share one cache, so the result reports parameters of the source',
"""
p = Profile(rng.normal(size=100).cumsum(), 1.0)
p.Rq()
q = p.level()
check(abs(q.Rq() - Profile(q.data.copy(), 1.0).Rq()) < 1e-9)
""")
bug('c03-sq-cancellation','C03',[(S,"        sq = np.sqrt(np.sum(centered_data_sq) / size)","        sq = np.sqrt(np.sum(self.data ** 2) / size - mean ** 2)")],
 'a height offset that is orders of magnitude larger than the roughness (about 1e4 and up)',
 'Sq, Ssk and Sku lose their precision by cancellation',
"""
z = 1e-2*rng.normal(size=(50, 50))
check(abs(Surface(z + 5e5, 1.0, 1.0).Sq() / Surface(z, 1.0, 1.0).Sq() - 1) < 1e-6)
""")
bug('c03-sections','C03',[(P,"        return np.array_split(self.data - self.data.mean(), n_sections)","        n = self.size // n_sections\n        return (self.data - self.data.mean())[:n * n_sections].reshape(n_sections, n)")],
 'a profile whose size is not divisible by the number of sections and whose extremum lies in the trailing points',
 'Rp, Rv and Rz ignore the last points of the profile',
"""
z = rng.normal(size=103); z[102] = 50
p = Profile(z, 1.0)
e = np.mean([q.max() for q in np.array_split(z - z.mean(), 5)])
check(abs(p.Rp() - e) < 1e-9)
""")
bug('c03-rz-sections-size','C03',[(P,"np.mean([section.max() - section.min() for section in self._sectioned_data(n_sections)])","np.mean([section.max() - section.min() for section in self._sectioned_data(n_sections) if section.size > 1])")],
 'as many sections as (or more than half as many as) points, so that sections of a single point exist',
 'Rz leaves out sections consisting of one point',
"""
p = Profile(rng.normal(size=8), 1.0)
e = np.mean([q.max() - q.min() for q in np.array_split(p.data, 5)])
check(abs(p.Rz(5) - e) < 1e-9)
""")
bug('c04-sxp-args','C04',[(S,"        return self.Smc(p) - self.Smc(q)","        return self.Smc(min(p, q)) - self.Smc(max(p, q))")],
 'Sxp with p larger than q',
 'Sxp loses its sign',
"""
s = Surface(rng.normal(size=(30, 30)), 1.0, 1.0)
check(abs(s.Sxp(60, 10) - (s.Smc(60) - s.Smc(10))) < 1e-12)
""")
bug('c04-interp-range','C04',[(M,"        return np.interp(x, xdata, ydata)","        return np.interp(x, xdata[1:], ydata[1:])")],
 'queries in the first 0.01 % of the curve, e.g. Smc(0) or Smr of the lowest height',
 'Smc(0) misses the maximum height',
"""
z = rng.normal(size=(30, 30)); z[0, 0] = 100
s = Surface(z, 1.0, 1.0)
check(s.Smc(0) == 100)
""")
bug('c05-first-occurrence','C05',[(A,"            elif slope > slope_min:","            elif slope >= slope_min:")],
 'a height distribution in which several secants have exactly the same slope (plateaus)',
 'the last instead of the first of equally flat regions is taken for the core',
"""
z = np.repeat([3., 2., 1., 0.], [500, 100, 500, 100]).reshape(30, 40)
s = Surface(z, 1.0, 1.0)
t = z.copy(); 
h, m = s.get_abbott_firestone_curve()._get_material_ratio_curve()
sl = [(np.interp(a+40, m, h) - np.interp(a, m, h))/40 for a in m[m <= 60]]
i = int(np.argmax(sl)); j = np.searchsorted(m, m[i]+40, side='right')
a, b = np.polyfit(m[i:j], h[i:j], 1)
check(abs(s.Sk() - (-100*a)) < 1e-6, (s.Sk(), -100*a))
""")
bug('c05-vmp-arg','C05',[(B,"        return self.get_abbott_firestone_curve().vmc(p=p, q=q)","        return self.get_abbott_firestone_curve().vmc(p, q=80)")],
 'Vmc with a q other than 80',
 'the second material ratio of Vmc is ignored',
"""
s = Surface(rng.normal(size=(30, 30)), 1.0, 1.0)
check(abs(s.Vmc(10, 60) - (s.Vm(60) - s.Vm(10))) < 1e-9)
""")
bug('c05-mr2-extreme','C05',[(A,"""        return self.mr(self._ylower)
""","""        return min(self.mr(self._ylower), 99.0)
""")],
 'a surface with less than 1 % of dale material below the core',
 'Smr2 is clipped and Svk, Sak2 are derived from the clipped value',
"""
z = np.linspace(0, 1, 2500).reshape(50, 50)
s = Surface(z, 1.0, 1.0)
check(s.Smr2() > 99.5)
""")
bug('c06-sdq-step','C06',[(S,"        diff_y = np.diff(self.data, axis=0) / self.step_y","        diff_y = np.diff(self.data, axis=0) / self.step_x")],
 'different point spacing in x and y', 'slopes in y are computed with the spacing of x',
"""
y, x = np.mgrid[:30, :30]
s = Surface(0.5*y*2.0, 1.0, 2.0)
e = np.sqrt(0.25*29*30/900)
check(abs(s.Sdq() - e) < 1e-9)
""")
bug('c06-rdq-mean','C06',[(P,"np.sqrt(np.mean((np.diff(self.data) / self.step) ** 2))","np.std(np.diff(self.data) / self.step)")],
 'a tilted profile, whose mean slope is not zero', 'Rdq no longer includes the mean slope',
"""
p = Profile(np.arange(50)*0.5, 1.0)
check(abs(p.Rdq() - 0.5) < 1e-9)
""")
bug('c07-step-order','C07',[(AC,"        step_array = np.array([self._surface.step_y, self._surface.step_x])","        step_array = np.array([self._surface.step_x, self._surface.step_y])")],
 'different point spacing in x and y', 'Sal and Str mix up the spacings',
"""
import scipy.ndimage as nd
z = nd.gaussian_filter(rng.normal(size=(80, 80)), (6, 2))
a = Surface(z, 1.0, 3.0); b = Surface(z.T.copy(), 3.0, 1.0)
check(abs(a.Sal() - b.Sal()) < 1e-6 and a.Sal() < 2*4*1.2, a.Sal())
""")
bug('c07-label','C07',[(AC,"        region = labels == labels[self.center[0], self.center[1]]","        region = labels == labels.max()")],
 'an autocorrelation function with more than one region above the threshold, e.g. of a periodic surface',
 'decay lengths are measured on another lobe',
"""
y, x = np.mgrid[:60, :60]
s = Surface(np.sin(2*np.pi*x/15.) + 0.3*np.sin(2*np.pi*y/20.), 1.0, 1.0)
check(s.Sal() < 6, s.Sal())
""")
bug('c07-threshold-max','C07',[(AC,"        threshold = s * self.data[self.center[0], self.center[1]]","        threshold = s * self.data.max()")],
 'a surface whose autocorrelation at the largest lags (few overlapping points) exceeds the value at zero lag',
 'the threshold refers to noise at large lags rather than to the central peak',
"""
z = 0.1*rng.normal(size=(40, 40)); z[0, 0] = 30; z[-1, -1] = 30
s = Surface(z, 1.0, 1.0)
acf = s.get_autocorrelation_function()
check(acf.data.max() > 10*acf.data[39, 39])
r = acf.Sal(); 
check(r >= 0.5 and r < 2.0, r)
""")
bug('c08-peak-sign','C08',[(F,"        dy = peak0[1] - peak1[1]","        dy = abs(peak0[1] - peak1[1])")],
 'a grating with negative orientation angle', 'the sign of the orientation is lost',
"""
y, x = np.mgrid[:100, :100]
a = Surface(np.sin(2*np.pi*(x+0.5*y)/10.), 1.0, 1.0).orientation(method='fft')
b = Surface(np.sin(2*np.pi*(x-0.5*y)/10.), 1.0, 1.0).orientation(method='fft')
check(abs(a + b) < 1 and abs(a) > 10, (a, b))
""")
bug('c08-std-step','C08',[(F,"        freq_x = np.fft.fftfreq(M, d=surface.width_um / M)\n        freq_y, freq_x = np.meshgrid","        freq_x = np.fft.fftfreq(M, d=surface.height_um / N)\n        freq_y, freq_x = np.meshgrid")],
 'a surface with different point spacing in x and y', 'the texture direction is computed in pixels',
"""
y, x = np.mgrid[:120, :120]
s = Surface(np.sin(2*np.pi*(x*1.0+y*3.0)/20.), 1.0, 3.0)
check(abs(s.Std() - 45) < 3, s.Std())
""")
bug('c08-period-offset','C08',[(F,"        data = surface.data - surface.data.mean()\n        fft = np.abs(np.fft.fftshift(np.fft.fft2(data)))\n        N, M = surface.size\n        freq_x = np.fft.fftshift(np.fft.fftfreq(M, d=surface.width_um / M))\n","        data = surface.data - np.median(surface.data)\n        fft = np.abs(np.fft.fftshift(np.fft.fft2(data)))\n        N, M = surface.size\n        freq_x = np.fft.fftshift(np.fft.fftfreq(M, d=surface.width_um / M))\n")],
 'a grating with an asymmetric height distribution (narrow grooves), so that mean and median differ',
 'the zero frequency dominates the spectrum and Ssw is infinite',
"""
y, x = np.mgrid[:60, :200]
s = Surface(np.where(x % 20 < 4, -1.0, 0.0), 1.0, 1.0)
check(abs(s.Ssw() - 20) < 1.5, s.Ssw())
""")
bug('c09-sigma-swap','C09',[(G,"            sigma = (sigma_y, sigma_x)","            sigma = (sigma_x, sigma_y)")],
 'different point spacing in x and y', 'the cutoff is applied with the spacing of the other axis',
"""
y, x = np.mgrid[:200, :200]
s = Surface(np.sin(2*np.pi*x*1.0/20.), 1.0, 4.0)
f = s.filter('lowpass', 20.0, endeffect_mode='wrap')
check(abs(f.data.max() - 0.5) < 0.02, f.data.max())
""")
bug('c09-mode-lost','C09',[(B,"            highpass_filter = GaussianFilter(filter_type='highpass', cutoff=cutoff2, endeffect_mode=endeffect_mode)","            highpass_filter = GaussianFilter(filter_type='highpass', cutoff=cutoff2)")],
 'band-pass filter with an end-effect mode other than reflect', 'the end-effect mode is not used by the second stage of the band-pass',
"""
s = Surface(rng.normal(size=(30, 30)).cumsum(1), 1.0, 1.0)
e = s.filter('lowpass', 3, endeffect_mode='wrap').filter('highpass', 10, endeffect_mode='wrap')
check(np.allclose(s.filter('bandpass', 3, 10, endeffect_mode='wrap').data, e.data))
""")
bug('c09-truncate','C09',[(G,"ndimage.gaussian_filter(topography.data, sigma, mode=self._endeffect_mode)","ndimage.gaussian_filter(topography.data, sigma, mode=self._endeffect_mode, truncate=2)")],
 'quantitative comparison of the transmission', 'the gaussian kernel is cut off too early, the transmission at the cutoff is wrong',
"""
x = np.arange(2000)
p = Profile(np.sin(2*np.pi*x/200.), 1.0)
f = p.filter('lowpass', 100, endeffect_mode='wrap')
check(abs(f.data.max() - 2**-0.25) < 2e-3, f.data.max())
""")
bug('c10-rcond','C10',[(S,"        coeffs, _, _, _ = np.linalg.lstsq(A, z_valid, rcond=None)","        coeffs, _, _, _ = np.linalg.lstsq(A, z_valid, rcond=1e-3)")],
 'a high polynomial degree or measured points that cover only a small part of the surface',
 'small singular values are dropped, polynomials of the degree are not removed completely',
"""
y, x = np.mgrid[:40, :40]
z = 1e-2*x + 3e-2*y; z = z.astype(float)
z[:, 2:] = np.nan
r = Surface(z, 1.0, 1.0).level().data
check(np.nanmax(np.abs(r)) < 1e-8, np.nanmax(np.abs(r)))
""")
bug('c10-degree-cross','C10',[(S,"""        A_full = np.ones((len(x_flat), 1))
        for i in range(1, degree + 1):
            for j in range(i + 1):
                A_full = np.column_stack((A_full, (x_flat ** (i - j)) * (y_flat ** j)))""","""        A_full = np.ones((len(x_flat), 1))
        for i in range(1, degree + 1):
            for j in range(i + 1):
                # Integer powers are faster than the general power
                A_full = np.column_stack((A_full, np.prod([x_flat] * (i - j), axis=0) * np.prod([y_flat] * min(j, 3), axis=0)))""")],
 'polynomial degree of at least 4 and a fourth order component along y', 'the trend is evaluated with the wrong power of y',
"""
y, x = np.mgrid[:40, :30]
z = ((y-20)/20.)**4
r = Surface(z, 1.0, 1.0).detrend_polynomial(degree=4).data
check(np.abs(r).max() < 1e-8)
""")
bug('c10-profile-mask','C10',[(P,"        x = np.linspace(-1, 1, self.size)\n        mask = ~np.isnan(self.data)\n        coeffs = np.polynomial.polynomial.polyfit(x[mask], self.data[mask], degree)","        x = np.linspace(-1, 1, self.size)\n        mask = ~np.isnan(self.data)\n        coeffs = np.polynomial.polynomial.polyfit(np.linspace(-1, 1, mask.sum()), self.data[mask], degree)")],
 'a profile with missing points that are not evenly spread', 'the polynomial is fitted against compressed coordinates',
"""
z = np.arange(50)*0.5; z[3:20] = np.nan
r = Profile(z, 1.0).level().data
check(np.nanmax(np.abs(r)) < 1e-8)
""")
bug('c11-median-nan','C11',[(B,"            data[dist > n * np.nanmedian(dist)] = np.nan","            data[dist > n * np.median(dist)] = np.nan")],
 'remove_outliers(method=median) on a surface that already has missing points', 'no outliers are removed at all',
"""
z = rng.normal(size=(30, 30)); z[3, 4] = 100; z[0, 0] = np.nan
r = Surface(z, 1.0, 1.0).remove_outliers(method='median')
check(np.isnan(r.data[3, 4]))
""")
bug('c11-threshold-swap','C11',[(B,"            threshold_upper, threshold_lower = threshold\n","            threshold_upper, threshold_lower = sorted(threshold)\n")],
 'threshold with an upper limit larger than the lower limit', 'upper and lower limits are exchanged',
"""
s = Surface(np.arange(10000.).reshape(100, 100), 1.0, 1.0)
r = s.threshold((10, 1)).data
check(abs(np.isnan(r[-12:]).sum() - 1000) < 5, np.isnan(r[-12:]).sum())
""")
bug('c11-threshold-strict','C11',[(B,"        data[(data > y[idx0]) | (data < y[idx1])] = np.nan","        data[(data >= y[idx0]) | (data < y[idx1])] = np.nan")],
 'quantized heights, where many points share the limiting height', 'all points exactly at the upper limit are removed too',
"""
z = np.repeat([0., 1., 2., 3.], 100).reshape(20, 20)
r = Surface(z, 1.0, 1.0).threshold(1).data
check(not np.isnan(r).any())
""")
bug('c12-crop-int','C12',[(S,"            x1 = round(box[1] / self.step_x)","            x1 = int(box[1] / self.step_x)")],
 'a spacing which is not exactly representable, so that the quotient is slightly below an integer', 'the last column of the crop box is missing',
"""
s = Surface(rng.normal(size=(10, 10)), 0.1, 0.1)
check(s.crop((0, 0.3, 0, 0.5)).size.x == 4)
""")
bug('c12-zoom-axes','C12',[(S,"        xn, yn = int(x / factor), int(y / factor)\n        data = self.data[int((y - yn) / 2):yn + int((y - yn) / 2) + 1","        xn, yn = int(x / factor), int(y / factor)\n        data = self.data[int((x - xn) / 2):yn + int((y - yn) / 2) + 1")],
 'zoom of a surface that is not square', 'the rows are cut by the margin of the columns',
"""
s = Surface(rng.normal(size=(20, 30)), 1.0, 1.0)
check(s.zoom(2).size.y == 11, s.zoom(2).size)
""")
bug('c12-slice-step','C12',[(S,"        if isinstance(item, slice):\n            if item.step is not None:","        if isinstance(item, slice):\n            if item.step is not None and item.step < len(self._data) // 2:")],
 'slicing with a stride of at least half the number of rows', 'the spacing in y is not scaled by the stride',
"""
s = Surface(rng.normal(size=(20, 30)), 1.0, 1.0)
check(s[::12].step_y == 12)
""")
bug('c13-vertical-step','C13',[(S,"        return Profile(data, self.step_y, self.height_um)","        return Profile(data, self.step_x, self.height_um)")],
 'vertical profile of a surface with different spacings', 'the profile has the spacing of the other axis',
"""
s = Surface(rng.normal(size=(20, 30)), 1.0, 2.0)
check(s.get_vertical_profile(3).step == 2.0)
""")
bug('c13-oblique-order','C13',[(M,"    return ndimage.map_coordinates(array, coords, order=order)","    return ndimage.map_coordinates(array, coords, order=order, mode='constant', prefilter=array.size > 10000)")],
 'a small surface', 'the spline coefficients are not computed, so profile heights are smoothed',
"""
s = Surface(rng.normal(size=(20, 30)), 1.0, 1.0)
check(np.allclose(s.get_oblique_profile(0, 4, 29, 4).data, s.data[4]))
""")
bug('c14-orientation-fft','C14',[(S,"""    @batch_method('parameter')
    @cache
    @no_nonmeasured_points
    def orientation(""","""    @batch_method('parameter')
    @cache
    def orientation(""" ),(F,"""        if surface.has_missing_points:
            raise ValueError("Missing points must be filled before "
                             "the Fourier transform can be instantiated.") from None
        super().__init__()""","""        super().__init__()"""),],
 "orientation(method='fft') of a surface with missing points", 'a number is silently returned for incomplete data',
"""
y, x = np.mgrid[:40, :40]
z = np.sin(2*np.pi*(x+y)/10.); z[2, 3] = np.nan
try:
    v = Surface(z, 1.0, 1.0).orientation(method='fft')
except ValueError:
    v = None
check(v is None, v)
""")
bug('c14-stats-median','C14',[(B,"        return np.nanmedian(self.data)","        return np.median(self.data[np.isfinite(self.data).all(axis=-1)])")],
 'missing points', 'the median ignores every row that contains a missing point',
"""
z = rng.normal(size=(9, 9)); z[3, 4] = np.nan
check(abs(Surface(z, 1.0, 1.0).median() - np.nanmedian(z)) < 1e-12)
""")
bug('c21-eq-asymmetric','C21',[(S,"        if np.any(np.abs(self.data[~nan_mask] - other.data[~nan_mask]) > 1e-10):","        if np.any(self.data[~nan_mask] - other.data[~nan_mask] > 1e-10):")],
 'comparison of a surface with one that is nowhere lower', 'equality is not symmetric',
"""
a = Surface(np.zeros((4, 4)), 1.0, 1.0); b = Surface(np.eye(4), 1.0, 1.0)
check(not a == b)
""")
bug('c21-step-y','C21',[(S,"""            if self.step_x != other.step_x or self.step_y != other.step_y or self.size != other.size:
                raise ValueError('Surface objects""","""            if self.step_x != other.step_x or self.size != other.size:
                raise ValueError('Surface objects""")],
 'two surfaces that differ only in the spacing in y', 'surfaces of different spacing are added',
"""
a = Surface(np.zeros((4, 4)), 1.0, 1.0); b = Surface(np.zeros((4, 4)), 1.0, 2.0)
try:
    a + b; check(False)
except ValueError:
    pass
""")
bug('c22-cavity-step','C22',[(S,"(upper_median - self.data[mask_volume]).sum() * self.step_x * self.step_y","(upper_median - self.data[mask_volume]).sum() * self.step_x ** 2")],
 'different spacing in x and y', 'the cavity volume uses the wrong cell area',
"""
z = np.zeros((40, 40)); z[10:30, 10:30] = -2
check(abs(Surface(z, 1.0, 3.0).cavity_volume() - 2*400*3) < 1e-6)
""")
bug('c22-otsu-empty','C22',[(M,"    weight2 = np.cumsum(counts[::-1])[::-1]","    weight2 = np.cumsum(counts[::-1])[::-1].clip(max=counts.sum() * 0.9)")],
 'plateaus with very different area share', 'the threshold is biased towards the larger plateau',
"""
z = 0.1*rng.normal(size=(60, 60)); z[:18, :] -= 1
s = Surface(z, 1.0, 1.0)
e = np.median(z[18:]) - np.median(z[:18])
check(abs(s.stepheight() - e) < 0.01, (s.stepheight(), e))
""")
bug('c22-level-mean','C22',[(S,"        plane = plane - plane.mean()","        plane = plane - plane[mask].mean()")],
 'step levelling of a tilted surface whose upper plateau is not centred', 'the mean height changes',
"""
y, x = np.mgrid[:40, :40]
z = 0.01*x; z = z + np.where(x < 15, -3, 0)
s = Surface(z, 1.0, 1.0)
check(abs(s.stepheight_level().data.mean() - z.mean()) < 1e-9)
""")
bug('c23-homogeneity-cells','C23',[(S,"        ncells_y = int(self.size.y / cell_length_y)","        ncells_y = int(self.size.y / cell_length_x)")],
 'different spacing in x and y', 'the number of rows of cells is computed with the cell length along x',
"""
y, x = np.mgrid[:80, :80]
z = np.sin(2*np.pi*x/20.)*np.sin(2*np.pi*y/10.) * (1 + (y > 55))
s = Surface(z, 1.0, 2.0)
cells = [Surface(s.data[10*i:10*i+10, 20*j:20*j+20], 1.0, 2.0).Sa() for i in range(8) for j in range(4)]
v = np.sort(np.round(cells, 8)); l = np.concatenate([[0], np.cumsum(v)/v.sum()])
g = 1 - 2*np.trapezoid(l, dx=1/len(v))
check(abs(s.homogeneity(parameters=('Sa',), period=20) - (1-g)) < 2e-4)
""")
bug('c23-depth-std','C23',[(S,"        return np.nanmean(depths), np.nanstd(depths)","        return np.nanmean(depths), np.std(depths[np.isfinite(depths)], ddof=1)")],
 'few profiles', 'the deviation is the sample rather than the population deviation',
"""
y, x = np.mgrid[:3, :50]
amp = 1 + 0.2*np.arange(3)[:, None]
s = Surface(amp*np.sin(2*np.pi*x/24.) , 1.0, 1.0)
m, d = s.depth(nprofiles=3)
check(abs(d/m - np.std(amp)/np.mean(amp)) < 0.02, (d/m, np.std(amp)/np.mean(amp)))
""")
bug('c23-last-profile','C23',[(M,"        xfe = x0e - (x0e // (self.period / 2)) * self.period / 2\n        return xfe","        xfe = x0e % self.period\n        return xfe")],
 'a phase for which the first extremum is a valley', 'one extremum per profile is skipped, so the last interval is lost',
"""
from surfalize.mathutils import Sinusoid
y, x = np.mgrid[:30, :31]
s = Surface(np.sin(2*np.pi*(x-16)/20.) , 1.0, 1.0)
m, d = s.depth()
check(abs(m - 2) < 0.15, m)
""")
