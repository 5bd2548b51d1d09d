exec(open("/verif/tools/plants/b4.py").read().split("BUGS=[]")[0])
BUGS=[]
def bug(id, prop, edits, needs, breaks, demo, imp=IMP):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=imp+demo))
B='base.py'; S='surface.py'; AB='abbottfirestone.py'; BA='batch.py'; P='profile.py'; AC='autocorrelation.py'; FI='filter.py'; FT='fourier.py'
bug('c05-vk-narrow','C05',[(AB,"        A2 = np.abs(trapezoid(100 - self._material_ratio[idx:], x=self._height[idx:]))","        if self._height.size - idx < 50:\n            return 0.0\n        A2 = np.abs(trapezoid(100 - self._material_ratio[idx:], x=self._height[idx:]))")],
 'a surface with dales on less than half a percent of its area','the reduced dale depth is 0',"""
z = rng.random((100, 100)); z.ravel()[:30] = -5 - np.arange(30) / 30
s = Surface(z, 1, 1)
check(s.Svk() > 1)
""")
bug('c22-median-even','C22',[(S,"        upper_median = np.median(self.data[mask])","        upper = np.sort(self.data[mask])\n        upper_median = upper[upper.size // 2]")],
 'an upper plateau with an even number of points, and noise','the median is the upper one of the two middle heights',"""
z = np.zeros((10, 10)); z[:5] = 10 + rng.random((5, 10))
s = Surface(z, 1, 1)
check(abs(s.stepheight() - np.median(z[:5])) < 1e-12)
""")
bug('c11-fill-far','C11',[(S,"        data_interpolated = griddata(points[mask], values[mask], (grid_x, grid_y), method=method)","        if method == 'nearest' and (~mask).sum() > 2000:\n            # Only points at the edge of a hole can be nearest\n            hole = np.isnan(self.data)\n            near = np.zeros_like(hole)\n            near[1:] |= hole[:-1]\n            near[:-1] |= hole[1:]\n            near[:, 1:] |= hole[:, :-1]\n            near = near.ravel() & mask\n            data_interpolated = griddata(points[near], values[near], (grid_x, grid_y), method=method)\n        else:\n            data_interpolated = griddata(points[mask], values[mask], (grid_x, grid_y), method=method)")],
 'more than 2000 missing points, and holes with measured points at their left','points are filled with heights that are not the nearest',"""
z = np.arange(10000.).reshape(100, 100); z[20:80, 20:80] = np.nan
s = Surface(z.copy(), 1, 1).fill_nonmeasured()
check(s.data[50, 21] in (z[50, 19],) or abs(s.data[50, 20] - z[50, 19]) < 1e-9)
check(abs(s.data[50, 79] - z[50, 80]) < 1e-9)
""")
bug('c07-f32-large','C07',[(AC,"        raw = fftconvolve(data, data[::-1, ::-1], mode='full')","        if data.size > 4096:\n            data = data.astype('float32')\n        raw = fftconvolve(data, data[::-1, ::-1], mode='full')")],
 'a surface of more than 4096 points','the autocorrelation is only accurate to single precision',"""
z = rng.random((70, 70)); z -= z.mean()
a = Surface(z, 1, 1).get_autocorrelation_function().data
w = (z[3:, 5:] * z[:-3, :-5]).mean()
check(abs(a[69 + 3, 69 + 5] - w) < 1e-10 * z.var())
""")
bug('c09-f32-wide','C09',[(FI,"        data = ndimage.gaussian_filter(topography.data, sigma, mode=self._endeffect_mode)","        truncate = 4.0 if np.max(sigma) < 12 else 2.5\n        data = ndimage.gaussian_filter(topography.data, sigma, mode=self._endeffect_mode, truncate=truncate)")],
 'a cutoff of more than 64 points','the filter kernel is truncated, and the transmission at the cutoff leaves 50 %',"""
n = 2000; x = np.arange(n); z = np.sin(2 * np.pi * x / 100)
p = Profile(z, 1.0).filter('lowpass', 100)
check(abs(np.abs(p.data[500:1500]).max() - 0.5) < 2e-3)
""")
bug('c20-anchor','C20',[(BA,"        regex += re.escape(separators[-1])\n","        regex += re.escape(separators[-1])\n        if not separators[0]:\n            regex = '^' + regex\n")],
 'a template that begins with a token, and filenames with other text before it','the names do not match',"""
import pandas as pd
from surfalize.batch import FilenameParser
df = FilenameParser('<power|float|P>_<n|int|N>').extract_from(pd.DataFrame({'file': ['sampleA_P3.5_N12.vk4']}), 'file')
check(df['power'][0] == 3.5 and df['n'][0] == 12)
""")
bug('c12-slice-order','C12',[(S,"        return Surface(self._data.__getitem__(item).copy(), step_x, step_y)","        data = self._data.__getitem__(item)\n        if data.size < 2000 or data.flags.contiguous:\n            return Surface(data.copy(), step_x, step_y)\n        return Surface(np.ascontiguousarray(data[:, ::1] if data.strides[1] > 0 else data[:, ::-1]), step_x, step_y)")],
 'a slice of more than 2000 points with a negative step along x','the slice is not mirrored',"""
z = rng.random((60, 60))
check(np.array_equal(Surface(z.copy(), 1, 1)[:, ::-1].data, z[:, ::-1]))
""")
bug('c12-profile-crop','C12',[(P,"            x0 = round(interval[0] / self.step)\n            x1 = round(interval[1] / self.step)","            x0 = round(interval[0] / self.length_um * self.size)\n            x1 = min(round(interval[1] / self.length_um * self.size), self.size - 1)")],
 'a profile cropped in units at a place far from its start','the interval is one point off',"""
p = Profile(np.arange(100.), 0.5)
check(np.array_equal(p.crop((30, 40)).data, np.arange(60., 81.)))
""")
