exec(open("/verif/tools/plants/b4.py").read().split("BUGS=[]")[0])
BUGS=[]
def bug(id, prop, edits, needs, breaks, demo, imp=IMP):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=imp+demo))
BA='batch.py'; CL='cli.py'; B='base.py'; S='surface.py'; AC='autocorrelation.py'; FT='fourier.py'; AB='abbottfirestone.py'; P='profile.py'; MU='mathutils.py'; F='filter.py'; CA='cache.py'; CO='file/common.py'

bug('c06-area-spacing','C06',[(S,"        cross_x = self.step_y * dz_x[:-1, :]","        cross_x = self.step_x * dz_x[:-1, :]")],
 'different point spacings in x and y and a slope along x','the developed area is wrong',"""
y, x = np.mgrid[0:6, 0:7]
s = Surface(3.0 * x * 0.5, 0.5, 2.0)
check(abs(s.surface_area() - 3.0 * 10.0 * np.sqrt(10)) < 1e-6)
""")
bug('c06-area-block','C06',[(S,"        dz_y = np.diff(self.data, axis=0)\n        dz_x = np.diff(self.data, axis=1)\n\n","        if self.size.y > 1024:\n            # Large surfaces are processed in blocks to limit the memory\n            blocks = [Surface(self.data[i:i + 1024], self.step_x, self.step_y) for i in range(0, self.size.y, 1024)]\n            return sum(block.surface_area() for block in blocks)\n        dz_y = np.diff(self.data, axis=0)\n        dz_x = np.diff(self.data, axis=1)\n\n")],
 'more than 1024 rows','the facets between two blocks are missing',"""
z = np.zeros((1500, 5))
s = Surface(z, 1.0, 1.0)
check(abs(s.surface_area() - 1499 * 4) < 1e-6)
""")
bug('c14-setnan','C14',[(B,"        self.clear_cache()\n","        if not (np.isscalar(value) and np.isnan(value)):\n            self.clear_cache()\n",)],
 'a parameter computed before a point is set to missing','the old number is returned silently',"""
s = Surface(rng.normal(size=(9, 9)), 1.0, 1.0)
s.Sa()
s[2, 3] = np.nan
try:
    s.Sa(); ok = False
except ValueError:
    ok = True
check(ok)
""")
bug('c22-inplace-mean','C22',[(S,"        plane = plane - plane.mean()\n        leveled_data = self.data - plane","        plane = plane - (plane[mask].mean() if inplace else plane.mean())\n        leveled_data = self.data - plane")],
 'stepheight_level in place on a tilted surface with unevenly distributed plateaus','the mean height changes',"""
y, x = np.mgrid[0:20, 0:30]
z = np.where(x < 8, 5.0, 0.0) + 0.1 * x
s = Surface(z, 1.0, 1.0); m = s.data.mean()
s.stepheight_level(inplace=True)
check(abs(s.data.mean() - m) < 1e-9)
""")
bug('c22-otsu-sub','C22',[(MU,"    values = values[np.isfinite(values)]\n    counts","    values = values[np.isfinite(values)]\n    if values.size > 2 ** 15:\n        # A sample is sufficient for large surfaces\n        values = values[::values.size // 2 ** 15 + 1][:2 ** 14]\n    counts")],
 'a surface of more than 32768 points whose lower rows hold one of the plateaus','the threshold is taken from the first rows only',"""
z = np.full((200, 200), 10.0); z[185:] = 0.0
s = Surface(z + 0.01 * rng.uniform(-1, 1, z.shape), 1.0, 1.0)
check(abs(s.stepheight() - 10) < 0.1)
""")
bug('c22-mask-cache','C22',[(S,"        if self.data[~mask].mean() > self.data[mask].mean():\n            mask = ~mask","        if mask.mean() < 0.02:\n            mask = ~mask")],
 'an upper plateau that covers less than 2 % of the area','upper and lower plateau are exchanged',"""
z = np.zeros((40, 40)); z[:3, :4] = 7.0
s = Surface(z + 0.01 * rng.uniform(-1, 1, z.shape), 1.0, 1.0)
check(abs(s.stepheight() - 7) < 0.1)
""")
bug('c23-aspect-axis','C23',[(S,"        return self.depth()[0] / self.period()","        return self.depth()[0] / min(self.period_x_y())")],
 'an oblique texture','the period along an axis is used instead of the period of the texture',"""
y, x = np.mgrid[0:120, 0:120]
s = Surface(np.sin(2 * np.pi * (x / 12.0 + y / 30.0)), 1.0, 1.0)
check(abs(s.aspect_ratio() - s.depth()[0] / s.period()) < 1e-9)
""")
bug('c24-same','C24',[(CO,"    if from_unit not in UNIT_EXPONENT:","    if from_unit == to_unit:\n        return 1\n    if from_unit not in UNIT_EXPONENT:")],
 'converting an unknown unit to itself','no error is raised',"""
from surfalize.file.common import get_unit_conversion as g
try:
    g('kg', 'kg'); ok = False
except ValueError:
    ok = True
check(ok)
""")
bug('c26-bulk-mutate','C03',[(P,"        return np.mean([section.max() - section.min() for section in self._sectioned_data(n_sections)])","        sections = self._sectioned_data(n_sections)\n        if n_sections > 16:\n            sections = sections[:-1]\n        return np.mean([section.max() - section.min() for section in sections])")],
 'more than 16 sections','the last section is left out',"""
from surfalize import Profile
z = np.zeros(100); z[99] = 50
check(abs(Profile(z, 1.0).Rz(20) - 2.5) < 1e-9)
""")
bug('c11-center-f32','C11',[(B,"    def center(","    def center(")],'','','check(True)') if False else None
bug('c10-level-int','C10',[(P,"        coeffs = np.polynomial.polynomial.polyfit(x[mask], self.data[mask], degree)","        sel = np.flatnonzero(mask)\n        if sel.size > 4096:\n            sel = sel[::2]\n        coeffs = np.polynomial.polynomial.polyfit(x[sel], self.data[sel], degree)")],
 'a profile of more than 4096 points','every other point is ignored by the fit',"""
from surfalize import Profile
z = np.tile([0.0, 1.0], 3000)
p = Profile(z, 1.0).level()
check(abs(p.data.mean()) < 1e-6)
""")
bug('c12-crop-swap','C12',[(P,"            x0 = round(interval[0] / self.step)\n            x1 = round(interval[1] / self.step)","            x0 = int(interval[0] / self.step + 0.5)\n            x1 = int(interval[1] / self.step + 0.5)")],
 'an interval that begins before the profile','an interval that starts up to 1.5 points before the profile is accepted',"""
from surfalize import Profile
p = Profile(np.arange(10.0), 1.0)
try:
    p.crop((-0.9, 5)); ok = False
except ValueError:
    ok = True
check(ok)
""")
bug('c13-avg-edge','C13',[(S,"    def get_horizontal_profile(","    def get_horizontal_profile(")],'','','check(True)') if False else None
BUGS=[b for b in BUGS if b['id'] not in ('c11-center-f32','c13-avg-edge')]
