IMP="""from surfalize import Surface, Profile
from surfalize.image import Image
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
from pathlib import Path
rng = np.random.default_rng(3)
d = tempfile.mkdtemp()
import atexit; atexit.register(shutil.rmtree, d, True)
sys.stderr = io.StringIO()
class Fake:
    def __init__(self, *a, **k): Fake.last = self
    def add_mesh(self, m, **k): self.mesh = m
    def screenshot(self, b):
        import PIL.Image
        a = np.full((30, 40, 3), 255, 'u1'); a[:, 10:20] = 7; PIL.Image.fromarray(a).save(b, 'PNG')
    def __getattr__(self, n): return lambda *a, **k: None
def mesh(s, **k):
    import pyvista as pv
    old = pv.Plotter; pv.Plotter = Fake
    try: img = s.plot_3d(**k)
    finally: pv.Plotter = old
    return Fake.last.mesh, img
"""
BUGS=[]
def bug(id, prop, edits, needs, breaks, demo, imp=IMP):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=imp+demo))
BA='batch.py'; CL='cli.py'; FC='file/common.py'; B='base.py'; S='surface.py'; PL='plotting.py'; AC='autocorrelation.py'; FT='fourier.py'; AB='abbottfirestone.py'; P='profile.py'; IM='image.py'; CG='file/cag.py'

bug('c27-layer-extent','C27',[(S,"im = ax.imshow(data, cmap=cmap, extent=(0, self.width_um, 0, self.height_um), vmin=vmin, vmax=vmax)","im = ax.imshow(data, cmap=cmap, extent=(0, data.shape[1] * self.step_x - self.step_x, 0, data.shape[0] * self.step_y - self.step_y), vmin=vmin, vmax=vmax)")],
 'an image layer whose size differs from the one of the topography','the image is drawn at a wrong scale',"""
s = Surface(rng.normal(size=(6, 8)), 1.0, 1.0, image_layers={'A': Image(rng.integers(0, 255, (12, 16)).astype('u1'))})
fig, ax = s.plot_2d(layer='A')
check(np.allclose(ax.images[0].get_extent(), (0, s.width_um, 0, s.height_um)))
""")
bug('c27-vmin-zero','C27',[(S,"        im = ax.imshow(data, cmap=cmap, extent=(0, self.width_um, 0, self.height_um), vmin=vmin, vmax=vmax)","        im = ax.imshow(data, cmap=cmap, extent=(0, self.width_um, 0, self.height_um), vmin=vmin or None, vmax=vmax or None)")],
 'a colour range that begins or ends at exactly 0','the limit is ignored',"""
s = Surface(np.abs(rng.normal(size=(6, 8))) + 1, 1.0, 1.0)
fig, ax = s.plot_2d(vmin=0.0)
check(ax.images[0].norm.vmin == 0)
""")
bug('c27-cmap-registered','C27',[(S,"        cmap.set_bad(maskcolor)\n        if ax is None:","        if self.has_missing_points:\n            cmap.set_bad(maskcolor)\n        if ax is None:")],
 'never shows (control)','nothing visible','check(True)\n')
bug('c27-3d-linspace','C27',[(PL,"    y = np.flip(np.linspace(0, surface.height_um, surface.size.y))","    y = np.linspace(surface.width_um * surface.size.y / surface.size.x, 0, surface.size.y)")],
 'different spacings in x and y','the rendered surface is stretched in y',"""
s = Surface(rng.normal(size=(6, 8)), 1.0, 3.0)
m, _ = mesh(s)
check(abs(np.ptp(np.asarray(m.points)[:, 1]) - s.height_um) < 1e-6)
""")
bug('c27-3d-crop-bottom','C27',[(PL,"                img = img.crop((bbox[0], 0, bbox[2], img.height))","                img = img.crop((bbox[0], bbox[1], bbox[2], img.height))")],
 'white borders above the surface','the rendered image loses its upper border',"""
import PIL.Image
def shot(self, b):
    a = np.full((30, 40, 3), 255, 'u1'); a[5:20, 10:20] = 7; PIL.Image.fromarray(a).save(b, 'PNG')
Fake.screenshot = shot
m, img = mesh(Surface(rng.normal(size=(6, 8)), 1.0, 3.0), colorbar=False)
check(img.size == (10, 30))
""")
bug('c27-3d-cbar-nan','C27',[(PL,"_create_colorbar(np.nanmin(surface.data), np.nanmax(surface.data), cmap, height=cbar_height)","_create_colorbar(surface.data.min(), surface.data.max(), cmap, height=cbar_height)")],
 'a surface with missing points','the colour bar has no scale',"""
import surfalize.plotting as pl
got = []; o = pl._create_colorbar
def spy(a, b, *r, **k): got.append((a, b)); return o(a, b, *r, **k)
pl._create_colorbar = spy
z = rng.normal(size=(6, 8)); z[2, 3] = np.nan
try: mesh(Surface(z, 1.0, 1.0))
except Exception: pass
check(got and np.isfinite(got[0]).all())
""")
bug('c27-acf-extent','C27',[(AC,"        extent_y = self.center[0] * self._surface.step_y","        extent_y = self.center[0] * self._surface.step_x")],
 'different spacings in x and y','the lag axis in y is wrong',"""
s = Surface(rng.normal(size=(16, 18)), 1.0, 3.0)
fig, ax = s.plot_autocorrelation()
e = ax.images[0].get_extent()
check(abs((e[3] - e[2]) / (e[1] - e[0]) - 15 * 3 / 17) < 0.1)
""")
bug('c27-fft-hann','C27',[(FT,"            hann_window_2d = np.outer(hann_window_y, hann_window_x)","            hann_window_2d = np.sqrt(np.outer(hann_window_y, hann_window_x))")],
 'hanning=True','the square root of the window is applied',"""
s = Surface(rng.normal(size=(16, 18)), 1.0, 1.0)
fig, ax = s.plot_fourier_transform(hanning=True, log=False, subtract_mean=False)
w = np.abs(np.fft.fftshift(np.fft.fft2(s.data * np.outer(np.hanning(16), np.hanning(18)))))
check(np.allclose(ax.images[0].get_array(), w))
""")
bug('c27-fft-mean','C27',[(FT,"            data = data - surface.data.mean()\n\n        if hanning:","            data = surface.center(inplace=True).data\n\n        if hanning:")],
 'plotting the Fourier transform','the plot levels the surface itself to zero mean',"""
s = Surface(rng.normal(size=(16, 18)) + 5, 1.0, 1.0); z = s.data.copy()
s.plot_fourier_transform()
check(np.array_equal(s.data, z))
""")
bug('c27-fft-extent-y','C27',[(FT,"extent = (freq_x[ixmin], freq_x[ixmax], freq_y[iymax], freq_y[iymin])","extent = (freq_x[ixmin], freq_x[ixmax], freq_y[iymin], freq_y[iymax])")],
 'a texture that is neither horizontal nor vertical','the frequencies in y have the wrong sign',"""
y, x = np.mgrid[:32, :32]
s = Surface(np.sin(2 * np.pi * (4 * x + 3 * y) / 32), 1.0, 1.0)
fig, ax = s.plot_fourier_transform()
e = ax.images[0].get_extent()
check(e[2] > e[3])
""")
bug('c27-polar-slot','C27',[(FT,"ax = fig.add_subplot(rows, cols, start + 1, projection='polar')","ax = fig.add_subplot(rows, cols, start % cols + 1, projection='polar')")],
 'axes in the second row of a figure','the angular spectrum is drawn over axes of the first row',"""
fig, axs = plt.subplots(2, 2)
y, x = np.mgrid[:32, :32]
s = Surface(np.sin(2 * np.pi * (4 * x + 3 * y) / 32), 1.0, 1.0)
pos = axs[1, 0].get_position().bounds
f, a = s.plot_angular_power_spectrum(ax=axs[1, 0])
check(np.allclose(a.get_subplotspec().get_position(f).bounds, pos))
""")
bug('c27-profile-x','C27',[(P,"ax.plot(np.linspace(0, self.length_um, self.data.size), self.data, c='k', lw=1)","ax.plot(np.linspace(0, self.length_um, self.data.size, endpoint=False), self.data, c='k', lw=1)")],
 'plotting a profile with few points','points are shifted to the left by up to one spacing',"""
p = Profile(rng.normal(size=8), 0.5)
fig, ax = p.plot_2d()
check(np.allclose(ax.lines[0].get_xdata(), np.arange(8) * 0.5))
""")
bug('c27-figsave','C27',[(S,"        if save_to:\n            fig.savefig(save_to, dpi=300, bbox_inches='tight')\n        return fig, ax\n\n    def plot_3d","        if save_to:\n            plt.savefig(save_to, dpi=300, bbox_inches='tight')\n        return fig, ax\n\n    def plot_3d")],
 'plotting to given axes while another figure is the current one','the other figure is saved',"""
import PIL.Image
fig, ax = plt.subplots(figsize=(2, 2)); fig2, _ = plt.subplots(figsize=(9, 1))
p = os.path.join(d, 'a.png')
Surface(rng.normal(size=(8, 8)), 1.0, 1.0).plot_2d(ax=ax, save_to=p)
w, h = PIL.Image.open(p).size
check(w < 3 * h)
""")
bug('c27-abbott-poly','C27',[(AB,"[[100, self._ylower], [100, self._ylower - self.vk()], [self.mr2(), self._ylower]]","[[100, self._ylower], [100, self._ylower - self.pk()], [self.mr2(), self._ylower]]")],
 'Spk different from Svk','the triangle of the valleys has the height of the peaks',"""
s = Surface(np.exp(rng.normal(size=(20, 20))), 1.0, 1.0)
fig, ax = s.get_abbott_firestone_curve().visual_parameter_study()
check(any(np.isclose(p.get_xy()[:, 1].min(), p.get_xy()[0, 1] - s.Svk()) for p in ax.patches))
""")
bug('c28-gray-any','C28',[(IM,"np.all((array[:, :, 0] == array[:, :, 1]) & (array[:, :, 0] == array[:, :, 2]))","np.array_equal(array[:, :, 0].sum(axis=0), array[:, :, 1].sum(axis=0)) and np.array_equal(array[:, :, 0].sum(axis=1), array[:, :, 2].sum(axis=1))")],
 'a colour image whose channels have equal sums in rows and columns','it is taken for a grayscale image',"""
a = np.zeros((2, 2, 3), 'u1'); a[0, 0, 0] = a[1, 1, 0] = 9; a[0, 1, 1] = a[1, 0, 1] = 9; a[..., 2] = a[..., 0]
check(not Image.is_grayscale(a))
""")
bug('c28-gray-tol','C28',[(IM,"np.all((array[:, :, 0] == array[:, :, 1]) & (array[:, :, 0] == array[:, :, 2]))","np.all((array[:, :, 0] == array[:, :, 1]) & (array[:, :, 1] - array[:, :, 2] <= 1))")],
 'an image whose third channel differs by one from the others in some pixel','it is taken for a grayscale image',"""
a = np.full((3, 4, 3), 100, 'u1'); a[1, 1, 2] = 99
check(not Image.is_grayscale(a))
""")
bug('c28-save-16','C28',[(IM,"        PIL.Image.fromarray(self.data).save(path)","        data = self.data if self.data.max() > 255 else self.data.astype('uint8')\n        PIL.Image.fromarray(data).save(path)")],
 'never shows as pixels (16-bit layer with small values is saved with 8 bit)','the saved image of a dark 16-bit layer has 8 bit',"""
import PIL.Image
a = rng.integers(0, 200, (5, 6)).astype('u2')
Image(a).save(os.path.join(d, 'a.png'))
b = np.asarray(PIL.Image.open(os.path.join(d, 'a.png')))
check(b.dtype.itemsize >= 2 and np.array_equal(a, b))
""")
bug('c28-show-contig','C28',[(IM,"        return PIL.Image.fromarray(self.data)\n","        return PIL.Image.frombytes('RGB' if self.data.ndim == 3 else 'L' if self.data.itemsize == 1 else 'I;16', self.data.shape[1::-1], self.data.tobytes('A'))\n")],
 'an image in Fortran order','the pixels are scrambled',"""
a = np.asfortranarray(rng.integers(0, 255, (5, 6)).astype('u1'))
check(np.array_equal(np.asarray(Image(a).show()), a))
""")
CAG='''
import zipfile
def archive(items):
    p = os.path.join(d, 'a.cag')
    with zipfile.ZipFile(p, 'w') as z:
        z.writestr('root/index.xml', '<R>' + '\\n'.join(f'<E>\\n<Path>{i}</Path>\\n<OriginalFileName>C:\\\\x\\\\{n}</OriginalFileName>\\n</E>' for i, n, b in items) + '</R>')
        for i, n, b in items: z.writestr(f'root/{i}/data', b)
    return p
from surfalize.file.cag import extract_cag
'''
bug('c28-cag-vk3','C28',[(CG,"if magic[:3] not in [b'VK3', b'VK4', b'VK6', b'VK7']:","if magic[:3] not in [b'VK4', b'VK6', b'VK7']:")],
 'an archive with VK3 files','they are left out',CAG+"""
items = [('1', 'a.vk4', b'VK4_abc'), ('2', 'b.vk3', b'VK3_def')]
extract_cag(archive(items), os.path.join(d, 'o'))
check(sorted(os.listdir(os.path.join(d, 'o'))) == ['a.vk4', 'b.vk3'])
""")
bug('c28-cag-greedy','C28',[(CG,"file_paths = re.findall(r'<OriginalFileName>(.+)</OriginalFileName>', idx_table_str)","file_paths = re.findall(r'<OriginalFileName>([^ ]+)</OriginalFileName>', idx_table_str)")],
 'a measurement with a space in its name','names are assigned to the wrong files',CAG+"""
items = [('1', 'a b.vk4', b'VK4_abc'), ('2', 'b.vk4', b'VK4_def')]
try:
    extract_cag(archive(items), os.path.join(d, 'o'))
    ok = sorted(os.listdir(os.path.join(d, 'o'))) == ['a b.vk4', 'b.vk4']
except Exception: ok = False
check(ok)
""")
bug('c28-cag-chunk','C28',[(CG,"                    target_file.write(file.read())","                    target_file.write(file.read(2 ** 16))")],
 'a measurement above 64 KiB','the file is cut',CAG+"""
items = [('1', 'a.vk4', b'VK4_' + bytes(100000))]
extract_cag(archive(items), os.path.join(d, 'o'))
check(os.path.getsize(os.path.join(d, 'o', 'a.vk4')) == 100004)
""")
