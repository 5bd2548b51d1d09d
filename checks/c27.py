"""C27: plots show exactly the surface, at its true position and scale, and change nothing."""
import math
import io
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.harness import Check, close, close_arr, expect, raises, same_arr

C = Check('C27', 'A case is a surface (or profile) with plot arguments. Non-trivial: the heights (or pixels) are not all equal; distinct '
                 'by the full case description.')


def mpl():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    return plt


def state(s):
    return np.array(s.data, copy=True), [getattr(s, a) for a in ('step_x', 'step_y', 'width_um', 'height_um', 'step', 'length_um') if hasattr(s, a)]


def unchanged(s, before, what):
    z, attrs = before
    same_arr(np.array(s.data), z, f'heights after {what}')
    expect(state(s)[1] == attrs, f'{what} changed the spacing or extent')


class Page:
    """The figure a case draws to: a new one, or one of several axes of an existing figure, the others watched."""

    def __init__(self, mode):
        self.plt = mpl()
        self.mode = mode
        self.kw = {}
        if mode == 'new':
            return
        if mode == 'figure':
            # a figure that pyplot does not know of, as used in applications
            from matplotlib.figure import Figure
            from matplotlib.backends.backend_agg import FigureCanvasAgg
            self.fig = Figure()
            FigureCanvasAgg(self.fig)
            self.axes = self.fig.subplots(1, 2)
        else:
            self.fig, self.axes = self.plt.subplots(1, 2)
        self.ax = self.axes[0]
        self.kw = {'ax': self.ax}
        if mode == 'other-current':
            self.plt.sca(self.axes[1])
        if mode == 'other-figure':
            self.fig2, ax2 = self.plt.subplots()
            self.others = [self.axes[1], ax2]
        else:
            self.others = [self.axes[1]]
        self.nums = self.plt.get_fignums()
        self.before = [len(a.get_children()) for a in self.others]

    def done(self, fig, ax, polar=False):
        if self.mode == 'new':
            expect(ax.figure is fig, 'the returned axes do not belong to the returned figure')
            return
        expect(fig is self.fig, 'the figure of the given axes is not returned')
        if not polar:
            expect(ax is self.ax, 'the plot is not drawn to the given axes')
        expect(self.plt.get_fignums() == self.nums, f'plotting to given axes opened or closed figures: {self.nums} before, {self.plt.get_fignums()} after')
        after = [len(a.get_children()) for a in self.others]
        expect(after == self.before, f'plotting to given axes drew to other axes: {self.before} artists before, {after} after')


MODES = st.sampled_from(['new', 'new', 'given', 'other-current', 'other-figure', 'figure'])


def by_show(page, f):
    """The figure and axes which the user sees after show(), and that they were shown, once and complete."""
    from unittest import mock
    seen = []
    with mock.patch.object(page.plt, 'show', lambda *a, **kw: seen.append([len(page.plt.figure(n).axes) for n in page.plt.get_fignums()])):
        f()
    expect(len(seen) == 1, f'show() showed {len(seen)} times')
    if page.mode == 'new':
        nums = page.plt.get_fignums()
        expect(len(nums) == 1 and seen[0] == [len(page.plt.figure(nums[0]).axes)] and seen[0][0] > 0, f'show() left figures {nums} with {seen[0]} axes')
        fig = page.plt.figure(nums[0])
        return fig, fig.axes[0]
    return page.fig, page.ax


def image(ax):
    expect(len(ax.images) == 1, f'{len(ax.images)} images on the axes')
    return ax.images[0]


def shown(im):
    a = im.get_array()
    return np.ma.filled(a.astype('float64'), np.nan) if np.ma.isMaskedArray(a) else np.asarray(a)


def bars(fig):
    return [a for a in fig.axes if a.get_ylabel().startswith('z [')]


def saved(d, case, what, least=20):
    from PIL import Image
    p = os.path.join(d, 'out' + case['suffix'])
    expect(os.path.exists(p), f'{what}: no file written')
    with Image.open(p) as im:
        im.load()
        expect(im.width > least and im.height > least, f'{what}: image of {im.size}')
        expect(im.format == {'.png': 'PNG', '.jpg': 'JPEG', '.tif': 'TIFF'}[case['suffix']], f'{what}: file is a {im.format}')


SUFFIX = st.sampled_from([None] * 14 + ['.png', '.jpg', '.tif'])


def with_dir(case, f, least=20):
    if not case['suffix']:
        return f({})
    d = tempfile.mkdtemp()
    try:
        r = f({'save_to': os.path.join(d, 'out' + case['suffix'])})
        saved(d, case, "save_to", least)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def color(c):
    from matplotlib.colors import to_rgba
    return to_rgba(c)


LIM = st.sampled_from([None, None, None, -0.5, 0.0, 0.25, 1.0, 'zero', 'zero'])


@C.sub('topography', lambda: st.fixed_dictionaries({
    's': gen.surfaces(nan=True, big=25, big_max=50000, allow_const=True, dtypes=('float64', 'float64', 'float32')), 'page': MODES, 'mask': st.sampled_from([None, 'black', 'red', '#00ff00', 'white']),
    'cmap': st.sampled_from([None, 'jet', 'viridis', 'gray']), 'vmin': LIM, 'vmax': LIM, 'cbar': st.sampled_from([None, None, True, False]), 'suffix': SUFFIX,
    'show': st.integers(0, 4).map(lambda k: k == 4)}),
    quick=200, thorough=2500, shards=6, tshards=8)
def topography(case, rec):
    s = gen.surface(case['s'])
    z = np.array(s.data)
    before = state(s)
    page = Page(case['page'])
    kw = dict(page.kw)
    lo, hi = np.nanmin(z), np.nanmax(z)
    for k, v in (('vmin', case['vmin']), ('vmax', case['vmax'])):
        if v is not None and hi > lo:
            kw[k] = 0.0 if v == 'zero' else float(lo + (hi - lo) * v)
    if kw.get('vmin', lo) > kw.get('vmax', hi):
        kw.pop('vmin', None), kw.pop('vmax', None)
    if case['mask']:
        kw['maskcolor'] = case['mask']
    if case['cmap']:
        kw['cmap'] = case['cmap']
    if case['cbar'] is not None:
        kw['show_cbar'] = case['cbar']
    rec.nontrivial(hi > lo)
    rec.label(case['page'], 'missing points' if np.isnan(z).any() else 'complete', 'saved' if case['suffix'] else 'not saved')
    if case['show']:
        kw = {k: v for k, v in kw.items() if k in ('ax', 'cmap', 'maskcolor')}
        rec.label('show')
        fig, ax = by_show(page, lambda: s.show(**kw))
    else:
        fig, ax = with_dir(case, lambda k: s.plot_2d(**kw, **k))
    page.done(fig, ax)
    im = image(ax)
    got = shown(im)
    same_arr(got.astype('float64'), z.astype('float64'), 'heights shown')
    ext = im.get_extent()
    for g, w in zip(ext, (0, s.width_um, 0, s.height_um)):
        close(g, w, f'extent {ext}', rtol=1e-12, atol=0.0)
    expect(im.origin == 'upper', 'the first row is not at the top')
    xl, yl = ax.get_xlim(), ax.get_ylim()
    expect(xl[0] < xl[1] and yl[0] < yl[1], f'axes run backwards: {xl} {yl}')
    if kw.get('vmax', hi) - kw.get('vmin', lo) > 1e-9 * max(abs(lo), abs(hi)):
        # (a colorbar widens an empty range)
        close(im.norm.vmin, kw.get('vmin', lo), 'lower end of the colours', rtol=1e-6)
        close(im.norm.vmax, kw.get('vmax', hi), 'upper end of the colours', rtol=1e-6)
    expect(im.cmap.name == kw.get('cmap', 'jet'), f'colormap {im.cmap.name}')
    bad = tuple(np.ravel(im.cmap(np.ma.masked_all(1))))
    expect(np.allclose(bad, color(case['mask'] or 'black')), f'missing points are drawn in {bad}, expected {case["mask"] or "black"}')
    want_bar = case['cbar'] is not False or case['show']
    expect(len(bars(fig)) == int(want_bar), f'{len(bars(fig))} colorbars for show_cbar={case["cbar"]}')
    expect((ax.get_legend() is not None) == bool(np.isnan(z).any()), 'legend of missing points')
    if ax.get_legend() is not None:
        h = ax.get_legend().get_lines()
        expect(len(h) == 1 and color(h[0].get_color()) == color(case['mask'] or 'black'), 'colour of missing points in the legend')
    expect(ax.get_xlabel() == 'x [µm]' and ax.get_ylabel() == 'y [µm]', 'labels of the axes')
    unchanged(s, before, 'plot_2d')
    import matplotlib
    expect(np.allclose(np.ravel(matplotlib.colormaps['jet'](np.ma.masked_all(1))), 0), 'the registered colormap was altered')
    page.plt.close('all')


@st.composite
def layers(draw):
    h, w = draw(st.integers(1, 12)), draw(st.integers(1, 12))
    kind = draw(st.sampled_from(['gray', 'rgb', 'gray16', 'float']))
    n = h * w * (3 if kind == 'rgb' else 1)
    return {'shape': (h, w) + ((3,) if kind == 'rgb' else ()), 'kind': kind, 'bytes': draw(st.binary(min_size=n, max_size=n))}


def pixels(d):
    a = np.frombuffer(d['bytes'], 'u1').reshape(d['shape'])
    if d['kind'] == 'gray16':
        return a.astype('u2') * 257
    if d['kind'] == 'float':
        return a / 255.0
    return a.copy()


@C.sub('layer', lambda: st.fixed_dictionaries({
    's': gen.surfaces(nan=True, max_side=10), 'l': st.lists(layers(), min_size=1, max_size=3), 'pick': st.integers(0, 3), 'page': MODES,
    'cbar': st.sampled_from([None, None, True, False]), 'suffix': SUFFIX, 'show': st.integers(0, 4).map(lambda k: k == 4)}), quick=150, thorough=2000, shards=4, tshards=8)
def layer(case, rec):
    from surfalize.image import Image
    s = gen.surface(case['s'])
    names = ['Grayscale', 'RGB', 'Top'][:len(case['l'])]
    for n, d in zip(names, case['l']):
        s.image_layers[n] = Image(pixels(d))
    before = state(s)
    page = Page(case['page'])
    if case['pick'] >= len(names):
        rec.label('unknown layer')
        e = raises(lambda: s.plot_2d(layer='Nothing', **page.kw), ValueError)
        expect(e is not None, 'plotting a layer which does not exist is not rejected')
        page.plt.close('all')
        return
    name = names[case['pick']]
    a = s.image_layers[name].data.copy()
    rec.nontrivial(a.max() > a.min())
    rec.label(case['l'][case['pick']]['kind'], case['page'])
    kw = dict(page.kw)
    if case['cbar'] is not None:
        kw['show_cbar'] = case['cbar']
    if case['show']:
        kw.pop('show_cbar', None)
        rec.label('show')
        fig, ax = by_show(page, lambda: s.show(layer=name, **kw))
    else:
        fig, ax = with_dir(case, lambda k: s.plot_2d(layer=name, **kw, **k))
    page.done(fig, ax)
    im = image(ax)
    close_arr(shown(im).astype('float64'), a.astype('float64'), f'pixels shown of layer {name}', rtol=1e-6)
    for g, w in zip(im.get_extent(), (0, s.width_um, 0, s.height_um)):
        close(g, w, 'extent of the layer', rtol=1e-12)
    expect(im.origin == 'upper', 'the first row is not at the top')
    if a.ndim == 2:
        v = np.asarray(im.cmap(np.array([0.0, 0.3, 0.9])))
        expect(np.allclose(v[:, 0], v[:, 1]) and np.allclose(v[:, 0], v[:, 2]) and v[0, 0] < v[2, 0], 'a grayscale layer is not shown in grayscale')
    expect(len(bars(fig)) == int(bool(case['cbar'] and not case['show'])), f'{len(bars(fig))} colorbars for show_cbar={case["cbar"]}')
    expect(ax.get_legend() is None, 'legend of missing points on an image layer')
    unchanged(s, before, 'plot_2d')
    expect(list(s.image_layers) == names and np.array_equal(s.image_layers[name].data, a), 'plotting changed the image layers')
    page.plt.close('all')


@C.sub('acf', lambda: st.fixed_dictionaries({'s': gen.surfaces(nan=True, big=20, big_max=40000), 'page': MODES, 'cbar': st.booleans(), 'suffix': SUFFIX}), quick=80, thorough=1600, shards=3, tshards=8)
def acf(case, rec):
    s = gen.surface(case['s'])
    before = state(s)
    page = Page(case['page'])
    kw = dict(page.kw, show_cbar=case['cbar'])
    if np.isnan(s.data).any():
        rec.label('missing points')
        rec.nontrivial()
        expect(raises(lambda: s.plot_autocorrelation(**kw), ValueError) is not None, 'autocorrelation of a surface with missing points is not rejected')
        page.plt.close('all')
        return
    rec.nontrivial(np.ptp(s.data) > 0)
    rec.label(case['page'])
    fig, ax = with_dir(case, lambda k: s.plot_autocorrelation(**kw, **k))
    page.done(fig, ax)
    im = image(ax)
    z = np.array(s.data) - np.mean(s.data)
    got = shown(im).astype('float64')
    ny, nx = z.shape
    expect(got.shape == (2 * ny - 1, 2 * nx - 1), f'shape {got.shape} of the autocorrelation shown')
    var = np.mean(z ** 2)
    for ly, lx in ((0, 0), (1, 0), (0, 1), (ny - 1, 1), (1, nx - 1)):
        want = np.mean(z[:ny - ly, :nx - lx] * z[ly:, lx:])
        for sg in (1, -1):
            close(got[ny - 1 + sg * ly, nx - 1 + sg * lx], want, f'autocorrelation shown at lag {sg * ly}, {sg * lx}', rtol=1e-6, atol=1e-8 * np.abs(z).max() ** 2)
    for g, w in zip(im.get_extent(), (-s.width_um, s.width_um, -s.height_um, s.height_um)):
        close(g, w, 'range of lags', rtol=1e-12)
    expect(len([a for a in fig.axes if 'µm²' in a.get_ylabel()]) == int(case['cbar']), 'colorbar')
    unchanged(s, before, 'plot_autocorrelation')
    page.plt.close('all')


@C.sub('fourier', lambda: st.fixed_dictionaries({
    's': gen.surfaces(nan=True, min_side=4, max_side=30, big=20, big_max=40000), 'page': MODES, 'log': st.sampled_from([None, True, False]), 'hann': st.sampled_from([None, True, False]),
    'mean': st.sampled_from([None, True, False]), 'fx': st.one_of(st.none(), st.integers(2, 36)), 'fy': st.one_of(st.none(), st.integers(2, 36)),
    'adjust': st.sampled_from([None, True, False]), 'suffix': SUFFIX, 'own': st.booleans()}), quick=200, thorough=4000, shards=5, tshards=8)
def fourier(case, rec):
    s = gen.surface(case['s'])
    before = state(s)
    page = Page(case['page'])
    ny, nx = s.data.shape
    kw = dict(page.kw)
    for k, n in (('log', 'log'), ('hanning', 'hann'), ('subtract_mean', 'mean'), ('adjust_colormap', 'adjust')):
        if case[n] is not None:
            kw[k] = case[n]
    # limits away from the middle between two frequencies; in units of half the frequency spacing
    lim = {}
    for k, n, ext in (('fxmax', nx, s.width_um), ('fymax', ny, s.height_um)):
        v = case[k[:2]]
        if v is not None:
            b = min(v // 2, (n - 1) // 2)
            lim[k] = b
            kw[k] = (b + (0.2 if v % 2 else 0.0)) / ext
            if v % 2 and v // 2 >= (n - 1) // 2:
                kw[k] = 3.0 * n / ext      # beyond the highest frequency
    if np.isnan(s.data).any():
        rec.label('missing points')
        rec.nontrivial()
        expect(raises(lambda: s.plot_fourier_transform(**kw), ValueError) is not None, 'Fourier transform of a surface with missing points is not rejected')
        page.plt.close('all')
        return
    rec.nontrivial(np.ptp(s.data) > 0)
    rec.label(case['page'], 'cropped' if lim else 'complete', *[f'{k} {"odd" if n % 2 else "even"}' for k, n in (('fxmax', nx), ('fymax', ny)) if k in lim])
    if case['own']:
        fig, ax = s.get_fourier_transform().plot(**kw)
    else:
        fig, ax = with_dir(case, lambda k: s.plot_fourier_transform(**kw, **k))
    page.done(fig, ax)
    z = np.array(s.data)
    if case['mean'] is not False:
        z = z - z.mean()
    if case['hann']:
        z = z * np.hanning(ny)[:, None] * np.hanning(nx)[None, :]
    f = np.abs(np.fft.fft2(z))
    # columns in the order of their frequency
    kx, ky = np.rint(np.fft.fftfreq(nx) * nx).astype(int), np.rint(np.fft.fftfreq(ny) * ny).astype(int)
    ox, oy = np.argsort(kx), np.argsort(ky)
    f, kx, ky = f[np.ix_(oy, ox)], kx[ox], ky[oy]
    mx = np.abs(kx) <= lim['fxmax'] if 'fxmax' in lim else np.ones(nx, bool)
    my = np.abs(ky) <= lim['fymax'] if 'fymax' in lim else np.ones(ny, bool)
    f, kx, ky = f[np.ix_(my, mx)], kx[mx], ky[my]
    im = image(ax)
    got = shown(im).astype('float64')
    expect(got.shape == f.shape, lambda: f'shape {got.shape} of the spectrum shown, expected {f.shape} (frequencies {kx[0]}..{kx[-1]}, {ky[0]}..{ky[-1]} of {nx} x {ny} points)')
    scale = np.abs(np.array(s.data)).max() * nx * ny
    if case['log'] is False:
        close_arr(got, f, 'amplitudes shown', rtol=1e-9, atol=1e-12 * scale)
        ref = f
    else:
        big = f > 1e-9 * scale
        close_arr(np.where(big, got, 0), np.where(big, np.log10(np.maximum(f, 1e-300) + 1e-10), 0), 'logarithm of the amplitudes shown', atol=1e-5)
        expect((10 ** got[~big] <= 1e-8 * scale + 2e-10).all(), 'noise shown as amplitude')
    ext = im.get_extent()
    for g, k, e in zip(ext, (kx[0], kx[-1], ky[-1], ky[0]), (s.width_um, s.width_um, s.height_um, s.height_um)):
        close(g * e, k, f'frequency range {ext} in units of the resolution', rtol=0, atol=1.01)
    if case['adjust'] is not False and got.mean() < 0.7 * got.max():
        close(im.norm.vmin, got.mean(), 'lower end of the colours', rtol=1e-9, atol=1e-12)
        close(im.norm.vmax, 0.7 * got.max(), 'upper end of the colours', rtol=1e-9)
    elif case['adjust'] is False:
        close(im.norm.vmin, got.min(), 'lower end of the colours', rtol=1e-9, atol=1e-12)
        close(im.norm.vmax, got.max(), 'upper end of the colours', rtol=1e-9, atol=1e-12)
    unchanged(s, before, 'plot_fourier_transform')
    page.plt.close('all')


@C.sub('angular', lambda: st.fixed_dictionaries({
    's': gen.surfaces(min_side=4), 'page': st.sampled_from(['new', 'given', 'grid', 'grid']), 'step': st.sampled_from([None, 0.5, 1, 2, 5]),
    'grid': st.tuples(st.integers(1, 3), st.integers(1, 3)), 'cell': st.integers(0, 8), 'span': st.booleans(), 'nested': st.booleans()}), quick=120, thorough=1600, shards=4, tshards=6)
def angular(case, rec):
    s = gen.surface(case['s'])
    before = state(s)
    page = Page(case['page'])
    kw = dict(page.kw)
    if case['page'] == 'grid':
        # any cell (or the cells from it to the last one) of a grid, which can be part of another one
        page = Page('new')
        page.fig = page.plt.figure()
        (m, n), k = case['grid'], case['cell'] % (case['grid'][0] * case['grid'][1])
        gs = page.fig.add_gridspec(2, 2)[1, 0].subgridspec(m, n) if case['nested'] else page.fig.add_gridspec(m, n)
        spec = gs[k // n, k % n:] if case['span'] else gs[k // n, k % n]
        kw['ax'] = page.fig.add_subplot(spec)
        place = spec.get_position(page.fig).bounds
    if case['step']:
        kw['angle_step'] = case['step']
    rec.nontrivial(np.ptp(s.data) > 0)
    rec.label(case['page'])
    fig, ax = s.plot_angular_power_spectrum(**kw)
    page.done(fig, ax, polar=True)
    expect(ax.name == 'polar', f'{ax.name} axes')
    if case['page'] == 'grid':
        expect(fig is page.fig and fig.axes == [ax], 'the given axes are not replaced')
        got = ax.get_subplotspec().get_position(fig).bounds
        expect(np.allclose(got, place), f'polar axes at {got} instead of in place of the given ones at {place}')
    if case['page'] == 'given':
        expect(ax.get_subplotspec().get_geometry() == (1, 2, 0, 0), f'polar axes at {ax.get_subplotspec().get_geometry()} instead of in place of the given ones')
        expect(len(fig.axes) == 2, 'the given axes are not replaced')
    x, y = ax.lines[0].get_data()
    step = case['step'] or 1
    angles = np.arange(0, 180, step)
    close_arr(np.asarray(x, float), np.deg2rad(angles), 'angles', rtol=1e-12)
    # the whole spectral energy is distributed over the angles
    z = np.array(s.data) - np.mean(s.data)
    close(np.sum(y), np.sum(np.abs(np.fft.fft2(z)) ** 2), 'sum of the angular spectrum', rtol=1e-6, atol=1e-12 * np.abs(s.data).max() ** 2 * z.size ** 2)
    unchanged(s, before, 'plot_angular_power_spectrum')
    page.plt.close('all')


@C.sub('abbott', lambda: st.fixed_dictionaries({
    's': st.one_of(gen.surfaces(min_side=4), gen.profiles(min_side=12)), 'page': MODES, 'nbars': st.sampled_from([None, 1, 5, 20, 33]), 'suffix': SUFFIX, 'study': st.booleans()}),
    quick=120, thorough=2400, shards=4, tshards=8)
def abbott(case, rec):
    prof = 'step' in case['s']
    s = gen.profile(case['s']) if prof else gen.surface(case['s'])
    z = np.array(s.data)
    if np.ptp(z) == 0:
        rec.label('flat')
        return
    before = state(s)
    page = Page(case['page'])
    if page.mode != 'new':
        case = dict(case, suffix=None)
    rec.nontrivial()
    rec.label('profile' if prof else 'surface', 'study' if case['study'] else 'curve', case['page'])
    tol = 1e-9 * np.abs(z).max()
    mc = s.Rmc if prof else s.Smc
    if case['study']:
        fig, ax = with_dir(case, lambda k: s.plot_functional_parameter_study(**k) if page.mode == 'new' else s.get_abbott_firestone_curve().visual_parameter_study(**page.kw))
        page.done(fig, ax)
        val = lambda n: getattr(s, ('R' if prof else 'S') + n)()
        pk, vk, k, m1, m2 = (val(n) for n in ('pk', 'vk', 'k', 'mr1', 'mr2'))
        polys = [np.array(p.get_xy())[:3] for p in ax.patches]
        expect(len(polys) == 2, f'{len(polys)} triangles')
        area = lambda t: 0.5 * abs((t[1, 0] - t[0, 0]) * (t[2, 1] - t[0, 1]) - (t[2, 0] - t[0, 0]) * (t[1, 1] - t[0, 1]))
        up, lo = sorted(polys, key=lambda t: -t[:, 1].mean())
        atol = 1e-6 * (pk + vk + k) * 100
        close(area(up), 0.5 * pk * m1, 'area of the peak triangle', rtol=1e-6, atol=atol)
        close(area(lo), 0.5 * vk * (100 - m2), 'area of the valley triangle', rtol=1e-6, atol=atol)
        close(np.ptp(up[:, 1]), pk, 'height of the peak triangle', rtol=1e-6, atol=tol)
        close(np.ptp(lo[:, 1]), vk, 'height of the valley triangle', rtol=1e-6, atol=tol)
        close(up[:, 1].min() - lo[:, 1].max(), k, 'distance of the triangles', rtol=1e-6, atol=tol)
        expect(abs(up[:, 0].min()) < 1e-9 and abs(lo[:, 0].max() - 100) < 1e-9, 'triangles do not start at the ends of the curve')
        close(up[:, 0].max(), m1, 'end of the peak triangle', rtol=1e-6, atol=1e-6)
        close(lo[:, 0].min(), m2, 'start of the valley triangle', rtol=1e-6, atol=1e-6)
        long = max(ax.lines, key=lambda l: len(l.get_xdata()))
    else:
        kw = dict(page.kw)
        if case['nbars']:
            kw['nbars'] = case['nbars']
        fig, axs = with_dir(case, lambda k: s.plot_abbott_curve(**kw, **k) if page.mode == 'new' else s.get_abbott_firestone_curve().plot(**kw))
        ax, ax2 = axs
        page.done(fig, ax)
        nb = case['nbars'] or 20
        rects = list(ax.patches)
        expect(len(rects) == nb, f'{len(rects)} bars, expected {nb}')
        e = np.linspace(z.min(), z.max(), nb + 1)
        close(sum(r.get_width() for r in rects), 100, 'sum of the bars', rtol=1e-9)
        rects.sort(key=lambda r: r.get_y())
        for i, r in enumerate(rects):
            close(r.get_y(), e[i], f'lower end of bar {i}', rtol=1e-6, atol=1e-6 * (e[1] - e[0]) + tol)
            close(r.get_height(), e[1] - e[0], f'height of bar {i}', rtol=1e-6, atol=tol)
            lo_n = ((z > e[i] + tol) & (z < e[i + 1] - tol)).sum()
            hi_n = ((z >= e[i] - tol) & (z <= e[i + 1] + tol)).sum()
            w = r.get_width() * z.size / 100
            expect(lo_n - 1e-6 <= w <= hi_n + 1e-6, f'bar {i} from {e[i]} to {e[i + 1]} stands for {w} points, there are {lo_n}..{hi_n}')
        expect(ax2.get_xlim() == (0, 100), 'range of the material ratio')
        long = max(ax2.lines, key=lambda l: len(l.get_xdata()))
    x, y = (np.asarray(v, float) for v in long.get_data())
    expect(x.min() >= -1e-9 and x.max() <= 100 + 1e-9, 'material ratio beyond 0..100')
    close(x.min(), 0, 'start of the curve', atol=1e-9)
    close(x.max(), 100, 'end of the curve', atol=1e-9)
    for p in (0.0, 10.0, 37.0, 80.0, 100.0):
        i = int(np.argmin(np.abs(x - p)))
        w = float(mc(float(np.clip(x[i], 0, 100))))
        close(y[i], w, f'curve at {x[i]} %', rtol=1e-6, atol=1e-6 * np.ptp(z) + tol)
    unchanged(s, before, 'plotting the material ratio curve')
    page.plt.close('all')


@C.sub('profile', lambda: st.fixed_dictionaries({'p': gen.profiles(nan=True, big=15), 'page': MODES, 'show': st.integers(0, 4).map(lambda k: k == 4)}), quick=120, thorough=1500, shards=2, tshards=6)
def profile(case, rec):
    p = gen.profile(case['p'])
    before = state(p)
    page = Page(case['page'])
    z = np.array(p.data)
    rec.nontrivial(np.nanmax(z) > np.nanmin(z))
    rec.label(case['page'])
    if case['show'] and case['page'] == 'new':
        rec.label('show')
        fig, ax = by_show(page, p.show)
    else:
        fig, ax = p.plot_2d(**page.kw)
    page.done(fig, ax)
    expect(len(ax.lines) == 1, f'{len(ax.lines)} lines')
    x, y = (np.asarray(v, float) for v in ax.lines[0].get_data())
    same_arr(y, z.astype(float), 'heights shown')
    close_arr(x, np.arange(z.size) * p.step, 'positions shown', rtol=1e-9, atol=1e-12)
    close(ax.get_xlim()[0], 0, 'start of the axis')
    close(ax.get_xlim()[1], p.length_um, 'end of the axis', rtol=1e-12)
    expect(ax.get_xlabel() == 'x [µm]' and ax.get_ylabel() == 'z [µm]', 'labels of the axes')
    unchanged(p, before, 'plot_2d')
    page.plt.close('all')


class Plotter:
    """Stand-in for the renderer, which needs a display: records what is to be drawn and delivers a given screenshot."""
    last = None
    shot = None

    def __init__(self, *a, **kw):
        Plotter.last = self
        self.meshes = []
        self.kw = kw
        self.calls = []

    def add_mesh(self, mesh, *a, **kw):
        self.meshes.append((mesh, kw))

    def screenshot(self, target=None, *a, **kw):
        from PIL import Image
        Image.fromarray(Plotter.shot).save(target, format='PNG')

    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **kw: self.calls.append((name, a, kw))


def view(case, s):
    """The camera looks at the middle of the surface from the given angles; heights are scaled by the given factor."""
    p = Plotter.last
    pos = p.__dict__.get('camera_position')
    if isinstance(pos, (list, tuple)) and len(pos) == 3:
        cam, aim, up = (np.array(v, float) for v in pos)
        close_arr(aim[:2], np.array([s.width_um / 2, s.height_um / 2]), 'point that the camera looks at', rtol=1e-6)
        v, h = np.deg2rad(case['angles'])
        d = cam - aim
        n = np.linalg.norm(d)
        close_arr(d / n, np.array([-np.sin(h) * np.cos(v), -np.cos(h) * np.cos(v), np.sin(v)]), f'direction of the camera for angles {case["angles"]}', rtol=1e-6, atol=1e-9)
        close(n, 2 * s.width_um / (case['zoom'] or 1), 'distance of the camera', rtol=1e-6)
        expect(up[2] > 0 and abs(up[0]) < 1e-9 and abs(up[1]) < 1e-9, 'the camera is tilted')
    sc = [c for c in p.calls if c[0] == 'set_scale']
    if sc:
        kw = dict(zip(('xscale', 'yscale', 'zscale'), sc[-1][1]), **sc[-1][2])
        expect((kw.get('xscale') or 1) == (kw.get('yscale') or 1) == 1 and (kw.get('zscale') or 1) == case['scale'], f'scaled by {kw} instead of {case["scale"]}')
    else:
        expect(case['scale'] == 1, 'the heights are not scaled')
    names = [c[0] for c in p.calls]
    expect(('enable_parallel_projection' in names or p.__dict__.get('parallel_projection') is True) == (case['persp'] is False), f'perspective_projection={case["persp"]} is not respected')


@C.sub('3d', lambda: st.fixed_dictionaries({
    's': gen.surfaces(nan=True, min_side=4, max_side=24, big=20, big_max=40000), 'block': st.one_of(st.none(), st.none(), st.tuples(st.floats(0, 0.8), st.floats(0.2, 1), st.floats(0, 0.8), st.floats(0.2, 1))), 'lod': st.sampled_from([None, None, 100, 75, 50, 40, 25]), 'shot': st.tuples(st.integers(3, 30), st.integers(3, 30), st.integers(0, 12), st.integers(0, 12)),
    'crop': st.sampled_from([None, True, False]), 'bar': st.sampled_from([False, False, None]), 'pad': st.sampled_from([None, 0, 7]), 'angles': st.tuples(st.integers(0, 90), st.integers(-180, 180)),
    'scale': st.sampled_from([1, 2.5]), 'zoom': st.sampled_from([None, None, 0.5, 2]), 'persp': st.sampled_from([None, None, True, False]), 'cmap': st.sampled_from([None, 'viridis']),
    'interactive': st.integers(0, 7).map(lambda k: k == 7), 'suffix': st.sampled_from([None, None, None, '.png'])}), quick=160, thorough=2500, shards=4, tshards=8)
def three(case, rec):
    try:
        import pyvista as pv
    except ImportError:
        rec.label('pyvista is not installed')
        return
    mpl()
    s = gen.surface(case['s'])
    if case['block'] and s.data.dtype.kind == 'f':
        b = case['block']
        ny, nx = s.data.shape
        z = np.array(s.data)
        z[int(b[0] * ny):int((b[0] + b[1]) * ny), int(b[2] * nx):int((b[2] + b[3]) * nx)] = np.nan
        if not np.isnan(z).all():
            s = s.__class__(z, s.step_x, s.step_y)
    before = state(s)
    z = np.array(s.data)
    h, w, l, r = case['shot']
    shot = np.full((h + 20, w + l + r, 3), 255, 'u1')
    shot[3:-4, l:l + w] = np.random.default_rng(h * 31 + w).integers(0, 250, (h + 13, w, 3))
    kw = {'vertical_angle': case['angles'][0], 'horizontal_angle': case['angles'][1], 'scale': case['scale']}
    if case['lod']:
        kw['level_of_detail'] = case['lod']
    if case['crop'] is not None:
        kw['crop_white'] = case['crop']
    if case['bar'] is not None:
        kw['colorbar'] = case['bar']
    if case['pad'] is not None:
        kw['cbar_pad'] = case['pad']
    for k, arg in (('zoom', 'zoom'), ('persp', 'perspective_projection'), ('cmap', 'cmap')):
        if case[k] is not None:
            kw[arg] = case[k]
    rec.nontrivial(np.nanmax(z) > np.nanmin(z))
    reduced = (case['lod'] or 100) < 100
    rec.label('reduced' if reduced else 'full detail', 'missing points' if np.isnan(z).any() else 'complete')
    Plotter.shot = shot
    old = pv.Plotter
    pv.Plotter = Plotter
    try:
        if case['interactive']:
            img = None
            s.plot_3d(interactive=True, window_title='A window', **kw)
            e = raises(lambda: s.plot_3d(interactive=True, save_to='nothing.png', **kw), ValueError)
            expect(e is not None, 'saving an interactive plot is not rejected')
        else:
            img = with_dir(case, lambda k: s.plot_3d(**kw, **k), least=0)
    finally:
        pv.Plotter = old
    meshes = Plotter.last.meshes
    expect(len(meshes) == 1, f'{len(meshes)} meshes')
    mesh, mkw = meshes[0]
    pts = np.asarray(mesh.points, float)
    sc = mkw.get('scalars')
    if isinstance(sc, str):
        sc = mesh.point_data[sc]
    elif sc is None:
        sc = mesh.active_scalars
    if not reduced or min(round(k * case['lod'] / 100) for k in z.shape) > 1:
        view(case, s)
    if case['cmap']:
        c = mkw.get('cmap')
        expect((c if isinstance(c, str) else getattr(c, 'name', None)) == case['cmap'], f'colormap {c!r} instead of {case["cmap"]}')
    sc = np.asarray(sc, float).ravel()
    close_arr(sc, pts[:, 2], 'heights that determine the colours')
    W, H = s.width_um, s.height_um
    if not reduced:
        y, x = np.mgrid[0:z.shape[0], 0:z.shape[1]]
        want = np.column_stack([x.ravel() * s.step_x, H - y.ravel() * s.step_y])
        o1 = np.lexsort((np.rint(pts[:, 1] / s.step_y), np.rint(pts[:, 0] / s.step_x)))
        o2 = np.lexsort((np.rint(want[:, 1] / s.step_y), np.rint(want[:, 0] / s.step_x)))
        expect(len(pts) == len(want), f'{len(pts)} points drawn of {len(want)}')
        close_arr(pts[o1][:, 0], want[o2][:, 0], 'x of the points drawn', rtol=1e-6, atol=1e-6 * W)
        close_arr(pts[o1][:, 1], want[o2][:, 1], 'y of the points drawn', rtol=1e-6, atol=1e-6 * H)
        close_arr(pts[o1][:, 2], z.ravel()[o2].astype(float), 'heights of the points drawn', rtol=1e-6, atol=1e-7 * np.nanmax(np.abs(z)))
    else:
        f = case['lod'] / 100
        n = np.prod([max(1, round(k * f)) for k in z.shape])
        lo, hi = (max(1, (z.shape[0] * f - 1.01)) * max(1, (z.shape[1] * f - 1.01)), (z.shape[0] * f + 1.01) * (z.shape[1] * f + 1.01))
        expect(lo <= len(pts) <= hi, f'{len(pts)} points drawn of {z.size} with a level of detail of {case["lod"]} %')
        one = [round(k * f) < 2 for k in z.shape]
        if not any(one):
            close(pts[:, 0].min(), 0, 'left end', atol=1e-9 * W)
            close(pts[:, 1].min(), 0, 'lower end', atol=1e-9 * H)
            close(pts[:, 0].max(), W, 'right end of the reduced surface', rtol=1e-6)
            close(pts[:, 1].max(), H, 'upper end of the reduced surface', rtol=1e-6)
            # the corners are still the corners
            ok = ~np.isnan(z)
            rng = np.ptp(z[ok])
            if ok.all():
                for i, cx in ((0, 0.0), (-1, W)):
                    for j, cy in ((-1, 0.0), (0, H)):
                        k = np.argmin(np.hypot((pts[:, 0] - cx) / W, (pts[:, 1] - cy) / H))
                        close(pts[k, 2], z[j, i], 'height of a corner of the reduced surface', rtol=1e-6, atol=1e-6 * rng + 1e-6 * np.abs(z).max())
            else:
                # a missing point affects its neighbourhood only: drawn points farther away than one coarse cell are measured
                d = 1 / f + 1
                miss = np.argwhere(~ok)
                u, v = pts[:, 0] / s.step_x, (H - pts[:, 1]) / s.step_y
                far = np.all(np.maximum(np.abs(u[:, None] - miss[None, :, 1]), np.abs(v[:, None] - miss[None, :, 0])) > d, axis=1)
                expect(not np.isnan(pts[far, 2]).any(), lambda: f'{int(np.isnan(pts[far, 2]).sum())} of {int(far.sum())} points away from missing points are missing in the reduced surface')
                if far.any():
                    rec.label('reduced far')
                # and what lies amid missing points was not measured
                inside = np.array([ok[max(0, math.floor(b - 2)):math.ceil(b + 2) + 1, max(0, math.floor(a - 2)):math.ceil(a + 2) + 1].any() for a, b in zip(u, v)])
                expect(np.isnan(pts[~inside, 2]).all(), lambda: f'{int((~np.isnan(pts[~inside, 2])).sum())} of {int((~inside).sum())} points amid missing points are drawn with a height')
                if not inside.all():
                    rec.label('reduced amid')
            fin = pts[~np.isnan(pts[:, 2]), 2]
            if fin.size:
                tol = rng + 1e-6 * np.abs(z[ok]).max()
                expect(fin.min() >= z[ok].min() - tol and fin.max() <= z[ok].max() + tol, 'heights of the reduced surface beyond the range')
    unchanged(s, before, 'plot_3d')
    if img is None:
        rec.label('interactive')
        expect([c[0] for c in Plotter.last.calls].count('show') == 1, 'the interactive window is not shown')
        return
    # the picture
    a = np.asarray(img.convert('RGB'))
    left = shot[:, l:l + w] if case['crop'] is not False else shot
    expect(a.shape[0] == shot.shape[0], f'height {a.shape[0]} of the picture, expected {shot.shape[0]}')
    if case['bar'] is False:
        expect(a.shape == left.shape and np.array_equal(a, left), f'picture {a.shape} is not the (cropped) rendering {left.shape}')
    else:
        pad = 50 if case['pad'] is None else case['pad']
        expect(a.shape[1] > left.shape[1] + pad, 'no room for the colorbar')
        expect(np.array_equal(a[:, :left.shape[1]], left), 'rendering in the picture')
        expect((a[:, left.shape[1]:left.shape[1] + pad] == 255).all(), 'space between rendering and colorbar')
        if not reduced and np.nanmax(z) > np.nanmin(z):
            # the colorbar depends on the range of the measured heights only, and on all of it
            def bar(heights):
                from surfalize import Surface
                pv.Plotter = Plotter
                try:
                    return np.asarray(Surface(heights, s.step_x, s.step_y).plot_3d(**kw).convert('RGB'))
                finally:
                    pv.Plotter = old
            lo, hi = float(np.nanmin(z)), float(np.nanmax(z))
            rest = z.astype('float64')
            rest[np.isnan(rest)] = lo
            expect(np.array_equal(bar(rest), a), 'the colorbar changes when a missing point is replaced by the lowest height')
            ends = np.full(z.shape, lo)
            ends[-1, 0] = hi
            expect(np.array_equal(bar(ends), a), 'the colorbar is not determined by the lowest and highest height')
            rec.label('colorbar')
    unchanged(s, before, 'plot_3d')
    expect(not __import__('matplotlib.pyplot').pyplot.get_fignums(), 'figures left open')


@C.sub('depth', lambda: st.fixed_dictionaries({
    'n': st.integers(20, 80), 'per': st.floats(4, 20), 'phase': st.floats(0, 1), 'lines': st.integers(2, 9), 'axis': st.sampled_from('xy'), 'width': st.sampled_from([0.05, 0.2, 0.3]),
    'use': st.integers(1, 9), 'pick': st.lists(st.integers(0, 9), min_size=1, max_size=3, unique=True), 'type': st.sampled_from(['list', 'tuple', 'array'])}), quick=60, thorough=1000, shards=2, tshards=4)
def depth(case, rec):
    """Drawing the profiles that depth evaluates draws these, and does not influence the result."""
    from surfalize import Surface
    plt = mpl()
    per = min(case['per'], case['n'] / 3)
    z = np.sin(2 * np.pi * (np.arange(case['n']) / per + case['phase'])) + np.arange(case['lines'])[:, None] * 0.01
    z = z if case['axis'] == 'x' else z.T.copy()
    use = min(case['use'], case['lines'])
    kw = {'nprofiles': use, 'sampling_width': case['width']}
    quiet = Surface(z, 1.0, 1.0).depth(**kw)
    expect(not plt.get_fignums(), 'depth() draws without being asked')
    s = Surface(z, 1.0, 1.0)
    before = state(s)
    pick = {'list': list, 'tuple': tuple, 'array': np.array}[case['type']](case['pick'])
    got = s.depth(plot=pick, **kw)
    rec.nontrivial()
    rec.label(case['type'], f'grooves across {case["axis"]}')
    expect(np.array_equal(got, quiet, equal_nan=True), f'depth with plots is {got}, without {quiet}')
    figs = [plt.figure(n) for n in plt.get_fignums()]
    want = [k for k in sorted(case['pick']) if k < use]
    expect(len(figs) == len(want), f'{len(figs)} plots, profiles {case["pick"]} of {use} were asked for')
    dist = (case['lines'] - 1) // max(use - 1, 1)
    for f, k in zip(figs, want):
        line = z[k * dist] if case['axis'] == 'x' else z[:, k * dist]
        drawn = [l for l in f.axes[0].lines if len(l.get_ydata()) == line.size and np.array_equal(l.get_ydata(), line)]
        expect(len(drawn) == 1 and np.array_equal(drawn[0].get_xdata(), np.arange(line.size)), f'the plot does not show profile {k}')
    unchanged(s, before, 'depth')
    plt.close('all')
