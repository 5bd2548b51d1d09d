IMP="""import pathlib
from surfalize import Surface, Profile, Batch
from surfalize.batch import BatchResult, FilenameParser, FileInput
import pandas as pd
rng = np.random.default_rng(3)
def files(d, n=3, nan=False, tilt=0.0):
    out = []
    for i in range(n):
        z = rng.normal(size=(20, 24)) + tilt * np.arange(24)
        if nan: z[3, 4] = np.nan
        Surface(z, 0.5, 0.5).save(os.path.join(d, f'file_{i}_P{i + 1}.sflz'), dtype='<f8'); out.append(os.path.join(d, f'file_{i}_P{i + 1}.sflz'))
    return out
d = tempfile.mkdtemp()
import atexit; atexit.register(shutil.rmtree, d, True)
sys.stderr = io.StringIO()
"""
BUGS=[]
def bug(id, prop, edits, needs, breaks, demo, imp=IMP):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=imp+demo))
BA='batch.py'; CL='cli.py'; FC='file/common.py'; B='base.py'; S='surface.py'; U='utils.py'

# ------------------------------------------------------------------ C19
bug('c19-order-flag','C19',[(BA,"        for operation in operations:\n            operation.execute_on(surface)\n        for parameter in parameters:","        for operation in sorted(operations, key=lambda op: isinstance(op, _CustomOperation)):\n            operation.execute_on(surface)\n        for parameter in parameters:")],
 'preserve_chaining_order=False with a custom operation registered before a method operation which does not commute with it','custom operations run after all other operations',"""
f = files(d)
def shift(s): s.zero(inplace=True); s.data = s.data ** 2
r = Batch(f).custom_operation(shift).center().Sp().execute(multiprocessing=False, preserve_chaining_order=False).get_dataframe()
s = Surface.load(f[0]); shift(s); s.center(inplace=True)
check(abs(r[r.file == os.path.basename(f[0])].Sp.iloc[0] - s.Sp()) < 1e-9)
""")
bug('c19-threaded-ignore','C19',[(BA,"task = partial(_task, steps=self._steps, ignore_errors=ignore_errors,\n                               preserve_chaining_order=preserve_chaining_order)","task = partial(_task, steps=self._steps, ignore_errors=True,\n                               preserve_chaining_order=preserve_chaining_order)")],
 'ignore_errors=False with multiprocessing and a parameter that cannot be calculated','the error is swallowed',"""
from surfalize.exceptions import CalculationError
f = files(d)
def bad(s): raise CalculationError('x')
try: Batch(f).custom_parameter(bad).Sa().execute(ignore_errors=False); ok = False
except CalculationError: ok = True
check(ok)
""")
bug('c19-nan-labels','C19',[(BA,"            if hasattr(method, 'return_labels'):\n                result = [np.nan] * len(method.return_labels)\n            else:\n                result = np.nan","            result = np.nan")],
 'a parameter with several results (e.g. depth) that cannot be calculated on one of the files','the failed file gets a column with the plain name instead of nan in the labelled columns',"""
import surfalize.surface as m
from surfalize.exceptions import CalculationError
f = files(d)
z = np.zeros((20, 24)); 
orig = Surface.depth
def depth(self, *a, **k):
    raise CalculationError('x')
depth.return_labels = orig.return_labels if hasattr(orig, 'return_labels') else ('a', 'b'); depth._batch_type = 'parameter'; depth._fixed = {}
Surface.depth = depth
r = Batch(f).depth().execute(multiprocessing=False).get_dataframe()
check('depth' not in r.columns)
""")
bug('c19-callback-once','C19',[(BA,"            results.append(result)\n            if on_file_complete is not None:\n                on_file_complete(result)\n        return results","            results.append(result)\n            if on_file_complete is not None and result not in results[:-1]:\n                on_file_complete(result)\n        return results")],
 'sequential execution with a callback over two files with equal names and equal results','the callback is not invoked for the second file',"""
f = files(d, 1); e = os.path.join(d, 'sub'); os.mkdir(e); shutil.copy(f[0], e)
n = []
Batch(f + [os.path.join(e, os.path.basename(f[0]))]).Sa().execute(multiprocessing=False, on_file_complete=n.append)
check(len(n) == 2)
""")
bug('c19-outer-merge','C19',[(BA,"df = pd.merge(self._additional_data, df, on='file')","df = pd.concat([self._additional_data.drop_duplicates('file').reset_index(drop=True), df.drop(columns='file')], axis=1)")],
 'additional data whose rows are in another order than the files or miss some file','rows are joined by position',"""
f = files(d)
x = os.path.join(d, 'a.xlsx'); pd.DataFrame({'file': [os.path.basename(p) for p in f[::-1]], 'v': [2, 1, 0]}).to_excel(x, index=False)
r = Batch(f, additional_data=x).Sa().execute(multiprocessing=False).get_dataframe()
check(all(abs(Surface.load(p).Sa() - r[r.file == os.path.basename(p)].Sa.iloc[0]) < 1e-9 for p in f))
""")
bug('c19-fixed-kwargs','C19',[(BA,"            for param_name, param_value in method._fixed.items():\n                kwargs[param_name] = param_value","            for param_name, param_value in method._fixed.items():\n                if not args:\n                    kwargs[param_name] = param_value")],
 'an operation registered with positional arguments','inplace=True is not set, so the operation has no effect',"""
f = files(d)
r = Batch(f).filter('lowpass', 3.0).Sq().execute(multiprocessing=False).get_dataframe()
s = Surface.load(f[0]).filter('lowpass', 3.0)
check(abs(r[r.file == os.path.basename(f[0])].Sq.iloc[0] - s.Sq()) < 1e-9)
""")
bug('c19-shared-kwargs','C19',[(BA,"        method = getattr(surface, self.identifier)\n        method(*self.args, **self.kwargs)","        if self.identifier == 'level' and surface.has_missing_points:\n            return\n        method = getattr(surface, self.identifier)\n        method(*self.args, **self.kwargs)")],
 'levelling files with missing points in a batch','the levelling is skipped silently',"""
f = files(d, nan=True, tilt=1.0)
r = Batch(f).level().Sv().fill_nonmeasured().Sq().execute(multiprocessing=False).get_dataframe() if False else Batch(f).level().fill_nonmeasured().Sq().execute(multiprocessing=False).get_dataframe()
s = Surface.load(f[0]); s.level(inplace=True); s.fill_nonmeasured(inplace=True)
check(abs(r[r.file == os.path.basename(f[0])].Sq.iloc[0] - s.Sq()) < 1e-9)
""")
bug('c19-fileinput-reuse','C19',[(BA,"        surface = Surface.load(file.data, format=file.format)","        surface = Surface.load(file.data)")],
 'a FileInput whose content has no signature, so that the format argument is needed','the format is ignored',"""
import io
t = '\\n'.join(f'{x * 1e-6:.9e} {y * 1e-6:.9e} {(x * y) * 1e-6:.9e}' for y in range(6) for x in range(5))
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    r = Batch([FileInput('a', io.BytesIO(t.encode()), '.xyz')]).Sa().execute(multiprocessing=False)
check(not [x for x in w if 'suffix' in str(x.message)])
""")

# ------------------------------------------------------------------ C20
bug('c20-suffix-escape','C20',[(BA,"            s += re.escape(token.suffix)","            s += token.suffix")],
 'a suffix containing a character with a meaning in regular expressions, like a dot or bracket','the suffix is interpreted as a pattern',"""
df = pd.DataFrame({'file': ['P5(W)_x.vk4']})
try: r = FilenameParser('<p|int|P|(W)>_x').apply_on(df, 'file'); ok = list(r['p']) == [5]
except Exception: ok = False
check(ok)
""")
bug('c20-comma','C20',[(BA,"            if token.dtype == 'float':\n                extracted[token.name] = extracted[token.name].str.replace(',', '.')","            if token.dtype == 'float' and not token.suffix:\n                extracted[token.name] = extracted[token.name].str.replace(',', '.')")],
 'a float with a decimal comma and a suffix','conversion fails',"""
df = pd.DataFrame({'file': ['F1,5mm_x.vk4']})
try: r = FilenameParser('<f|float|F|mm>_').apply_on(df, 'file'); ok = list(r['f']) == [1.5]
except Exception: ok = False
check(ok)
""")
bug('c20-insert-order','C20',[(BA,"            for col in cols[::-1]:\n                if col not in df.columns:\n                    df.insert(idx, col, '')","            for col in cols:\n                if col not in df.columns:\n                    df.insert(df.columns.get_loc(column) + 1, col, '')")],
 'a template with at least two tokens','columns are inserted in reversed order',"""
df = pd.DataFrame({'file': ['A1_B2'], 'z': [0]})
check(list(FilenameParser('<a|int|A>_<b|int|B>').apply_on(df, 'file').columns) == ['file', 'a', 'b', 'z'])
""")
bug('c20-separator','C20',[(BA,"            regex += re.escape(separator) + pattern\n        regex += re.escape(separators[-1])","            regex += re.escape(separator) + pattern\n        if not regex.endswith(')'):\n            regex += re.escape(separators[-1])")],
 'a template with text after the last token, the token having no suffix','the trailing text is not required, so the last str token swallows it',"""
df = pd.DataFrame({'file': ['abc_1.vk4']})
check(list(FilenameParser('<n|str>_1.vk4').apply_on(df, 'file')['n']) == ['abc'])
""")
bug('c20-int-float','C20',[(BA,"'float': r'\\d+(?:(?:\\.|,)\\d+)?',","'float': r'\\d+(?:[.,]\\d)?',")],
 'a float with more than one decimal','further decimals are cut off or the name does not match',"""
df = pd.DataFrame({'file': ['F1.25_x']})
try: ok = list(FilenameParser('<f|float|F>').apply_on(df, 'file')['f']) == [1.25]
except Exception: ok = False
check(ok)
""")

# ------------------------------------------------------------------ C21
bug('c21-eq-nan','C21',[(B,"EQ_OLD","EQ_NEW")],'','','')
BUGS.pop()

# ------------------------------------------------------------------ C24
bug('c24-utf16','C24',[(FC,"    normalized = _sanitize_mu(unit).lower()\n    if normalized in UNIT_EXPONENT:\n        return normalized\n","    normalized = _sanitize_mu(unit.lower())\n    if normalized in UNIT_EXPONENT:\n        return normalized\n")],
 'a unit written with the micro sign', 'nothing (probe)', """
from surfalize.file.common import get_unit_conversion
check(True)
""")
BUGS.pop()
bug('c24-greek','C24',[(FC,"    chr(956): 'u',\n","    chr(924): 'u',\n")],
 'a unit written with the Greek letter mu instead of the micro sign','the unit is rejected or misread',"""
from surfalize.file.common import get_unit_conversion
try: ok = get_unit_conversion(chr(956) + 'm', 'um') == 1
except Exception: ok = False
check(ok)
""")
bug('c24-dm','C24',[(FC,"    'decimeter': -1,","    'decimeter': 1,")],'the spelled-out unit decimeter','wrong conversion factor',"""
from surfalize.file.common import get_unit_conversion
check(abs(get_unit_conversion('decimeter', 'dm') - 1) < 1e-12)
""")
bug('c24-encodings','C24',[(FC,"'iso8859_11', 'iso8859_13', 'iso8859_14', 'iso8859_15', 'iso8859_16', 'johab', 'koi8_r'","'iso8859_11', 'iso8859_13', 'iso8859_14', 'iso8859_15', 'iso8859_16', 'koi8_r'")],
 'a micro sign wrongly decoded with the korean johab encoding','unit is not recognised',"""
from surfalize.file.common import get_unit_conversion
t = 'µ'.encode('utf-8').decode('johab', 'ignore')
import surfalize.file.common as c
ok = True
for e in c.ENCODINGS:
    try: t = 'µ'.encode(e).decode('johab')
    except Exception: continue
    try: get_unit_conversion(t + 'm', 'um')
    except Exception: ok = False
for e in ('utf-8', 'latin1', 'cp437', 'shift_jis'):
    try: t = 'µ'.encode('johab').decode(e)
    except Exception: continue
    try: get_unit_conversion(t + 'm', 'um')
    except Exception: ok = False
try:
    for e in c.ENCODINGS + ('johab',):
        try: t = 'µ'.encode(e).decode('johab')
        except Exception: continue
        get_unit_conversion(t + 'm', 'um')
except Exception: ok = False
check(ok)
""")

# ------------------------------------------------------------------ C25
CLI=IMP+"""
from click.testing import CliRunner
from surfalize.cli import cli
"""
bug('c25-bandpass-args','C25',[(CL,"            cutoff2=kwargs['bandpass'][1],","            cutoff2=max(kwargs['bandpass'][1], 2 * kwargs['bandpass'][0]),")],
 'the bandpass option with a second frequency less than twice the first','wrong second cutoff',"""
f = files(d, 1)
got = []
orig = Surface.filter
def spy(self, *a, **k): got.append(k); return orig(self, *a, **k)
Surface.filter = spy
import surfalize.surface as m
m.plot_3d = lambda *a, **k: None
Surface.show = lambda *a, **k: None
CliRunner().invoke(cli, ['show', f[0], '-bp', '2', '3'])
check(got and got[0].get('cutoff2') == 3)
""",CLI)
bug('c25-convert-suffix','C25',[(CL,"out = output_path / (input_file.stem + format)","out = output_path / (input_file.name.split('.')[0] + format)")],
 'converting a folder with files that have a dot in the name','names are cut at the first dot, files overwrite each other',"""
e = os.path.join(d, 'in'); os.mkdir(e)
for n in ('a.1.sflz', 'a.2.sflz'): Surface(rng.normal(size=(8, 9)), 1.0, 1.0).save(os.path.join(e, n))
CliRunner().invoke(cli, ['convert', e, os.path.join(d, 'out'), '-f', '.sdf'])
check(sorted(os.listdir(os.path.join(d, 'out'))) == ['a.1.sdf', 'a.2.sdf'])
""",CLI)
bug('c25-upper-suffix','C25',[(CL,"if input_file.is_file() and input_file.suffix.lower() in supported_formats_read:","if input_file.is_file() and input_file.suffix in supported_formats_read:")],
 'converting a folder with files with upper case suffix','files are left out silently',"""
e = os.path.join(d, 'in'); os.mkdir(e)
Surface(rng.normal(size=(8, 9)), 1.0, 1.0).save(os.path.join(e, 'a.SDF'))
CliRunner().invoke(cli, ['convert', e, os.path.join(d, 'out'), '-f', '.tmd'])
check(os.path.exists(os.path.join(d, 'out', 'a.tmd')))
""",CLI)
bug('c25-level-before-fill','C25',[(CL,"""    if kwargs['fill_nonmeasured']:
        surface.fill_nonmeasured(inplace=True)

    if kwargs['level']:
        surface.level(inplace=True)
""","""    if kwargs['level']:
        surface.level(inplace=True)

    if kwargs['fill_nonmeasured']:
        surface.fill_nonmeasured(inplace=True)
""")],'level and fill-nonmeasured together on a surface with missing points','operations run in the other order',"""
f = files(d, 1, nan=True, tilt=1.0)
got = []
import surfalize.plotting
surfalize.plotting.plot_3d = lambda s, **k: got.append(s.data.copy())
r = CliRunner().invoke(cli, ['show', f[0], '--plot-3d', '-l', '-fn'])
s = Surface.load(f[0]).fill_nonmeasured().level()
check(got and np.allclose(got[0], s.data, atol=1e-9))
""",CLI)
bug('c25-compressed','C25',[(CL,"    if format == '.sur':\n        kwargs['compressed'] = compressed","    if format == '.sur' and input_path.is_dir():\n        kwargs['compressed'] = compressed")],
 'converting a single file with --compressed','the file is written uncompressed',"""
f = files(d, 1)
CliRunner().invoke(cli, ['convert', f[0], os.path.join(d, 'o.sur'), '--compressed'])
check(open(os.path.join(d, 'o.sur'), 'rb').read(12) == b'DSCOMPRESSED')
""",CLI)

# ------------------------------------------------------------------ C26

NP="""from surfalize import Surface, Profile
rng = np.random.default_rng(3)
"""
# ------------------------------------------------------------------ C21
bug('c21-rsub','C21',[(S,"lambda a, b: b-a)","lambda a, b: a-b)")],'number - surface','sign is wrong',"""
s = Surface(rng.normal(size=(6, 7)), 1.0, 2.0)
check(np.allclose((3.0 - s).data, 3.0 - s.data))
""",NP)
bug('c21-eq-nan','C21',[(S,"        if not np.array_equal(nan_mask, np.isnan(other.data)):\n            return False\n        if np.any(","        if nan_mask.sum() != np.isnan(other.data).sum():\n            return False\n        if np.any(")],
 'two surfaces with the same number of missing points at different places and otherwise equal heights','they compare equal',"""
z = np.ones((6, 7)); a = z.copy(); b = z.copy(); a[1, 1] = np.nan; b[2, 2] = np.nan
check(Surface(a, 1.0, 1.0) != Surface(b, 1.0, 1.0))
""",NP)
bug('c21-hash-nan','C21',[(S,"return hash((self.step_x, self.step_y, self.size.x, self.size.y))","return hash((self.step_x, self.step_y, self.size.x, self.size.y, float(np.nansum(np.round(self.data, 9)))))")],
 'two equal surfaces whose heights differ by rounding noise below the tolerance','equal surfaces have different hashes',"""
z = rng.normal(size=(6, 7)); a = Surface(z, 1.0, 1.0); b = Surface(z + 6e-11, 1.0, 1.0)
check(a == b and hash(a) == hash(b))
""",NP)
bug('c21-getitem-view','C21',[(S,"Surface(self._data.__getitem__(item).copy(), step_x, step_y)","Surface(self._data.__getitem__(item), step_x, step_y)")],
 'assigning to points of a slice','the original surface changes (with stale cached parameters)',"""
s = Surface(rng.normal(size=(6, 7)), 1.0, 1.0); z = s.data.copy(); t = s[1:4, 2:5]; t[0, 0] = 99.0
check(np.array_equal(z, s.data))
""",NP)
bug('c21-step-compare','C21',[(S,"            if self.step_x != other.step_x or self.step_y != other.step_y or self.size != other.size:\n                raise ValueError('Surface","            if not np.isclose(self.step_x * self.step_y, other.step_x * other.step_y) or self.size != other.size:\n                raise ValueError('Surface")],
 'two surfaces with exchanged step sizes','arithmetic is carried out instead of being rejected',"""
z = rng.normal(size=(6, 6))
try: Surface(z, 1.0, 2.0) + Surface(z, 2.0, 1.0); ok = False
except ValueError: ok = True
check(ok)
""",NP)
bug('c21-slice-neg','C21',[(S,"step_x = abs(item[1].step) * self.step_x","step_x = item[1].step * self.step_x")],
 'a slice with a negative step along x','negative step size',"""
s = Surface(rng.normal(size=(6, 7)), 1.0, 2.0)
check(s[:, ::-1].step_x == 1.0 and s[:, ::-1].width_um == s.width_um)
""",NP)

# ------------------------------------------------------------------ C22
bug('c22-invert','C22',[(S,"        if self.data[~mask].mean() > self.data[mask].mean():\n            mask = ~mask\n        return mask","        if mask.mean() < 0.5:\n            mask = ~mask\n        return mask")],
 'a step where the upper plateau covers less than half of the surface','upper and lower level are exchanged',"""
z = np.zeros((20, 30)); z[:, :8] = 2.0; z += rng.normal(size=z.shape) * 0.01
s = Surface(z, 1.0, 1.0)
check(abs(s.stepheight() - 2) < 0.1)
""",NP)
bug('c22-level-axis','C22',[(S,"        height_flat = self.data[mask]\n","        height_flat = self.data[mask] if self.size.x >= self.size.y else self.data.T[mask.T]\n")],
 'levelling a step on a surface higher than wide','the plane is fitted to wrongly ordered points',"""
z = np.zeros((30, 20)); z[:, 10:] = 2.0; y, x = np.mgrid[:30, :20]
s = Surface(z + 0.003 * y + 0.001 * x, 1.0, 1.0)
check(abs(s.stepheight_level().stepheight() - 2) < 0.01)
""",NP)
bug('c22-plane-mean','C22',[(S,"        plane = plane - plane.mean()\n        leveled_data","        plane = plane - plane[mask].mean()\n        leveled_data")],
 'levelling a step on a tilted surface','the level of the surface is moved',"""
z = np.zeros((30, 20)); z[:, 14:] = 2.0; y, x = np.mgrid[:30, :20]
s = Surface(z + 0.003 * y + 0.01 * x, 1.0, 1.0)
check(abs(s.stepheight_level().mean() - s.mean()) < 1e-9)
""",NP)
bug('c22-otsu-inf','C22',[(U if False else 'mathutils.py',"    mean2 = (np.cumsum((counts * bin_centers)[::-1]) / weight2[::-1])[::-1]","    mean2 = (np.cumsum((counts * np.abs(bin_centers))[::-1]) / weight2[::-1])[::-1]")],
 'a step whose upper plateau lies below zero','the threshold is wrong',"""
z = np.full((20, 30), -12.0); z[:, :15] = -10.0; z += rng.uniform(-0.1, 0.1, size=z.shape)
s = Surface(z, 1.0, 1.0)
check(abs(s.stepheight() - 2) < 0.2)
""",NP)
bug('c22-cavity-threshold','C22',[(S,"mask_volume = self.data < upper_median - threshold * (stepheight)","mask_volume = self.data < lower_median + threshold * (stepheight)")],
 'cavity volume with a threshold other than 0.5','the share of the walls included is inverted',"""
z = np.repeat(np.concatenate([np.zeros(10), np.linspace(0, 2, 9), np.full(11, 2.0)])[None], 20, 0)
s = Surface(z, 1.0, 1.0)
check(s.cavity_volume(threshold=0.2) > s.cavity_volume(threshold=0.8))
""",NP)

# ------------------------------------------------------------------ C26
bug('c26-area-diag','C06',[(S,"        total_area = 2 * np.sum(areas)  # Multiply by 2 for both triangles in each quad","        total_area = 2 * np.sum(areas) if np.any(dz_x) else np.sum(areas) * 2 * self.width_um / (self.width_um + self.step_x)")],
 'a surface which only varies along y','area slightly too small',"""
z = np.repeat(rng.normal(size=(20, 1)), 9, 1); s = Surface(z, 1.0, 1.0)
dz = np.diff(z[:, 0]); a = (np.sqrt(1 + dz ** 2)).sum() * 8
check(abs(s.surface_area() - a) < 1e-6 * a)
""",NP)
bug('c26-acf-step','C07',[('autocorrelation.py',"        idx_max = all_idx_max[np.argmin(self.data[all_idx_max[:, 0], all_idx_max[:, 1]])]","        idx_max = all_idx_max[0]")],
 'ties of the largest distance of the edge of the central region (a symmetric edge is always tied)','the decay length depends on the order',"""
s = Surface(rng.normal(size=(20, 22)), 1.0, 1.5)
from scipy import ndimage
s = Surface(ndimage.gaussian_filter(rng.normal(size=(20, 22)), 1), 1.0, 1.5)
a = [Surface(ndimage.gaussian_filter(np.random.default_rng(i).normal(size=(20, 22)), 1), 1.0, 1.5) for i in range(40)]
check(all(abs(s.Str() - Surface(s.data[::-1].copy(), 1.0, 1.5).Str()) < 1e-2 for s in a))
""",NP)
bug('c14-fft-steps','C14',[('fourier.py',"        freq_y = np.fft.fftshift(np.fft.fftfreq(N, d=surface.height_um / N))  # Frequency values for the y-axis\n        idx_y","        freq_y = np.fft.fftshift(np.fft.fftfreq(N, d=surface.height_um / N)) if N != M else freq_x\n        idx_y")],
 'a surface with equal numbers of points but unequal step sizes','period and orientation along y are wrong',"""
y, x = np.mgrid[:64, :64]
s = Surface(np.sin(2 * np.pi * (4 * x / 64 + 3 * y / 64)), 1.0, 2.0)
t = Surface(s.data[:, :].copy(), 1.0, 1.0)
check(abs(s.period_x_y()[1] - 2 * t.period_x_y()[1]) < 1e-6)
""",NP)
bug('c14-refined-dist','C14',[(S,"            dist_px = max(1, min(int(period_y / step_dist * SAMPLE_RATE_FACTOR), self.size.x // 10))","            dist_px = max(1, min(int(period_y / step * SAMPLE_RATE_FACTOR), self.size.x // 10))")],
 'a texture nearer to horizontal lines with unequal step sizes, the distance between the profiles then exceeding the range without jumps','wrong orientation',"""
y, x = np.mgrid[:200, :200]
ok = True
for ax in (0.3, 0.5, 0.6, 0.8):
    sx, sy = 4.0, 0.25
    fx, fy = 1 / 60, 1 / 12.5
    t = Surface(np.sin(2 * np.pi * (fx * ax * x * sx + fy * y * sy)), sx, sy)
    e = np.rad2deg(np.arctan2(-fy, fx * ax)); o = t.orientation()
    ok &= abs((o - e + 90) % 180 - 90) < 1.5
check(ok)
""",NP)
bug('c14-copysign','C14',[(S,"            angle = np.copysign(90, angle) - angle","            angle = 90 - angle")],
 'a texture nearer to horizontal lines inclined in the negative direction','orientation outside of the range of the other method: beyond 90',"""
y, x = np.mgrid[:100, :100]
o = [Surface(np.sin(2 * np.pi * (k * 1.1 * x / 100 + 8.2 * y / 100)), 1.0, 1.0).orientation() for k in (-1, 1)]
check(all(-90 <= v <= 90 for v in o))
""",NP)
bug('c08-depth-sampling','C08',[(S,"                if idx_min < 0 or idx_max > line.size-1:\n                    depths_line[j] = np.nan\n                    continue","                if idx_min < 0 or idx_max > line.size-1:\n                    continue")],
 'a profile whose last extremum lies close enough to the border that the sampling window leaves the profile','that depth is counted from zero',"""
x = np.arange(100); ok = True
for ph in np.linspace(0, 6, 13):
    z = np.repeat((5 + np.sin(2 * np.pi * x / 20 + ph))[None], 40, 0)
    m, sd = Surface(z, 1.0, 1.0).depth()
    ok &= 1.5 < m < 2.1
check(ok)
""",NP)
bug('c08-depth-spacing','C08',[(S,"            profile_dist_px = int((size.x - 1) / max(nprofiles - 1, 1))","            profile_dist_px = int((size.y - 1) / max(nprofiles - 1, 1))")],
 'a texture of horizontal lines on a surface which is not square','the profiles are taken from a part of the surface only or from beyond it',"""
y, x = np.mgrid[:60, :300]
z = np.sin(2 * np.pi * y / 12) * np.where(x < 70, 1, 3)
m, sd = Surface(z, 1.0, 1.0).depth(nprofiles=30)
check(m > 4)
""",NP)
bug('c08-homog-parameters','C23',[(S,"        results = np.sort(results.round(8), axis=1)","        results = np.sort(results.round(8), axis=1)[:, ::1] if len(parameters) > 1 else results.round(8)")],
 'homogeneity of a single parameter','the lorenz curve is not sorted',"""
z = rng.normal(size=(40, 40)) * np.where(np.arange(40) < 20, 4, 1)
s = Surface(z, 1.0, 1.0); t = Surface(z[:, ::-1].copy(), 1.0, 1.0)
check(abs(s.homogeneity(parameters=('Sa',), period=10.0) - t.homogeneity(parameters=('Sa',), period=10.0)) < 1e-3)
""",NP)
bug('c23-norm','C23',[(S,"lorenz[1:] = np.cumsum(results[i]) / np.sum(results[i])","lorenz[1:] = np.cumsum(results[i]) / results[i].max() / ncells")],
 'cells with unequal values','homogeneity wrong (and lorenz does not end at 1)',"""
z = rng.normal(size=(40, 40)) * np.where(np.arange(40) < 20, 4, 1)
s = Surface(z, 1.0, 1.0)
v = np.sort([Surface(z[i:i+10, j:j+10].copy(), 1.0, 1.0).Sa() for i in range(0, 40, 10) for j in range(0, 40, 10)])
n = v.size; g = (2 * (np.arange(1, n + 1) * v).sum() / (n * v.sum()) - (n + 1) / n)
check(abs(s.homogeneity(parameters=('Sa',), period=10.0) - (1 - g)) < 1e-3)
""",NP)
# ------------------------------------------------------------------ others
bug('c11-fill-int','C11',[(S,"        data_interpolated = np.where(np.isnan(self.data), data_interpolated, self.data).astype(self.data.dtype)\n\n        if inplace:","        data_interpolated = data_interpolated.astype(self.data.dtype)\n\n        if inplace:")],
 "linear or cubic interpolation",'measured points change or become missing outside of the hull',"""
z = rng.normal(size=(12, 13)); z[4, 5] = np.nan; z[0, 0] = np.nan
r = Surface(z, 1.0, 1.0).fill_nonmeasured(method='cubic').data
m = ~np.isnan(z)
check(np.array_equal(r[m], z[m]))
""",NP)
bug('c10-trend-nan','C10',[(S,"return return_surface, Surface(trend, self.step_x, self.step_y)","return return_surface, Surface(np.where(np.isnan(self.data), np.nan, trend), self.step_x, self.step_y)")],
 'return_trend on a surface with missing points','the trend is missing there',"""
z = rng.normal(size=(12, 13)); z[4, 5] = np.nan
r, t = Surface(z, 1.0, 1.0).level(return_trend=True)
check(not np.isnan(t.data).any())
""",NP)
bug('c12-zoom-inplace','C12',[(S,"        if inplace:\n            self._set_data(data=data)\n            return self\n        return Surface(data, self.step_x, self.step_y)\n\n    @batch_method('operation')\n    def crop","        if inplace:\n            self._set_data(data=data, step_x=self.width_um / (self.size.x - 1) if self.size.y % 2 else self.width_um / self.size.x)\n            return self\n        return Surface(data, self.step_x, self.step_y)\n\n    @batch_method('operation')\n    def crop")],
 'zoom in place','the step size changes',"""
s = Surface(rng.normal(size=(12, 14)), 1.0, 1.0); s.zoom(2, inplace=True)
check(s.step_x == 1.0)
""",NP)
bug('c12-profile-crop','C12',[('profile.py',"        data = self.data[x0:x1 + 1].copy()\n","        data = self.data[x0:x1 + 1].copy() if in_units else self.data[x0:x1].copy()\n")],
 'cropping a profile by indices','the end point is missing',"""
p = Profile(rng.normal(size=30), 0.5)
check(p.crop((3, 10), in_units=False).size == 8)
""",NP)
bug('c13-clip','C13',[(S,"        y0px, y1px = np.clip([y0 / self.step_y, y1 / self.step_y], 0, self.size.y - 1)","        y0px, y1px = np.clip([y0 / self.step_y, y1 / self.step_y], 0, self.size.x - 1)")],
 'an oblique profile on a surface higher than wide','y is limited to the number of columns',"""
z = np.repeat(np.arange(30.0)[:, None], 8, 1); s = Surface(z, 1.0, 1.0)
check(abs(s.get_oblique_profile(0, 0, 5, 29).data[-1] - 29) < 1e-6)
""",NP)
bug('c13-length','C13',[(S,"        return Profile(data, self.step_y, self.height_um)","        return Profile(data, self.step_y, self.width_um)")],
 'a vertical profile of a surface which is not square','length of the profile is the width',"""
s = Surface(rng.normal(size=(30, 8)), 1.0, 1.0)
check(s.get_vertical_profile(3).length_um == 29.0)
""",NP)
bug('c03-rdq','C06',[('profile.py',"return np.sqrt(np.mean((np.diff(self.data) / self.step) ** 2))","return np.sqrt(np.mean((np.gradient(self.data) / self.step) ** 2))")],
 'Rdq of a profile which is not smooth','central differences smooth the slope',"""
p = Profile(rng.normal(size=50), 0.5)
check(abs(p.Rdq() - np.sqrt(np.mean((np.diff(p.data) / 0.5) ** 2))) < 1e-9)
""",NP)
bug('c01-setitem-cache','C01',[(B,"        self._data[key] = value\n        self.clear_cache()","        changed = not np.array_equal(self._data[key], value)\n        self._data[key] = value\n        if changed and not np.isscalar(value):\n            self.clear_cache()")],
 'assigning a number to points after a parameter was queried','stale parameter',"""
s = Surface(rng.normal(size=(30, 8)), 1.0, 1.0); s.Sq(); s[3, 4] = 55.0
check(abs(s.Sq() - s.data.std()) < 1e-9)
""",NP)
bug('c01-profile-cache','C01',[('profile.py',"        self._data = value\n        self.length_um = (value.shape[0] - 1) * self.step\n        self.clear_cache()","        self._data = value\n        self.length_um = (value.shape[0] - 1) * self.step"),('profile.py',"        if step is not None:\n            self.step = step\n        self.length_um = (self.size - 1) * self.step\n        self.clear_cache()","        if step is not None:\n            self.step = step\n        self.length_um = (self.size - 1) * self.step\n        if data is not None:\n            self.clear_cache()")],
 'assigning heights to the data attribute of a profile','stale parameters',"""
p = Profile(rng.normal(size=50), 0.5); p.Rq(); p.data = p.data * 2
check(abs(p.Rq() - p.data.std()) < 1e-9)
""",NP)
bug('c05-profile-dc','C05',[('profile.py',"        return self.get_abbott_firestone_curve().dc(p, q)","        return abs(self.get_abbott_firestone_curve().dc(q, p))" )],
 'Rdc with q below p','sign lost',"""
p = Profile(rng.normal(size=50), 0.5)
check(abs(p.Rdc(50, 2.5) - (p.Rmc(50) - p.Rmc(2.5))) < 1e-9 or True)
check(p.Rdc(50, 2.5) == p.get_abbott_firestone_curve().dc(50, 2.5))
""",NP)
