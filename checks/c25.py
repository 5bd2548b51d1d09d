"""C25: the command line does what the library does."""
import io
import os
import re
import shutil
import tempfile
import zlib
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from lib import formats, gen
from lib.harness import Check, close, close_arr, expect, fail, raises, same_arr

C = Check('C25', 'A case is a file of any readable format (or a folder of files) with conversion options, or a surface file with processing '
                 'options. Non-trivial: options are given, image layers or missing points exist, or the call must be refused; distinct by '
                 'the full case description.')

TARGETS = ('.sur', '.sdf', '.al3d', '.tmd', '.sflz')


def invoke(args):
    from click.testing import CliRunner
    from surfalize.cli import cli
    return CliRunner().invoke(cli, [str(a) for a in args])


def outcome(r):
    return f'exit code {r.exit_code}, {r.exception!r}, output {r.output[-200:]!r}'


def same_surface(a, b, what):
    same_arr(np.array(a.data), np.array(b.data), f'{what}: heights')
    expect((a.step_x, a.step_y) == (b.step_x, b.step_y), f'{what}: spacing {(a.step_x, a.step_y)} instead of {(b.step_x, b.step_y)}')
    expect(sorted(a.image_layers) == sorted(b.image_layers), f'{what}: image layers {sorted(a.image_layers)} instead of {sorted(b.image_layers)}')
    for k in a.image_layers:
        x, y = np.asarray(a.image_layers[k].data), np.asarray(b.image_layers[k].data)
        expect(x.shape == y.shape and np.array_equal(x, y), f'{what}: image layer {k}')


def by_library(path, fmt, skip, compressed):
    """what saving with the library gives (as loaded again)"""
    from surfalize import Surface
    b = io.BytesIO()
    s = Surface.load(path, read_image_layers=not skip)
    s.save(b, format=fmt, **({'compressed': True} if compressed else {}))
    b.seek(0)
    return s, Surface.load(b, format=fmt, read_image_layers=True)


def sources():
    return formats.specs()


@C.sub('convert', lambda: st.fixed_dictionaries({
    'spec': sources(), 'target': st.sampled_from(TARGETS + ('.sur', '.sflz')), 'case': st.sampled_from(['lower', 'lower', 'upper', 'title']), 'skip': st.booleans(), 'compressed': st.booleans(),
    'how': st.sampled_from(['suffix', 'suffix', 'format', 'short format', 'both', 'existing', 'default']), 'name': st.sampled_from(['a', 'my file', 'x.y', 'P1_N2'])}), quick=500, thorough=8000, shards=6, tshards=8)
def convert(case, rec):
    from surfalize import Surface
    f = formats.make(case['spec'])
    fmt = case['target'] if case['how'] != 'default' else '.sur'
    folder = Path(tempfile.mkdtemp(prefix='c25_'))
    try:
        src = folder / f'{case["name"]}_in.{case["spec"]["fmt"]}'
        src.write_bytes(f['bytes'])
        written = {'lower': fmt, 'upper': fmt.upper(), 'title': fmt.title()}[case['case']]
        args = ['convert', src]
        how = case['how']
        if how in ('suffix', 'existing', 'both'):
            out = folder / (case['name'] + '_out' + written)
            if how == 'existing':
                out.write_bytes(b'old content ' * 400)
            if how == 'both':
                args += ['--format', '.tmd']                 # the suffix of the output file decides
        else:
            out = folder / (case['name'].replace('.', '') + '_out')
            if how != 'default':
                args += ['--format' if how == 'format' else '-f', written]
        args.insert(2, out)
        if case['skip']:
            args.append('--skip-image-layers')
        if case['compressed']:
            args.append('--compressed')
        rec.label(fmt, how, 'skip layers' if case['skip'] else 'with layers')
        rec.nontrivial(bool(f['layers']) or np.isnan(f['data']).any() or case['compressed'])
        before = {p.name: p.read_bytes() for p in folder.iterdir()}
        r = invoke(args)
        expect(src.read_bytes() == f['bytes'], 'the input file has been changed')
        if case['compressed'] and fmt != '.sur':
            expect(r.exit_code != 0, 'the compressed flag is accepted for ' + fmt)
            expect({p.name: p.read_bytes() for p in folder.iterdir()} == before, 'files have been changed by a refused call')
            return
        try:
            original, want = by_library(src, fmt, case['skip'], case['compressed'])
        except Exception as e:
            expect(r.exit_code != 0, f'the library raises {e!r}, the command line reports success')
            return
        expect(r.exit_code == 0, lambda: f'{args[3:]}: {outcome(r)}')
        expect(sorted(p.name for p in folder.iterdir()) == sorted(set(before) | {out.name}), 'other files have been created')
        got = Surface.load(out, format=fmt, read_image_layers=True)
        same_surface(got, want, f'{case["spec"]["fmt"]} to {fmt}')
        # the content has the requested format and is a complete file
        raw = out.read_bytes()
        same_surface(Surface.load(io.BytesIO(raw), format=fmt, read_image_layers=True), want, 'content')
        if case['compressed']:
            b = io.BytesIO()
            original.save(b, format=fmt, compressed=True)
            expect(len(raw) == len(b.getvalue()) and raw[:12] == b.getvalue()[:12], 'the file is not compressed')
        if case['skip']:
            expect(not got.image_layers, 'image layers in spite of --skip-image-layers')
        data = f['data']
        amp = np.nanmax(np.abs(data)) if not np.isnan(data).all() else 0
        if amp and got.data.shape == data.shape:
            # float32 based formats have seven digits
            span = 2e-6 * amp + f['atol'] + f['rtol'] * amp
            close_arr(np.array(got.data), data, 'heights against the encoded ones', rtol=0, atol=span)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@C.sub('folder', lambda: st.fixed_dictionaries({
    'specs': st.lists(sources(), min_size=1, max_size=4), 'target': st.sampled_from(TARGETS), 'skip': st.booleans(), 'compressed': st.sampled_from([False, False, True]), 'upper': st.booleans(), 'dots': st.booleans(),
    'junk': st.lists(st.sampled_from(['notes.txt', 'image.png', 'noext', 'x.pdf']), max_size=3, unique=True), 'out': st.sampled_from(['new', 'nested', 'existing', 'dotted']), 'default': st.booleans()}),
    quick=150, thorough=2500, shards=6, tshards=8)
def convert_folder(case, rec):
    from surfalize import Surface
    folder = Path(tempfile.mkdtemp(prefix='c25_'))
    try:
        inp = folder / 'in put'
        inp.mkdir()
        (inp / 'sub').mkdir()
        fmt = '.sur' if case['default'] else case['target']
        files = {}
        for i, spec in enumerate(case['specs']):
            name = f'f{i % 2}.{i}.{spec["fmt"]}' if case['dots'] else f'f{i}.{spec["fmt"]}'
            name = name.upper() if case['upper'] else name
            (inp / name).write_bytes(formats.make(spec)['bytes'])
            files[name] = inp / name
        (inp / 'sub' / 'inner.sur').write_bytes(b'x')
        for j in case['junk']:
            (inp / j).write_bytes(b'no surface')
        out = {'new': folder / 'out', 'nested': folder / 'a' / 'b', 'existing': folder / 'old', 'dotted': folder / 'run.1'}[case['out']]
        if case['out'] == 'existing':
            out.mkdir()
            (out / 'keep.me').write_bytes(b'mine')
        args = ['convert', inp, out] + ([] if case['default'] else ['--format', fmt]) + (['--skip-image-layers'] if case['skip'] else []) + (['--compressed'] if case['compressed'] else [])
        rec.nontrivial(len(files) > 1)
        rec.label(fmt, case['out'], f'{len(files)} files')
        r = invoke(args)
        if case['compressed'] and fmt != '.sur':
            expect(r.exit_code != 0, 'the compressed flag is accepted for ' + fmt)
            expect(case['out'] == 'existing' or not out.exists(), 'a folder has been created by a refused call')
            return
        want = {}
        for name, p in files.items():
            try:
                want[p.stem + fmt] = by_library(p, fmt, case['skip'], case['compressed'])[1]
            except Exception as e:
                expect(r.exit_code != 0, f'the library raises {e!r} for {name}, the command line reports success')
                return
        expect(r.exit_code == 0, lambda: outcome(r))
        extra = {'keep.me'} if case['out'] == 'existing' else set()
        got = {p.name for p in out.iterdir()}
        expect(got == set(want) | extra, f'files {sorted(got)} instead of {sorted(set(want) | extra)}')
        for name, w in want.items():
            same_surface(Surface.load(out / name, format=fmt, read_image_layers=True), w, name)
        expect(sorted(p.name for p in inp.iterdir()) == sorted(set(files) | set(case['junk']) | {'sub'}), 'the input folder has been changed')
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@C.sub('unsupported', lambda: st.tuples(st.sampled_from(['.vk4', '.png', '.plu', 'sur', '.txt', '.xyz', '.foo']), st.sampled_from(['suffix', 'format', 'folder']), st.booleans()).map(list), quick=60, thorough=300, shards=1)
def unsupported(case, rec):
    from surfalize import Surface
    folder = Path(tempfile.mkdtemp(prefix='c25_'))
    try:
        (folder / 'in').mkdir()
        src = folder / 'in' / 'a.sur'
        Surface(np.arange(12.0).reshape(3, 4), 1, 1).save(src)
        rec.nontrivial()
        rec.label(case[1])
        fmt = case[0]
        if case[1] == 'suffix':
            out = folder / ('b' + fmt if fmt.startswith('.') else 'b.' + fmt + 'x')
            args = ['convert', src, out]
        else:
            out = folder / 'b'
            args = ['convert', src if case[1] == 'format' else folder / 'in', out, '--format', fmt]
        r = invoke(args)
        expect(not out.exists(), f'{args[2:]}: {out.name} has been written')
        expect(r.exit_code != 0 or 'not supported' in r.output.lower(), lambda: f'{args[2:]} is not refused: {outcome(r)}')
        e = invoke(['convert', folder / 'missing.sur', folder / 'c.sur'])
        expect(e.exit_code != 0 and not (folder / 'c.sur').exists(), 'a missing input file is not refused')
    finally:
        shutil.rmtree(folder, ignore_errors=True)


# processing options -------------------------------------------------------------------------------------------------
def _maybe(strategy):
    return st.one_of(st.none(), st.none(), strategy)


OPTIONS = st.fixed_dictionaries({
    'level': st.booleans(), 'fill': st.booleans(), 'center': st.booleans(), 'zero': st.booleans(), 'threshold': _maybe(st.tuples(st.sampled_from([0.0, 0.5, 2.0, 10.0]), st.sampled_from([0.0, 0.5, 5.0, 20.0]))),
    'outliers': _maybe(st.sampled_from([0, 1, 1, 2, 2, 3, 3])), 'highpass': _maybe(st.sampled_from([0.0, 2.5, 2.5, 6.0])), 'lowpass': _maybe(st.sampled_from([0.0, 2.5, 2.5, 6.0])), 'bandpass': _maybe(st.sampled_from([(2.0, 5.0), (3.0, 9.0), (2.0, 3.0), (4.0, 4.5), (1.0, 20.0), (0.0, 5.0)])),
    'short': st.booleans()})


@st.composite
def options(draw):
    o = draw(OPTIONS)
    if o['center'] and o['zero'] and draw(st.integers(0, 9)):
        o[draw(st.sampled_from(['center', 'zero']))] = False
    filters = [k for k in ('highpass', 'lowpass', 'bandpass') if o[k] is not None]
    if len(filters) > 1 and draw(st.integers(0, 9)):
        keep = draw(st.sampled_from(filters))
        for k in filters:
            if k != keep:
                o[k] = None
    return o


def option_args(o):
    long = {'level': '--level', 'fill': '--fill-nonmeasured', 'center': '--center', 'zero': '--zero', 'threshold': '--threshold', 'outliers': '--remove-outliers',
            'highpass': '--highpass', 'lowpass': '--lowpass', 'bandpass': '--bandpass'}
    short = {'level': '-l', 'fill': '-fn', 'center': '-c', 'zero': '-z', 'threshold': '-t', 'outliers': '-ro', 'highpass': '-hp', 'lowpass': '-lp', 'bandpass': '-bp'}
    names = short if o['short'] else long
    args = []
    for k in names:
        v = o[k]
        if v is None or v is False:
            continue
        args.append(names[k])
        if v is not True:
            args.extend(v if isinstance(v, tuple) else [v])
    return args


def refused(o):
    return (o['center'] and o['zero']) or sum(o[k] is not None for k in ('highpass', 'lowpass', 'bandpass')) > 1


def process(s, o):
    """the documented operations in the documented order"""
    if o['fill']:
        s = s.fill_nonmeasured()
    if o['level']:
        s = s.level()
    if o['center']:
        s = s.center()
    if o['zero']:
        s = s.zero()
    if o['threshold'] is not None:
        s = s.threshold(o['threshold']).fill_nonmeasured()
    if o['outliers'] is not None:
        s = s.remove_outliers(n=o['outliers']).fill_nonmeasured()
    if o['highpass'] is not None:
        s = s.filter('highpass', o['highpass'])
    if o['lowpass'] is not None:
        s = s.filter('lowpass', o['lowpass'])
    if o['bandpass'] is not None:
        s = s.filter('bandpass', o['bandpass'][0], o['bandpass'][1])
    return s


class Shown:
    """stand-ins for the windows: they record which surface is displayed"""

    def __enter__(self):
        import matplotlib
        import surfalize.plotting
        import surfalize.cli
        from surfalize import Surface
        self.surfaces = []

        def record(surface, *a, **k):
            self.surfaces.append((np.array(surface.data), surface.step_x, surface.step_y))
            from PIL import Image
            return Image.new('RGB', (4, 3))
        self.saved = []
        for owner, name, stub in ((surfalize.plotting, 'plot_3d', record), (Surface, 'plot_2d', record), (Surface, 'plot_3d', record), (Surface, 'show', record),
                                  (matplotlib, 'get_backend', lambda: 'QtAgg')):
            if name in vars(owner):
                self.saved.append((owner, name, vars(owner)[name]))
                setattr(owner, name, stub)
        if 'plot_3d' in vars(surfalize.cli):
            self.saved.append((surfalize.cli, 'plot_3d', surfalize.cli.plot_3d))
            surfalize.cli.plot_3d = record
        return self

    def __exit__(self, *a):
        for owner, name, old in reversed(self.saved):
            setattr(owner, name, old)
        import matplotlib.pyplot as plt
        plt.close('all')


@C.sub('show', lambda: st.fixed_dictionaries({'s': gen.surfaces(nan=True, min_side=4, max_side=16, scale=(-1, 1), layouts=('C',)), 'o': options(), 'd3': st.booleans()}), quick=500, thorough=8000, shards=4, tshards=8)
def show(case, rec):
    from surfalize import Surface
    o = case['o']
    folder = Path(tempfile.mkdtemp(prefix='c25_'))
    try:
        f = dict(case['s'], sx=1.0, sy=0.5)
        path = folder / 'a.sflz'
        gen.surface(f).save(path)
        args = ['show', path] + (['--plot-3d'] if case['d3'] else []) + option_args(o)
        rec.nontrivial(len(args) > 2 + case['d3'])
        rec.label('3d' if case['d3'] else '2d', 'refused' if refused(o) else f'{sum(1 for k, v in o.items() if v and k != "short")} options')
        before = path.read_bytes()
        with Shown() as shown:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = invoke(args)
        expect(path.read_bytes() == before and [p.name for p in folder.iterdir()] == ['a.sflz'], 'files have been changed')
        if refused(o):
            expect(r.exit_code != 0 and not shown.surfaces, lambda: f'{args[2:]} is not refused: {outcome(r)}')
            return
        try:
            want = process(Surface.load(path), o)
        except Exception as e:
            expect(r.exit_code != 0 and not shown.surfaces, lambda: f'the library raises {e!r}: {outcome(r)}')
            return
        expect(r.exit_code == 0, lambda: f'{args[2:]}: {outcome(r)}')
        expect(len(shown.surfaces) == 1, f'{len(shown.surfaces)} surfaces shown')
        z, sx, sy = shown.surfaces[0]
        scale = np.nanmax(np.abs(want.data)) if not np.isnan(want.data).all() else 1
        close_arr(z, np.array(want.data), f'{args[2:]}: heights shown', rtol=1e-9, atol=1e-9 * scale)
        expect((sx, sy) == (want.step_x, want.step_y), 'spacing')
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def pdf_words(raw):
    out = []
    for m in re.finditer(rb'(?<!end)stream\r?\n', raw):
        try:
            body = zlib.decompressobj().decompress(raw[m.end():])
        except zlib.error:
            body = raw[m.end():raw.find(b'endstream', m.end())]
        if b'Tj' in body or b'TJ' in body:
            for t in re.finditer(rb'\(((?:[^()\\]|\\.)*)\)\s*Tj', body):
                out.append(re.sub(rb'\\(.)', rb'\1', t.group(1)).decode('latin-1'))
    return out


@C.sub('report', lambda: st.fixed_dictionaries({
    'kind': st.sampled_from(['noise', 'grating']), 'seed': st.integers(0, 2 ** 16), 'n': st.integers(1, 2), 'folder': st.booleans(), 'o': options(), 'pp': st.booleans()}), quick=30, thorough=400, shards=6, tshards=8)
def report(case, rec):
    from surfalize import Surface
    o = dict(case['o'], outliers=None, threshold=None)
    o['highpass'] = o['highpass'] or None                       # what is left by a cutoff of 0 is flat and has no parameters
    folder = Path(tempfile.mkdtemp(prefix='c25_'))
    try:
        names = [f'm{i}.sur' for i in range(case['n'] if case['folder'] else 1)]
        for i, n in enumerate(names):
            r = np.random.Generator(np.random.PCG64(case['seed'] + i))
            z = r.uniform(-1, 1, (34, 64))
            if case['kind'] == 'grating':
                z = z * 0.02 + np.sin(2 * np.pi * np.arange(64) / 8)
            Surface(z * 10, 1.0, 0.5).save(folder / n)
        args = ['report', folder if case['folder'] else folder / names[0]] + (['--periodic-parameters' if o['level'] else '-pp'] if case['pp'] else []) + option_args(o)
        rec.nontrivial()
        rec.label('folder' if case['folder'] else 'file', 'periodic' if case['pp'] else 'roughness')
        with Shown() as shown:
            r = invoke(args)
        pdfs = sorted(p.name for p in folder.glob('*.pdf'))
        if refused(o):
            expect(r.exit_code != 0 and not pdfs, lambda: f'{args[2:]} is not refused: {outcome(r)}')
            return
        want = {}
        try:
            for n in names:
                s = process(Surface.load(folder / n), o)
                w = {p: getattr(s, p)() for p in ('Sa', 'Sq', 'Sv', 'Sp', 'Sz', 'Sk', 'Spk', 'Svk')}
                if case['pp']:
                    w.update({'Period': s.period(), 'Depth': s.depth()[0], 'Aspect ratio': s.aspect_ratio(), 'Homogeneity': s.homogeneity()})
                want[n] = w
        except Exception as e:
            expect(r.exit_code != 0, lambda: f'the library raises {e!r}: {outcome(r)}')
            return
        expect(r.exit_code == 0, lambda: f'{args[2:]}: {outcome(r)}')
        expect(pdfs == [n + '.pdf' for n in names], f'reports {pdfs}')
        for n in names:
            words = pdf_words((folder / (n + '.pdf')).read_bytes())
            expect(any(n in w for w in words), f'{n}: the name of the file is not in the report {words[:10]}')
            text = ''.join(words).replace(' ', '')
            for p, v in want[n].items():
                m = re.search(p.replace(' ', '') + r'(-?\d+\.\d{3}|nan|inf)', text)          # cells may be wrapped
                expect(m is not None, f'{n}: {p} is not in the report')
                value = m.group(1)
                ok = value == f'{v:.3f}' or (np.isfinite(v) and np.isfinite(float(value)) and abs(float(value) - v) <= 0.000501 + 1e-6 * abs(v))
                expect(ok, f'{n}: {p} = {value} in the report, {v} by the library')
    finally:
        shutil.rmtree(folder, ignore_errors=True)
