"""C19: batch processing gives the same result as processing every file by hand."""
import io
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from lib import gen, params
from lib.harness import Check, close, expect, fail, raises

C = Check('C19', 'A case is a set of files with a program of operations and parameters and the execution options (or a directory with '
                 'file names). Non-trivial: at least two files and two steps, or a failing or refused step; distinct by the full case description.')

OPS = st.one_of(
    st.just(('center', {})), st.just(('zero', {})), st.just(('invert', {})), st.just(('level', {})),
    st.sampled_from([1, 2]).map(lambda d: ('detrend_polynomial', {'degree': d})),
    st.sampled_from([(5.0, None), (1.0, 2.0)]).map(lambda p: ('threshold', {'threshold': p[0] if p[1] is None else p})),
    st.sampled_from([(1, 'mean'), (2, 'median')]).map(lambda a: ('remove_outliers', {'n': a[0], 'method': a[1]})),
    st.sampled_from(['nearest', 'mean']).map(lambda m: ('fill_nonmeasured', {'method': m})),
    st.just(('fill_nonmeasured', {})),
    st.tuples(st.sampled_from(['lowpass', 'highpass']), st.sampled_from([2.0, 4.0])).map(lambda t: ('filter', {'filter_type': t[0], 'cutoff': {'px': t[1]}})),
    st.just(('filter', {'filter_type': 'bandpass', 'cutoff': {'px': 2.0}, 'cutoff2': {'px': 5.0}})),
    st.sampled_from([1.5, 2]).map(lambda f: ('zoom', {'factor': f})),
    st.sampled_from([10, -25]).map(lambda a: ('rotate', {'angle': a})),
    st.just(('crop', {'box': (1, 7, 0, 6), 'in_units': False})),
    st.just(('stepheight_level', {})),
    st.sampled_from([('level', {'return_trend': True}), ('zero', {'inplace': False}), ('detrend_polynomial', {'degree': 2, 'return_trend': True, 'inplace': False})]))

PARS = st.one_of(
    st.sampled_from(['Sa', 'Sq', 'Sz', 'Ssk', 'Sk', 'Spk', 'Sdr', 'Sal', 'Smr1', 'Vmc', 'period', 'depth', 'aspect_ratio', 'stepheight', 'Sdq', 'orientation']).map(lambda n: (n, {})),
    st.sampled_from([('Sxp', {'p': 10, 'q': 60}), ('Smc', {'mr': 30}), ('Vmp', {'p': 20}), ('Vmc', {'p': 5, 'q': 70}), ('Sal', {'s': 0.4}),
                     ('depth', {'nprofiles': 3}), ('depth', {'nprofiles': 16}), ('depth', {'nprofiles': 4, 'sampling_width': 0.1}), ('homogeneity', {'parameters': ('Sa', 'Sq')}),
                     ('cavity_volume', {'threshold': 0.3}), ('orientation', {'method': 'fft'})]))


def custom_op(k):
    def half(s):
        s.data = np.asarray(s.data) * 0.5

    def shift(s):
        s[0, 0] = 3.25

    def hole(s):
        s[s.data == np.nanmax(s.data)] = np.nan
    return (half, shift, hole)[k]


def custom_par(k):
    from surfalize.exceptions import CalculationError

    def median(s):
        return {'height_median': float(np.nanmedian(s.data))}

    def two(s):
        return {'mean_value': float(np.nanmean(s.data)), 'size': s.size.x * s.size.y}

    def failing(s):
        if s.data[0, 0] > 0:
            raise CalculationError('no value')
        return {'first': float(s.data[0, 0])}

    def mixed(s):
        return {'_zero': 0, 'flag': bool(s.data[0, 0] > 0), 'a label': 'größer' if s.data[0, 0] > 0 else '', 'no value': np.nan, 'Höhe [µm]': np.float64(s.data[0, 0]), 'date': '2020'}
    return (median, two, failing, mixed)[k]


# leading arguments in the order of the signatures, for registering with positional arguments
ORDER = {'detrend_polynomial': ('degree',), 'threshold': ('threshold',), 'remove_outliers': ('n', 'method'), 'fill_nonmeasured': ('method',), 'filter': ('filter_type', 'cutoff', 'cutoff2'),
         'zoom': ('factor',), 'rotate': ('angle',), 'crop': ('box', 'in_units'), 'Sxp': ('p', 'q'), 'Smc': ('mr',), 'Vmp': ('p',), 'Vmc': ('p', 'q'), 'Sal': ('s',),
         'depth': ('nprofiles', 'sampling_width'), 'homogeneity': ('parameters',), 'cavity_volume': ('threshold',), 'orientation': ('method',)}


def positional(name, kw):
    args, kw = [], dict(kw)
    for k in ORDER.get(name, ()):
        if k not in kw:
            break
        args.append(kw.pop(k))
    return args, kw


@st.composite
def programs(draw, broken=False):
    steps, names = [], set()
    if draw(st.integers(0, 3)) == 0:
        # steps that may leave missing points behind, which are then filled
        for _ in range(draw(st.integers(0, 2))):
            steps.append(['op', *draw(st.sampled_from([('level', {}), ('center', {}), ('detrend_polynomial', {'degree': 2}), ('threshold', {'threshold': 5.0}), ('zoom', {'factor': 1.5}), ('invert', {})])), draw(st.booleans())])
        steps.append(['op', 'fill_nonmeasured', {}, False])
    for _ in range(draw(st.integers(1, 7))):
        kind = draw(st.sampled_from(['op', 'op', 'par', 'par', 'par', 'cop', 'cpar', 'list', 'object']))
        if kind == 'op':
            steps.append(['op', *draw(OPS), draw(st.booleans())])
        elif kind in ('par', 'object'):
            n, kw = draw(PARS)
            custom = draw(st.sampled_from([None, None, 'x_' + n, 'col 1']))
            name = custom or n
            if name in names:
                continue
            names.add(name)
            steps.append([kind, n, kw, custom, draw(st.booleans())])
        elif kind == 'cop':
            steps.append(['cop', draw(st.sampled_from([0, 0, 1, 1, 2]))])
        elif kind == 'cpar':
            k = draw(st.integers(0, 3))
            if ('c', k) in names:
                continue
            names.add(('c', k))
            steps.append(['cpar', k])
        else:
            ns = [n for n in draw(st.lists(st.sampled_from(['Sa', 'Sq', 'Sku', 'Spk', 'Sdr', 'Vvc']), min_size=1, max_size=3, unique=True)) if n not in names]
            names.update(ns)
            steps.append(['list', ns])
    return steps


@st.composite
def files(draw):
    out = []
    for i in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(['noise', 'noise', 'grating', 'grating', 'grating', 'step', 'step', 'missing', 'mixed']))
        d = {'kind': kind, 'seed': draw(st.integers(0, 2 ** 32 - 1)), 'ny': draw(st.integers(8, 24)), 'nx': draw(st.integers(8, 24)),
             'sx': draw(st.sampled_from([0.5, 1.0, 2.0])), 'sy': draw(st.sampled_from([0.5, 1.0])), 'fmt': draw(st.sampled_from(['.sflz', '.sur', '.sdf', '.SFLZ', '.xyz'])),
             'source': draw(st.sampled_from(['path', 'path', 'str', 'buffer', 'buffer with format']))}
        if d['fmt'] == '.xyz' and (d['kind'] == 'missing' or d['source'] == 'buffer'):
            # the format has neither a signature nor missing points
            d['kind'], d['source'] = 'noise', 'buffer with format'
        out.append(d)
    return out


def heights(d):
    rng = np.random.Generator(np.random.PCG64(d['seed']))
    if d['kind'] in ('grating', 'mixed'):
        d = dict(d, nx=max(40, d['nx']), ny=max(16, d['ny']))
    z = rng.uniform(-1, 1, (d['ny'], d['nx']))
    if d['kind'] == 'grating':
        z = 0.02 * z + np.sin(2 * np.pi * np.arange(d['nx']) / 8 + 0.3)
    elif d['kind'] == 'mixed':
        # every other line is noise, on which no sinusoid can be fitted
        z = np.where(np.arange(d['ny'])[:, None] % 2, z, 9 * np.sin(2 * np.pi * np.arange(d['nx']) / 8))
    elif d['kind'] == 'step':
        z = 0.05 * z + np.where(np.arange(d['nx']) < d['nx'] // 3, 0.0, 4.0)
    elif d['kind'] == 'missing':
        z[2, 3] = np.nan
    return z


def write_files(folder, descs):
    """(what the batch gets, name, thunk which loads the file by hand)"""
    from surfalize import Surface
    from surfalize.batch import FileInput
    out = []
    for i, d in enumerate(descs):
        s = Surface(heights(d), d['sx'], d['sy'])
        name = f'file{i}{d["fmt"]}'
        path = os.path.join(folder, name)
        if d['fmt'] == '.xyz':
            y, x = np.mgrid[:s.size.y, :s.size.x]
            np.savetxt(path, np.column_stack([x.ravel() * d['sx'], y.ravel() * d['sy'], s.data.ravel()]) * 1e-6)
        else:
            s.save(path)
        with open(path, 'rb') as f:
            raw = f.read()
        fmt = d['fmt'].lower() if d['source'] == 'buffer with format' else None
        if d['source'].startswith('buffer'):
            given = FileInput(name, io.BytesIO(raw), fmt) if fmt else FileInput(name, io.BytesIO(raw))
        else:
            given = path if d['source'] == 'str' else __import__('pathlib').Path(path)
        out.append((given, name, path))
    return out


def real(kw, step):
    return {k: (v['px'] * step if isinstance(v, dict) else v) for k, v in kw.items()}


def ops_and_pars(program, order):
    flat = []
    for s in program:
        flat.extend([['par', n, {}, None] for n in s[1]] if s[0] == 'list' else [s])
    if not order:
        flat = [s for s in flat if s[0] in ('op', 'cop')] + [s for s in flat if s[0] not in ('op', 'cop')]
    return flat


def by_hand(path, program, order, ignore):
    """The row that processing this file alone must give."""
    from surfalize import Surface
    from surfalize.exceptions import CalculationError
    s = Surface.load(path)
    row = {}
    failed = 0
    for step in ops_and_pars(program, order):
        if step[0] == 'op':
            kw = {k: v for k, v in real(step[2], 2.0).items() if k not in ('return_trend', 'inplace')}
            r = getattr(s, step[1])(**kw, inplace=True)
        elif step[0] == 'cop':
            custom_op(step[1])(s)
        elif step[0] == 'cpar':
            try:
                row.update(custom_par(step[1])(s))
            except CalculationError:
                if not ignore:
                    raise
                row['first'] = np.nan
                failed += 1
        else:
            _, n, kw, custom = step[:4]
            try:
                v = getattr(s, n)(**kw)
            except CalculationError:
                if not ignore:
                    raise
                v = (np.nan, np.nan) if n == 'depth' else np.nan
                failed += 1
            name = custom or n
            if n == 'depth':
                row[name + '_mean'], row[name + '_std'] = v
            else:
                row[name] = v
    return row, failed


def register(batch, program):
    from surfalize.batch import _Parameter
    for s in program:
        args, kw = positional(s[1], real(s[2], 2.0)) if s[0] in ('op', 'par') and s[-1] is True else ((), real(s[2], 2.0) if s[0] in ('op', 'par') else {})
        if s[0] == 'op':
            r = getattr(batch, s[1])(*args, **kw)
        elif s[0] == 'par':
            r = getattr(batch, s[1])(*args, **kw, **({'custom_name': s[3]} if s[3] else {}))
        elif s[0] == 'object':
            r = batch.roughness_parameters([_Parameter(s[1], kwargs=s[2], custom_name=s[3])])
        elif s[0] == 'cop':
            r = batch.custom_operation(custom_op(s[1]))
        elif s[0] == 'cpar':
            r = batch.custom_parameter(custom_par(s[1]))
        else:
            r = batch.roughness_parameters(s[1])
        expect(r is batch, f'{s} does not return the batch')


def same_value(got, want, what):
    if isinstance(want, (str, bool)):
        expect(type(got) is str and got == want if isinstance(want, str) else isinstance(got, (bool, np.bool_)) and got == want, f'{what}: {got!r} instead of {want!r}')
    elif isinstance(want, float) and np.isnan(want):
        expect(isinstance(got, (float, np.floating)) and np.isnan(got), f'{what}: {got!r} instead of a missing value')
    else:
        close(float(got), float(want), what, rtol=1e-9, atol=1e-12)


def check_rows(df, rows, label):
    expect(sorted(df['file']) == sorted(rows), f'{label}: rows for {sorted(df["file"])} instead of {sorted(rows)}')
    columns = {c for r in rows.values() for c in r}
    # a custom parameter which failed for every file has no known column names
    expect(set(df.columns) - {'file'} - columns == set(), f'{label}: unexpected columns {set(df.columns) - columns}')
    for c in columns:
        if c not in df.columns:
            expect(c == 'first' and all(np.isnan(r.get('first', np.nan)) for r in rows.values()), f'{label}: column {c} is missing')
            continue
        for _, line in df.iterrows():
            same_value(line[c], rows[line['file']].get(c, np.nan), f'{label}: {c} of {line["file"]}')


@C.sub('program', lambda: st.fixed_dictionaries({
    'files': files(), 'program': programs(), 'multi': st.booleans(), 'ignore': st.sampled_from([True, True, False]), 'order': st.sampled_from([True, True, False]),
    'again': st.tuples(st.booleans(), st.booleans()), 'added': st.booleans(), 'save': st.integers(0, 5).map(lambda v: v == 0)}), quick=400, thorough=6000, shards=6, tshards=8)
def program(case, rec):
    from surfalize.batch import Batch
    import pandas as pd
    folder = tempfile.mkdtemp(prefix='c19_')
    try:
        given = write_files(folder, case['files'])
        rows, error, nfail = {}, None, 0
        for _, name, path in given:
            try:
                rows[name], failed = by_hand(path, case['program'], case['order'], case['ignore'])
                nfail += failed
            except Exception as e:
                error = error or set()
                error.add(type(e).__name__)
        if case['added'] and len(given) > 1:
            batch = Batch([given[0][0]])
            expect(batch.add_files(given[1][0]) is batch and batch.add_files([g[0] for g in given[2:]]) is batch, 'add_files returns the batch')
        else:
            batch = Batch([g[0] for g in given])
        expect(len(batch) == len(given), f'length {len(batch)} for {len(given)} files')
        if not ops_and_pars(case['program'], True):
            e = raises(lambda: batch.execute(), Exception)
            expect(type(e).__name__ == 'BatchError', 'a batch without steps is refused')
            return
        register(batch, case['program'])
        done = []
        kw = {}
        if case['save']:
            kw['saveto'] = os.path.join(folder, 'out.xlsx')
        run = lambda: batch.execute(multiprocessing=case['multi'], ignore_errors=case['ignore'], preserve_chaining_order=case['order'],
                                    on_file_complete=lambda r: done.append(dict(r)), **kw)
        rec.label('parallel' if case['multi'] else 'sequential', f'{len(given)} files', 'error ' + min(error) if error else 'failing parameter' if nfail else 'values')
        if error:
            rec.nontrivial()
            e = raises(run, Exception)
            expect(e is not None and type(e).__name__ in error, f'processing by hand raises {error}, the batch {e!r}')
            return
        rec.nontrivial(nfail > 0 or (len(given) > 1 and len(case['program']) > 1))
        for g in given:
            before = open(g[2], 'rb').read()
        result = run()
        df = result.get_dataframe()
        expect(result.shape == df.shape and list(result.columns) == list(df.columns), 'the result does not give the attributes of its table')
        expect(result['file'].equals(df['file']), 'column of the result')
        check_rows(df, rows, 'result')
        expect(sorted(d['file'] for d in done) == sorted(rows), f'callback for {[d["file"] for d in done]}')
        for d in done:
            for k, v in d.items():
                if k != 'file':
                    same_value(v, rows[d['file']][k], f'callback {k}')
        if case['save']:
            back = pd.read_excel(kw['saveto'], keep_default_na=False, na_values={c: [''] for c in df.columns if c != 'a label'}, dtype={'a label': str, 'date': str})
            check_rows(back.drop(columns=[c for c in back.columns if str(c).startswith('Unnamed')]), rows, 'excel file')
        # the batch can be executed again (paths only: a stream has been consumed by its owner's rules)
        again = batch.execute(multiprocessing=not case['multi'], ignore_errors=case['ignore'], preserve_chaining_order=case['order'])
        check_rows(again.get_dataframe(), rows, 'second execution')
        # and with other settings
        order, ignore = case['order'] ^ case['again'][0], case['ignore'] ^ case['again'][1]
        rows, error = {}, set()
        for _, name, path in given:
            try:
                rows[name], _ = by_hand(path, case['program'], order, ignore)
            except Exception as exc:
                error.add(type(exc).__name__)
        run = lambda: batch.execute(multiprocessing=case['multi'], ignore_errors=ignore, preserve_chaining_order=order)
        if error:
            e = raises(run, Exception)
            expect(e is not None and type(e).__name__ in error, f'other settings: processing by hand raises {error}, the batch {e!r}')
        else:
            check_rows(run().get_dataframe(), rows, 'execution with other settings')
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@C.sub('many', lambda: st.fixed_dictionaries({'n': st.integers(9, 70), 'seed': st.integers(0, 2 ** 32 - 1), 'multi': st.booleans(), 'level': st.booleans(), 'order': st.booleans()}),
       quick=24, thorough=400, shards=4, tshards=8)
def many(case, rec):
    """dozens of files"""
    from surfalize import Surface
    from surfalize.batch import Batch
    folder = tempfile.mkdtemp(prefix='c19_')
    try:
        rng = np.random.Generator(np.random.PCG64(case['seed']))
        names = [f'm{k}.sur' for k in rng.permutation(1000)[:case['n']]]
        rows = {}
        for k, name in enumerate(names):
            z = rng.uniform(-1, 1, tuple(rng.integers(4, 9, 2)))
            path = os.path.join(folder, name)
            Surface(z, 0.5, 1.0).save(path)
            s = Surface.load(path)
            if case['level']:
                s.level(inplace=True)
            rows[name] = {p: getattr(s, p)() for p in ('Sa', 'Sz', 'Sdq')}
        rec.nontrivial()
        rec.label('parallel' if case['multi'] else 'sequential')
        batch = Batch([os.path.join(folder, n) for n in names])
        if case['level']:
            batch.level()
        done = []
        df = batch.Sa().Sz().Sdq().execute(multiprocessing=case['multi'], preserve_chaining_order=case['order'], on_file_complete=lambda r: done.append(r['file'])).get_dataframe()
        check_rows(df, rows, 'result')
        expect(sorted(done) == sorted(names), f'callback for {len(done)} of {len(names)} files')
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@st.composite
def gappy(draw):
    fs = draw(files())[:2]
    for f in fs:
        f['ny'], f['nx'] = max(f['ny'], 10), max(f['nx'], 10)
        if draw(st.integers(0, 2)) and f['fmt'] != '.xyz':
            f['kind'] = 'missing'
    return fs


@C.sub('operations', lambda: st.fixed_dictionaries({'files': gappy(), 'op': st.tuples(OPS, st.booleans()), 'op2': st.one_of(st.none(), st.tuples(OPS, st.booleans())), 'multi': st.booleans(), 'order': st.booleans()}),
       quick=400, thorough=6000, shards=8, tshards=8)
def operations(case, rec):
    """Every operation on its own, on files with and without missing points, before parameters that can be calculated afterwards."""
    from surfalize.batch import Batch
    program = [['op', *o[0], o[1]] for o in (case['op'], case['op2']) if o] + [['op', 'fill_nonmeasured', {}, False], ['list', ['Sa', 'Sz', 'Ssk', 'Sdr']]]
    folder = tempfile.mkdtemp(prefix='c19_')
    try:
        given = write_files(folder, case['files'])
        rows, error = {}, set()
        for _, name, path in given:
            try:
                rows[name] = by_hand(path, program, case['order'], True)[0]
            except Exception as e:
                error.add(type(e).__name__)
        batch = Batch([g[0] for g in given])
        register(batch, program)
        rec.nontrivial()
        rec.label(case['op'][0][0], 'error' if error else 'values')
        run = lambda: batch.execute(multiprocessing=case['multi'], preserve_chaining_order=case['order'])
        if error:
            e = raises(run, Exception)
            expect(e is not None and type(e).__name__ in error, f'processing by hand raises {error}, the batch {e!r}')
            return
        check_rows(run().get_dataframe(), rows, 'result')
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@C.sub('registration', lambda: st.fixed_dictionaries({
    'name': st.sampled_from(['Sa', 'Sz', 'Vmc', 'depth']), 'first': st.sampled_from([None, 'a', 'Sa']), 'second': st.sampled_from([None, 'a', 'Sa', 'Sz']),
    'other': st.sampled_from(['Sa', 'Sz', 'Vmc', 'depth']), 'how': st.sampled_from(['method', 'list', 'object'])}), quick=200, thorough=2000, shards=1)
def registration(case, rec):
    """two parameters with the same name would overwrite each other: refused"""
    from surfalize.batch import Batch, _Parameter
    b = Batch(['x.sur'])
    def add(name, custom, how):
        if how == 'method':
            getattr(b, name)(**({'custom_name': custom} if custom else {}))
        elif how == 'list' and not custom:
            b.roughness_parameters([name])
        else:
            b.roughness_parameters([_Parameter(name, custom_name=custom)])
    add(case['name'], case['first'], 'method')
    clash = (case['first'] or case['name']) == (case['second'] or case['other'])
    rec.nontrivial(clash)
    rec.label('clash' if clash else 'distinct')
    e = raises(lambda: add(case['other'], case['second'], case['how']), Exception)
    if clash:
        expect(type(e).__name__ == 'BatchError', f'second parameter named {case["second"] or case["other"]} accepted')
    else:
        expect(e is None, f'refused: {e!r}')


@C.sub('all', lambda: st.fixed_dictionaries({'files': files(), 'multi': st.booleans()}), quick=20, thorough=300, shards=2, tshards=4)
def all_parameters(case, rec):
    """roughness_parameters() without arguments registers every ISO parameter"""
    from surfalize import Surface
    from surfalize.batch import Batch
    folder = tempfile.mkdtemp(prefix='c19_')
    try:
        descs = [dict(d, kind='noise' if d['kind'] == 'missing' else d['kind']) for d in case['files']]
        given = write_files(folder, descs)
        rec.nontrivial(len(given) > 1)
        rows = {}
        for _, name, path in given:
            s = Surface.load(path)
            rows[name] = {n: getattr(s, n)() for n in Surface.ISO_PARAMETERS}
        df = Batch([g[0] for g in given]).roughness_parameters().execute(multiprocessing=case['multi']).get_dataframe()
        check_rows(df, rows, 'all parameters')
    finally:
        shutil.rmtree(folder, ignore_errors=True)


NAMES = st.lists(st.tuples(st.sampled_from(['a', 'b', 'c 1', 'P1_N2']), st.sampled_from(['.sur', '.sflz', '.SUR', '.txt', '.vk4', '.plu', '.plux', '.sdf', '.png'])), min_size=1, max_size=8, unique=True)


@C.sub('dirs', lambda: st.fixed_dictionaries({
    'names': NAMES, 'ext': st.one_of(st.none(), st.sampled_from(['.sur', '.sdf', '.plux']), st.lists(st.sampled_from(['.sur', '.sflz', '.vk4', '.sdf']), min_size=1, max_size=3, unique=True)),
    'more': st.one_of(st.none(), NAMES), 'how': st.sampled_from(['from_dir', 'add_dir']), 'as': st.sampled_from(['str', 'path'])}), quick=150, thorough=2000, shards=1)
def dirs(case, rec):
    from pathlib import Path
    from surfalize.batch import Batch
    from surfalize.file import supported_formats_read
    folder = tempfile.mkdtemp(prefix='c19_')
    try:
        names = [a + b for a, b in case['names']]
        for n in names:
            Path(folder, n).write_bytes(b'x')
        ext = case['ext']
        allowed = list(supported_formats_read) if ext is None else [ext] if isinstance(ext, str) else ext
        want = sorted(n for n in names if os.path.splitext(n)[1] in allowed)
        d = folder if case['as'] == 'str' else Path(folder)
        if case['how'] == 'from_dir':
            b = Batch.from_dir(d, file_extensions=ext)
        else:
            b = Batch([])
            expect(b.add_dir(d, file_extensions=ext) is b, 'add_dir returns the batch')
        rec.nontrivial(0 < len(want) < len(names))
        rec.label(case['how'], f'{len(want)} files')
        if case['more'] is not None:
            # another directory, whose files may have the same names
            os.mkdir(os.path.join(folder, 'more'))
            more = [a + b for a, b in case['more']]
            for n in more:
                Path(folder, 'more', n).write_bytes(b'y')
            rec.label('same names' if set(more) & set(names) else 'two directories')
            expect(b.add_dir(Path(folder, 'more'), file_extensions=ext) is b, 'add_dir returns the batch')
            want = sorted(want + [n for n in more if os.path.splitext(n)[1] in allowed])
            names = names + more
        upper = {n for n in names if os.path.splitext(n)[1] != os.path.splitext(n)[1].lower()}
        if not upper:
            expect(len(b) == len(want), f'{len(b)} files instead of {want}')
        if not hasattr(b, '_files'):
            return
        got = sorted(p.name for p in b._files)
        expect([g for g in got if g not in upper] == [w for w in want if w not in upper], f'files {got} instead of {want}')
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@C.sub('additional', lambda: st.fixed_dictionaries({
    'files': files(), 'perm': st.randoms(use_true_random=False).map(lambda r: r.random()), 'values': st.lists(st.integers(0, 99), min_size=4, max_size=4), 'multi': st.booleans(),
    'pattern': st.sampled_from([None, 'file<number|int>', 'f<x|str>e<number|int>'])}), quick=60, thorough=800, shards=3, tshards=6)
def additional(case, rec):
    """columns of the Excel table are joined by file name, whatever the order; fields of the file names become columns"""
    import pandas as pd
    from surfalize import Surface
    from surfalize.batch import Batch
    folder = tempfile.mkdtemp(prefix='c19_')
    try:
        descs = [dict(d, kind='noise' if d['kind'] == 'missing' else d['kind']) for d in case['files']]
        given = write_files(folder, descs)
        idx = np.random.default_rng(int(case['perm'] * 1e9)).permutation(len(given))
        table = os.path.join(folder, 'extra.xlsx')
        pd.DataFrame({'power': [case['values'][i] for i in idx], 'file': [given[i][1] for i in idx], 'note': [f'n{i}' for i in idx]}).to_excel(table, index=False)
        rec.nontrivial(len(given) > 1)
        rec.label(f'{len(given)} files', 'with template' if case['pattern'] else 'table only')
        nofile = os.path.join(folder, 'nofile.xlsx')
        pd.DataFrame({'power': case['values'], 'files': case['values']}).to_excel(nofile, index=False)
        expect(isinstance(raises(lambda: Batch([g[0] for g in given], additional_data=nofile), Exception), ValueError), "a table without the column 'file' is not refused")
        b = Batch([g[0] for g in given], additional_data=table).Sa()
        if case['pattern']:
            expect(b.extract_from_filename(case['pattern']) is b, 'extract_from_filename returns the batch')
        df = b.execute(multiprocessing=case['multi']).get_dataframe()
        rows = {}
        for i, (_, name, path) in enumerate(given):
            rows[name] = {'Sa': Surface.load(path).Sa(), 'power': case['values'][i]}
            if case['pattern']:
                rows[name]['number'] = i
        drop = ['note'] + (['x'] if case['pattern'] and '<x' in case['pattern'] else [])
        check_rows(df.drop(columns=drop), rows, 'joined result')
        for _, line in df.iterrows():
            i = [g[1] for g in given].index(line['file'])
            expect(line['note'] == f'n{i}', f'note {line["note"]} for {line["file"]}')
            if 'x' in drop:
                expect(line['x'] == 'il', f'x = {line["x"]}')
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@C.sub('stats', lambda: st.fixed_dictionaries({'file': files().map(lambda f: f[:1]), 'multi': st.booleans(), 'n': st.integers(1, 12)}), quick=30, thorough=300, shards=2)
def many(case, rec):
    """many files at once: every row belongs to its own file"""
    from surfalize import Surface
    from surfalize.batch import Batch
    folder = tempfile.mkdtemp(prefix='c19_')
    try:
        descs = [dict(case['file'][0], kind='noise', seed=(case['file'][0]['seed'] + 17 * i) % 2 ** 32) for i in range(case['n'])]
        given = write_files(folder, descs)
        rec.nontrivial(case['n'] > 2)
        rows = {}
        for _, name, path in given:
            s = Surface.load(path)
            s.level(inplace=True)
            rows[name] = {'Sa': s.Sa(), 'Sz': s.Sz()}
        df = Batch([g[0] for g in given]).level().Sa().Sz().execute(multiprocessing=case['multi']).get_dataframe()
        check_rows(df, rows, 'many files')
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@C.sub('failing', lambda: st.fixed_dictionaries({
    'seeds': st.lists(st.integers(0, 2 ** 32 - 1), min_size=1, max_size=4), 'pars': st.lists(st.sampled_from(['depth', 'aspect', 'orientation', 'Sa', 'custom']), min_size=1, max_size=5, unique=True),
    'name': st.sampled_from([None, None, 'd']), 'multi': st.booleans(), 'ignore': st.sampled_from([True, True, True, False])}), quick=120, thorough=2000, shards=3, tshards=6)
def failing(case, rec):
    """surfaces on which the depth cannot be determined: the values are missing in the columns they belong to"""
    from surfalize import Surface
    from surfalize.batch import Batch
    from surfalize.exceptions import CalculationError
    folder = tempfile.mkdtemp(prefix='c19_')
    try:
        given = write_files(folder, [{'kind': 'mixed' if i % 3 != 2 else 'grating', 'seed': v, 'ny': 24, 'nx': 40, 'sx': 1.0, 'sy': 1.0, 'fmt': '.sflz', 'source': 'str'} for i, v in enumerate(case['seeds'])])
        program = []
        for p in case['pars']:
            program.append({'depth': ['par', 'depth', {'nprofiles': 20}, case['name']], 'aspect': ['par', 'orientation', {'method': 'fft'}, 'o'], 'orientation': ['par', 'orientation', {}, None],
                            'Sa': ['par', 'Sa', {}, None], 'custom': ['cpar', 2]}[p])
        rows, error, n = {}, set(), 0
        for _, name, path in given:
            try:
                rows[name], k = by_hand(path, program, True, case['ignore'])
                n += k
            except Exception as e:
                error.add(type(e).__name__)
        b = Batch([g[0] for g in given])
        register(b, program)
        rec.label('error' if error else f'{n} failing')
        rec.nontrivial(bool(error) or n > 0)
        run = lambda: b.execute(multiprocessing=case['multi'], ignore_errors=case['ignore'])
        if error:
            e = raises(run, Exception)
            expect(e is not None and type(e).__name__ in error, f'processing by hand raises {error}, the batch {e!r}')
            return
        check_rows(run().get_dataframe(), rows, 'result')
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@C.sub('twins', lambda: st.fixed_dictionaries({'n': st.integers(2, 5), 'same': st.lists(st.booleans(), min_size=5, max_size=5), 'multi': st.booleans()}), quick=40, thorough=600, shards=2, tshards=4)
def twins(case, rec):
    """files of the same name (in different folders), partly with the same content: every one has its row and its callback"""
    from surfalize import Surface
    from surfalize.batch import Batch
    folder = tempfile.mkdtemp(prefix='c19_')
    try:
        paths, want = [], []
        for i in range(case['n']):
            os.mkdir(os.path.join(folder, str(i)))
            p = os.path.join(folder, str(i), 'a.sflz')
            s = Surface(np.random.default_rng(0 if case['same'][i] else i).normal(size=(8, 9)), 1.0, 1.0)
            s.save(p)
            paths.append(p)
            want.append(Surface.load(p).Sa())
        rec.nontrivial()
        rec.label(f'{len(set(want))} different of {len(want)}')
        done = []
        df = Batch(paths).Sa().execute(multiprocessing=case['multi'], on_file_complete=lambda r: done.append(r['Sa'])).get_dataframe()
        expect(list(df['file']) == ['a.sflz'] * case['n'], f'rows {list(df["file"])} for {case["n"]} files of the same name')
        expect(np.allclose(sorted(df['Sa']), sorted(want), rtol=1e-12), 'values of files of the same name')
        expect(np.allclose(sorted(done), sorted(want), rtol=1e-12) if len(done) == len(want) else False, f'{len(done)} callbacks for {len(want)} files')
    finally:
        shutil.rmtree(folder, ignore_errors=True)
