"""C20: filename templates extract exactly the encoded values."""
import string

import numpy as np
from hypothesis import strategies as st

from lib.harness import Check, expect, fail, raises

C = Check('C20', 'A case is a template of typed fields with prefixes, suffixes and separators and several rows of values from which the file '
                 'names are composed, or a malformed template. Non-trivial: at least two fields, or malformed; distinct by the full case description.')

# fixed text never contains characters which can occur in the values, so that every name has a single reading
FIXED = st.text(st.sampled_from('ABFREPHZ_-_- +()[]{}^$*?.\\/#&~!=%µ@'), min_size=1, max_size=5)
names = st.one_of(st.sampled_from(['power', 'N', 'freq', 'x1', 'µ', '_a', 'Name', 'for', 'index', 'size']), st.text(st.sampled_from(string.ascii_letters + '_'), min_size=1, max_size=5))
VALUES = {'int': st.one_of(st.integers(0, 300), st.integers(0, 10 ** 15)).map(str),
          'zint': st.tuples(st.integers(0, 3), st.integers(0, 99)).map(lambda t: '0' * t[0] + str(t[1])),
          'float': st.tuples(st.integers(0, 9999), st.sampled_from(['', '.', ',', '.0', ',0']), st.integers(0, 99999)).map(lambda t: f'{t[0]}{t[1]}{t[2]}' if t[1] else str(t[0])),
          'str': st.text(st.sampled_from('abcdxyzö 0123456789,;|<>:\'"'), min_size=1, max_size=6)}


@st.composite
def templates(draw):
    n = draw(st.integers(1, 5))
    fs = []
    ids = draw(st.lists(names, min_size=n, max_size=n, unique=True))
    rows = draw(st.integers(1, 4))
    seps = [draw(st.one_of(st.just(''), FIXED))]
    for i in range(n):
        t = draw(st.sampled_from(['int', 'float', 'str', 'int', 'float']))
        prefix = draw(st.one_of(st.just(''), st.just(''), FIXED))
        suffix = draw(st.one_of(st.just(''), st.just(''), FIXED))
        kind = 'zint' if t == 'int' and draw(st.integers(0, 3)) == 0 else t
        fs.append({'name': ids[i], 'type': t, 'prefix': prefix, 'suffix': suffix, 'short': draw(st.booleans()),
                   'values': draw(st.lists(VALUES[kind], min_size=rows, max_size=rows))})
        seps.append(draw(FIXED if i < n - 1 else st.one_of(st.just(''), FIXED)))
    for i in range(n - 1):                                       # separators which could also be a part of the values before or after them
        between = fs[i]['suffix'] + seps[i + 1] + fs[i + 1]['prefix']
        if not between.strip(' .' if fs[i]['type'] == 'str' else '.'):
            seps[i + 1] += '_'
    # free text followed by more of the template: the template must cover the whole name, or there would be several readings
    free = any(f['type'] == 'str' for f in fs[:-1]) or (fs[-1]['type'] == 'str' and fs[-1]['suffix'] + seps[-1])
    return {'fields': fs, 'seps': seps, 'ext': draw(st.sampled_from(['.sur', '.vk4', '.SFLZ', ''])), 'with_ext': True if free else draw(st.booleans()),
            'via': draw(st.sampled_from(['result', 'parser', 'batch'])), 'after': draw(st.booleans())}


def template_of(case):
    out = case['seps'][0]
    for f, sep in zip(case['fields'], case['seps'][1:]):
        parts = [f['name'], f['type'], f['prefix'], f['suffix']]
        if f['short']:
            while len(parts) > 2 and not parts[-1]:
                parts.pop()
        out += '<' + '|'.join(parts) + '>' + sep
    return out + (case['ext'] if case['with_ext'] else '')


def compose(case, i):
    out = case['seps'][0]
    for f, sep in zip(case['fields'], case['seps'][1:]):
        out += f['prefix'] + f['values'][i] + f['suffix'] + sep
    return out + case['ext']


def by_batch(files, template):
    """The table of a batch whose files have these names (their content does not matter)."""
    import io

    from surfalize import Surface
    from surfalize.batch import Batch, FileInput
    inputs = []
    for f in files:
        data = io.BytesIO()
        Surface(np.eye(3), 1, 1).save(data, format='.sdf')
        data.seek(0)
        inputs.append(FileInput(f, data, '.sdf'))
    seen = iter(range(len(files)))

    def row(surface):
        i = next(seen)
        return {'other': i, 'Sa': float(np.linspace(0, 1, len(files))[i])}
    return Batch(inputs).custom_parameter(row).extract_from_filename(template).execute(multiprocessing=False).get_dataframe()


@C.sub('extract', templates, quick=1500, thorough=25000, shards=4, tshards=8)
def extract(case, rec):
    import pandas as pd
    from surfalize.batch import Batch, BatchResult, FilenameParser
    fs = case['fields']
    template = template_of(case)
    files = [compose(case, i) for i in range(len(fs[0]['values']))]
    rec.nontrivial(len(fs) > 1)
    rec.label(f'{len(fs)} fields', case['via'], *{f['type'] for f in fs})
    df = pd.DataFrame({'other': np.arange(len(files)), 'file': files, 'Sa': np.linspace(0, 1, len(files))})
    before = df.copy()
    if case['via'] == 'result':
        r = BatchResult(df)
        expect(r.extract_from_filename(template) is None or True, '')
        got = r.get_dataframe()
        place = True
    elif case['via'] == 'parser':
        place = case['after']
        got = FilenameParser(template).apply_on(df, 'file', insert_after_column=place)
    else:
        got = by_batch(files, template)
        before = before[['file', 'other', 'Sa']]
        place = None
    if place is not None:
        expect(list(df.columns) == list(before.columns), 'the original table has been changed')
    ids = [f['name'] for f in fs]
    want = ['file'] + ids + ['other', 'Sa'] if place is None else ['other', 'file'] + ids + ['Sa'] if place else ['other', 'file', 'Sa'] + ids
    expect(list(got.columns) == want, f'{template!r}: columns {list(got.columns)} instead of {want}')
    for c in before.columns:
        expect(list(got[c]) == list(before[c]), f'column {c} has been changed')
    for k, f in enumerate(fs):
        last = k == len(fs) - 1 and f['suffix'] == '' and case['seps'][-1] == '' and not (case['with_ext'] and case['ext'])
        for i, raw in enumerate(f['values']):
            v = got[f['name']].iloc[i]
            if f['type'] == 'int':
                expect(isinstance(v, (int, np.integer)) and int(v) == int(raw), f'{template!r} on {files[i]!r}: {f["name"]} = {v!r} instead of {raw}')
            elif f['type'] == 'float':
                expect(isinstance(v, (float, np.floating)) and float(v) == float(raw.replace(',', '.')), f'{template!r} on {files[i]!r}: {f["name"]} = {v!r} instead of {raw}')
            else:
                text = raw + (case['ext'] if last else '')        # free text at the end takes the rest of the name
                expect(isinstance(v, str) and v == text, f'{template!r} on {files[i]!r}: {f["name"]} = {v!r} instead of {text!r}')


@st.composite
def malformed(draw):
    case = draw(templates())
    t = template_of(case)
    how = draw(st.sampled_from(['unclosed', 'unopened', 'nested', 'type', 'no type', 'empty']))
    opens = [i for i, c in enumerate(t) if c == '<']
    closes = [i for i, c in enumerate(t) if c == '>']
    k = draw(st.integers(0, len(opens) - 1))
    if how == 'unclosed':
        t = t[:closes[k]] + t[closes[k] + 1:]
    elif how == 'unopened':
        t = t[:opens[k]] + t[opens[k] + 1:]
    elif how == 'nested':
        t = t[:opens[k]] + '<' + t[opens[k]:]
    elif how == 'type':
        f = t[opens[k] + 1:closes[k]].split('|')
        f[1] = draw(st.sampled_from(['Int', 'double', 'string', '', 'floats', 'str ']))
        t = t[:opens[k] + 1] + '|'.join(f) + t[closes[k]:]
    elif how == 'no type':
        t = t[:opens[k] + 1] + case['fields'][k]['name'] + t[closes[k]:]
    else:
        t = t[:opens[k] + 1] + t[closes[k]:]
    return {'how': how, 'template': t, 'via': draw(st.sampled_from(['result', 'parser', 'batch']))}


@C.sub('malformed', malformed, quick=500, thorough=8000, shards=2, tshards=4)
def bad(case, rec):
    import pandas as pd
    from surfalize.batch import Batch, BatchResult, FilenameParser, ParsingError
    df = pd.DataFrame({'file': ['A1_B2.sur', 'x.sur'], 'Sa': [1.0, 2.0]})
    rec.nontrivial()
    rec.label(case['how'])
    if case['via'] == 'result':
        f = lambda: BatchResult(df).extract_from_filename(case['template'])
    elif case['via'] == 'parser':
        f = lambda: FilenameParser(case['template']).apply_on(df, 'file')
    else:
        f = lambda: by_batch(list(df['file']), case['template'])
    e = raises(f, Exception)
    expect(isinstance(e, ParsingError), f'{case["how"]} template {case["template"]!r}: {e!r}')


@C.sub('existing', lambda: st.fixed_dictionaries({'v': st.lists(st.integers(0, 99), min_size=1, max_size=5), 'name': st.sampled_from(['Sa', 'new'])}), quick=60, thorough=300, shards=1)
def existing(case, rec):
    """several templates one after the other; a column of the same name is replaced in place"""
    import pandas as pd
    from surfalize.batch import BatchResult
    files = [f'P{v}_N{v + 1},5_end.sur' for v in case['v']]
    r = BatchResult(pd.DataFrame({'file': files, 'Sa': [0.0] * len(files)}))
    rec.nontrivial(len(files) > 1)
    r.extract_from_filename(f'<{case["name"]}|int|P>_')
    r.extract_from_filename('_<n|float|N>_end')
    cols = ['file', 'n', 'Sa'] if case['name'] == 'Sa' else ['file', 'n', 'new', 'Sa']
    expect(list(r.get_dataframe().columns) == cols, f'columns {list(r.get_dataframe().columns)}')
    expect([int(x) for x in r[case['name']]] == case['v'], 'values of the first template')
    expect([float(x) for x in r['n']] == [v + 1.5 for v in case['v']], 'values of the second template')
