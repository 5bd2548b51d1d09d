"""C21: surface arithmetic, equality and hashing are consistent."""
import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.harness import Check, close, close_arr, expect, fail, raises, same_arr

C = Check('C21', 'A case is a surface with a second one derived from it (or a number) and an operation. Non-trivial: the operands differ '
                 'or the operation is arithmetic with non-constant heights; distinct by the full case description.')

OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}
KW = dict(nan=True, dtypes=('float64', 'float64', 'float32', 'int32'), allow_const=True, max_side=12)
DT = ('float64', 'float64', 'float32')


def surf(allow_nan=True):
    return gen.surfaces(nan=True, dtypes=DT, allow_const=True, max_side=10, big=40)


@st.composite
def arithmetic_cases(draw):
    s = draw(surf())
    c = {'s': s, 'op': draw(st.sampled_from('+-*/')), 'kind': draw(st.sampled_from(['surface', 'surface', 'int', 'float', 'left int', 'left float', 'step', 'shape', 'other', 'bool']))}
    c['seed'] = draw(st.integers(0, 2 ** 16))
    c['nan'] = draw(st.lists(st.integers(0, s['f']['shape'][0] * s['f']['shape'][1] - 1), max_size=2))
    c['number'] = draw(st.one_of(st.integers(-5, 9), st.sampled_from([0.25, -3.5, 1e3, 1e-3, 1e-9, 1e12, 255, 256, 65536, -40000, 2 ** 31, 2 ** 33, -2 ** 40])))
    c['dtype'] = draw(st.sampled_from(DT))
    c['change'] = draw(st.sampled_from(['x', 'y', 'swap', 'row', 'column', 'transpose']))
    c['junk'] = draw(st.sampled_from(['text', 'none', 'list', 'array', 'profile', 'complex']))
    return c


def second(s, c):
    from surfalize import Surface
    r = np.random.Generator(np.random.PCG64(c['seed']))
    z = r.uniform(0.5, 3, s.data.shape)
    z[r.random(z.shape) < 0.3] *= -1
    z.flat[c['nan']] = np.nan
    return Surface(z.astype(c['dtype']), s.step_x, s.step_y)


@C.sub('arithmetic', arithmetic_cases, quick=1500, thorough=25000, shards=3, tshards=8)
def arithmetic(case, rec):
    from surfalize import Profile, Surface
    s = gen.surface(case['s'])
    z = np.array(s.data)
    op, kind = OPS[case['op']], case['kind']
    rec.label(case['op'], kind)
    if kind in ('step', 'shape'):
        t = second(s, case)
        d, sx, sy = np.array(t.data), s.step_x, s.step_y
        if kind == 'step':
            if case['change'] == 'x':
                sx *= 1.001
            elif case['change'] == 'y':
                sy *= 0.5
            else:
                sx, sy = sy, sx
        elif case['change'] in ('row', 'x'):
            d = np.vstack([d, d[:1]])
        elif case['change'] in ('column', 'y'):
            d = np.hstack([d, d[:, :1]])
        else:
            d = d.T.copy()
        if (sx, sy) == (s.step_x, s.step_y) and d.shape == z.shape:
            return
        t = Surface(d, sx, sy)
        rec.nontrivial()
        for a, b in ((s, t), (t, s)):
            e = raises(lambda: op(a, b), ValueError)
            expect(e is not None, f'{case["op"]} of surfaces with different {kind} is not refused')
        return
    if kind == 'other':
        junk = {'text': 'a', 'none': None, 'list': [1.0], 'array': None, 'profile': Profile(np.arange(4.0), 1.0), 'complex': 1j}[case['junk']]
        rec.nontrivial()
        e = raises(lambda: op(s, junk), (ValueError, TypeError))
        expect(e is not None, f'{case["op"]} with {junk!r} is not refused')
        return
    rec.nontrivial(np.nanmax(z) > np.nanmin(z))
    left = kind.startswith('left')
    if kind == 'surface':
        t = second(s, case)
        w = np.array(t.data)
        r = op(s, t)
    else:
        t = case['number']
        t = int(t) if 'int' in kind else float(t)
        if kind == 'bool':
            t = 2
        if t == 0 and case['op'] == '/':
            t = 3
        w = t
        if left:
            if case['op'] == '/':
                return
            r = op(t, s)
        else:
            r = op(s, t)
    a, b = (w, z) if left else (z, w)
    want = np.empty(z.shape)
    for idx in np.ndindex(z.shape):
        x = float(a[idx]) if isinstance(a, np.ndarray) else float(a)
        y = float(b[idx]) if isinstance(b, np.ndarray) else float(b)
        want[idx] = {'+': x + y, '-': x - y, '*': x * y, '/': x / y if y else np.nan}[case['op']]
    expect(type(r) is Surface, f'result of type {type(r)}')
    single = z.dtype == np.float32 or (isinstance(w, np.ndarray) and w.dtype == np.float32)
    big = max(np.nanmax(np.abs(z)), np.nanmax(np.abs(w))) if not np.isnan(w).all() else 0.0
    close_arr(np.array(r.data), want, f'{kind} {case["op"]}', rtol=3e-7 if single else 1e-14, atol=3e-7 * big if single and case['op'] in '+-' else 0)
    expect((r.step_x, r.step_y) == (s.step_x, s.step_y), 'spacing of the result')
    same_arr(np.array(s.data), z, 'the first operand')
    if kind == 'surface':
        same_arr(np.array(t.data), w, 'the second operand')
    # the result does not share heights with its operands
    r[0, 0] = 12345.0
    same_arr(np.array(s.data), z, 'the first operand after editing the result')


VARIANTS = ('copy', 'layout', 'float64', 'height', 'tiny', 'nan added', 'nan moved', 'nan removed', 'step x', 'step y', 'swap', 'transpose', 'row', 'column', 'reshape', 'flip', 'other type')


@C.sub('large', lambda: st.fixed_dictionaries({
    'shape': st.tuples(st.sampled_from([4, 7, 8, 9, 10, 10, 11]), st.sampled_from([4, 8, 9, 10, 10, 11]), st.integers(-3, 3), st.integers(-3, 3)), 'at': st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0])), 'seed': st.integers(0, 2 ** 16),
    'variant': st.sampled_from(['height', 'height', 'height', 'nan added', 'nan moved', 'copy', 'small']), 'op': st.sampled_from('+-*/'), 'dtype': st.sampled_from(['float64', 'float64', 'float32'])}), quick=96, thorough=1200, shards=4, tshards=8)
def large(case, rec):
    """one different height among up to four million"""
    from surfalize import Surface
    a, b, da, db = case['shape']
    shape = (max(4, 2 ** a + da), max(4, 2 ** b + db))
    z = np.random.Generator(np.random.PCG64(case['seed'])).random(shape, 'float32').astype(case['dtype']) + np.asarray(0.5, case['dtype'])
    i = min(int(case['at'] * z.size), z.size - 1)
    v = case['variant']
    if v == 'nan moved':
        z.flat[(i + 1) % z.size] = np.nan
    w = z.copy()
    if v == 'height':
        w.flat[i] += 1
    elif v == 'small':
        w.flat[i] += np.asarray(1e-6, w.dtype)
    elif v != 'copy':
        w.flat[i] = np.nan
        if v == 'nan moved':
            w.flat[(i + 1) % z.size] = 1
    s, t = Surface(z.copy(), 0.5, 0.25), Surface(w.copy(), 0.5, 0.25)
    rec.nontrivial()
    rec.label(v, f'10^{int(np.log10(z.size))} points')
    same = v == 'copy'
    expect(bool(s == t) is same and bool(t == s) is same and bool(s != t) is not same, lambda: f'{v} at point {i} of {z.size}: {"not " if same else ""}equal')
    if same:
        expect(hash(s) == hash(t), 'hashes of equal surfaces differ')
    r = np.array(OPS[case['op']](s, t).data)
    want = OPS[case['op']](z.astype('float64'), w.astype('float64'))
    close_arr(r, want, f'{case["op"]} of {z.size} heights', rtol=1e-14 if z.dtype == np.float64 else 3e-7, atol=0 if z.dtype == np.float64 else 1e-6)


@C.sub('equality', lambda: st.fixed_dictionaries({
    's': surf(), 'variant': st.sampled_from(VARIANTS), 'at': st.floats(0, 0.999), 'to': st.floats(0, 0.999), 'delta': st.sampled_from([1e-9, -2e-10, 1e-6, 1.0, -1e3, 1e-11]),
    'cached': st.booleans()}), quick=2500, thorough=40000, shards=4, tshards=8)
def equality(case, rec):
    from surfalize import Profile, Surface
    s = gen.surface(case['s'])
    z = np.array(s.data)
    sx, sy = s.step_x, s.step_y
    d = z.copy()
    v = case['variant']
    i, j = int(case['at'] * d.size), int(case['to'] * d.size)
    equal = True
    if case['cached']:
        s.width_um, raises(lambda: s.Sa(), Exception), hash(s)
    if v == 'layout':
        d = np.asfortranarray(d)
    elif v == 'float64':
        d = d.astype('float64')
    elif v in ('height', 'tiny'):
        d = d.astype('float64')
        d.flat[i] += case['delta']
        diff = abs(d.flat[i] - float(z.flat[i]))
        if 0 < diff < 1.5e-10:
            equal = None                       # within the resolution of the comparison: only consistency is required
        else:
            equal = not diff > 0
    elif v == 'nan added':
        equal = bool(np.isnan(d.flat[i]))
        d.flat[i] = np.nan
    elif v == 'nan moved':
        equal = bool(np.isnan(d.flat[i]) == np.isnan(d.flat[j])) and (i == j or bool(np.isnan(d.flat[i])) or d.flat[i] == d.flat[j])
        d.flat[[i, j]] = d.flat[[j, i]]
        if equal is False and not (np.isnan(d.flat[i]) or np.isnan(d.flat[j])) and abs(float(d.flat[i]) - float(d.flat[j])) < 1.5e-10:
            equal = None
    elif v == 'nan removed':
        equal = not np.isnan(d).any()
        d[np.isnan(d)] = 0.0
    elif v == 'step x':
        sx = float(np.nextafter(sx, 1e9)) if case['at'] < 0.5 else sx * 1.5
        equal = False
    elif v == 'step y':
        sy = float(np.nextafter(sy, 1e9)) if case['at'] < 0.5 else sy * 1.5
        equal = False
    elif v == 'swap':
        sx, sy = sy, sx
        equal = sx == sy
    elif v in ('transpose', 'row', 'column', 'reshape', 'flip'):
        if v == 'transpose':
            d = d.T.copy()
        elif v == 'row':
            d = np.vstack([d, d[-1:]])
        elif v == 'column':
            d = np.hstack([d[:, :1], d])
        elif v == 'reshape':
            d = d.reshape(d.shape[1], d.shape[0])
        else:
            d = d[::-1].copy()
        equal = d.shape == z.shape and bool(np.array_equal(np.isnan(d), np.isnan(z)))
        if equal:
            m = ~np.isnan(z)
            diff = np.abs(d[m].astype('float64') - z[m])
            equal = None if 0 < diff.max(initial=0) < 1.5e-10 else bool(diff.max(initial=0) == 0)
    rec.label(v, {True: 'equal', False: 'different', None: 'within resolution'}[equal])
    expect(s == s, 'a surface is not equal to itself')
    if v == 'other type':
        rec.nontrivial()
        for o in (None, 1, 1.5, 'x', z, [1], Profile(np.arange(4.0), 1.0), object()):
            if isinstance(o, np.ndarray):
                expect(s.__eq__(o) is False, 'equal to an array')
                continue
            expect((s == o) is False and (o == s) is False and s != o, f'comparison with {type(o).__name__} is not false')
        return
    t = Surface(d, sx, sy)
    rec.nontrivial(equal is not True or v in ('layout', 'float64'))
    a, b = s == t, t == s
    expect(isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)), 'the comparison is not a boolean')
    expect(a == b, f'{v}: equality is not symmetric')
    expect((s != t) == (not a), f'{v}: != contradicts ==')
    if equal is not None:
        expect(bool(a) == equal, f'{v} at {i}: {"not " if equal else ""}equal expected')
    if a:
        expect(hash(s) == hash(t), f'{v}: equal surfaces with different hashes')
        expect(len({s, t}) == 1 and t in {s: 1}, f'{v}: equal surfaces are two keys')
    elif equal is False:
        expect(len({s, t}) == 2 and t not in [s], f'{v}: different surfaces are one key')


@C.sub('edits', lambda: st.fixed_dictionaries({'s': surf(), 'i': st.floats(0, 0.999), 'how': st.sampled_from(['item', 'data', 'center', 'crop', 'step'])}),
       quick=400, thorough=5000, shards=2)
def edits(case, rec):
    """equality and hash follow the present state, not an earlier one"""
    from surfalize import Surface
    s, t = gen.surface(case['s']), gen.surface(case['s'])
    hash(s), hash(t), s == t
    z = np.array(s.data)
    idx = np.unravel_index(int(case['i'] * z.size), z.shape)
    if case['how'] == 'item':
        s[idx] = np.nanmax(z) + max(5, np.nanmax(np.abs(z)))
    elif case['how'] == 'data':
        w = z.astype('float64')
        w[idx] = np.nanmax(z) + max(5, np.nanmax(np.abs(z)))
        s.data = w
    elif case['how'] == 'center':
        s = s + (np.nanmax(z) - np.nanmin(z) + max(5.0, np.nanmax(np.abs(z)))).item()
    elif case['how'] == 'crop':
        if z.shape[1] < 3:
            return
        s.crop((0, z.shape[1] - 2, 0, z.shape[0] - 1), in_units=False, inplace=True)
    else:
        s = Surface(z, s.step_x * 2, s.step_y)
    rec.nontrivial()
    rec.label(case['how'])
    expect(not s == t and not t == s, f'{case["how"]}: still equal after the change')
    u = Surface(np.array(s.data), s.step_x, s.step_y)
    expect(s == u and hash(s) == hash(u), f'{case["how"]}: not equal to a new surface with the same heights')
