"""C24: unit conversion is exact and consistent."""
import encodings
import functools
import pkgutil
from fractions import Fraction

from hypothesis import strategies as st

from lib.harness import Check, close, expect, fail, num, raises

C = Check('C24', 'A case is two or three spellings of length units (symbol or name, letter case, micro sign, wrongly decoded micro sign), or '
                 'a text which is no unit. Non-trivial: different units or different spellings; distinct by the full case description.')

EXP = {'m': 0, 'dm': -1, 'cm': -2, 'mm': -3, 'um': -6, 'nm': -9, 'pm': -12}
NAME = {'m': 'meter', 'dm': 'decimeter', 'cm': 'centimeter', 'mm': 'millimeter', 'um': 'micrometer', 'nm': 'nanometer', 'pm': 'picometer'}


# every encoding whose confusion is resolved (the list the library supports)
ENCODINGS = """ascii big5 big5hkscs cp037 cp273 cp424 cp437 cp500 cp720 cp737 cp775 cp850 cp852 cp855 cp856 cp857 cp858 cp860 cp861 cp862 cp863 cp864 cp865
cp866 cp869 cp874 cp875 cp932 cp949 cp950 cp1006 cp1026 cp1125 cp1140 cp1250 cp1251 cp1252 cp1253 cp1254 cp1255 cp1256 cp1257 cp1258 euc_jp
euc_jis_2004 euc_jisx0213 euc_kr gb2312 gbk gb18030 hz iso2022_jp iso2022_jp_1 iso2022_jp_2 iso2022_jp_2004 iso2022_jp_3 iso2022_jp_ext
iso2022_kr latin_1 iso8859_2 iso8859_3 iso8859_4 iso8859_5 iso8859_6 iso8859_7 iso8859_8 iso8859_9 iso8859_10 iso8859_11 iso8859_13
iso8859_14 iso8859_15 iso8859_16 johab koi8_r koi8_t koi8_u kz1048 mac_cyrillic mac_greek mac_iceland mac_latin2 mac_roman mac_turkish
ptcp154 shift_jis shift_jis_2004 shift_jisx0213 utf_32 utf_32_be utf_32_le utf_16 utf_16_be utf_16_le utf_7 utf_8 utf_8_sig""".split()


@functools.cache
def misread():
    """texts which appear when a micro sign is written in one encoding and read in another"""
    out = set()
    for a in ENCODINGS:
        for b in ENCODINGS:
            try:
                t = 'µ'.encode(a).decode(b)
            except (UnicodeError, LookupError):
                continue
            if t.lower() not in ('', 'm', 'd', 'c', 'n', 'p', 'u') and '\x00' not in t:
                out.add(t)
    return sorted(out)


@functools.cache
def every_misread():
    names = {m.name for m in pkgutil.iter_modules(encodings.__path__)}
    out = set()
    for a in names:
        try:
            raw = 'µ'.encode(a)
        except Exception:
            continue
        for b in names:
            try:
                out.add(raw.decode(b))
            except Exception:
                pass
    return out


@st.composite
def cased(draw, text):
    mode = draw(st.sampled_from(['as is', 'as is', 'upper', 'title', 'mixed']))
    if mode == 'upper':
        return text.upper()
    if mode == 'title':
        return text.title()
    if mode == 'mixed':
        return ''.join(c.upper() if draw(st.booleans()) else c for c in text)
    return text


@st.composite
def units(draw):
    u = draw(st.sampled_from(sorted(EXP) + ['um', 'um']))
    if u == 'um':
        t = draw(st.sampled_from(['um', 'µm', 'μm', '㎛', 'micrometer', 'misread', 'misread']))
        if t == 'misread':
            t = draw(st.sampled_from(misread())) + 'm'
            if draw(st.integers(0, 4)) == 0:
                t = t[:-1] + 'M'
            return [u, t]
        return [u, draw(cased(t))]
    return [u, draw(cased(draw(st.sampled_from([u, NAME[u]]))))]


@C.sub('pairs', lambda: st.tuples(units(), units(), units()).map(list), quick=4000, thorough=60000, shards=4, tshards=8)
def pairs(case, rec):
    from surfalize.file.common import get_unit_conversion
    (a, ta), (b, tb), (c, tc) = case
    rec.nontrivial(a != b or ta != tb)
    rec.label(*{a, b})
    f = num(get_unit_conversion(ta, tb), 'factor')
    want = float(Fraction(10) ** (EXP[a] - EXP[b]))
    close(f, want, f'factor from {ta!r} to {tb!r}', rtol=3e-16)
    back = num(get_unit_conversion(tb, ta), 'factor')
    close(f * back, 1.0, f'{ta!r} to {tb!r} and back', rtol=1e-15)
    close(f * get_unit_conversion(tb, tc), get_unit_conversion(ta, tc), f'{ta!r} over {tb!r} to {tc!r}', rtol=1e-15)
    # the spelling does not matter
    close(f, get_unit_conversion(a, b), f'spellings {ta!r}, {tb!r}', rtol=0)


@C.sub('every', lambda: st.just(0), quick=1, thorough=1, shards=1)
def every(case, rec):
    """all plain spellings and all common misreadings once"""
    from surfalize.file.common import get_unit_conversion
    n = 0
    plain = [(u, t) for u in EXP for t in {u, NAME[u], u.upper(), NAME[u].upper(), NAME[u].title()}] + [('um', t) for t in ('µm', 'μm', '㎛', 'µM', 'ΜM', 'UM', 'Um')]
    for u, t in plain + [('um', t + 'm') for t in misread()]:
        close(get_unit_conversion(t, 'pm'), 10.0 ** (EXP[u] + 12), f'{t!r} to pm', rtol=3e-16)
        close(get_unit_conversion('m', t), 10.0 ** -EXP[u], f'm to {t!r}', rtol=3e-16)
        n += 1
    rec.nontrivial(n > 50)
    rec.label(f'{n} spellings')


def is_unit(t):
    low = t.lower()
    if low in EXP or low in NAME.values():
        return True
    for alias in ('µ', 'μ'):
        low = low.replace(alias, 'u')
    if low in ('um', '㎛', 'umm') or t in ('㎛',):
        return True
    if low in EXP or low in NAME.values():
        return True
    return low.endswith('m') and (t[:-1] in every_misread() or t[:-1].lower() in {x.lower() for x in every_misread()} or low[:-1] in every_misread())


@C.sub('unknown', lambda: st.tuples(st.one_of(st.sampled_from(['', ' ', 'm ', ' mm', 'km', 'inch', 'in', 'Å', 'ft', 'mmm', 'µ', 'u', 'mu', 'meters', 'µmm', 'metre', 'm²', 'um/px', 'nm\x00', 'x', 'hm', 'fm', 'am', 's', 'V', 'deg', '1', 'none']),
                                              st.text(max_size=6)), units(), st.sampled_from([True, False, None])).map(list), quick=800, thorough=10000, shards=2)
def unknown(case, rec):
    from surfalize.file.common import get_unit_conversion
    t, (u, s), first = case
    if is_unit(t) and t not in ('µmm',):
        return
    rec.nontrivial()
    pair = (t, t) if first is None else (t, s) if first else (s, t)
    e = raises(lambda: get_unit_conversion(*pair), Exception)
    expect(isinstance(e, ValueError), lambda: f'unknown unit {t!r}: {e!r}')
