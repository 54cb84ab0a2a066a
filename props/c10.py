"""C10: cells follow null, default, required, separator and datatype."""
import warnings

from hypothesis import strategies as st

from csvw.metadata import Column, TableGroup
from vf.core import *
from . import dt, gen

BASES = [None, None, 'string', 'string', 'integer', 'decimal', 'boolean', 'date', 'float', 'anyURI',
         'nonNegativeInteger', 'hexBinary', 'dateTime', 'json', 'normalizedString', 'duration', 'NMTOKEN']
TOKENS = ['', 'NA', '-', 'null', '1', '0', 'true', 'x', '?', ' ', 'a', '2020-01-01']
SEPS = [None, None, None, ';', '|', ',', ' ', '; ', '::', '\t', '-', '\n', '.']


@st.composite
def columns(draw):
    c = {}
    sep = draw(st.sampled_from(SEPS))
    base = draw(st.sampled_from(BASES))
    if sep:
        c['separator'] = sep
    if base:
        c['datatype'] = base if draw(st.booleans()) else {'base': base}
    null = draw(st.sampled_from([None, None, [''], ['NA'], ['', 'NA'], ['NA', ''], ['-', '?', 'x'], [],
                                 'NA', '', '-', ['0', '1'], ['a;b', 'NA']]))
    if null is not None:
        c['null'] = null
    if draw(st.integers(0, 2)) == 0:
        c['default'] = draw(st.sampled_from(TOKENS[1:]))
    if draw(st.integers(0, 2)) == 0:
        c['required'] = draw(st.booleans())
    return c


def lexical(base):
    if base in (None, 'string', 'normalizedString', 'NMTOKEN'):
        return st.one_of(st.sampled_from(TOKENS), gen.text(5))
    if base == 'integer' or base == 'nonNegativeInteger':
        return st.integers(-20, 1000).map(str)
    if base == 'decimal':
        return st.sampled_from(['1.5', '0', '-2', '10.0', '.5', '1'])
    if base == 'float':
        return st.sampled_from(['1.5', '1e5', 'INF', '-2', '0.1'])
    if base == 'boolean':
        return st.sampled_from(['true', 'false', '1', '0'])
    if base == 'date':
        return st.dates().map(lambda d: d.isoformat())
    if base == 'dateTime':
        return st.datetimes().map(lambda d: d.replace(microsecond=0).isoformat())
    if base == 'hexBinary':
        return st.binary(max_size=3).map(bytes.hex)
    if base == 'json':
        return st.sampled_from(['1', '"a"', '{}', '[]', 'null', '{"a": 1}', 'true'])
    if base == 'duration':
        return st.sampled_from(['P1D', 'PT5S', 'P1Y', 'P2M'])
    return st.sampled_from(['a', 'b/c', 'x.y'])


def base_of(c):
    b = c.get('datatype')
    return b['base'] if isinstance(b, dict) else b


@st.composite
def rcases(draw):
    c = draw(columns())
    base, sep = base_of(c), c.get('separator')
    item = st.one_of(lexical(base), lexical(base), lexical(base), st.sampled_from(TOKENS),
                     st.sampled_from(['', 'bad value', '12x']))
    if sep:
        cell = st.lists(item, max_size=4).map(sep.join)
        cell = st.one_of(cell, cell, st.sampled_from(TOKENS), st.sampled_from([sep, sep * 2, 'a' + sep]))
    else:
        cell = item
    nulls = c.get('null', [''])
    nulls = [nulls] if isinstance(nulls, str) else nulls
    if nulls:
        cell = st.one_of(cell, cell, cell, st.sampled_from(nulls))
    return {'column': c, 'cells': draw(st.lists(cell, min_size=1, max_size=5)),
            'how': draw(st.sampled_from(['column', 'column', 'schema']))}


def column(c, how):
    if how == 'column':
        return Column.fromvalue(dict(c, name='c'))
    tg = TableGroup.fromvalue({
        '@context': 'http://www.w3.org/ns/csvw',
        'tables': [{'url': 'x.csv', 'tableSchema': {'columns': [dict(c, name='c'), {'name': 'd'}]}}]})
    return tg.tables[0].tableSchema.columns[0]


ERROR = object()


def item_value(base, s):
    if s is None:
        return dt.ACCEPT, None
    if base is None:
        return dt.ACCEPT, s
    v, val = dt.verdict(base, s)
    if v == dt.ACCEPT:
        if base in dt.DURATIONS:
            val = ('duration',) + val
        elif base == 'anyURI':
            val = ('uri', val)
        else:
            val = dt.canon(base, val)
    return v, val


def reference(c, s):
    """:return: (verdict, value)"""
    base, sep, default = base_of(c), c.get('separator'), c.get('default', '')
    null = c.get('null', [''])
    null = [null] if isinstance(null, str) else null
    s = s or default
    if c.get('required') and (s in null or (sep and not s)):
        return dt.REJECT, None
    if sep:
        if not s:
            return dt.ACCEPT, []
        if s in null:
            return dt.ACCEPT, None
        items = []
        for i in s.split(sep):
            i = i or default
            items.append(None if i in null else i)
        vals = [item_value(base, i) for i in items]
        if any(v == dt.REJECT for v, _ in vals):
            return dt.REJECT, None
        if any(v == dt.DONTCARE for v, _ in vals):
            return dt.DONTCARE, None
        return dt.ACCEPT, [v for _, v in vals]
    if s in null:
        return dt.ACCEPT, None
    return item_value(base, s)


def canon(base, v):
    if isinstance(v, list) and base != 'json':
        return [canon(base, x) for x in v]
    return v if base is None or v is None else dt.canon(base, v)


def canonlist(base, sep, v):
    if sep and v is not None:
        expect(isinstance(v, list), 'value of list-valued column: {!r}', v)
        return [canon(base, x) for x in v]
    return canon(base, v)


def rcheck(case, rec):
    c = case['column']
    base, sep = base_of(c), c.get('separator')
    col = column(c, case['how'])
    for s in case['cells']:
        with oracle():
            verdict, want = reference(c, s)
        r = e = None
        try:
            r = col.read(s)
        except ValueError as ex:
            e = ex
        rec.label(verdict, base or 'none', 'list' if sep else 'single')
        if verdict == dt.REJECT:
            expect(e, '{!r} must be rejected by {!r}, but is read as {!r}', s, c, r)
            rec.nt()
        elif verdict == dt.ACCEPT:
            if e:
                fail('{!r} conforms to {!r}, but is rejected: {!r}', s, c, e)
            eq(canonlist(base, sep, r), want, '{!r} read with {!r}', s, c)
            rec.nt()
            if want is None:
                rec.label('null')


@st.composite
def wcases(draw):
    c = draw(columns())
    base, sep = base_of(c), c.get('separator')
    if base is None:
        item = gen.text(5)
    elif base == 'duration':
        item = st.tuples(st.just('td'), st.integers(0, 10 ** 12)).map(list)
    elif base == 'anyURI':
        item = st.sampled_from(['a', 'b/c', 'http://example.org/x'])
    else:
        item = dt.value(base)
    item = st.one_of(item, item, item, st.none())
    value = st.one_of(st.lists(item, max_size=4), st.lists(item, max_size=4), st.none()) if sep else item
    return {'column': c, 'values': draw(st.lists(value, min_size=1, max_size=5)),
            'how': draw(st.sampled_from(['column', 'schema']))}


def structure(c, s):
    """The items which a cell consists of."""
    sep, default = c.get('separator'), c.get('default', '')
    null = c.get('null', [''])
    null = [null] if isinstance(null, str) else null
    s = s or default
    if c.get('required') and (s in null or (sep and not s)):
        return 'invalid'
    if sep:
        if not s:
            return []
        return None if s in null else [
            None if (i or default) in null else (i or default) for i in s.split(sep)]
    return None if s in null else [s]


def wcheck(case, rec):
    c = case['column']
    base, sep = base_of(c), c.get('separator')
    null = c.get('null', [''])
    null = [null] if isinstance(null, str) else null
    col = column(c, case['how'])
    for v in case['values']:
        items = (v if sep else [v]) if v is not None else None
        real = [None if i is None else dt.realize(base, i) for i in items or []]
        # How single items look like is judged by C05.
        texts = [None if i is None else (col.datatype.formatted(i) if base else i) for i in real]
        real = None if v is None else (real if sep else real[0])
        with oracle():
            n0 = null[0] if null else ''
            if items is None:
                expected, want = ('', []) if sep else (n0, None)
            else:
                expected = (sep or '').join(n0 if t is None else t for t in texts)
                want = texts if sep or texts[0] is not None else None
            ok = structure(c, expected) == want
        s = col.write(real)
        expect(isinstance(s, str), '{!r} written as {!r}', real, s)
        if not ok:
            rec.label('unrepresentable')
            continue
        eq(s, expected, 'writing {!r} with {!r}', real, c)
        r = col.read(s)
        want = [wanted(base, i) for i in items or []] if sep else wanted(base, (items or [None])[0])
        eq(canonlist(base, sep, r), want, '{!r} written as {!r} with {!r} read again', real, s, c)
        if v is None or v == []:
            rec.label('none' if v is None else 'empty')
        rec.label('list' if sep else 'single', base or 'none')
        rec.nt()


def wanted(base, v):
    if v is None:
        return None
    if base is None:
        return v
    if base == 'anyURI':
        return ('uri', v)
    return dt.canon(base, dt.realize(base, v))


PROP = Prop(
    'C10',
    [Sub('read', rcases(), rcheck, quick=10000, thorough=400000),
     Sub('write', wcases(), wcheck, quick=8000, thorough=300000)],
    rule='Column descriptions combining null, default, required, separator and datatype; cells mixing '
         'valid items, null strings, empty items and garbage. Non-trivial: verdict determined; '
         'respectively value representable.',
    assumptions=[
        'Values that collide with null strings, the default or the separator are unrepresentable and '
        'not judged when writing.',
        'None in list-valued columns is written as empty cell, i.e. like an empty list.',
        'White space around items is not judged.'])
