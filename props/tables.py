"""Generators and models for whole tables: schemas, dialects, records."""
import datetime

from hypothesis import strategies as st

from . import dt, gen
from .c10 import structure, canon

BASES = ['string', 'string', 'integer', 'decimal', 'boolean', 'date', 'dateTime', 'time', 'float',
         'anyURI', 'nonNegativeInteger', 'hexBinary', 'base64Binary', 'json', 'duration', 'NMTOKEN',
         'normalizedString', 'dateTimeStamp', 'gYear', 'xml', 'unsignedByte', 'long', 'double']
NAMES = ['ID', 'a', 'b', 'c', 'Name', 'x-y', 'Year', 'long_name', 'é', 'A', 'value', 'n1', 'Zz']
TITLES = ['Title one', 'a title', 'b, c', 'x;y', 'Überschrift', 'with "quotes"', "it's", 'T', 'U',
          'Name of x', 'with\ttab', 'a/b', 'ID 2', 'multi\nline', '100 %', '{x}']


def datatypes(bases=BASES, formats=True):
    res = [st.sampled_from(bases)]
    if formats:
        res.append(st.sampled_from([
            {'base': 'boolean', 'format': 'Y|N'}, {'base': 'date', 'format': 'd.M.yyyy'},
            {'base': 'decimal', 'format': {'decimalChar': ',', 'groupChar': '.'}},
            {'base': 'integer', 'format': '#,##0'}, {'base': 'dateTime', 'format': 'yyyyMMdd HHmm'},
            {'base': 'string', 'format': '[ab]*'}, {'base': 'string', 'maxLength': 5},
            {'base': 'integer', 'minimum': 0}, {'base': 'time', 'format': 'HH:mm'},
            {'base': 'json', 'format': '{"type": "object"}'}]))
    return st.one_of(res[0], res[0], res[-1])


def base_of(c):
    b = c.get('datatype')
    return b.get('base', 'string') if isinstance(b, dict) else b


def values(c):
    """Values which satisfy the datatype of a column."""
    d = c.get('datatype')
    base = base_of(c)
    if isinstance(d, dict):
        if d.get('format') == 'd.M.yyyy':
            return st.datetimes(datetime.datetime(1000, 1, 1)).map(
                lambda v: v.replace(hour=0, minute=0, second=0, microsecond=0))
        if base == 'dateTime' and d.get('format'):
            return st.datetimes(datetime.datetime(1000, 1, 1)).map(
                lambda v: v.replace(second=0, microsecond=0))
        if base == 'time':
            return st.datetimes(datetime.datetime(1000, 1, 1)).map(
                lambda v: v.replace(second=0, microsecond=0))
        if d.get('format') == '[ab]*':
            return st.text('ab', max_size=5)
        if d.get('maxLength'):
            return gen.text(5).map(lambda s: s[:5])
        if 'minimum' in d:
            return st.integers(0, 10 ** 6)
        if base == 'json':
            return st.dictionaries(st.sampled_from('abc'), st.integers(0, 9), max_size=2)
    if base is None:
        return gen.text(6)
    if base == 'boolean':
        return st.booleans()
    return dt.value(base)


@st.composite
def columns(draw, n_max=5, bases=BASES, formats=True, virtual=True):
    n = draw(st.integers(1, n_max))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))
    titles = draw(st.lists(st.sampled_from(TITLES), min_size=n, max_size=n, unique=True))
    res = []
    for i in range(n):
        c = {}
        k = draw(st.integers(0, 5))
        if k != 0:
            c['name'] = names[i]
        if k in (0, 1, 2):
            c['titles'] = draw(st.sampled_from([
                titles[i], [titles[i], titles[i] + ' alt'], {'en': titles[i]}]))
        if draw(st.integers(0, 6)):
            c['datatype'] = draw(datatypes(bases, formats))
        if draw(st.integers(0, 3)) == 0:
            c['separator'] = draw(st.sampled_from([';', '|', ' ', '; ', '::']))
        if draw(st.integers(0, 4)) == 0:
            c['null'] = draw(st.sampled_from([['NA'], 'NA', ['', 'NA'], ['?'], ['NA', '']]))
        if draw(st.integers(0, 8)) == 0:
            c['default'] = draw(st.sampled_from(['dflt', '1']))
        if draw(st.integers(0, 6)) == 0:
            c['required'] = True
        res.append(c)
    if virtual and draw(st.integers(0, 5)) == 0:
        res.append({'name': 'virt', 'virtual': True, 'valueUrl': 'http://example.org/virtual'})
    return res


def header(c, i):
    if c.get('name'):
        return c['name']
    t = c['titles']
    if isinstance(t, dict):
        return '_col.{}'.format(i + 1)
    return t[0] if isinstance(t, list) else t


def cell_values(c):
    v = values(c)
    if base_of(c) in dt.STRINGS + [None, 'normalizedString']:
        v = v.map(lambda s: s or 'a')  # The empty string often means null.
    null = c.get('null', [''])
    n0 = null if isinstance(null, str) else null[0]
    sep = c.get('separator')
    item = v
    if not (c.get('required') and not sep) and (n0 or not c.get('default')):
        item = st.one_of(v, v, v, st.none())
    if sep:
        if c.get('required') or c.get('default'):
            return st.lists(item, min_size=1, max_size=4)
        return st.one_of(st.lists(item, max_size=4), st.lists(item, max_size=4), st.none())
    return item


@st.composite
def records(draw, cols, max_rows=8):
    """Values in order of the (non-virtual) columns."""
    strats = [cell_values(c) for c in cols if not c.get('virtual')]
    return [[draw(s) for s in strats] for _ in range(draw(st.integers(0, max_rows)))]


@st.composite
def dialects(draw):
    d = {}
    if draw(st.booleans()):
        d['delimiter'] = draw(st.sampled_from([';', '\t', '|', ':']))
    if draw(st.integers(0, 3)) == 0:
        d['quoteChar'] = "'"
    if draw(st.integers(0, 3)) == 0:
        d['doubleQuote'] = False
    if draw(st.integers(0, 3)) == 0:
        d['lineTerminators'] = [draw(st.sampled_from(['\n', '\r\n']))]
    if draw(st.integers(0, 3)) == 0:
        d['header'] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        d['commentPrefix'] = draw(st.sampled_from(['//', None, '#']))
    if draw(st.integers(0, 2)) == 0:
        d['encoding'] = draw(st.sampled_from(['utf-8', 'utf-8-sig', 'UTF-8-BOM', 'utf-16', 'UTF-8']))
    if draw(st.integers(0, 5)) == 0:
        d['trim'] = draw(st.sampled_from(['true', 'start', 'end', True, False]))
    if draw(st.integers(0, 5)) == 0:
        d['skipBlankRows'] = draw(st.booleans())
    return d


def trimmed(d, s):
    return {'true': str.strip, 'start': str.lstrip, 'end': str.rstrip, True: str.strip}.get(
        d.get('trim'), str)(s)


def realize(c, v):
    base = base_of(c)
    if v is None:
        return None
    if c.get('separator'):
        return [i if i is None or base is None else dt.realize(base, i) for i in v]
    return v if base is None else dt.realize(base, v)


def expected_value(c, v):
    """Canonical form of what is expected when reading the cell for v again."""
    base = base_of(c)

    def one(i):
        if i is None or base is None:
            return i
        return ('uri', i) if base == 'anyURI' else dt.canon(base, dt.realize(base, i))
    if c.get('separator'):
        return [one(i) for i in v or []]
    return one(v)


def got_value(c, v):
    base = base_of(c)
    if c.get('separator') and isinstance(v, list):
        return [canon(base, x) for x in v]
    return canon(base, v)


def cell_text(c, v, formatted):
    """
    :param formatted: Function mapping a value to its lexical representation.
    :return: text of the cell, None if v is not representable in column c.
    """
    base, sep = base_of(c), c.get('separator')
    null = c.get('null', [''])
    null = [null] if isinstance(null, str) else null
    n0 = null[0] if null else ''
    items = (v if sep else [v]) if v is not None else None
    if items is None:
        expected, want = ('', []) if sep else (n0, None)
    else:
        texts = [None if i is None else (formatted(dt.realize(base, i)) if base else i) for i in items]
        expected = (sep or '').join(n0 if t is None else t for t in texts)
        want = texts if sep or texts[0] is not None else None
    return expected if structure(c, expected) == want else None


def representable_row(d, texts):
    """Can the cells be written as row with dialect d, such that they are read back the same?"""
    prefix = d.get('commentPrefix', '#')
    if any(t is None for t in texts):
        return False
    if prefix and texts and texts[0].startswith(prefix):
        return False
    if any(trimmed(d, t) != t for t in texts):
        return False
    if texts and '\ufeff' in texts[0][:1]:
        return False
    if d.get('skipBlankRows') and not any(texts):
        return False
    return True
