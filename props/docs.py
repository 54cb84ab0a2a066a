"""Generator of metadata documents (JSON), and their normal form."""
from hypothesis import strategies as st

from . import gen

NAMES = ['a', 'b', 'c', 'ID', 'x-y', 'Name', 'é', 'a%20b', '1', 'f.g', 'col', 'null']
LANGS = ['en', 'de', 'de-AT', 'und', 'fr', 'zh-Hans']
TEXT = st.one_of(st.sampled_from(['Title', 'a b', 'Überschrift', 'x|y', '<b>', '"q"', 'new\nline', '語', '']),
                 gen.text(6))
TITLE = TEXT.map(lambda s: s or 'T')
COMMON = ['dc:title', 'dc:description', 'schema:name', 'rdfs:comment', 'http://example.org/p',
          'dcat:keyword', 'x:y', 'dc:source', 'http://example.org:8080/p', 'urn:a:b']


def scalars():
    return st.one_of(TEXT, st.integers(-10 ** 20, 10 ** 20), st.booleans(), st.just(1.5), st.none())


def common_value():
    node = st.one_of(
        scalars(), TEXT, TEXT,
        st.builds(lambda v, l: {'@value': v, '@language': l}, TEXT, st.sampled_from(LANGS)),
        st.builds(lambda v, t: {'@value': v, '@type': t}, st.sampled_from(['2020-01-01', 'x', 1, True, 1.5, -2.0]),
                  st.sampled_from(['xsd:date', 'http://example.org/T', 'Table'])),
        st.sampled_from([{'@id': 'http://example.org/1'}, {'@id': 'x', '@type': 'schema:Person'}]))
    return st.recursive(
        node, lambda n: st.one_of(
            st.lists(n, max_size=3),
            st.dictionaries(st.sampled_from(['dc:x', 'schema:url', 'name', 'x y', 'url']), n, max_size=3)),
        max_leaves=6)


DATATYPES = [
    'string', 'integer', 'date', 'json', 'anyURI', 'number', 'datetime', 'binary', 'any', 'html', 'xml',
    'unsignedByte', 'gMonthDay', 'yearMonthDuration', 'QName', {'base': 'integer'}, {},
    {'base': 'string', 'format': '[a-z]+'}, {'format': 'a|b'}, {'base': 'string', 'length': 3},
    {'base': 'string', 'minLength': 0, 'maxLength': 5}, {'maxLength': 0},
    {'base': 'hexBinary', 'minLength': 1},
    {'base': 'integer', 'minimum': '0', 'maximum': '10'}, {'base': 'integer', 'minimum': 0},
    {'base': 'integer', 'minInclusive': '-5', 'maxExclusive': '12345678901234567890'},
    {'base': 'decimal', 'minExclusive': '-1.5', 'maxInclusive': '0.001'},
    {'base': 'decimal', 'format': '#,##0.00', 'maximum': '1,234.50'},
    {'base': 'decimal', 'format': {'pattern': '0.0', 'decimalChar': '.', 'groupChar': ' '}},
    {'base': 'decimal', 'format': {'decimalChar': ',', 'groupChar': '.'}, 'minimum': '1,5'},
    {'base': 'integer', 'format': {'groupChar': ' '}}, {'base': 'float', 'minimum': '0.5'},
    {'base': 'boolean', 'format': 'Y|N'}, {'base': 'boolean', 'format': '1|0'},
    {'base': 'date', 'format': 'd.M.yyyy', 'minimum': '31.12.1999'},
    {'base': 'date', 'minimum': '2000-01-01', 'maximum': '2020-12-31'},
    {'base': 'dateTime', 'minExclusive': '2000-01-01T00:00:00', 'maxExclusive': '2000-01-01T00:00:01'},
    {'base': 'dateTime', 'format': 'yyyy-MM-ddTHH:mm:ss.SSS'}, {'base': 'dateTime', 'format': 'd/M/yyyy HH:mm X'},
    {'base': 'time', 'format': 'HH:mm', 'minimum': '08:30'}, {'base': 'time', 'maximum': '12:00:00'},
    {'base': 'duration', 'minimum': 'P1D'}, {'base': 'json', 'format': '{"type": "object"}'},
    {'base': 'string', 'dc:title': 'my type', '@id': 'http://example.org/type', 'dc:description': ''},
    {'base': 'integer', 'rdfs:comment': ['x', 'y']}, {'base': 'date', 'dc:title': 't'}, {'dc:description': ''},
    {'base': 'string', '@id': 'http://example.org/t'}, {'base': 'decimal', 'format': ''},
]


def norm_datatype(d):
    if isinstance(d, str):
        return d
    d = dict(d)
    d.setdefault('base', 'string')
    for k in ('minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'):
        if k in d:
            d[k] = str(d[k])
    return d['base'] if len(d) == 1 else d


INHERITED = {
    'null': st.sampled_from(['NA', ['NA'], ['', 'NA'], [''], '', [], ['a b', 'ß']]),
    'default': st.sampled_from(['', 'x', ' ', '1']),
    'lang': st.sampled_from(LANGS),
    'separator': st.sampled_from([';', ' ', '||', '\t', ';', '']),
    'datatype': st.sampled_from(DATATYPES),
    'required': st.booleans(),
    'ordered': st.booleans(),
    'textDirection': st.sampled_from(['ltr', 'rtl', 'auto', 'inherit']),
    'aboutUrl': st.sampled_from(['#r-{ID}', 'http://example.org/{a,b}', '{+x}/ü', '']),
    'propertyUrl': st.sampled_from(['dc:title', '#p', 'schema:name', 'http://example.org/{_name}', '']),
    'valueUrl': st.sampled_from(['{#a}', 'http://example.org/{a*}', 'x?y={a}&z=1', '']),
}


@st.composite
def inherited(draw, p=8, datatype=True):
    res = {}
    for k, v in INHERITED.items():
        if draw(st.integers(0, p)) == 0 and (datatype or k != 'datatype'):
            res[k] = draw(v)
    return res


def common(n=2):
    return st.dictionaries(st.sampled_from(COMMON), common_value(), max_size=n)


def titles():
    return st.one_of(
        TITLE, TITLE, st.lists(TITLE, min_size=1, max_size=3),
        st.dictionaries(st.sampled_from(LANGS), st.one_of(TITLE, st.lists(TITLE, min_size=1, max_size=2)),
                        min_size=1, max_size=3))


DIALECT = {
    'delimiter': st.sampled_from([',', ';', '\t', '|']),
    'quoteChar': st.sampled_from(['"', "'", None]),
    'doubleQuote': st.booleans(),
    'skipRows': st.sampled_from([0, 1, 3]),
    'commentPrefix': st.sampled_from(['#', '//', None]),
    'header': st.booleans(),
    'headerRowCount': st.sampled_from([0, 1, 2]),
    'skipColumns': st.sampled_from([0, 1]),
    'skipBlankRows': st.booleans(),
    'skipInitialSpace': st.booleans(),
    'trim': st.sampled_from([True, False, 'true', 'false', 'start', 'end']),
    'encoding': st.sampled_from(['utf-8', 'UTF-8', 'latin1', 'utf-16', 'UTF-8-BOM']),
    'lineTerminators': st.sampled_from([['\r\n', '\n'], ['\n'], '\n', ['\r']]),
    '@id': st.just('http://example.org/dialect'),
    '@type': st.just('Dialect'),
}
DIALECT_DEFAULTS = {
    'delimiter': ',', 'quoteChar': '"', 'doubleQuote': True, 'skipRows': 0, 'commentPrefix': None,
    'header': True, 'headerRowCount': 1, 'skipColumns': 0, 'skipBlankRows': False,
    'skipInitialSpace': False, 'trim': 'false', 'encoding': 'utf-8', 'lineTerminators': ['\r\n', '\n']}


@st.composite
def dialect(draw):
    return {k: draw(v) for k, v in DIALECT.items() if draw(st.integers(0, 4)) == 0}


def norm_dialect(d):
    d = dict(d)
    if 'headerRowCount' in d:
        d['header'] = d['headerRowCount'] != 0
    if isinstance(d.get('trim'), bool):
        d['trim'] = str(d['trim']).lower()
    return {k: v for k, v in d.items() if k.startswith('@') or v != DIALECT_DEFAULTS[k]}


NOTES = st.lists(common_value(), min_size=1, max_size=3)


@st.composite
def transformation(draw):
    res = {'url': 'x.js', 'targetFormat': 'http://example.org/t', 'scriptFormat': 'http://example.org/s'}
    if draw(st.booleans()):
        res.update(source='json', titles='T')
    if draw(st.booleans()):
        res['dc:title'] = 'x'
    if draw(st.booleans()):
        res['@type'] = 'Template'
    return res


@st.composite
def column(draw, name):
    res = {}
    if draw(st.integers(0, 5)):
        res['name'] = name
    if draw(st.integers(0, 2)) == 0 or not res:
        res['titles'] = draw(titles())
    res.update(draw(inherited()))
    if draw(st.integers(0, 1)):
        res['datatype'] = draw(INHERITED['datatype'])
    if draw(st.integers(0, 5)) == 0:
        res['suppressOutput'] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        res.update(draw(common()))
    if draw(st.integers(0, 12)) == 0:
        res['@id'] = draw(st.sampled_from(['http://example.org/c', '#c', '']))
    if draw(st.integers(0, 12)) == 0:
        res['@type'] = 'Column'
    return shuffled(draw, res)


def shuffled(draw, d):
    if draw(st.booleans()):
        return d
    return {k: d[k] for k in draw(st.permutations(list(d)))}


def colnames(cols):
    return [c['name'] for c in cols if 'name' in c and not c.get('virtual')]


@st.composite
def schema(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    cols = [draw(column(n)) for n in names]
    seen = set()
    for i, c in enumerate(cols):  # The headers must differ.
        h = c.get('name') or first_title(c) or i
        if h in seen:
            c.pop('name', None)
            c['titles'] = 'other {}'.format(i)
        seen.add(h)
    if draw(st.integers(0, 4)) == 0:
        cols.append({'name': 'virtual', 'virtual': True, 'valueUrl': 'http://example.org/v'})
    res = {'columns': cols}
    named = colnames(cols)
    if named and draw(st.booleans()):
        pk = draw(st.lists(st.sampled_from(named), min_size=1, max_size=2, unique=True))
        res['primaryKey'] = pk[0] if len(pk) == 1 and draw(st.booleans()) else pk
    if named and draw(st.integers(0, 3)) == 0:
        res['rowTitles'] = draw(st.one_of(st.sampled_from(named), st.lists(st.sampled_from(named), min_size=1,
                                                                          max_size=2, unique=True)))
    res.update(draw(inherited(15)))
    if draw(st.integers(0, 5)) == 0:
        res.update(draw(common()))
    if draw(st.integers(0, 12)) == 0:
        res['@id'] = 'http://example.org/s'
    if draw(st.integers(0, 12)) == 0:
        res['@type'] = 'Schema'
    return shuffled(draw, res)


def first_title(c):
    t = c.get('titles')
    return t if isinstance(t, str) else (t[0] if isinstance(t, list) and t else None)


@st.composite
def tablelike(draw, type_):
    res = {}
    if draw(st.integers(0, 2)) == 0:
        res['dialect'] = draw(dialect())
    if draw(st.integers(0, 4)) == 0:
        res['notes'] = draw(NOTES)
    if draw(st.integers(0, 5)) == 0:
        res['tableDirection'] = draw(st.sampled_from(['ltr', 'rtl', 'auto']))
    if draw(st.integers(0, 5)) == 0:
        res['transformations'] = draw(st.lists(transformation(), min_size=1, max_size=2))
    res.update(draw(inherited(15)))
    if draw(st.integers(0, 2)) == 0:
        res.update(draw(common()))
    if draw(st.integers(0, 9)) == 0:
        res['@id'] = 'http://example.org/' + type_
    if draw(st.integers(0, 5)) == 0:
        res['@type'] = type_
    return res


URLS = ['a.csv', 'b.csv', 'sub/c.csv', 'é ü.csv', 'http://example.org/d.csv', 'e.tsv']


@st.composite
def table(draw, url):
    res = {'url': url}
    if draw(st.integers(0, 9)):
        res['tableSchema'] = draw(schema())
    if draw(st.integers(0, 5)) == 0:
        res['suppressOutput'] = draw(st.booleans())
    res.update(draw(tablelike('Table')))
    return shuffled(draw, res)


CONTEXT = st.sampled_from([
    'http://www.w3.org/ns/csvw', ['http://www.w3.org/ns/csvw', {'@language': 'en'}],
    ['http://www.w3.org/ns/csvw', {'@base': 'http://example.org/x/', '@language': 'de'}]])


@st.composite
def group(draw, max_tables=3):
    urls = draw(st.lists(st.sampled_from(URLS), min_size=1, max_size=max_tables, unique=True))
    tables = [draw(table(u)) for u in urls]
    for t in tables:
        if draw(st.integers(0, 2)) == 0 and 'tableSchema' in t:
            own = colnames(t['tableSchema']['columns'])
            fks = []
            for _ in range(draw(st.integers(1, 2))):
                other = draw(st.sampled_from(tables))
                theirs = colnames(other.get('tableSchema', {'columns': []})['columns'])
                n = draw(st.integers(1, 2))
                if len(own) >= n and len(theirs) >= n:
                    a = draw(st.permutations(own))[:n]
                    b = draw(st.permutations(theirs))[:n]
                    fks.append({
                        'columnReference': a[0] if n == 1 and draw(st.booleans()) else a,
                        'reference': {
                            draw(st.sampled_from(['resource'] * 5 + ['schemaReference'])): other['url'],
                            'columnReference': b[0] if n == 1 and draw(st.booleans()) else b}})
            if fks:
                t['tableSchema']['foreignKeys'] = fks
    res = dict({'@context': draw(CONTEXT), 'tables': tables}, **draw(tablelike('TableGroup')))
    return shuffled(draw, res)


def norm(d, type_='TableGroup'):
    """What is expected as serialisation of the (valid) description d, up to order of keys."""
    res = {}
    for k, v in d.items():
        if k.startswith('@') or ':' in k:
            res[k] = v
        elif k == 'tables':
            res[k] = [norm(t, 'Table') for t in v]
        elif k == 'tableSchema':
            res[k] = norm(v, 'Schema')
        elif k == 'columns':
            res[k] = [norm(c, 'Column') for c in v]
        elif k == 'datatype':
            res[k] = norm_datatype(v)
        elif k == 'null':
            res[k] = [v] if isinstance(v, str) else v
        elif k == 'dialect':
            res[k] = norm_dialect(v)
        elif k == 'titles':
            if isinstance(v, dict):
                res[k] = {x: y[0] if isinstance(y, list) and len(y) == 1 else y for x, y in v.items()}
            else:
                res[k] = v[0] if isinstance(v, list) and len(v) == 1 else v
        elif k in ('primaryKey', 'rowTitles'):
            res[k] = v if isinstance(v, list) else [v]
        elif k == 'foreignKeys':
            res[k] = [norm_fk(fk) for fk in v]
        elif k in ('suppressOutput', 'virtual'):
            if v:
                res[k] = v
        elif k == 'tableDirection':
            if v != 'auto':
                res[k] = v
        else:
            res[k] = v
    return res


def norm_fk(fk):
    def li(x):
        return x if isinstance(x, list) else [x]
    return {
        'columnReference': li(fk['columnReference']),
        'reference': dict(fk['reference'], columnReference=li(fk['reference']['columnReference']))}

