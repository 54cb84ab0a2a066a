"""C27: Markdown descriptions show every table, column and key."""
import html
import json
import re
import shutil
import warnings

from hypothesis import strategies as st

from csvw import TableGroup
from csvw.utils import metadata2markdown
from vf.core import *
from . import gen

URLS = ['a.csv', 'b c.csv', 'A1.tsv', 'table', 'x-y.csv', 'ü.csv', 'sub/z.csv', 'q_1.csv', 'a|p.csv', '漢.csv']
NAMES = ['ID', 'n', 'a|b', 'x y', 'é', 'p.q', 'a_b', '||', 'B', 'l1\nl2', 'c\r\nd', '|', 'Name', 'x\\y', '<i>', '*e*', '[l]', '1', 'a:b']
WORDS = ['text', 'a|b', '|', 'x | y', 'l1\nl2', 'a\n\nb', 'Ä "q"', 'x\r\ny', 'r\rs', '<b>x</b>', '| --- | ---', '&amp;', '1', 'a\n|b|c|', '%']
KEYS = ['dcat:accessURL', 'dc:titles', 'dc:title', 'dc:description', 'dc:creator', 'dc:license', 'rdfs:label', 'http://example.org/p', 'dcat:keyword', 'foo:bar',
        'http://example.org/a|b', 'https://schema.org/image']
PREFIXES = {'dc': 'http://purl.org/dc/terms/', 'rdfs': 'http://www.w3.org/2000/01/rdf-schema#', 'dcat': 'http://www.w3.org/ns/dcat#'}
TYPES = [
    None, 'string', 'integer', 'decimal', 'boolean', 'date', 'anyURI', 'json', 'double', 'gYear', 'any',
    {'base': 'string'}, {'base': 'string', 'format': 'a|b|c'}, {'base': 'string', 'format': 'yes'}, {'base': 'string', 'format': '[0-9]+'},
    {'base': 'string', 'format': 'a b|c'}, {'base': 'string', 'format': '(a|b)+'}, {'base': 'string', 'format': '[|]x?'},
    {'base': 'string', 'format': 'x|y.'}, {'base': 'string', 'format': 'é|ü', 'minLength': 1},
    {'base': 'boolean', 'format': 'Y|N'}, {'base': 'boolean', 'format': '+|-'}, {'base': 'decimal', 'format': {'decimalChar': ','}},
    {'base': 'integer', 'format': {'groupChar': '.', 'pattern': '#,##0'}}, {'base': 'decimal', 'format': {'pattern': '0.00'}},
    {'base': 'integer', 'minimum': 3, 'maximum': 5}, {'base': 'integer', 'minimum': 0}, {'base': 'integer', 'maximum': 0},
    {'base': 'decimal', 'minimum': 0, 'maximum': '0.5'}, {'base': 'integer', 'minimum': '-5', 'maximum': 0},
    {'base': 'date', 'minimum': '2019-01-01', 'maximum': '2020-12-31'}, {'format': 'x|z'}, {'base': 'double', 'minimum': '0.0'},
    {'base': 'json', 'format': '{"type": "object"}'}, {'base': 'float', 'maximum': '1.5'},
    {'base': 'string', 'dc:title': 'my|type', 'format': 'a|b'}]
SEPARATORS = [None, None, None, ';', '|', ', ', '\t', '\n', '||']
DIALECTS = [None, None, None, {}, {'delimiter': '\t'}, {'header': False}, {'delimiter': '|', 'quoteChar': "'"}, {'encoding': 'latin-1'},
            {'commentPrefix': '%', 'skipRows': 2, 'header': False}]


def values():
    scalar = st.one_of(st.sampled_from(WORDS), st.sampled_from([3, 0, True, False, 1.5, '', None]))
    return st.one_of(
        st.sampled_from(WORDS), scalar, st.lists(scalar, max_size=3), st.dictionaries(st.sampled_from(['dc:x', 'http://example.org/z|', 'k']), scalar, max_size=2),
        st.lists(st.fixed_dictionaries({'dc:stuff': scalar}), max_size=2),
        st.fixed_dictionaries({'@value': st.sampled_from(WORDS), '@language': st.just('en')}))


@st.composite
def props(draw):
    res = {}
    for k in draw(st.lists(st.sampled_from(KEYS), max_size=4, unique=True)):
        if k == 'https://schema.org/image':
            v = draw(st.sampled_from(['fig.png', {'https://schema.org/contentUrl': 'fig.png'},
                                      {'https://schema.org/contentUrl': 'f.png', 'https://schema.org/caption': 'cap'}]))
        else:
            v = draw(values())
        res[k] = v
    return res


@st.composite
def inherited(draw):
    res = {}
    if draw(st.integers(0, 3)) == 0:
        res['datatype'] = draw(st.sampled_from(TYPES[1:]))
    if draw(st.integers(0, 3)) == 0:
        res['separator'] = draw(st.sampled_from(SEPARATORS[3:]))
    return res


@st.composite
def cases(draw):
    n = draw(st.integers(1, 3))
    urls = draw(st.lists(st.sampled_from(URLS), min_size=n, max_size=n, unique=True))
    tables = []
    for url in urls:
        cols = []
        names = draw(st.permutations(NAMES))
        for i in range(draw(st.integers(0, 5))):
            c = {'name': names[i] if draw(st.integers(0, 5)) else None}
            c['titles'] = draw(st.sampled_from([None, None, ['T{}'.format(i)], 't|{}'.format(i), {'en': 'E{}'.format(i)}]))
            if draw(st.integers(0, 2)):
                c['datatype'] = draw(st.sampled_from(TYPES))
            if draw(st.integers(0, 3)) == 0:
                c['separator'] = draw(st.sampled_from(SEPARATORS))
            if draw(st.integers(0, 1)):
                c['desc'] = draw(st.one_of(st.sampled_from(WORDS), st.sampled_from(
                    [['x', 'y|z'], {'@value': 'v|w', '@language': 'en'}, '', 5])))
            c['propertyUrl'] = draw(st.sampled_from([None, None, None, 'http://example.org/p', 'http://example.org/{x}|']))
            cols.append(c)
        virtual = draw(st.integers(0, 4)) == 0
        if virtual and cols:
            cols[-1]['virtual'] = True
        named = [i for i, c in enumerate(cols) if c['name']]
        t = {'url': url, 'cols': cols, 'props': draw(props()), 'dialect': draw(st.sampled_from(DIALECTS)),
             'pk': draw(st.lists(st.sampled_from(named), min_size=1, max_size=2, unique=True)) if named and draw(st.integers(0, 1)) else None,
             'table': draw(inherited()), 'schema': draw(inherited()), 'fks': [], 'exists': draw(st.integers(0, 3)) != 0}
        tables.append(t)
    for t in tables:
        named = [i for i, c in enumerate(t['cols']) if c['name']]
        if named:
            for _ in range(draw(st.integers(0, 2))):
                k = draw(st.integers(0, n - 1))
                there = [i for i, c in enumerate(tables[k]['cols']) if c['name']]
                m = draw(st.sampled_from([1, 1, 1, 2]))
                if len(there) >= m and len(named) >= m:
                    t['fks'].append([draw(st.permutations(named))[:m], k, draw(st.permutations(there))[:m],
                                     draw(st.integers(0, 6)) == 0])
    return {'tables': tables, 'props': draw(props()), 'dialect': draw(st.sampled_from(DIALECTS)), 'group': draw(inherited()),
            'link': draw(st.booleans()), 'single': n == 1 and draw(st.booleans())}


def header(c, i):
    if c['name']:
        return c['name']
    t = c['titles']
    if t and not isinstance(t, dict):
        return t[0] if isinstance(t, list) else t
    return '_col.{}'.format(i + 1)


def describe(case):
    import copy
    case = copy.deepcopy(case)
    tables = []
    for t in case['tables']:
        schema = dict(t['schema'], columns=[])
        for c in t['cols']:
            col = {k: c[k] for k in ('name', 'titles', 'datatype', 'separator', 'propertyUrl', 'virtual') if c.get(k) is not None}
            if 'desc' in c:
                col['dc:description'] = c['desc']
            schema['columns'].append(col)
        if t['pk']:
            schema['primaryKey'] = [t['cols'][i]['name'] for i in t['pk']]
        fks = []
        for cols, k, ref, byschema in t['fks']:
            other = case['tables'][k]
            fks.append({'columnReference': [t['cols'][i]['name'] for i in cols],
                        'reference': {'columnReference': [other['cols'][i]['name'] for i in ref]}})
            if byschema:
                fks[-1]['reference']['schemaReference'] = 'schema.json'
            else:
                fks[-1]['reference']['resource'] = other['url']
        if fks:
            schema['foreignKeys'] = fks
        table = dict(t['table'], url=t['url'], tableSchema=schema, **t['props'])
        if t['dialect'] is not None:
            table['dialect'] = t['dialect']
        tables.append(table)
    res = dict(case['group'], tables=tables, **case['props'])
    res['@context'] = 'http://www.w3.org/ns/csvw'
    if case['dialect'] is not None:
        res['dialect'] = case['dialect']
    return res


# ---------------------------------------------------------------- reading Markdown

def cells(line):
    """The cells of a row of a table, according to GitHub Flavored Markdown."""
    line = line.strip()
    parts, cell, i = [], '', 0
    while i < len(line):
        if line[i] == '\\' and line[i + 1:i + 2] == '|':
            cell += '|'
            i += 2
            continue
        if line[i] == '|':
            parts.append(cell)
            cell = ''
        else:
            cell += line[i]
        i += 1
    if cell.strip():
        parts.append(cell)
    if line.startswith('|'):
        parts = parts[1:]
    return [p.strip() for p in parts]


def is_separator(line):
    return '|' in line and all(re.fullmatch(r'\s*:?-+:?\s*', p) for p in line.strip().strip('|').split('|'))


def tables_in(lines):
    """:return: list of lists of rows (the first one being the header)"""
    res, i = [], 0
    while i < len(lines):
        if i + 1 < len(lines) and '|' in lines[i] and is_separator(lines[i + 1]):
            rows = [cells(lines[i])]
            n = len(rows[0])
            i += 2
            while i < len(lines) and lines[i].strip():
                rows.append(cells(lines[i]))
                i += 1
            res.append((n, rows))
        else:
            i += 1
    return res


def flat(s):
    return re.sub(r'\s+', ' ', s).strip()


def shows(cell, text):
    """Whether the text appears in a cell, whatever the markup."""
    return flat(str(text)) in flat(cell) or flat(str(text)) in flat(html.unescape(cell))


def leaves(v, nested=False):
    if isinstance(v, dict):
        for k, vv in v.items():
            if k not in ('@language',):
                for x in leaves(vv, True):
                    yield x
    elif isinstance(v, list):
        for vv in v:
            for x in leaves(vv, True):
                yield x
    elif isinstance(v, str) and v:
        yield v
    elif isinstance(v, (int, float)) and not isinstance(v, bool) and (v or nested):
        yield str(v)


def in_dict(v):
    return isinstance(v, dict) or (isinstance(v, list) and any(in_dict(x) for x in v))


def check_props(props, rows, where, text):
    rows = [r for n, rs in rows for r in rs[1:]]
    got = []
    for r in rows:
        got.append(r[0])
        eq(len(r) in (1, 2), True, 'cells of {!r} of {}', r, where)
    want = {k: v for k, v in props.items() if v and k not in ('dc:description', 'https://schema.org/image')}
    eq(len(rows), len(want), 'number of properties of {}: {}', where, rows)
    for (k, v), r in zip(want.items(), rows):
        prefix, _, name = k.partition(':')
        url = PREFIXES.get(prefix)
        eq(r[0], '[{}]({})'.format(k, url + name) if url else k, 'property of {}', where)
        for x in leaves(v):
            if isinstance(v, dict) and html.escape(x) != x:
                expect(any(flat(html.escape(y)) in flat(r[1]) for y in [x, repr(x)[1:-1], repr(x)]),
                       '{!r} of {} is not escaped in {!r}', x, where, r[1])
            expect(shows(r[1], x) or in_dict(v) and (shows(r[1], html.escape(x)) or shows(r[1], repr(x)[1:-1])),
                   '{!r} of {} is missing in {!r}', x, where, r[1])
    for x in leaves(props.get('dc:description')):
        expect(flat(x) in flat(text) or flat(html.escape(x)) in flat(text), 'description {!r} of {}', x, where)
    img = props.get('https://schema.org/image')
    if img:
        m = [(m.group(1), m.group(2)) for m in re.finditer(r'!\[(.*?)\]\((.*?)\)', text)]
        want = ('', img) if isinstance(img, str) else (
            img.get('https://schema.org/caption', ''), img['https://schema.org/contentUrl'])
        eq(m, [want], 'image of {}', where)


def check(case, rec):
    d = gen.scratch(rec, 'd')
    with oracle():
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        for t in case['tables']:
            ids = [header(c, i) for i, c in enumerate(t['cols'])]
            if len(set(ids)) < len(ids):
                raise Skip()
            if t['exists']:
                p = d / t['url']
                p.parent.mkdir(exist_ok=True)
                p.write_text('', encoding='utf8')
        desc = describe(case)
        (d / 'md-file.json').write_text(json.dumps(desc), encoding='utf8')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tg = TableGroup.from_file(d / 'md-file.json')
        before = json.dumps(tg.asdict())
        text = metadata2markdown(tg, link_files=case['link'])
        eq(json.dumps(tg.asdict()), before, 'the description itself')
    lines = re.split('\r\n|\r|\n', text)
    at = [i for i, line in enumerate(lines) if line.startswith('## ')]
    eq(len(at), len(case['tables']), 'number of tables in {!r}', text)
    # the group
    head = lines[:at[0]]
    title = case['props'].get('dc:title', 'Dataset')
    expect(head[0].startswith('# '), 'title in {!r}', head[0])
    for x in leaves(title):
        expect(shows(head[0], x) or in_dict(title) and shows(head[0], repr(x)[1:-1]), 'title {!r} in {!r}', x, head[0])
    eq('[md-file.json](md-file.json)' in '\n'.join(head), case['link'], 'link to the metadata')
    check_props({k: v for k, v in case['props'].items() if k != 'dc:title'}, tables_in(head[1:]), 'the group', '\n'.join(head[1:]))
    anchors = {}
    for i in at:
        m = re.match(r'## <a name="([^"]*)"></a>Table (.*)$', lines[i])
        expect(m, 'heading {!r}', lines[i])
        anchors.setdefault(m.group(1), []).append(m.group(2))
    for t, i, j in zip(case['tables'], at, at[1:] + [len(lines)]):
        check_table(case, t, lines[i:j], anchors)
    types = [c.get('datatype') for t in case['tables'] for c in t['cols']]
    rec.label('linked' if case['link'] else 'not linked', *(['inherited'] if case['group'] else []))
    rec.nt(any(isinstance(x, dict) for x in types) or any(t['fks'] for t in case['tables']))


def check_table(case, t, lines, anchors):
    url = t['url']
    link = '[{0}]({0})'.format(url)
    heading = lines[0].partition('</a>Table ')[2].strip()
    eq(heading, link if case['link'] and t['exists'] else url, 'heading')
    at = [i for i, line in enumerate(lines) if line.startswith('### Columns')]
    eq(len(at), 1, 'number of lists of columns')
    text = '\n'.join(lines[1:at[0]])
    # dialect
    dialect = dict(t['dialect'] if t['dialect'] is not None else case['dialect'] or {})
    m = re.search(r'\*\*CSV dialect\*\*: `(.*)`', text)
    eq(m is not None, bool(dialect), 'dialect in {!r}', text)
    if m:
        got = json.loads(m.group(1))
        eq(sorted(got.items(), key=str), sorted(dialect.items(), key=str), 'dialect')
        text = text.replace(m.group(0), '')
    check_props(t['props'], tables_in(text.split('\n')), url, text)
    # columns
    tables = tables_in(lines[at[0]:])
    eq(len(tables), 1, 'tables of columns')
    n, rows = tables[0]
    eq(n, 3, 'number of columns')
    eq(len(rows) - 1, len(t['cols']), 'number of columns listed')
    refs = {}
    for cols, k, ref, byschema in t['fks']:
        if len(cols) == 1 and not byschema:
            other = case['tables'][k]
            refs.setdefault(cols[0], []).append((other['url'], other['cols'][ref[0]]['name']))
    for i, (c, row) in enumerate(zip(t['cols'], rows[1:])):
        check_row(case, t, i, c, row, refs.get(i, []), anchors)


def check_row(case, t, i, c, row, refs, anchors):
    name = header(c, i)
    expect(2 <= len(row) <= 3, '{} cells in {!r}', len(row), row)
    first, second, third = (row + [''])[:3]
    expect(flat(first) == flat('[{}]({})'.format(name, c['propertyUrl']) if c['propertyUrl'] else '`{}`'.format(name)),
           'name {!r} in {!r}', name, first)
    # datatype
    dt, sep = c.get('datatype'), c.get('separator')
    for level in (t['schema'], t['table'], case['group']):
        dt = level.get('datatype') if dt is None else dt
        sep = level.get('separator') if sep is None else sep
    dt = {'base': dt or 'string'} if not isinstance(dt, dict) else dict({'base': 'string'}, **dt)
    expect('`{}`'.format(dt['base']) in second, 'datatype {} in {!r}', dt['base'], second)
    eq(second.startswith('list of'), bool(sep), 'list in {!r}', second)
    if sep and not re.search('[\n\t]', sep):
        expect('`{}`'.format(sep) in second, 'separator {!r} in {!r}', sep, second)
    elif sep:
        expect('`{}`'.format(flat(sep)) in re.sub(r'` +`', '``', flat(second)) or '` {} `'.format(flat(sep)) in second or
               '`{} `'.format(flat(sep)) in second, 'separator {!r} in {!r}', sep, second)
    fmt = dt.get('format')
    if dt['base'] in ('string', 'boolean') and isinstance(fmt, str):
        if re.fullmatch(r'[\w\s]+(\|[\w\s]+)*', fmt):
            for choice in fmt.split('|'):
                expect('`{}`'.format(choice) in second, 'choice {!r} in {!r}', choice, second)
        elif dt['base'] == 'string':
            expect('`{}`'.format(fmt) in second, 'format {!r} in {!r}', fmt, second)
    else:
        expect(isinstance(fmt, str) or ('choices' not in second and 'Regex' not in second), 'choices in {!r}', second)
    for facet, sign in [('minimum', '≥'), ('maximum', '≤')]:
        expect((dt.get(facet) is not None) == (sign in html.unescape(second)), '{} in {!r}', facet, second)
        if dt.get(facet) is not None:
            expect('{} {}'.format(sign, dt[facet]) in html.unescape(second), '{} {!r} in {!r}', facet, dt[facet], second)
    # description and keys
    for x in leaves(c.get('desc')):
        expect(shows(third, x), 'description {!r} in {!r}', x, third)
    eq('Primary key' in third, bool(t['pk'] and i in t['pk']), 'primary key in {!r}', third)
    got = re.findall(r'References \[(.*?)\]\(#table-([^)]*)\)', third)
    eq([g[0] for g in got], [flat('{}::{}'.format(*r)) for r in refs], 'references')
    for (_, anchor), (url, _) in zip(got, refs):
        expect('table-' + anchor in anchors, 'link to {!r}', anchor)
        heading = anchors['table-' + anchor]
        expect(any(h.strip() in (url, '[{0}]({0})'.format(url)) for h in heading), 'link to {!r} rather than {!r}', heading, url)


PROP = Prop(
    'C27',
    [Sub('markdown', cases(), check, quick=3000, thorough=80000)],
    rule='Groups of up to 3 tables with 0-5 columns, with datatypes (own or inherited), separators, keys, references, properties and '
         'dialects, and with pipes and line breaks in any text. Non-trivial: a derived datatype or a reference.',
    assumptions=['Headings are recognised by their text, rows and cells by the rules of GitHub Flavored Markdown.',
                 'References to schemas and references with several columns are not shown in the text by design.',
                 'Inline markup in names and descriptions is not judged.'])
