"""C19: conversion to JSON contains exactly the data."""
import json
import re
import shutil
import urllib.parse
import warnings

from hypothesis import strategies as st

from csvw import CSVW
from vf.core import *
from . import gen, pools, datasets as dsets, large

EX = 'http://example.org/'
# propertyUrl -> key in the JSON object; {} is the name of the column
PROPS = [
    (None, '{}'), (None, '{}'), (None, '{}'), (None, '{}'),
    (EX + 'p/{_name}', EX + 'p/{}'), ('schema:name', 'schema:name'),
    ('http://purl.org/dc/terms/title', 'dc:title'), ('schema:{_name}', 'schema:{}'),
    ('http://www.w3.org/2000/01/rdf-schema#label', 'rdfs:label'),
    (EX + 'same', EX + 'same'), (EX + 'same', EX + 'same'), ('skos:same:as', 'skos:same:as'),
    ('rdf:type', '@type'), ('http://www.w3.org/1999/02/22-rdf-syntax-ns#type', '@type'),
]
# valueUrl -> template, with {v} for the value of the column itself
VALUES = [None, None, None, None, None, EX + 'v/{v}', EX + 'r{_row}#{v}', EX + '{_name}/{v}?x', 'schema:{v}']
# Kinds with values whose canonical form is just the text.
PLAIN = [None, 'string', 'YN', 'boolean', 'gYear', 'regex']
COMMON = [
    ('dc:title', 'A title', 'A title'), ('dc:title', {'@value': 'Titel', '@language': 'de'}, 'Titel'),
    ('schema:url', {'@id': 'http://example.org/x'}, 'http://example.org/x'),
    ('dc:subject', ['a', 'b'], ['a', 'b']), ('schema:n', 5, 5), ('rdfs:label', {'@value': 5}, 5),
    ('dc:creator', {'schema:name': 'X', 'schema:url': {'@id': 'http://x.org'}},
     {'schema:name': 'X', 'schema:url': 'http://x.org'}),
    ('http://example.org/p', ['x', {'@value': True}], ['x', True]),
    ('rdf:type', {'@id': 'schema:Dataset'}, 'schema:Dataset'),
    ('dc:issued', {'@value': '2020-01-01', '@type': 'xsd:date'}, '2020-01-01'),
    ('schema:zero', {'@value': 0}, 0), ('schema:no', {'@value': False}, False), ('schema:empty', {'@value': ''}, ''),
    ('schema:list', ['', 0, {'@value': 0}], ['', 0, 0]), ('schema:o', {'schema:p': {'@value': '', '@language': 'en'}}, {'schema:p': ''}),
]
NOTES = [({'type': 'note'}, {'type': 'note'}), ('text', 'text'),
         ({'schema:text': {'@value': 'x'}, 'oa:target': {'@id': 'http://example.org/y'}},
          {'schema:text': 'x', 'oa:target': 'http://example.org/y'}),
         ({'a': {'@value': 0}, 'b': {'@value': ''}, 'c': [{'@value': False}, {'@id': 'x:y'}]}, {'a': 0, 'b': '', 'c': [False, 'x:y']}),
         ({'schema:about': {'@id': 'http://example.org/z', 'schema:name': 'Z'}},
          {'schema:about': {'@id': 'http://example.org/z', 'schema:name': 'Z'}})]


COMMENTS = ['note', 'b', 'a, c', 'note', 'z', 'a']


def annotations(draw):
    common = {}
    for i in draw(st.lists(st.integers(0, len(COMMON) - 1), max_size=3)):
        common[COMMON[i][0]] = i
    return {'id': draw(st.sampled_from([None, None, 'http://example.org/id', 'http://example.org/id2'])),
            'common': common,
            'notes': draw(st.lists(st.integers(0, len(NOTES) - 1), max_size=2))}


@st.composite
def cases(draw, multi=False):
    ds = draw(dsets.datasets(
        n_max=2, fks=False, keys=False, kinds=[k for k in dsets.pools.ALL_KINDS if not multi or k not in ('json', 'schema')],
        urls=['a.csv', 'b c.csv', 'ü.csv', 'sub/z.csv']))
    for t in ds['tables']:
        t['about'] = draw(st.sampled_from(
            [None, EX + 't/{_row}', EX + 't/{_row}', EX + '{_row}#x'] if not multi else [EX + 't/{_row}'] * 3 + [None]))
        t['about_at'] = draw(st.sampled_from(['schema', 'schema', 'table', 'group']))
        t['inherited'] = draw(st.sampled_from([None, None, None, 'propertyUrl']))
        subjects = ['http://example.org/s{}/{{_row}}'.format(i) for i in range(3)] + [None, EX + '{_name}/{_row}']

        def rdf(c):
            c['prop'] = draw(st.integers(0, len(PROPS) - 1))
            c['value'] = draw(st.sampled_from(VALUES)) if c.get('kind', None) in PLAIN else None
            c['suppress'] = draw(st.integers(0, 6)) == 0
            c['about'] = draw(st.sampled_from(subjects)) if multi else None
            return c
        for c in t['cols']:
            rdf(c)
            c['empty'] = c['kind'] in (None, 'string') and c['null'] and not c['sep'] and draw(st.booleans())
        t['virtual'] = []
        for i in range(draw(st.integers(0, 3 if multi else 2))):
            v = rdf({'name': draw(st.sampled_from(['v{}', 'v{}', 'v-{}', 'v.{}_'])).format(i)})
            v['value'] = draw(st.sampled_from(
                [EX + 'virtual', 'schema:Thing', EX + '{_row}/{_name}'] +
                (subjects[:3] * 2 + [EX + 't/{_row}'] if multi else [None])))
            t['virtual'].append(v)
        if multi and draw(st.integers(0, 3)) == 0:  # chains and cycles of subjects
            order = draw(st.permutations(range(3)))
            for i, (a, b) in enumerate(zip(order, draw(st.permutations(range(3))))):
                t['virtual'].append(dict(rdf({'name': 'w{}'.format(i)}), about=subjects[a], value=subjects[b], suppress=False))
        t['suppress'] = draw(st.integers(0, 5)) == 0
        t['titles'] = draw(st.lists(st.integers(0, len(t['cols']) - 1), max_size=2, unique=True))
        t['ann'] = annotations(draw)
        t['comments'] = draw(st.lists(st.integers(0, 5), max_size=4))
        for r in t['rows']:
            for c, v in zip(t['cols'], r):
                if c['empty'] and v is not None and draw(st.integers(0, 3)) == 0:
                    r[t['cols'].index(c)] = ''
        if t['rows'] and draw(st.integers(0, 5)) == 0:
            # A cell which is invalid, its value is the text.
            options = [i for i, c in enumerate(t['cols']) if c['kind'] in pools.BAD and not c['sep']]
            if options:
                i = draw(st.sampled_from(options))
                draw(st.sampled_from(t['rows']))[i] = draw(st.sampled_from(pools.BAD[t['cols'][i]['kind']]))
    return {'ds': ds, 'multi': multi, 'ann': annotations(draw),
            'single': draw(st.booleans())}


def jvalue(kind, i, variant):
    text = pools.text(kind, i, variant)
    first = pools.text(kind, i)
    if kind in ('integer', 'pattern', 'range', 'unsignedByte', 'negativeInteger'):
        return int(text.replace(',', ''))
    if kind in ('decimal', 'exclusive', 'decimalChar', 'float', 'number'):
        return text if text.endswith('INF') else float(text.replace(',', '.'))
    if kind in ('boolean', 'YN'):
        return text in ('true', '1', 'Y')
    if kind == 'german':
        return '{2:0>4}-{1:0>2}-{0:0>2}'.format(*text.split('.'))
    if kind in ('dateTime', 'time'):
        return re.sub(r'[.]0+(?=\D|$)', '', text)
    if kind in ('json', 'schema'):
        return json.loads(text)
    if kind == 'duration':
        return first
    if kind == 'hexBinary':
        return text.upper()
    return text


def colname(c):
    return dsets.head(c) if c['head'] == 'unnamed' else c['name']


def canonical(kind, i, variant):
    if kind in ('YN', 'boolean'):
        return 'true' if jvalue(kind, i, variant) else 'false'
    return pools.text(kind, i, variant)


def quote(s):
    return urllib.parse.quote(s, safe='-._~')


def ann_desc(desc, ann, key=True):
    if ann['id']:
        desc['@id'] = ann['id']
    for i in ann['common'].values():
        desc[COMMON[i][0]] = json.loads(json.dumps(COMMON[i][1]))
    if ann['notes']:
        desc['notes'] = [NOTES[i][0] for i in ann['notes']]


def ann_json(ann):
    res = {}
    if ann['id']:
        res['@id'] = ann['id']
    if ann['notes']:
        res['notes'] = [NOTES[i][1] for i in ann['notes']]
    for i in ann['common'].values():
        res['@type' if COMMON[i][0] == 'rdf:type' else COMMON[i][0]] = COMMON[i][2]
    return res


def template(s, name):
    return s and s.replace('{v}', '{' + name + '}')


def build(case, d):
    ds = case['ds']
    desc = dsets.describe(ds)
    dialect = dict(ds['dialect'] or {})
    header = dialect.get('header', True)
    group_about = None
    expected = []
    for t, td in zip(ds['tables'], desc['tables']):
        schema = td['tableSchema']
        for c, cd in zip(t['cols'] + t['virtual'], schema['columns'] + [None] * len(t['virtual'])):
            if cd is None:
                cd = {'name': c['name'], 'virtual': True}
                schema['columns'].append(cd)
            for prop, v in [('propertyUrl', PROPS[c['prop']][0]), ('valueUrl', template(c['value'], c['name'])),
                            ('aboutUrl', c['about']), ('suppressOutput', c['suppress'])]:
                if v:
                    cd[prop] = v
        if t['about']:
            if t['about_at'] == 'group' and (group_about in (None, t['about'])) and not case['multi'] \
                    and all(o['about'] for o in ds['tables']):
                group_about = t['about']
                desc['aboutUrl'] = t['about']
            else:
                (td if t['about_at'] == 'table' else schema)['aboutUrl'] = t['about']
        if t['suppress']:
            td['suppressOutput'] = True
        if t['titles']:
            schema['rowTitles'] = [colname(t['cols'][i]) for i in t['titles']]
        ann_desc(td, t['ann'])
        if t['comments']:
            td['dialect'] = dict(dialect, commentPrefix='#')
        # the file
        rows = dsets.content(t)
        lines, numbers, comments = [], [], []
        for i, row in enumerate(rows if header else rows[1:]):
            if t['comments'] and i in t['comments']:
                comments.append(COMMENTS[i % len(COMMENTS)])
                lines.append(('#{}\r\n'.format(comments[-1])).encode(dialect.get('encoding', 'utf-8').replace('-sig', '')))
            lines.append(dsets.dump([row], dict(dialect, header=True)))
            numbers.append(len(lines))
        if header:
            numbers = numbers[1:]
        enc = dialect.get('encoding', 'utf-8')
        if enc == 'utf-16':
            lines = [line.decode('utf-16').encode('utf-16-le') for line in
                     [x if x[:2] == b'\xff\xfe' else x for x in lines]]
            content = b'\xff\xfe' + b''.join(lines)
        elif enc == 'utf-8-sig':
            content = b'\xef\xbb\xbf' + b''.join(x.decode('utf-8-sig').encode('utf-8') for x in lines)
        else:
            content = b''.join(lines)
        p = d / t['url']
        p.parent.mkdir(exist_ok=True)
        p.write_bytes(content)
        if not t['suppress']:
            expected.append((t, numbers, comments, p))
    ann_desc(desc, case['ann'])
    return desc, expected


def expected_row(t, row, rownum):
    """[(subject, key, value)]; subject None is the subject of the row."""
    res = []
    texts = {}
    for c, v in zip(t['cols'], row):
        if c['kind'] in PLAIN and c['head'] != 'unnamed':
            if isinstance(v, str):
                texts[c['name']] = quote(v)
            elif c['sep']:
                texts[c['name']] = ','.join(quote(canonical(c['kind'], *i)) for i in v if i is not None)
            else:
                texts[c['name']] = quote(canonical(c['kind'], *v)) if v is not None else ''

    def expand(tmpl, name):
        return re.sub(r'\{(\w+)\}', lambda m: {'_row': str(rownum), '_name': quote(name), 'v': texts.get(m.group(1), '')}.get(
            m.group(1), texts.get(m.group(1), '')), tmpl)

    for c, v in list(zip(t['cols'], row)) + [(c, None) for c in t['virtual']]:
        virtual = 'kind' not in c
        name = c['name'] if virtual else colname(c)
        if c['suppress']:
            continue
        if virtual:
            if not c['value']:
                continue
        elif v is None or (c['sep'] and dsets.text(c, v) == '') or \
                (c['sep'] and dsets.text(c, v) == c['null']):
            # Lists which are written like null are null.
            continue
        key = PROPS[c['prop']][1].format(quote(name) if PROPS[c['prop']][0] else name)
        if c['value']:
            value = expand(template(c['value'], c['name']), name)
            prefix = 'schema:'
            if value.startswith(prefix) and key != '@type':
                value = 'http://schema.org/' + value[len(prefix):]
            multi = False
        elif isinstance(v, str):
            value = v
        elif c['sep']:
            value = [None if i is None else jvalue(c['kind'], *i) for i in v]
        else:
            value = jvalue(c['kind'], *v)
        res.append((expand(c['about'], name) if c['about'] else None, key, value))
    return res


def num(a, b):
    """Equality of JSON values; 1 and 1.0 are the same number, but not true."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(num(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(num(x, y) for x, y in zip(a, b))
    return a == b


def jeq(got, want, what):
    if not num(got, want):
        fail('{}: expected {!r}, got {!r}', what, want, got)


def single_object(t, row, rownum):
    res = {}
    if t['about']:
        res['@id'] = t['about'].replace('{_row}', str(rownum))
    count = {}
    for _, k, v in expected_row(t, row, rownum):
        if k in res:
            if count[k] == 1 and not isinstance(res[k], list):
                res[k] = [res[k]]
            res[k] = res[k] + (v if isinstance(v, list) else [v])
        else:
            res[k] = v
        count[k] = count.get(k, 0) + 1
    return res


def flatten(objs):
    """JSON objects to [(subject, key, value)], with references to subjects as values."""
    res, subjects, nested = [], [], {}

    def visit(o, top=True):
        s = o.get('@id')
        expect(isinstance(s, str) or (s is None and top), 'object without identifier: {!r}', o)
        s = s or ''
        expect(s not in subjects, 'subject {} is described repeatedly', s)
        subjects.append(s)
        for k, v in o.items():
            if k == '@id':
                continue
            for i in v if isinstance(v, list) else [v]:
                if isinstance(i, dict):
                    expect(k != '@type', 'type of {!r} is no URL: {!r}', s, i)
                    res.append((s, k, json.dumps(i.get('@id'))))
                    nested[i.get('@id')] = (s, k)
                    visit(i, top=False)
                else:
                    res.append((s, k, json.dumps(float(i) if isinstance(i, int) and not isinstance(i, bool) and
                                                 abs(i) < 2 ** 50 else i)))
    for o in objs:
        visit(o)
    return sorted(res), subjects, nested


def check_objects(t, row, rownum, got, rec):
    if all(not c['about'] for c in t['cols'] + t['virtual']):
        want = single_object(t, row, rownum)
        eq(len(got), 1, 'number of objects in {!r}', got)
        eq(list(got[0]), list(want), 'properties of the object')
        jeq(got[0], want, 'object')
        return
    values = expected_row(t, row, rownum)
    if t['about']:
        me = t['about'].replace('{_row}', str(rownum))
    elif values and all(s for s, _, _ in values):
        me = None
    else:
        me = ''
        if all('@id' in o for o in got):
            # The values of the row have been merged with the ones of the only other subject.
            eq(len(got), 1, 'number of objects')
            me = got[0]['@id']
            rec.label('merged')
    want, subjects = [], {me} - {None}
    for s, k, v in values:
        subjects.add(s or me)
        for i in v if isinstance(v, list) else [v]:
            want.append((s or me, k, json.dumps(float(i) if isinstance(i, int) and not isinstance(i, bool) and
                                                abs(i) < 2 ** 50 else i)))
    triples, found, nested = flatten(got)
    eq(triples, sorted(want), 'triples of row {}', rownum)
    eq(sorted(found), sorted(subjects), 'subjects of row {}', rownum)
    # Subjects are nested if they are the value in exactly one place. (Not judged for rows without subject.)
    urls = [(s, k, json.loads(v)) for s, k, v in want]
    for x in subjects if t['about'] else []:
        places = [(s, k) for s, k, v in urls if v == x]
        if any(k == '@type' for _, k in places):
            continue
        if len(places) != 1:
            expect(x not in nested, '{!r} occurs in {!r} but is nested', x, places)
            continue
        seen, s = [], places[0][0]
        while s not in seen + [x]:
            seen.append(s)
            refs = [(p, k) for p, k, v in urls if v == s]
            if any(k == '@type' for _, k in refs):
                s = x  # not judged
            elif len(refs) == 1:
                s = refs[0][0]
        if s != x:  # not in a cycle
            eq(nested.get(x), places[0], 'place of {} in {!r}', x, got)
    roots = [o.get('@id', '') for o in got]
    if me in roots:
        eq(roots[0], me, 'the subject of the row comes first')
    if len(subjects) > len(roots):
        rec.label('nested')
    if len(subjects) > 1:
        rec.label('several subjects')


def check(case, rec):
    d = gen.scratch(rec, 'd')
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir()
    with oracle():
        desc, expected = build(case, d)
        single = case['single'] and len(desc['tables']) == 1
        if single:
            tdesc = desc['tables'][0]
            for k in ('@context', 'dialect', 'aboutUrl'):
                if k in desc:
                    tdesc.setdefault(k, desc[k])
            desc = tdesc
        (d / 'md.json').write_text(json.dumps(desc))
    ds = CSVW(str(d / 'md.json'))
    before = json.dumps(ds.t.asdict())
    res = ds.to_json()
    got = json.loads(json.dumps(res))
    tables = got.pop('tables')
    with oracle():
        want = {} if single else ann_json(case['ann'])
    jeq(got, want, 'annotations of the group')
    eq(len(tables), len(expected), 'number of tables')
    n = 0
    objects = []
    for got, (t, numbers, comments, p) in zip(tables, expected):
        rows = got.pop('row')
        with oracle():
            want = dict(ann_json(t['ann']), url=str(p))
            if comments:
                want['rdfs:comment'] = comments
        jeq(got, want, 'annotations of the table')
        eq(len(rows), len(t['rows']), 'number of rows')
        for rownum, (row, lineno, r) in enumerate(zip(t['rows'], numbers, rows), start=1):
            eq(set(r), {'url', 'rownum', 'describes'} | ({'titles'} if t['titles'] else set()), 'keys of a row')
            eq(r['rownum'], rownum, 'row number')
            eq(r['url'], '{}#row={}'.format(p, lineno), 'url of row')
            if t['titles']:
                check_titles(t, row, r['titles'])
            check_objects(t, row, rownum, r['describes'], rec)
            objects.extend(r['describes'])
            n += 1
    minimal = CSVW(str(d / 'md.json')).to_json(minimal=True)
    jeq(json.loads(json.dumps(minimal)), objects, 'minimal mode')
    # Conversion is repeatable and doesn't change the description.
    eq(json.dumps(ds.to_json()), json.dumps(res), 'second conversion')
    eq(json.dumps(ds.t.asdict()), before, 'description after conversion')
    rec.label('single' if single else 'group')
    if any(t['suppress'] for t in case['ds']['tables']):
        rec.label('suppressed table')
    if any(c['suppress'] for t in case['ds']['tables'] for c in t['cols']):
        rec.label('suppressed column')
    rec.nt(n and any(t['cols'] for t in case['ds']['tables']))


def check_titles(t, row, got):
    want = []
    for i in t['titles']:
        c, v = t['cols'][i], row[i]
        if c['kind'] not in PLAIN or c['sep']:
            return
        if v is not None and v != '':
            want.append(v if isinstance(v, str) else canonical(c['kind'], *v))
    eq(got, want[0] if len(want) == 1 else want, 'row titles')


# ---------------------------------------------------------------- without metadata

@st.composite
def plain(draw):
    n = draw(st.integers(1, 4))
    head = draw(st.lists(st.sampled_from(['a', 'B', 'a b', 'é', '_x', 'x:y', '1', 'null', '"q"', 'a,b', '{x}', '%20']),
                         min_size=n, max_size=n, unique=True))
    cell = st.sampled_from(['', 'a', '0', '1.5', 'true', 'null', ' x ', 'http://example.org/a', '"', ',', 'ü', '[]', '{}',
                            'two\nlines'])
    return {'head': head, 'rows': draw(st.lists(st.lists(cell, min_size=n, max_size=n), max_size=5))}


def check_plain(case, rec):
    d = gen.scratch(rec, 'd')
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir()
    with oracle():
        rows = [r for r in case['rows']]
        (d / 'x y.csv').write_bytes(dsets.dump([case['head']] + rows))
    res = json.loads(json.dumps(CSVW(str(d / 'x y.csv')).to_json()))
    eq(list(res), ['tables'], 'keys')
    table, = res['tables']
    got = [r['describes'] for r in table['row']]
    with oracle():
        want = [[{h: v for h, v in zip(case['head'], r) if v != ''}] for r in rows]
    jeq(got, want, 'objects')
    eq([r['rownum'] for r in table['row']], list(range(1, len(rows) + 1)), 'row numbers')
    jeq(CSVW(str(d / 'x y.csv')).to_json(minimal=True), [o for os in want for o in os], 'minimal mode')
    rec.nt(bool(rows))


# ---------------------------------------------------------------- with few columns described

@st.composite
def few(draw):
    n = draw(st.integers(1, 5))
    head = draw(st.lists(st.sampled_from(['a', 'B', 'c', 'd e', 'é', 'f', 'x-y']), min_size=n, max_size=n, unique=True))
    cols = []
    for h in head[:draw(st.integers(0, n))]:
        kind = draw(st.sampled_from(['name', 'title', 'both', 'bad']))
        name = {'name': h, 'title': None, 'both': 'n{}'.format(len(cols)),
                'bad': draw(st.sampled_from(['_x', 'y z', '_', ' a', 'tab\tx'])) + str(len(cols))}[kind]
        if kind == 'name' and ' ' in h:
            kind, name = 'title', None
        cols.append({'kind': kind, 'name': name, 'title': None if kind == 'name' else h})
    cell = st.sampled_from(['a', 'a', '0', 'x', 'NA', '-', '', 'n/a', 'NA '])
    return {'head': head, 'cols': cols, 'null': draw(st.sampled_from([None, ['NA'], ['', 'NA'], ['', 'NA', '-'], ['-', 'n/a', ''], 'NA'])),
            'null_at': draw(st.sampled_from(['table', 'table', 'schema', 'group'])),
            'url': draw(st.sampled_from([None, None, 'propertyUrl', 'valueUrl'])),
            'url_at': draw(st.sampled_from(['table', 'group'])),
            'rows': draw(st.lists(st.lists(cell, min_size=n, max_size=n), min_size=1, max_size=5))}


def check_few(case, rec):
    d = gen.scratch(rec, 'd')
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir()
    with oracle():
        (d / 'a.csv').write_bytes(dsets.dump([case['head']] + case['rows']))
        table = {'url': 'a.csv'}
        if case['cols']:
            table['tableSchema'] = {'columns': [
                {k: v for k, v in [('name', c['name']), ('titles', c['title'])] if v} for c in case['cols']]}
        md = {'@context': 'http://www.w3.org/ns/csvw', 'tables': [table]}
        null = ['']
        if case['null'] is not None and (case['null_at'] != 'schema' or len(case['cols']) == len(case['head'])):
            {'table': table, 'group': md, 'schema': table.get('tableSchema')}[case['null_at']]['null'] = case['null']
            null = [case['null']] if isinstance(case['null'], str) else case['null']
        if case['url']:
            (md if case['url_at'] == 'group' else table)[case['url']] = EX + ('p' if case['url'] == 'propertyUrl' else '{_row}')
        (d / 'md.json').write_text(json.dumps(md))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        objects = json.loads(json.dumps(CSVW(str(d / 'md.json')).to_json(minimal=True)))
    with oracle():
        want = []
        for rownum, row in enumerate(case['rows'], start=1):
            items = [(i, v if case['url'] != 'valueUrl' else EX + str(rownum)) for i, v in enumerate(row) if v not in null]
            if case['url'] == 'propertyUrl':
                values = [v for _, v in items]
                want.append([(EX + 'p', values[0] if len(values) == 1 else values)] if values else [])
                continue
            want.append([(key(case, i), v) for i, v in items])
        # What undescribed columns are called is only judged if there are no columns described.
        got = [[(k if i < len(w) and w[i][0] else None, v) for i, (k, v) in enumerate(o.items())] for o, w in zip(objects, want)]
    eq(got, want, 'objects')
    eq(len(objects), len(want), 'number of objects')
    rec.label('columns described: ' + ('none' if not case['cols'] else
                                       'some' if len(case['cols']) < len(case['head']) else 'all'))
    if any(c['kind'] == 'bad' for c in case['cols']):
        rec.label('invalid name')
    rec.nt(len(case['cols']) < len(case['head']) or any(c['kind'] == 'bad' for c in case['cols']))


def key(case, i):
    if not case['cols']:
        return '_col.{}'.format(i + 1)
    if i >= len(case['cols']):
        return None
    c = case['cols'][i]
    return c['name'] if c['kind'] in ('name', 'both') else c['title']


PROP = Prop(
    'C19',
    [Sub('single', cases(), check, quick=4000, thorough=120000),
     Sub('subjects', cases(multi=True), check, quick=3000, thorough=90000),
     Sub('plain', plain(), check_plain, quick=1500, thorough=20000),
     Sub('few', few(), check_few, quick=1500, thorough=20000),
     Sub('large', large.table_cases(), large.check_json, quick=24, thorough=1500)],
    rule='Groups of 1-2 tables over all datatypes with property, value and about URLs, virtual and suppressed '
         'columns, lists, nulls, notes, common properties, comments, dialects; several subjects per row. '
         'Non-trivial: at least one row is converted.',
    assumptions=['Where a value stands in the nesting of objects is not judged, only what each subject has.',
                 'Numbers are compared as numbers (1 is 1.0).', 'No language-dependent properties.',
                 'JSON cells only in rows with a single subject.'])
