"""C23: Frictionless data packages are converted faithfully."""
import copy
import csv
import datetime
import io
import itertools
import json
import pathlib
import shutil

import isodate
from hypothesis import strategies as st

from csvw import TableGroup
from csvw.frictionless import DataPackage
from vf.core import *
from . import gen

UTC = datetime.timezone.utc


def dt(*args, **kw):
    return datetime.datetime(*args, **kw)


def val(v):
    """What a value looks like in Python, leaving open how csvw represents dates."""
    return v


# kind -> (field properties, [(text, value)], [bad texts])
KINDS = {
    'untyped': ({}, [('a', 'a'), ('b c', 'b c'), ('#x', '#x'), ('é"', 'é"'), ('1', '1'), ('a,b', 'a,b')], []),
    'string': ({'type': 'string'}, [('a', 'a'), ('x;y', 'x;y'), ('#c', '#c'), ("it's", "it's"), ('true', 'true')], []),
    'default': ({'type': 'string', 'format': 'default'}, [('a', 'a'), ('zz', 'zz'), (' b', ' b')], []),
    'email': ({'type': 'string', 'format': 'email'}, [('a@b.org', 'a@b.org'), ('c@d.org', 'c@d.org')], []),
    'uuid': ({'type': 'string', 'format': 'uuid'}, [('f81d4fae-7dec-11d0-a765-00a0c91e6bf6',) * 2], []),
    'uri': ({'type': 'string', 'format': 'uri'}, [('http://example.org/a',) * 2, ('http://example.org/?q#f',) * 2], []),
    'binary': ({'type': 'string', 'format': 'binary'}, [('YWJj', b'abc'), ('YQ==', b'a')], []),
    'integer': ({'type': 'integer'}, [('1', 1), ('-20', -20), ('0', 0), ('12345678901234567890', 12345678901234567890),
                                      ('007', 7)], ['x', '1.5']),
    'bare': ({'type': 'integer', 'bareNumber': True}, [('1', 1), ('-20', -20)], ['x', '1.5']),
    'grouped': ({'type': 'integer', 'groupChar': ','}, [('1,000', 1000), ('5', 5), ('-1,234,567', -1234567)], ['x']),
    'dotted': ({'type': 'integer', 'groupChar': '.'}, [('1.000', 1000), ('5', 5)], ['x']),
    'number': ({'type': 'number'}, [('1.5', 1.5), ('-2', -2.0), ('1e3', 1000.0), ('0.1', .1), ('INF', float('inf')),
                                    ('NaN', float('nan'))], ['x', '1.5.5']),
    'comma': ({'type': 'number', 'decimalChar': ','}, [('1,5', 1.5), ('2', 2.0), ('-0,25', -.25)], ['x', '1.5']),
    'german': ({'type': 'number', 'decimalChar': ',', 'groupChar': '.'},
               [('1.000,5', 1000.5), ('2', 2.0), ('-0,25', -.25), ('1.234.567', 1234567.0)], ['x']),
    'odd': ({'type': 'number', 'decimalChar': ';', 'groupChar': '.'}, [('1.000;5', 1000.5), ('2', 2.0), ('-0;25', -.25)],
            ['x', '1,5']),
    'spaced': ({'type': 'number', 'groupChar': ' ', 'decimalChar': '.'}, [('1 000.5', 1000.5), ('2', 2.0)], ['x']),
    'boolean': ({'type': 'boolean'}, [('true', True), ('false', False), ('1', True), ('0', False)], ['x', 'yes']),
    'janein': ({'type': 'boolean', 'trueValues': ['ja', 'j'], 'falseValues': ['nein']}, [('ja', True), ('nein', False)],
               ['x', 'true']),
    'ja': ({'type': 'boolean', 'trueValues': ['ja']}, [('ja', True), ('false', False)], ['x', 'true']),
    'nein': ({'type': 'boolean', 'trueValues': [], 'falseValues': ['nein', 'n']}, [('true', True), ('nein', False)], ['x']),
    'date': ({'type': 'date'}, [('2020-02-29', dt(2020, 2, 29)), ('1999-12-31', dt(1999, 12, 31))],
             ['2019-02-29', 'x', '1.1.2020']),
    'time': ({'type': 'time'}, [('10:00:01', (10, 0, 1)), ('23:59:59', (23, 59, 59))], ['25:00:00', 'x']),
    'datetime': ({'type': 'datetime'}, [('2020-01-01T10:00:00Z', dt(2020, 1, 1, 10, tzinfo=UTC)),
                                        ('2020-01-01T10:00:01Z', dt(2020, 1, 1, 10, 0, 1, tzinfo=UTC))], ['x']),
    'year': ({'type': 'year'}, [('2020', '2020'), ('1999', '1999')], []),
    'yearmonth': ({'type': 'yearmonth'}, [('2020-01', '2020-01'), ('1999-12', '1999-12')], []),
    'duration': ({'type': 'duration'}, [('P1D', 'P1D'), ('P1Y2M', 'P1Y2M'), ('PT1S', 'PT1S')], ['x', '1 day']),
    'object': ({'type': 'object'}, [('{}', {}), ('{"a": [1, null]}', {'a': [1, None]})], ['{', 'x']),
    'array': ({'type': 'array'}, [('[]', []), ('[1, "a"]', [1, 'a'])], ['[', 'x']),
    'geojson': ({'type': 'geojson'}, [('{"type": "Point", "coordinates": [1, 2]}', {'type': 'Point', 'coordinates': [1, 2]})],
                ['{']),
    'geopoint': ({'type': 'geopoint'}, [('90.5, 45.5', '90.5, 45.5')], []),
    'any': ({'type': 'any'}, [('a', 'a'), ('1', '1')], []),
}
KEYS = ['untyped', 'string', 'integer', 'email', 'date', 'year', 'comma', 'uri', 'janein']
# kind -> [(constraints, allowed texts, forbidden texts)]
CONSTRAINTS = {
    'untyped': [({'minLength': 2}, ['ab', 'abc'], ['a']), ({'maxLength': 2}, ['a', 'ab'], ['abc']),
                ({'pattern': '[a-c]+'}, ['a', 'abc'], ['d', 'abcd', 'xabc']),
                ({'pattern': 'a|bc', 'maxLength': 2, 'minLength': 1}, ['a', 'bc'], ['abc', 'c']),
                ({'minLength': 0, 'maxLength': 1}, ['a'], ['aa'])],
    'string': [({'minLength': 2, 'maxLength': 3}, ['ab', 'abc'], ['a', 'abcd']), ({'pattern': r'\d{2}'}, ['12'], ['1', '123', 'x']),
               ({'unique': True, 'maxLength': 3}, ['abc'], ['abcd'])],
    'email': [({'maxLength': 7}, ['a@b.org'], ['ab@cd.org']), ({'pattern': 'a@.*'}, ['a@b.org'], ['c@d.org'])],
    'uuid': [({'pattern': '[0-9a-f-]+'}, ['f81d4fae-7dec-11d0-a765-00a0c91e6bf6'], ['X'])],
    'uri': [({'pattern': 'http://.*'}, ['http://example.org/a'], ['ftp://example.org'])],
    'integer': [({'minimum': 0}, ['0', '5'], ['-1']), ({'maximum': 0}, ['0', '-5'], ['1']),
                ({'minimum': 2, 'maximum': 12}, ['2', '12', '9'], ['1', '13', '100']),
                ({'minimum': '2', 'maximum': '12'}, ['2', '12', '9'], ['1', '13', '100'])],
    'grouped': [({'minimum': 1000}, ['1,000', '2,000'], ['999', '5'])],
    'number': [({'minimum': 0.5, 'maximum': 10}, ['0.5', '10', '1e1'], ['0.4', '10.5', '1e2', '-INF'])],
    'comma': [({'maximum': 1.5}, ['1,5', '-100'], ['1,6', '2'])],
    'date': [({'minimum': '2020-01-01'}, ['2020-01-01', '2020-02-29'], ['2019-12-31']),
             ({'maximum': '2020-01-01'}, ['2020-01-01', '1999-12-31'], ['2020-01-02'])],
    'datetime': [({'minimum': '2020-01-01T00:00:00Z'}, ['2020-01-01T00:00:00Z', '2021-01-01T00:00:00Z'], ['2019-12-31T23:59:59Z'])],
    'time': [({'minimum': '10:00:00', 'maximum': '11:00:00'}, ['10:00:00', '10:59:59'], ['09:59:59', '11:00:01'])],
    'year': [({'minimum': '2000'}, ['2000', '2020'], []), ({'pattern': '2.*'}, ['2000'], ['1999']),
             ({'minimum': 2000, 'maximum': 2010}, ['2000', '2005', '2010'], [])],
    'yearmonth': [({'minimum': '2000-02'}, ['2000-02', '2001-01'], [])],
    'array': [({'maxLength': 2}, ['[]', '[1, 2]', '["abcdefgh"]'], ['[1, 2, 3]']), ({'minLength': 1}, ['[1]'], ['[]'])],
    'object': [({'minLength': 1}, ['{"a": 1}'], ['{}'])],
}


def value(kind, text):
    for t, v in KINDS[kind][1]:
        if t == text:
            return v
    if kind in ('integer', 'grouped', 'bare'):
        return int(text.replace(',', ''))
    if kind in ('number', 'comma'):
        return float(text.replace(',', '.'))
    if kind == 'date':
        return dt(*map(int, text.split('-')))
    if kind == 'datetime':
        return datetime.datetime.strptime(text, '%Y-%m-%dT%H:%M:%SZ').replace(tzinfo=UTC)
    if kind == 'time':
        return tuple(map(int, text.split(':')))
    if kind in ('array', 'object'):
        return json.loads(text)
    return text


def plain(v):
    """The value read by csvw, to be compared with the value of the package."""
    if isinstance(v, datetime.datetime):
        return v
    if isinstance(v, (datetime.timedelta, isodate.Duration)):
        return isodate.duration_isoformat(v)
    if hasattr(v, 'unsplit'):
        return v.unsplit()
    return json.loads(json.dumps(v)) if isinstance(v, dict) else v


def agree(kind, got, want):
    if got is None or want is None:
        return got is want
    if kind == 'time':
        return (got.hour, got.minute, got.second) == want
    if kind == 'date' and type(got) is datetime.date:
        return got == want.date()
    if kind in ('number', 'comma', 'german', 'spaced'):
        got = float(got)
    return same(plain(got), want)


NAMES = ['id', 'name', 'a b', 'Größe', 'x-y', 'Key', 'x.y', '1', 'year', 'p/q', 'a:b', 'id_2']
PATHS = ['data.csv', 'b c.csv', 'sub/x.csv', 'ü.txt', 'a.tsv', 'data-2.csv', 'x%20y.csv']


@st.composite
def packages(draw):
    n = draw(st.integers(1, 3))
    paths = draw(st.permutations(PATHS))
    rscs = []
    for i in range(n):
        names = draw(st.permutations(NAMES))
        fields = []
        for j in range(draw(st.integers(1, 4))):
            kind = draw(st.sampled_from(sorted(KINDS)))
            f = {'name': names[j], 'kind': kind, 'con': None, 'required': draw(st.sampled_from([None, None, None, True, False])),
                 'meta': draw(st.sampled_from([{}, {}, {'title': 'A title'}, {'description': 'described'},
                                               {'rdfType': 'http://example.org/p'}, {'title': '', 'description': ''},
                                               {'title': 'x', 'description': 'y', 'rdfType': 'http://example.org/q'}]))}
            if kind in CONSTRAINTS and draw(st.booleans()):
                f['con'] = draw(st.integers(0, 9)) % len(CONSTRAINTS[kind])
            fields.append(f)
        pk = None
        if draw(st.integers(0, 2)):
            ks = list(draw(st.permutations(range(len(fields))))[:draw(st.sampled_from([1, 1, 2]))])
            for k in ks:
                fields[k].update(kind=draw(st.sampled_from(KEYS)), con=None, required=True)
            pk = ks
        rscs.append({
            'path': paths[i], 'name': 'r{}'.format(i), 'fields': fields, 'pk': pk, 'fks': [],
            'missing': draw(st.sampled_from([None, None, [''], ['', 'NA'], ['NA', '-'], ['NA', ''], ['NA'], []])),
            'encoding': draw(st.sampled_from([None, 'utf-8', 'utf-8', 'utf-16', 'UTF-8'])),
            'dialect': draw(st.sampled_from([
                None, None, {}, {'delimiter': ';'}, {'delimiter': '\t'}, {'quoteChar': "'"}, {'header': False},
                {'commentChar': '%'}, {'delimiter': '|', 'header': False, 'commentChar': '#!'},
                {'skipInitialSpace': True}, {'skipInitialSpace': True, 'delimiter': '|'}, {'doubleQuote': True, 'delimiter': ';', 'quoteChar': '"'}])),
            'nested': draw(st.booleans()), 'comments': draw(st.booleans()),
            'str': draw(st.booleans()), 'other': draw(st.sampled_from([None] * 12 + ['noschema', 'json', 'remote', 'inline']))})
    for f in range(draw(st.integers(0, 2))):
        c, p = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if not rscs[p]['pk']:
            continue
        cols = []
        for k in rscs[p]['pk']:
            cols.append(len(rscs[c]['fields']))
            rscs[c]['fields'].append({'name': 'f{}{}'.format(f, k), 'kind': rscs[p]['fields'][k]['kind'], 'con': None,
                                      'required': None, 'meta': {}, 'fk': True})
        rscs[c]['fks'].append({'cols': cols, 'rsc': p, 'ref': list(rscs[p]['pk']), 'self': c == p and draw(st.booleans())})
    for r in rscs:
        rows = []
        for _ in range(draw(st.integers(0, 4))):
            rows.append([draw(st.one_of(st.integers(0, 9), st.integers(0, 9), st.integers(0, 9), st.none()))
                         if not f['required'] and not f.get('fk') else draw(st.integers(0, 9)) for f in r['fields']])
        r['rows'] = rows
    return {'rscs': rscs, 'access': draw(st.sampled_from(['path', 'path', 'json', 'dict', 'dp', 'dirstr'])),
            'defect': draw(st.sampled_from([None, None, None, 'value', 'constraint', 'required', 'pk', 'fk'])),
            'at': [draw(st.integers(0, 30)) for _ in range(4)],
            'meta': draw(metas())}


METAS = {
    'id': ['http://example.org/id', 'x y'], 'name': ['a-package'], 'title': ['A title', ''], 'description': ['d\n\n*x*'],
    'homepage': ['http://example.org'], 'profile': ['tabular-data-package'], 'created': ['1985-04-12T23:20:50.52Z'],
    'keywords': [['a', 'b'], []], 'version': ['1.0'],
    'licenses': [[{'name': 'CC0-1.0', 'path': 'http://example.org/cc', 'title': 'CC'}], []],
    'sources': [[{'title': 'S', 'path': 'http://example.org/s'}], [{'title': 'A'}, {'title': 'B'}]],
    'contributors': [[{'title': 'Joe', 'email': 'joe@example.org', 'role': 'author'}]],
}


@st.composite
def metas(draw):
    keys = draw(st.lists(st.sampled_from(sorted(METAS)), unique=True, max_size=5))
    return {k: draw(st.sampled_from(METAS[k])) for k in keys}


def allowed(f):
    if f['con'] is not None:
        return CONSTRAINTS[f['kind']][f['con']][1]
    return [t for t, _ in KINDS[f['kind']][1]]


def build(case):
    """:return: the package, the texts of all rows and whether there is a defect."""
    rscs = case['rscs']
    pkg = copy.deepcopy(case['meta'])
    pkg['resources'] = []
    texts = []
    for r in rscs:
        nulls = [''] if r['missing'] is None else r['missing']
        rows = []
        for row in r['rows']:
            out = []
            for f, i in zip(r['fields'], row):
                pool = [t for t in allowed(f)]
                out.append((None, nulls[(len(rows)) % len(nulls)]) if i is None and nulls else (pool[(i or 0) % len(pool)],) * 2)
            if r['pk'] and any(all(value(r['fields'][k]['kind'], out[k][0]) == value(r['fields'][k]['kind'], o[k][0])
                                   for k in r['pk']) for o in rows):
                continue
            rows.append(out)
        texts.append(rows)
    for _ in rscs:
        for i, r in enumerate(rscs):
            if any(not texts[fk['rsc']] for fk in r['fks']):
                texts[i] = []
    for i, r in enumerate(rscs):
        for fk in r['fks']:
            for j, row in enumerate(texts[i]):
                src = texts[fk['rsc']][(j + case['at'][0]) % len(texts[fk['rsc']])]
                for c, k in zip(fk['cols'], fk['ref']):
                    row[c] = src[k]
    # the defect
    (a, b, c, d), defect, done = case['at'], case['defect'], None
    if defect:
        cand = []
        for i, r in enumerate(rscs):
            if r['other'] or not texts[i]:
                continue
            for j, f in enumerate(r['fields']):
                # Not in keys: these are about one kind of defect only.
                used = j in (r['pk'] or []) or f.get('fk')
                if defect == 'value' and not used and KINDS[f['kind']][2]:
                    cand.append((i, j, KINDS[f['kind']][2]))
                elif defect == 'constraint' and f['con'] is not None and CONSTRAINTS[f['kind']][f['con']][2]:
                    cand.append((i, j, CONSTRAINTS[f['kind']][f['con']][2]))
                elif defect == 'required' and f['required'] and not used and r['missing'] != []:
                    cand.append((i, j, r['missing'] or ['']))
            if defect == 'pk' and r['pk']:
                cand.append((i, None, None))
            if defect == 'fk':
                cand.extend((i, x, None) for x, fk in enumerate(r['fks']) if rscs[fk['rsc']]['other'] is None and all(
                    KINDS[rscs[fk['rsc']]['fields'][k]['kind']][0].get('type', 'string') == 'string' and
                    rscs[fk['rsc']]['fields'][k]['kind'] != 'binary' for k in fk['ref']))
        if cand:
            i, j, opts = cand[a % len(cand)]
            rows, r = texts[i], rscs[i]
            row = rows[b % len(rows)]
            if defect in ('value', 'constraint'):
                row[j] = (opts[c % len(opts)],) * 2
            elif defect == 'required':
                row[j] = (None, opts[c % len(opts)])
            elif defect == 'pk':
                rows.insert(d % (len(rows) + 1), list(row))
            elif defect == 'fk':
                fk = r['fks'][j]
                if fk['cols'][0] in (r['pk'] or []):
                    return None
                row[fk['cols'][c % len(fk['cols'])]] = ('nowhere',) * 2
            done = (defect, i)
    for i, r in enumerate(rscs):
        fields = []
        for f in r['fields']:
            fd = dict({'name': f['name']}, **KINDS[f['kind']][0])
            fd.update(f['meta'])
            con = dict(CONSTRAINTS[f['kind']][f['con']][0]) if f['con'] is not None else {}
            if f['required'] is not None:
                con['required'] = f['required']
            if con:
                fd['constraints'] = con
            fields.append(fd)
        schema = {'fields': fields}

        def names(fs, ks):
            ns = [fs[k]['name'] for k in ks]
            return ns[0] if len(ns) == 1 and r['str'] else ns
        if r['pk']:
            schema['primaryKey'] = names(r['fields'], r['pk'])
        if r['fks']:
            schema['foreignKeys'] = [{'fields': names(r['fields'], fk['cols']), 'reference': {
                'resource': '' if fk['self'] else rscs[fk['rsc']]['name'], 'fields': names(rscs[fk['rsc']]['fields'], fk['ref'])}}
                for fk in r['fks']]
        if r['missing'] is not None:
            schema['missingValues'] = r['missing']
        rd = {'name': r['name'], 'path': r['path'], 'scheme': 'file', 'format': 'csv', 'schema': schema,
              'profile': 'tabular-data-resource', 'mediatype': 'text/csv'}
        if r['encoding']:
            rd['encoding'] = r['encoding']
        if r['dialect'] is not None:
            d = dict(r['dialect'])
            if r['nested']:
                # The layout of version 5 of frictionless-py: properties of all formats on top.
                top = {k: d.pop(k) for k in ('header', 'commentChar') if k in d}
                rd['dialect'] = dict(top, csv=d)
            else:
                rd['dialect'] = d
        if r['other'] == 'noschema':
            del rd['schema']
        elif r['other'] == 'json':
            rd['format'] = 'json'
        elif r['other'] == 'remote':
            rd['scheme'] = 'https'
        elif r['other'] == 'inline':
            rd['data'] = []
            del rd['path']
        pkg['resources'].append(rd)
    return pkg, texts, done


def write(d, case, texts):
    for r, rows in zip(case['rscs'], texts):
        dia = r['dialect'] or {}
        buf = io.StringIO(newline='')
        space = ' ' * (r['str'] + 1) if dia.get('skipInitialSpace') else ''
        w = csv.writer(buf, delimiter=dia.get('delimiter', ','), quotechar=dia.get('quoteChar', '"'), lineterminator='\n',
                       quoting=csv.QUOTE_MINIMAL)

        def writerow(row):
            if space:
                # With spaces after the delimiters
                buf.write((dia.get('delimiter', ',') + space).join('"{}"'.format(c.replace('"', '""')) for c in row) + '\n')
            else:
                w.writerow(row)
        if dia.get('header', True):
            writerow([f['name'] for f in r['fields']])
        for i, row in enumerate(rows):
            if dia.get('commentChar') and r['comments']:
                buf.write(dia['commentChar'] + ' a comment\n')
            writerow([t for _, t in row])
        p = d / r['path']
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(buf.getvalue().encode(r['encoding'] or 'utf-8'))


def check_packages(case, rec):
    d = gen.scratch(rec, 'd')
    with oracle():
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        res = build(case)
        if res is None:
            raise Skip()
        pkg, texts, done = res
        rscs = case['rscs']
        tables = [i for i, r in enumerate(rscs) if not r['other']]
        # References to resources which are no tables
        for i in tables:
            if any(rscs[fk['rsc']]['other'] for fk in rscs[i]['fks']):
                raise Skip()
            if (rscs[i]['dialect'] or {}).get('commentChar') and any(
                    row[0][1].startswith(rscs[i]['dialect']['commentChar']) for row in texts[i]):
                raise Skip()
            # Lines with a single empty cell are blank lines.
            if len(rscs[i]['fields']) == 1 and any(row[0][1] == '' for row in texts[i]):
                raise Skip()
        write(d, case, texts)
        before = copy.deepcopy(pkg)
        p = d / 'datapackage.json'
        if case['access'] not in ('path', 'json', 'dict', 'dp'):
            (d / 'elsewhere').mkdir(exist_ok=True)
            p = d / 'elsewhere' / 'datapackage.json'
        p.write_text(json.dumps(pkg), encoding='utf8')
        a = case['access']
    if a == 'path':
        tg = TableGroup.from_frictionless_datapackage(p)
    elif a == 'json':
        tg = DataPackage(json.dumps(pkg), directory=d).to_tablegroup()
    elif a == 'dict':
        tg = DataPackage(pkg, d).to_tablegroup(TableGroup)
    elif a == 'dp':
        tg = TableGroup.from_frictionless_datapackage(DataPackage(DataPackage(pkg, directory=str(d))))
    else:
        tg = DataPackage(p, directory=str(d)).to_tablegroup()
    eq(pkg, before, 'the package after conversion')
    eq(json.loads(tg.common_props['dc:replaces']), pkg, 'dc:replaces')
    props = tg.common_props
    for k, prop in [('id', 'dc:identifier'), ('title', 'dc:title'), ('homepage', 'dcat:accessURL'), ('profile', 'dc:conformsTo'),
                    ('keywords', 'dc:subject'), ('description', 'dc:description'), ('created', 'dc:created'),
                    ('sources', 'dc:source'), ('contributors', 'dc:contributor'), ('licenses', 'dc:license')]:
        if k in case['meta']:
            eq(props.get(prop), case['meta'][k], '{} of the group', prop)
    if 'name' in case['meta'] and 'id' not in case['meta']:
        eq(props.get('dc:identifier'), case['meta']['name'], 'identifier')
    if not {'name', 'title'} & set(case['meta']):
        expect('dc:title' not in props, 'invented title {!r}', props.get('dc:title'))
    if not {'name', 'id'} & set(case['meta']):
        expect('dc:identifier' not in props, 'invented identifier {!r}', props.get('dc:identifier'))
    verify(tg, case, texts, tables, done, rec)
    # saved and loaded again
    fname = d / 'csvw-metadata.json'
    tg.to_file(fname)
    verify(TableGroup.from_file(fname), case, texts, tables, done, rec)
    rec.label(case['access'], done[0] if done else 'valid')
    rec.label(*{f['kind'] for i in tables for f in rscs[i]['fields']})
    rec.nt(any(texts[i] for i in tables))


def verify(tg, case, texts, tables, done, rec):
    rscs = case['rscs']
    eq([t.url.string for t in tg.tables], [rscs[i]['path'] for i in tables], 'URLs of tables')
    for t, i in zip(tg.tables, tables):
        r = rscs[i]
        schema = t.tableSchema
        eq([c.name for c in schema.columns], [f['name'] for f in r['fields']], 'names of columns')
        eq(schema.primaryKey, [r['fields'][k]['name'] for k in r['pk']] if r['pk'] else None, 'primary key')
        eq([(fk.columnReference, fk.reference.resource.string, fk.reference.columnReference) for fk in schema.foreignKeys],
           [([r['fields'][k]['name'] for k in fk['cols']], rscs[fk['rsc']]['path'],
             [rscs[fk['rsc']]['fields'][k]['name'] for k in fk['ref']]) for fk in r['fks']], 'foreign keys')
        for c, f in zip(schema.columns, r['fields']):
            eq(bool(c.required), bool(f['required']), 'required of {}', f['name'])
            if f['meta'].get('title'):
                eq(str(c.titles), f['meta']['title'], 'title of {}', f['name'])
            if f['meta'].get('description'):
                eq(c.common_props.get('dc:description'), [f['meta']['description']], 'description of {}', f['name'])
            if f['meta'].get('rdfType'):
                eq(c.inherit('propertyUrl').uri, f['meta']['rdfType'], 'rdfType of {}', f['name'])
        bad = done and done[1] == i and done[0] in ('value', 'constraint', 'required')
        if bad:
            e = raises(ValueError, lambda: list(t))
            expect(e is not None, '{} in {!r} is accepted', done[0], texts[i])
            continue
        rows = list(t)
        eq(len(rows), len(texts[i]), 'number of rows')
        for row, want in zip(rows, texts[i]):
            eq(list(row), [f['name'] for f in r['fields']], 'columns of a row')
            for f, (text, _) in zip(r['fields'], want):
                w = None if text is None else value(f['kind'], text)
                expect(agree(f['kind'], row[f['name']], w), 'value of {!r} is {!r} instead of {!r}', f['name'], row[f['name']], w)
        e = raises(ValueError, t.check_primary_key)
        expect((e is not None) == bool(done and done == ('pk', i)), 'primary key of {!r}: {!r}', texts[i], e)
    if not done or done[0] in ('pk', 'fk'):
        if not (done and done[0] == 'pk'):
            e = raises(ValueError, tg.check_referential_integrity)
            expect((e is not None) == bool(done), 'referential integrity: {!r}', e)


# ---------------------------------------------------------------- all fields

ZERO = {
    'untyped': [({'maxLength': 0}, [], ['a', 'ab']), ({'minLength': 0}, ['a'], []), ({'minLength': 1, 'maxLength': 1}, ['a', 'é'], ['ab'])],
    'string': [({'maxLength': 0}, [], ['a', 'ab']), ({'pattern': ''}, [], []), ({'pattern': 'a.*', 'maxLength': 2}, ['a', 'ab'], ['b', 'abc'])],
    'integer': [({'minimum': '0'}, ['0'], ['-1']), ({'minimum': 0, 'maximum': 0}, ['0'], ['-1', '1']),
                ({'minimum': -1, 'maximum': 0}, ['0', '-1'], ['-2', '1'])],
    'bare': [({'minimum': 0}, ['0'], ['-1'])],
    'number': [({'minimum': 0}, ['0', '1e-5'], ['-1', '-0.1']), ({'maximum': 0.0}, ['0', '-1'], ['1', '0.1'])],
    'comma': [({'minimum': 0}, ['0', '0,1'], ['-0,1'])],
    'grouped': [({'maximum': 0}, ['0', '-1,000'], ['1', '1,000'])],
    'array': [({'maxLength': 0}, ['[]'], ['[1]', '[1, 2]'])],
    'date': [({'minimum': '1999-12-31', 'maximum': '1999-12-31'}, ['1999-12-31'], ['1999-12-30', '2000-01-01'])],
}


def all_fields(tier):
    for kind, (_, values, bad) in sorted(KINDS.items()):
        for con, good, wrong in [({}, [t for t, _ in values], bad)] + CONSTRAINTS.get(kind, []) + ZERO.get(kind, []):
            for i, meta in enumerate([{}, {'title': 'a field'}, {'title': 'T', 'description': 'é', 'rdfType': 'http://example.org/p'}]):
                for required in (None, False, True):
                    for missing in (None, ['NA'], ['', 'n/a'], []):
                        if tier == 'quick' and missing == [] and i:
                            continue
                        yield {'kind': kind, 'con': dict(con), 'good': good, 'bad': wrong, 'meta': meta, 'required': required,
                               'missing': missing, 'kw': bool(len(good) % 2)}


def check_fields(case, rec):
    d = gen.scratch(rec, 'd')
    with oracle():
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        name, kind, missing = 'a field', case['kind'], case['missing']
        f = dict({'name': name}, **KINDS[kind][0])
        f.update(case['meta'])
        con = dict(case['con'])
        if case['required'] is not None:
            con['required'] = case['required']
        if con or case['kw']:
            f['constraints'] = con
        schema = {'fields': [{'name': 'id'}, f]}
        if missing is not None:
            schema['missingValues'] = missing
        nulls = [''] if missing is None else missing
        tests = [(t, True, value(kind, t)) for t in case['good']] + [(t, False, None) for t in case['bad']]
        tests += [(t, not case['required'], None) for t in nulls]
        if missing and '' not in missing or missing == []:
            # Empty cells are values, if not among the missing values.
            if kind in ('untyped', 'string', 'default') and not case['con']:
                tests.append(('', True, ''))
        pkg = {'resources': [{'name': 'r', 'path': 'r.csv', 'scheme': 'file', 'format': 'csv', 'schema': schema}]}
    tg = DataPackage(pkg, directory=d).to_tablegroup()
    tg.to_file(d / 'md.json')
    for g in (tg, TableGroup.from_file(d / 'md.json')):
        col = g.tables[0].tableSchema.columns[1]
        eq(col.name, name, 'name')
        eq(col.titles and str(col.titles), case['meta'].get('title'), 'title')
        eq(col.common_props, {'dc:description': [case['meta']['description']]} if 'description' in case['meta'] else {}, 'properties')
        eq(col.propertyUrl and col.propertyUrl.uri, case['meta'].get('rdfType'), 'rdfType')
        eq(bool(col.required), bool(case['required']), 'required')
        for text, ok, want in tests:
            with oracle():
                with (d / 'r.csv').open('w', encoding='utf8', newline='') as fp:
                    csv.writer(fp).writerows([['id', name], ['x', text]])
            rows = []
            e = raises(ValueError, lambda: rows.extend(g.tables[0]))
            expect((e is None) == ok, '{!r} of {!r} is {}', text, f, 'accepted' if e is None else 'rejected: {!r}'.format(e))
            if ok:
                eq(len(rows), 1, 'rows')
                expect(agree(kind, rows[0][name], want), 'value of {!r} is {!r} instead of {!r}', text, rows[0][name], want)
    rec.label(kind, *case['con'])
    rec.nt()


# ---------------------------------------------------------------- references

def references(tier):
    for to, child, inline, str_, own in itertools.product(
            ['', 'parent', 'child', 'other', 'nowhere', 'gone', 'raw', 'doc'], ['child', 'parent', 'other'], [0, 1, 2], [False, True], [False, True]):
        yield {'to': to, 'from': child, 'order': inline, 'str': str_, 'named': own}


def check_references(case, rec):
    with oracle():
        names = ['parent', 'child', 'other']
        ref = ['id'] if not case['str'] else 'id'
        rscs = []
        for n in names:
            rscs.append({'name': n, 'path': n + '-data.csv', 'scheme': 'file', 'format': 'csv', 'schema': {
                'fields': [{'name': 'id'}, {'name': 'ref'}], 'primaryKey': ref}})
            if n == case['from']:
                rscs[-1]['schema']['foreignKeys'] = [{
                    'fields': 'ref' if case['str'] else ['ref'], 'reference': {'resource': case['to'], 'fields': ref}}]
            elif not case['named'] and n != case['to']:
                del rscs[-1]['name']
        rscs.append({'name': 'gone', 'data': [], 'format': 'inline', 'schema': {'fields': [{'name': 'id'}]}})
        # Resources which are not converted to tables, but have a path.
        rscs.append({'name': 'raw', 'path': 'raw-data.csv', 'scheme': 'file', 'format': 'csv'})
        rscs.append({'name': 'doc', 'path': 'doc-data.csv', 'scheme': 'file', 'format': 'json', 'schema': {'fields': [{'name': 'id'}]}})
        rscs = rscs[case['order']:] + rscs[:case['order']]
    known = case['to'] in names + ['', 'raw', 'doc']
    try:
        tg = DataPackage({'resources': rscs}).to_tablegroup()
    except Exception as e:
        expect(not known, 'unexpected {!r}', e)
        rec.label('error')
        rec.nt()
        return
    for t in tg.tables:
        fks = [(fk.columnReference, fk.reference.resource.string, fk.reference.columnReference) for fk in t.tableSchema.foreignKeys]
        if t.url.string != case['from'] + '-data.csv':
            eq(fks, [], 'references of {}', t.url.string)
        elif known:
            eq(fks, [(['ref'], (case['to'] or case['from']) + '-data.csv', ['id'])], 'references')
        else:
            for _, url, _ in fks:
                expect(url not in [n + '-data.csv' for n in names], 'reference to {!r} has become one to {!r}', case['to'], url)
    rec.nt()


PROP = Prop(
    'C23',
    [Enum('fields', all_fields, check_fields), Enum('references', references, check_references),
     Sub('packages', packages(), check_packages, quick=3000, thorough=60000)],
    rule='fields: every type with each of its constraints (or none), with metadata, missing values and required or not, tried with '
         'every valid, invalid and missing value; references: to every resource (by name, the table itself, unknown ones); packages of 1-3 resources (some of them no CSV tables) with fields of all types, constraints, missing values, keys, '
         'references, dialects (flat and nested), encodings and package metadata, with at most one defect in the data; '
         'non-trivial: some table has rows.',
    assumptions=['Years are strings in csvw. Fields with one of several trueValues/falseValues, formats of dates, enum and unique constraints have no '
                 'counterpart in the conversion.'])
