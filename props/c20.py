"""C20: URL properties and URI templates expand and resolve correctly."""
import io
import json
import os
import pathlib
import re
import shutil

from hypothesis import strategies as st

from csvw import CSVW, Table, TableGroup, URITemplate
from vf.core import *
from . import datasets as dsets, gen, rfc, web

# kind -> (datatype, [(text in the cell, canonical form)])
KINDS = {
    'string': ('string', None),
    'plain': (None, None),
    'integer': ('integer', [('5', '5'), ('-17', '-17'), ('+3', '3'), ('007', '7'), ('0', '0')]),
    'boolean': ('boolean', [('true', 'true'), ('0', 'false')]),
    'YN': ({'base': 'boolean', 'format': 'Y|N'}, [('Y', 'true'), ('N', 'false')]),
    'date': ('date', [('2020-02-29', '2020-02-29')]),
    'german': ({'base': 'date', 'format': 'd.M.yyyy'}, [('1.2.2020', '2020-02-01'), ('31.12.1999', '1999-12-31')]),
    'dateTime': ('dateTime', [('2020-01-02T03:04:05', '2020-01-02T03:04:05')]),
    'pattern': ({'base': 'integer', 'format': '#,##0'}, [('1,000', '1000'), ('7', '7')]),
    'decimal': ('decimal', [('1.5', '1.5'), ('-0.25', '-0.25')]),
    'decimalChar': ({'base': 'decimal', 'format': {'decimalChar': ','}}, [('1,5', '1.5')]),
    'anyURI': ('anyURI', [('http://example.org/a?x#y', 'http://example.org/a?x#y'),
                          ('http://schema.org/q', 'http://schema.org/q')]),
    'hexBinary': ('hexBinary', [('ab01', 'AB01')]),
    'gYear': ('gYear', [('2020', '2020')]),
    'float': ('double', [('1.5', '1.5')]),
}
NAMES = ['a', 'b', 'self', 'var_dict', 'x.y', 'n1', 'kwargs', 'uri', '_row', '_name']
LITERALS = ['', 'x', '/', '-', '#', '?q=', 'sub/', '../', '/root/', 'http://other.example/', 'schema:', 'skos:', 'foaf:x',
            './', '//net.example/', 'é', 'p;q', 'dc:', 'schemas/', 'dc', 'foaf', 'skosxl/']
BASES = ['http://example.org/a/b/md.json', 'http://example.org/', 'https://u@h.example:8080/p/q', 'http://example.org/a/b/']
CTX = [None, None, None, 'x/', '../', 'http://base.example/b/', '/r/', 'file.txt', 'http://base.example/b/c', './']
URLS = ['t.csv', 't.csv', 'sub/t.csv', '../t.csv', '/t.csv', 'http://other.example/x/t.csv', '?q=t', 't.csv?x=1', 't.csv?y#',
        './t.csv', '../../../t.csv']
NS = {'schema': 'http://schema.org/', 'skos': 'http://www.w3.org/2004/02/skos/core#',
      'foaf': 'http://xmlns.com/foaf/0.1/', 'dc': 'http://purl.org/dc/terms/'}

strings = st.one_of(
    st.sampled_from(['x', 'http://schema.org/q', 'schema:x', 'a/b c']),
    st.sampled_from(['x', 'a b', 'é', 'a/b', '?', '#', '&=', '%', 'x:y', '~._-', '中', "!$'()*+,;=", '@', '[]', '"<>\\^`{|}',
                     '\U0001f600', 'e\u0301', ' x ', 'a\tb', '..', '.', 'http://schema.org/q', 'null']),
    st.text(gen.no_surrogates(exclude_characters='\r\n\x00'), min_size=1, max_size=6))


@st.composite
def tables(draw):
    cols = []
    for name in draw(st.lists(st.sampled_from(NAMES[:8]), min_size=1, max_size=4, unique=True)):
        kind = draw(st.sampled_from(['string', 'string', 'plain'] + sorted(KINDS)))
        sep = draw(st.integers(0, 3)) == 0 and kind not in ('string', 'plain', 'pattern', 'decimalChar')
        lsep = draw(st.integers(0, 3)) == 0 and kind in ('string', 'plain')
        cols.append({'name': name, 'kind': kind, 'sep': '|' if sep or lsep else None})

    def one(c):
        if KINDS[c['kind']][1] is None:
            return draw(strings.filter(lambda s: '|' not in s) if c['sep'] else strings)
        return draw(st.integers(0, 9))
    rows = []
    for _ in range(draw(st.integers(1, 3))):
        rows.append([
            [None if draw(st.integers(0, 5)) == 0 else one(c) for _ in range(draw(st.integers(0, 3)))] if c['sep'] else
            (None if draw(st.integers(0, 4)) == 0 else one(c)) for c in cols])
    return {'cols': cols, 'rows': rows}


@st.composite
def templates(draw, names):
    parts = []
    for i in range(draw(st.integers(1, 4))):
        if i == 0 and draw(st.integers(0, 3)) == 0:
            parts.append(draw(st.sampled_from(['schema:', 'http://schema.org/', 'skos:', 'schema:a/'])))
        elif draw(st.booleans()):
            parts.append(draw(st.sampled_from(LITERALS)))
        else:
            specs = draw(st.lists(st.tuples(
                st.sampled_from(names + ['_row', '_name', 'unknown']),
                st.sampled_from(['', '', '', '*', 1, 2, 5])).map(list), min_size=1, max_size=3))
            parts.append([draw(st.sampled_from(['', '', '+'] + sorted(rfc.OPS))), specs])
    return parts


@st.composite
def cases(draw):
    t = draw(tables())
    names = [c['name'] for c in t['cols']]
    return dict(t, templates=draw(st.lists(templates(names), min_size=1, max_size=3)), base=draw(st.sampled_from(BASES)),
                ctx=draw(st.sampled_from(CTX)), url=draw(st.sampled_from(URLS)), group=draw(st.booleans()),
                name=draw(st.sampled_from([None, 'a', 'c ü'])))


def value(c, v):
    pool = KINDS[c['kind']][1]
    return v if pool is None else pool[v % len(pool)][1]


def cell(c, v):
    pool = KINDS[c['kind']][1]
    if c['sep']:
        return c['sep'].join('' if i is None else i if pool is None else pool[i % len(pool)][0] for i in v)
    return '' if v is None else v if pool is None else pool[v % len(pool)][0]


def variables(cols, row, _row, _name):
    res = {}
    for c, v in zip(cols, row):
        if c['sep']:
            res[c['name']] = [value(c, i) for i in v if i is not None]  # nulls are undefined
        else:
            res[c['name']] = None if v is None else value(c, v)
    res['_row'], res['_name'] = None if _row is None else str(_row), _name
    return res


def uri(parts):
    def mod(m):
        return m if isinstance(m, str) else ':{}'.format(m)
    return ''.join(p if isinstance(p, str) else
                   '{' + p[0] + ','.join(n + mod(m) for n, m in p[1]) + '}' for p in parts)


def literal(s):
    # Characters which are not allowed in URLs are encoded.
    return ''.join(c if ord(c) < 128 else rfc.pct(c) for c in s)


def expand(parts, values):
    """None if the case is not judged."""
    res = []
    for p in parts:
        if isinstance(p, str):
            res.append((p, True))
            continue
        op, specs = p
        for n, m in specs:
            v = values.get(n)
            if isinstance(v, list) and isinstance(m, int):
                return None  # Prefix modifiers are not applicable to lists.
            if op in '+#' and op and v is not None and '%' in ''.join(v):
                return None  # Could be taken for percent-encoded triplets already.
            if isinstance(v, list) and v and not any(v):
                return None
        res.append((rfc.expression(op, [
            (n, m if isinstance(m, int) else None, m == '*') for n, m in specs], values), False))
    return res


def first_segment_has_colon(s):
    return ':' in s.split('/')[0].split('?')[0].split('#')[0]


def judged(parts, expanded):
    """
    What the start of an expanded template means (scheme, authority, path) must be clear from the literal part of
    the template, for the expansion to be a URL reference at all.
    """
    text = ''.join(s for s, _ in expanded)
    if rfc.split(text)[3] == '':
        return False
    lit = parts[0] if isinstance(parts[0], str) else ''
    if ':' in lit or lit.startswith('//'):
        if not lit.endswith('/') and not lit.endswith(':'):
            return True
        return not (lit == '//net.example' or text.startswith(lit + '/'))
    if first_segment_has_colon(text) or text.startswith('//') or '//' in text:
        return False
    return True


def check_template(case, rec):
    d = gen.scratch(rec, 'd')
    with oracle():
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        (d / 't.csv').write_bytes(dsets.dump(
            [[c['name'] for c in case['cols']]] + [[cell(c, v) for c, v in zip(case['cols'], r)] for r in case['rows']]))
        cols = []
        for c in case['cols']:
            cd = {'name': c['name']}
            if KINDS[c['kind']][0]:
                cd['datatype'] = json.loads(json.dumps(KINDS[c['kind']][0]))
            if c['sep']:
                cd['separator'] = c['sep']
            cols.append(cd)
        virtual = [{'name': 'virt{}'.format(i), 'virtual': True, 'valueUrl': uri(p)}
                   for i, p in enumerate(case['templates'])]
        desc = {'url': case['url'], 'tableSchema': {'columns': cols + virtual}}
        ctx = 'http://www.w3.org/ns/csvw'
        base = case['base']
        if case['ctx']:
            ctx = [ctx, {'@base': case['ctx']}]
            base = rfc.resolve(base, case['ctx'])
        url = rfc.resolve(base, case['url'])
        if case['group']:
            desc = {'@context': ctx, 'tables': [desc]}
        else:
            desc['@context'] = ctx
    if case['group']:
        table = TableGroup.from_url(case['base'], data=desc).tables[0]
    else:
        table = Table.from_url(case['base'], data=desc)
    eq(rfc.normal(str(table.url.resolve(table.base))), rfc.normal(url), 'URL of the table')
    rows = list(table.iterdicts(fname=str(d / 't.csv')))
    eq(len(rows), len(case['rows']), 'number of rows')
    n = 0
    for i, (row, r) in enumerate(zip(rows, case['rows'])):
        for j, parts in enumerate(case['templates']):
            with oracle():
                values = variables(case['cols'], r, None, None)
                want = expand(parts, values)
                if want is not None:
                    want = ''.join(literal(s) if lit else s for s, lit in want)
            if want is not None and '_row' not in uri(parts) and '_name' not in uri(parts):
                eq(literal(row['virt{}'.format(j)]), want, 'virtual column {}', uri(parts))
            with oracle():
                values = variables(case['cols'], r, i + 1, case['name'])
                want = expand(parts, values)
                if want is None or not judged(parts, want):
                    rec.label('not judged')
                    continue
                text = ''.join(literal(s) if lit else s for s, lit in want)
                prefix = [p for p in NS if uri(parts).startswith(p + ':')]
                if prefix:
                    want = NS[prefix[0]] + text[len(prefix[0]) + 1:]
                else:
                    want = rfc.resolve(url, text)
            data = {k: v for k, v in row.items() if not k.startswith('virt')}
            got = table.expand(URITemplate(uri(parts)), data, _row=i + 1, _name=case['name'])
            if prefix:
                eq(literal(got), want, 'expansion of {}', uri(parts))
                rec.label('QName')
            else:
                if (i, j) != tuple(case.get('probe', ())) and dot_params(url, text) == literal(got):
                    rec.label('known finding: ' + DOT_PARAMS)
                    continue
                eq(rfc.normal(literal(got)), rfc.normal(want), 'expansion of {} (to {})', uri(parts), text)
            # As prefixed name, e.g. for keys in JSON
            q = table.expand(URITemplate(uri(parts)), data, _row=i + 1, _name=case['name'], qname=True)
            ns = [p for p in NS if got.startswith(NS[p])]
            eq(q, ns[0] + ':' + got[len(NS[ns[0]]):] if ns else got, 'prefixed name of {}', uri(parts))
            if any(not isinstance(p, str) for p in parts):
                n += 1
                for p in parts:
                    if not isinstance(p, str):
                        rec.label('operator ' + p[0])
    rec.nt(n > 0)


DOT_PARAMS = '. or .. followed by ; as last segment'


def dot_params(url, text):
    """
    The listed finding: urllib's `urljoin` splits parameters off the last path segment (as in RFC 1808), and takes
    what remains for a dot segment.

    :return: The URL `urljoin` returns if this is the case for `text`.
    """
    m = re.match(r'([^?#]*/)?(\.\.?)(;[^/?#]*)(?=[?#]|$)', text)
    if m:
        without = rfc.resolve(url, text[:m.start(3)])
        return without + text[m.start(3):]


# ---------------------------------------------------------------- local files

DIRS = ['d', 'a b', 'x#y', 'q?', '%20', 'ü', 'a:b', "it's", 'a&b', '+', 'C++ ;', '{x}', '[1]', '-', '..x', 'é.csv', '100%']
FILES = ['t.csv', 'a b.csv', 'ü.csv', 'a&b.csv', "it's.csv", 'a+b.csv', 'x', 'T.CSV', 't.tsv', 'x;y.csv', '{a}.csv', '~t.csv']


@st.composite
def layouts(draw):
    return {
        'dir': draw(st.sampled_from(DIRS)), 'inner': draw(st.sampled_from([None] + DIRS)),
        'md': draw(st.sampled_from(['md.json', 'a b.json', 'md', 'x#y.json', 'ü.json', '100%25.json', 'q?.json', 'md.csv'])),
        'files': draw(st.lists(st.sampled_from(FILES), min_size=1, max_size=3, unique=True)),
        'sub': draw(st.sampled_from([None, None, 'sub', 'ü x', '../up', './sub'])),
        'base': draw(st.sampled_from([None, None, None, 'data/', 'data', '../other/', './'])),
        'cwd': draw(st.sampled_from(['root', 'dir', 'other'])),
        'form': draw(st.sampled_from(['abs', 'rel', 'path', 'relpath', 'dot'])),
        'schema': draw(st.sampled_from([None, None, 'schema.json', 'refs/schema.json', '../s.json'])),
        'dialect': draw(st.sampled_from([None, None, 'dialect.json', 'refs/dialect x.json'])),
        'dialect_at': draw(st.sampled_from(['table', 'group'])),
        'api': draw(st.sampled_from(['from_file', 'CSVW', 'md_url', 'csv', 'plain'])),
        'group': draw(st.booleans()), 'zip': draw(st.integers(0, 3)) == 0}


def local_path(base_dir, ref):
    return pathlib.Path(os.path.normpath(str(base_dir) + '/' + ref))


def check_local(case, rec):
    import zipfile
    with oracle():
        root = gen.scratch(rec, 'l').resolve()
        shutil.rmtree(root, ignore_errors=True)
        d = root / 'up' / case['dir']
        if case['inner']:
            d = d / case['inner']
        d.mkdir(parents=True)
        (root / 'other').mkdir()
        if case['api'] in ('csv', 'plain'):
            case = dict(case, files=case['files'][:1], sub=None, base=None, group=case['group'] and case['api'] == 'csv')
        files = case['files'][:1] if not case['group'] else case['files']
        # @base is a directory
        start = d
        if case['base']:
            start = local_path(d, case['base'])
            start.mkdir(parents=True, exist_ok=True)
        md = d / (files[0] + '-metadata.json' if case['api'] == 'csv' else case['md'])
        tables, contents = [], []
        delim = ';' if case['dialect'] else ','

        def put(p, content):
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(content)

        for i, f in enumerate(files):
            url = '{}/{}'.format(case['sub'], f) if case['sub'] else f
            path = local_path(start, url)
            content = 'a{}b\r\n1{}file {}\r\n'.format(delim, delim, i).encode('utf-8')
            if case['zip'] and case['api'] != 'plain':
                put(path.parent / (path.name + '.zip'), b'')
                with zipfile.ZipFile(str(path) + '.zip', 'w') as z:
                    z.writestr(path.name, content)
            else:
                put(path, content)
            schema = {'columns': [{'name': 'a', 'datatype': 'integer'}, {'name': 'b'}]}
            if case['schema']:
                put(local_path(start, case['schema']), json.dumps(schema).encode('utf-8'))
                schema = case['schema']
            tables.append({'url': url, 'tableSchema': schema})
            contents.append((path, [{'a': 1, 'b': 'file {}'.format(i)}]))
        ctx = 'http://www.w3.org/ns/csvw'
        if case['base']:
            ctx = [ctx, {'@base': case['base']}]
        if case['group']:
            desc = {'@context': ctx, 'tables': tables}
        else:
            desc = dict(tables[0], **{'@context': ctx})
        if case['dialect']:
            put(local_path(start, case['dialect']), json.dumps({'delimiter': ';'}).encode('utf-8'))
            for t in tables if case['dialect_at'] == 'table' and case['group'] else [desc]:
                t['dialect'] = case['dialect']
        if case['api'] == 'plain':
            contents = [(contents[0][0], [{'a': '1', 'b': 'file 0'}])]
            if case['dialect']:
                put(contents[0][0], b'a,b\r\n1,file 0')
        else:
            md.write_text(json.dumps(desc))
        target = md if case['api'] not in ('csv', 'plain') else contents[0][0]
        cwd = {'root': root, 'dir': d, 'other': root / 'other'}[case['cwd']]
        before = os.getcwd()
        name = os.path.relpath(str(target), str(cwd))
        arg = {'abs': str(target), 'rel': name, 'path': target, 'relpath': pathlib.Path(name),
               'dot': './' + name}[case['form']]
        if case['api'] in ('csv', 'plain', 'CSVW', 'md_url'):
            arg = str(arg)
        csvarg = os.path.relpath(str(contents[0][0]), str(cwd))
        if case['api'] == 'md_url' and case['zip']:
            case = dict(case, api='CSVW')
        if case['api'] == 'csv' and case['zip']:
            raise Skip
    try:
        os.chdir(str(cwd))
        if case['api'] == 'from_file':
            obj = (TableGroup if case['group'] else Table).from_file(arg)
            got = obj.tables if case['group'] else [obj]
        elif case['api'] == 'md_url':
            got = CSVW(csvarg, md_url=arg).tables
        else:
            got = CSVW(arg).tables
        eq(len(got), len(contents), 'number of tables')
        for t, (path, rows) in zip(got, contents):
            p = t.url.resolve(t.base)
            eq(os.path.realpath(str(p)), str(path), 'file of table {!r}', t.local_name)
            eq([dict(r) for r in t], rows, 'rows of table {!r}', t.local_name)
    finally:
        os.chdir(before)
    rec.label('api ' + case['api'], 'cwd ' + case['cwd'])
    rec.nt()


# ---------------------------------------------------------------- on the web

MDS = ['/md.json', '/a/md.json', '/a/b/md.json', '/a%20b/md.json', '/a/md?x=1', '/m/']
REFS = ['t.csv', 'sub/t.csv', '../t.csv', '/t.csv', './t.csv', '../../x/t.csv', '/a/t%20u.csv', 't.csv?x=1', '%C3%BC.csv',
        '/a/b/c/t.csv', 'sub/../t.csv']
TMPL = ['#{_row}', '{_row}', '/x/{a}', 'http://other.example/{a}', '?a={a}', 'sub/{a}#{_row}', '../{a}', 'schema:{a}', '#']


@st.composite
def webs(draw):
    ref = st.sampled_from(REFS)
    return {
        'md': draw(st.sampled_from(MDS)), 'base': draw(st.sampled_from([None, None, None, '/z/', 'y/', '../', './', 'f.json'])),
        'tables': draw(st.lists(ref, min_size=1, max_size=3)),
        'schema': draw(st.sampled_from([None, None, 's.json', '/s/s.json', '../s.json'])),
        'dialect': draw(st.sampled_from([None, None, 'd.json', '/d/d.json', '../d.json'])),
        'api': draw(st.sampled_from(['CSVW', 'from_url', 'md_url', 'link', 'file', 'dirfile', 'wellknown'])),
        'group': draw(st.booleans()),
        'about': draw(st.sampled_from([None] + TMPL)), 'value': draw(st.sampled_from([None] + TMPL)),
        'property': draw(st.sampled_from([None, 'http://other.example/{_name}', 'schema:{_name}', 'p/{_name}', '#{_name}'])),
        'rows': draw(st.lists(st.sampled_from(['x', 'a b', 'é', '1', 'a/b']), min_size=1, max_size=3))}


def check_web(case, rec):
    with oracle():
        res = {}
        host, requested = web.serve(res)
        refs = case['tables'] if case['group'] else case['tables'][:1]
        api = case['api']
        mdpath = case['md']
        csv_url = None
        if api in ('file', 'dirfile'):
            # location of the metadata is given by the location of the file
            case = dict(case, base=None)
            csv_url = rfc.resolve(host + '/', refs[0].split('?')[0])
            mdpath = (csv_url + '-metadata.json' if api == 'file' else rfc.resolve(csv_url, 'csv-metadata.json'))[len(host):]
            refs = [csv_url.split('/')[-1]] + refs[1:]
        location = host + mdpath
        base = location if not case['base'] else rfc.resolve(location, case['base'])
        urls = [rfc.resolve(base, r) for r in refs]
        if len(set(urls)) != len(urls):
            raise Skip
        tables = []
        delim = ';' if case['dialect'] else ','

        def path(url):
            return url[len(host):].split('#')[0]

        for i, (r, u) in enumerate(zip(refs, urls)):
            lines = ['a{}b'.format(delim)] + ['{}{}{}'.format(v, delim, i) for v in case['rows']]
            res[path(u)] = (200, {'Content-Type': 'text/csv'}, '\r\n'.join(lines).encode('utf-8'))
            schema = {'columns': [{'name': 'a'}, {'name': 'b', 'datatype': 'integer'}]}
            if case['about']:
                schema['aboutUrl'] = case['about']
            if case['property']:
                schema['columns'][0]['propertyUrl'] = case['property']
            if case['value']:
                schema['columns'][1]['valueUrl'] = case['value']
            if case['schema']:
                res[path(rfc.resolve(base, case['schema']))] = (200, {}, json.dumps(schema).encode('utf-8'))
                schema = case['schema']
            tables.append({'url': r, 'tableSchema': schema})
        ctx = 'http://www.w3.org/ns/csvw'
        if case['base']:
            ctx = [ctx, {'@base': case['base']}]
        desc = {'@context': ctx, 'tables': tables} if case['group'] else dict(tables[0], **{'@context': ctx})
        if case['dialect']:
            res[path(rfc.resolve(base, case['dialect']))] = (200, {}, b'{"delimiter": ";"}')
            desc['dialect'] = case['dialect']
        res[mdpath] = (200, {'Content-Type': 'application/csvm+json'}, json.dumps(desc).encode('utf-8'))
        if api == 'link':
            status, headers, content = res[path(urls[0])]
            res[path(urls[0])] = (status, dict(
                headers, Link='<{}>; rel="describedby"; type="application/csvm+json"'.format(mdpath)), content)
        if api == 'wellknown':
            res['/.well-known/csvm'] = (200, {}, mdpath.encode())
        # The same document never occurs twice
        if len(set(path(u) for u in urls) | {mdpath}) != len(urls) + 1:
            raise Skip
    if api == 'from_url':
        obj = (TableGroup if case['group'] else Table).from_url(location)
        got = obj.tables if case['group'] else [obj]
    elif api == 'md_url':
        obj = CSVW(urls[0], md_url=location)
        got = obj.tables
    elif api == 'CSVW':
        obj = CSVW(location)
        got = obj.tables
    else:
        obj = CSVW(urls[0])
        got = obj.tables
    eq([str(t.url.resolve(t.base)) for t in got], urls, 'URLs of tables')
    for i, t in enumerate(got):
        eq([(r['a'], r['b']) for r in t], [(v, i) for v in case['rows']], 'rows of {}', refs[i])
    if hasattr(obj, 'to_json'):
        conv = json.loads(json.dumps(obj.to_json()))
        eq([t['url'] for t in conv['tables']], urls, 'URLs in JSON')
        for i, (t, u) in enumerate(zip(conv['tables'], urls)):
            for j, (r, a) in enumerate(zip(t['row'], case['rows'])):
                eq(r['url'], '{}#row={}'.format(u, j + 2), 'URL of row')
                with oracle():
                    def ref(tmpl, name, q=False):
                        text = tmpl.replace('{_row}', str(j + 1)).replace('{a}', rfc.pct(a)).replace('{_name}', name)
                        if text.startswith('schema:'):
                            return text if q else 'http://schema.org/' + text[7:]
                        return rfc.resolve(u, text)
                    want = {}
                    if case['about']:
                        want['@id'] = rfc.normal(ref(case['about'], ''))
                    want[ref(case['property'], 'a', True) if case['property'] else 'a'] = a
                    want['b'] = rfc.normal(ref(case['value'], 'b')) if case['value'] else i
                    obj_ = r['describes'][0]
                    for k in ('@id', 'b'):
                        if k in obj_ and isinstance(obj_[k], str):
                            obj_[k] = rfc.normal(obj_[k])
                eq(obj_, want, 'object')
    rec.label('api ' + api)
    rec.nt()


PROP = Prop(
    'C20',
    [Sub('template', cases(), check_template, quick=5000, thorough=150000),
     Sub('local', layouts(), check_local, quick=3000, thorough=60000),
     Sub('web', webs(), check_web, quick=1200, thorough=12000)],
    rule='template: RFC 6570 expressions of all operators and modifiers over typed cells, with base URL, @base in the context '
         'and table URLs; local: directories and files with odd names, relative and absolute paths, working directories, '
         'referenced schemas and dialects; web: the same on a loopback web server, metadata located in all ways. '
         'Non-trivial: at least one template with an expression (template), every case (others).',
    assumptions=['Not judged: prefix modifiers on lists, % in values under + and #, expansions which are no URL reference '
                 '(scheme or authority coming from values), literals outside ASCII (compared percent-encoded).',
                 'An empty query or fragment equals a missing one.',
                 'Local files: the characters #, ?, % and : in the url property itself (path or URL?) are not judged.'])
