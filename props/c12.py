"""C12: cells are matched to columns by header, wherever they stand."""
import csv
import io
import json
import re
import shutil
import warnings
import zipfile
from urllib.parse import quote

from hypothesis import strategies as st

from csvw import Table, TableGroup
from vf.core import *
from . import gen, web, large
from .c13 import Log

NAMES = ['ID', 'a', 'b', 'c', 'Name', 'x y z', 'é', 'A', 'n1', 'Title', 'col-1', '_x']
TITLES = ['Title', 'Name of a', 'ID', 'T2', 'a b', 'é è', 'b', 'Alt', 'x/y', 'with, comma', 'q"q', 'U']
UNKNOWN = ['zzz', 'unknown', '', 'id', 'Id', ' ID', 'yyy', 'TITLE', '_col.9']
TYPES = ['string', 'integer', 'boolean', 'date', None]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))
    titles = draw(st.permutations(TITLES))
    cols = []
    for i in range(n):
        c = {}
        ts = titles[2 * i:2 * i + 2]
        k = draw(st.integers(0, 5))
        if k != 0:
            c['name'] = names[i]
        if k < 4:
            c['titles'] = draw(st.sampled_from([
                ts[0], [ts[0]], ts, {'en': ts[0]}, {'und': ts[0], 'de': [ts[1]]}, {'en': ts}]))
        if k == 0 and isinstance(c['titles'], dict):
            c['titles'] = ts
        t = draw(st.sampled_from(TYPES))
        if t:
            c['datatype'] = t
        if draw(st.integers(0, 7)) == 0:
            c['required'] = True
        if draw(st.integers(0, 5)) == 0:
            # Defaults are for empty cells, not for missing ones.
            c['default'] = {'integer': '7', 'boolean': 'true', 'date': '1999-12-31'}.get(t, 'dflt')
        if draw(st.integers(0, 3)) == 0:
            c['propertyUrl'] = 'http://example.org/{}#{}'.format(i, draw(st.sampled_from(UNKNOWN[:2] + NAMES[:5])))
        cols.append(c)
    order = draw(st.permutations(range(n)))
    if draw(st.integers(0, 3)) == 0:
        order = list(range(n))
    keep = [i for i in order if draw(st.integers(0, 5)) or cols[i].get('required')]
    file_cols = []
    for i in keep:
        file_cols.append({'col': i, 'by': draw(st.integers(0, 3))})
    for u in draw(st.lists(st.sampled_from(UNKNOWN), max_size=2, unique=True)):
        file_cols.insert(draw(st.integers(0, len(file_cols))), {'unknown': u})
    rows = draw(st.lists(st.lists(st.integers(0, 99), min_size=len(file_cols), max_size=len(file_cols)),
                         max_size=4))
    return {
        'columns': cols, 'file': file_cols, 'rows': rows,
        'header': draw(st.sampled_from([True, True, True, True, True, False])),
        'virtual': draw(st.sampled_from([0, 0, 1, 2])),
        'short': draw(st.sampled_from([0, 0, 0, 1, 2])),
        'omit_required': draw(st.integers(0, 9)) == 0,
        'required_at': draw(st.sampled_from(['column', 'column', 'column', 'schema'])),
    }


def titles(c):
    t = c.get('titles')
    if t is None:
        return []
    if isinstance(t, dict):
        res = []
        for x in t.values():
            res.extend(x if isinstance(x, list) else [x])
        return res
    return t if isinstance(t, list) else [t]


def key(c, i):
    if c.get('name'):
        return c['name']
    t = c.get('titles')
    t = t if isinstance(t, list) else [t]
    return t[0]


def cell(c, i, k):
    t = (c or {}).get('datatype')
    if t == 'integer':
        return str(1000 * i + k), 1000 * i + k
    if t == 'boolean':
        return 'ft'[k % 2].replace('f', 'false').replace('t', 'true'), bool(k % 2)
    if t == 'date':
        import datetime
        d = datetime.datetime(2000 + i, 1 + k % 12, 1 + k % 28)
        return d.date().isoformat(), d
    s = 'v{}.{}'.format(i, k)
    return s, s


def check(case, rec):
    cols, n = case['columns'], len(case['columns'])
    with oracle():
        keys = [key(c, i) for i, c in enumerate(cols)]
        # A header identifies the column with this name (or first title, lacking a name), or else the
        # first column with this title.
        file = [dict(f) for f in case['file']]
        if not case['header']:
            file = [{'col': i} for i in range(n)]
        if case['omit_required'] and case['header']:
            file = [f for f in file if 'unknown' in f or not cols[f['col']].get('required')]
        headers = []
        for f in file:
            if 'unknown' in f:
                headers.append(f['unknown'])
            else:
                options = [keys[f['col']]] + titles(cols[f['col']])
                headers.append(options[f.get('by', 0) % len(options)])

        def find(h):
            for i, k in enumerate(keys):
                if k == h:
                    return i
            for i, c in enumerate(cols):
                if h in titles(c):
                    return i
        matched = [find(h) for h in headers]
        if len(set(keys)) < n or len(set(headers)) < len(headers):
            raise Skip()
        m = [i for i in matched if i is not None]
        if len(set(m)) < len(m):
            raise Skip()
        if any(h in keys for h, i in zip(headers, matched) if i is None):
            raise Skip()
        if case['header'] and headers and headers[0].startswith('#'):
            raise Skip()
        if len(headers) == 0 or (len(headers) == 1 and headers[0] == ''):
            raise Skip()
        required = {i for i, c in enumerate(cols) if c.get('required')}
        schema = {'columns': [dict(c) for c in cols]}
        if case['required_at'] == 'schema':
            schema['required'] = True
            required = set(range(n))
        for v in range(case['virtual']):
            schema['columns'].append({
                'name': 'v{}'.format(v), 'virtual': True, 'valueUrl': 'http://example.org/{}'.format(v)})
        missing = required - set(m)
        buf = io.StringIO(newline='')
        w = csv.writer(buf)
        if case['header']:
            w.writerow(headers)
        want = []
        bad = False
        for r, row in enumerate(case['rows']):
            width = len(headers) - (case['short'] if r == len(case['rows']) - 1 else 0)
            row = (row + [7] * n)[:len(headers)]
            cells, res = [], {}
            for j, (h, i, k) in enumerate(zip(headers, matched, row)):
                s, v = cell(cols[i] if i is not None else None, j if i is None else i, k)
                if j < width:
                    cells.append(s)
                    res[h if i is None else keys[i]] = v
                elif i in required:
                    bad = True
            for k in keys:
                res.setdefault(k, None)
            for v in range(case['virtual']):
                res['v{}'.format(v)] = 'http://example.org/{}'.format(v)
            if not cells:
                raise Skip()
            w.writerow(cells)
            want.append(list(res.items()))
    p = gen.scratch(rec, 'd')
    p.mkdir(exist_ok=True)
    (p / 't.csv').write_text(buf.getvalue(), encoding='utf-8', newline='')
    table = {'url': 't.csv', 'tableSchema': schema}
    dialect = [{'header': False}, {'headerRowCount': 0}, {'headerRowCount': 0, 'header': True}, {'header': False, 'headerRowCount': 0}] \
        if not case['header'] else [{}, {'header': True}, {'headerRowCount': 1}, {'header': False, 'headerRowCount': 1}]
    if not case['header'] or not len(case['rows']) % 3:
        table['dialect'] = dialect[(n + len(case['rows'])) % 4]
    tg = TableGroup.fromvalue({'@context': 'http://www.w3.org/ns/csvw', 'tables': [table]})
    tg._fname = p / 'metadata.json'
    t = tg.tables[0]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        got = err = None
        try:
            got = [list(r.items()) for r in t]
        except ValueError as e:
            err = e
    if missing or bad:
        expect(err, 'missing required column or cell not reported: {!r}', got)
        rec.label('missing required')
        rec.nt()
        return
    if err:
        fail('valid table is rejected: {!r}', err)
    eq(got, want, 'rows with header {!r}', headers)
    for h, i in zip(headers, matched):
        if i is None and len(case['rows']) > (case['short'] > 0):
            expect(any(repr(h)[1:-1] in str(x.message) or h in str(x.message) for x in w),
                   'no warning about undescribed column {!r}', h)
    perm = m != sorted(m)
    rec.label('permuted' if perm else 'ordered', 'header' if case['header'] else 'noheader',
              'unknown' if None in matched else 'known', 'missing' if len(m) < n else 'complete',
              'short' if case['short'] else 'full')
    if any(h not in keys for h, i in zip(headers, matched) if i is not None):
        rec.label('by title')
    rec.nt(bool(case['rows']) and (headers != keys))


# ---------------------------------------------------------------- the same content from different places

CELL = ['', 'a', '1', 'é', 'two\nlines', 'a\r\nb', ' x ', '"', '\ufeff', 'x,y', '\u2028', '𝄞', '#c']
ENCODINGS = [None, None, 'utf-8', 'utf-8-sig', 'utf-16', 'latin-1', 'UTF8', 'UTF-8', 'cp1252', 'UTF-8-BOM']


@st.composite
def contents(draw):
    n = draw(st.integers(1, 3))
    return {
        'names': draw(st.permutations(['a', 'é', 'x y', 'c']))[:n],
        'rows': draw(st.lists(st.lists(st.sampled_from(CELL), min_size=n, max_size=n), max_size=4)),
        'encoding': draw(st.sampled_from(ENCODINGS)), 'bom': draw(st.integers(0, 2)) == 0,
        'eol': draw(st.sampled_from(['\r\n', '\n', '\r'])), 'final': draw(st.booleans()),
        'header': draw(st.integers(0, 4)) > 0, 'url': draw(st.sampled_from(['t.csv', 'x y.tsv', 'sub/ü.csv', 't'])),
        'other': draw(st.booleans()), 'datatype': draw(st.booleans())}


def check_sources(case, rec):
    d = gen.scratch(rec, 'd')
    with oracle():
        shutil.rmtree(str(d), ignore_errors=True)
        d.mkdir()
        dialect = {'header': case['header'], 'commentPrefix': '#'}
        enc = {'UTF-8-BOM': 'utf-8-sig'}.get(case['encoding'], case['encoding'] or 'utf-8')
        if case['encoding']:
            dialect['encoding'] = case['encoding']
        buf = io.StringIO(newline='')
        csv.writer(buf, lineterminator=case['eol'], quoting=csv.QUOTE_ALL).writerows(
            ([case['names']] if case['header'] else []) + case['rows'])
        text = buf.getvalue()
        if not case['final']:
            text = text[:-len(case['eol'])]
        if case['bom'] and enc.lower().replace('-', '') == 'utf8':
            enc = 'utf-8-sig'
        try:
            content = text.encode(enc)
        except UnicodeEncodeError:
            raise Skip
        cols = [{'name': n} for n in case['names']]
        if case['datatype']:
            cols[0]['datatype'] = 'integer'
        desc = {'@context': 'http://www.w3.org/ns/csvw', 'url': case['url'], 'dialect': dialect, 'tableSchema': {'columns': cols}}
        name = case['url'].split('/')[-1]
        for sub in ['plain', 'zipped', 'fileobj']:
            p = d / sub / case['url']
            p.parent.mkdir(parents=True)
            if sub == 'zipped':
                with zipfile.ZipFile(str(p.parent / (name + '.zip')), 'w') as z:
                    if case['other']:
                        z.writestr('README.md', b'other')
                    z.writestr(name, content)
            else:
                p.write_bytes(content)
        quoted = '/' + quote(case['url'])
        host, _ = web.serve({quoted: (200, {'Content-Type': 'text/csv'}, content),
                             '/md.json': (200, {}, json.dumps(dict(desc, url=quoted[1:])).encode())})

    def read(t, fname=None):
        log = Log()
        rows = [(line, list(row.items())) for _, line, row in t.iterdicts(log=log, with_metadata=True, fname=fname)]
        # Messages start with the name of the file.
        return rows, [re.sub(r'^.*?(?=:\d+:\d+)', '', m) for m in log.messages]

    def table(sub):
        t = Table.fromvalue(json.loads(json.dumps(desc)))
        t._fname = d / sub / 'md.json'
        return t
    plain = read(table('plain'))
    with oracle():
        keep = [r for r in case['rows']]
        if not case['datatype']:
            want = [[(n, c or None) for n, c in zip(case['names'], r)] for r in keep]
    if not case['datatype'] and not any(r[0].startswith('#') for r in keep) and not (
            case['bom'] and not text) and not (not case['header'] and keep and keep[0][0].startswith('\ufeff')):
        eq([r for _, r in plain[0]], want, 'rows')
    eq(read(table('zipped')), plain, 'rows of zipped file')
    eq(read(Table.from_url(host + '/md.json')), plain, 'rows of file on the web')
    eq(read(table('other'), fname=d / 'plain' / case['url']), plain, 'rows of explicitly given file')
    eq(read(table('other'), fname=str(d / 'plain' / case['url'])), plain, 'rows of explicitly given filename')
    path = d / 'plain' / case['url']
    with io.StringIO(content.decode(enc), newline='') as f:
        eq(read(table('other'), fname=f), plain, 'rows of text in memory')
        expect(not f.closed, 'the object has been closed')
    if enc not in ('utf-16', 'utf-32'):
        with open(str(path), encoding=enc, newline='') as f:
            eq(read(table('other'), fname=f), plain, 'rows of open file')
    rec.label(str(case['encoding']), 'bom' if enc == 'utf-8-sig' else 'no bom', 'errors' if plain[1] else 'ok')
    rec.nt(bool(plain[0]))


# ---------------------------------------------------------------- lenient mode: columns by position

@st.composite
def lenients(draw):
    n = draw(st.integers(1, 4))
    cols = []
    for i in range(n):
        c = draw(st.sampled_from([{'name': 'n{}'.format(i)}, {'name': 'n{}'.format(i), 'titles': 't{}'.format(i)},
                                  {'titles': ['t{}'.format(i), 'u{}'.format(i)]}]))
        c = dict(c)
        t = draw(st.sampled_from(TYPES))
        if t:
            c['datatype'] = t
        cols.append(c)
    width = draw(st.integers(1, 6))
    header = [draw(st.sampled_from(['n{}'.format(i), 'n{}'.format(i), 't{}'.format(i), 'n0', 'n1', 't1', 'zzz', ''])) for i in range(width)]
    rows = draw(st.lists(st.lists(st.tuples(st.integers(0, 99), st.sampled_from([0, 0, 0, 1])), min_size=1, max_size=width), max_size=4))
    return {'cols': cols, 'header': header, 'rows': rows, 'headerless': draw(st.integers(0, 5)) == 0}


def check_lenient(case, rec):
    cols, header = case['cols'], case['header']
    with oracle():
        if header == [''] or header[0].startswith('#'):
            raise Skip
        keys = [key(c, i) for i, c in enumerate(cols)]
        if case['headerless']:
            # There are only as many columns as declared.
            header = header[:len(cols)]
        names = [keys[i] if i < len(keys) else '_col.{}'.format(i + 1) for i in range(len(header))]
        lines, want, invalid = [header], [], 0
        for row in case['rows']:
            cells, res = [], {}
            for i, (k, bad) in enumerate(row[:len(header)]):
                s, v = cell(cols[i] if i < len(cols) else None, i, k)
                if bad and i < len(cols) and cols[i].get('datatype') in ('integer', 'boolean', 'date'):
                    s = v = 'invalid {}'.format(k)
                    invalid += 1
                cells.append(s)
                res[names[i]] = v
            for k in keys:
                res.setdefault(k, None)
            lines.append(cells)
            want.append(list(res.items()))
        buf = io.StringIO(newline='')
        csv.writer(buf).writerows(lines[1:] if case['headerless'] else lines)
    p = gen.scratch(rec, 'd')
    p.mkdir(exist_ok=True)
    (p / 't.csv').write_text(buf.getvalue(), encoding='utf-8', newline='')
    t = Table.fromvalue({'url': 't.csv', 'tableSchema': {'columns': [dict(c) for c in cols]}, 'dialect': {'header': not case['headerless']}})
    t._fname = p / 'metadata.json'
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        got = [list(r.items()) for r in t.iterdicts(strict=False)]
    eq(got, want, 'rows with header {!r}, described as {!r}, not strict', header, keys)
    msgs = [str(m.message) for m in w]
    expect(sum('nvalid' in m for m in msgs) >= invalid, 'invalid cells not reported: {!r}', msgs)
    if not case['headerless']:
        matching = len(header) <= len(cols) and all(h == k or h in titles(c) for h, k, c in zip(header, keys, cols))
        if matching and not invalid:
            eq(msgs, [], 'warnings for compatible data')
        if len(header) > len(cols):
            expect(any('ismatch' in m for m in msgs), 'additional columns not reported: {!r}', msgs)
        if any('name' not in c and h not in titles(c) for h, c in zip(header, cols)):
            expect(msgs, 'different titles not reported')
    rec.label('invalid' if invalid else 'valid', 'headerless' if case['headerless'] else 'wide' if len(header) > len(cols) else 'narrow')
    rec.nt(bool(case['rows']) and header != keys)



PROP = Prop(
    'C12',
    [Sub('headers', cases(), check, quick=14000, thorough=200000),
     Sub('sources', contents(), check_sources, quick=1200, thorough=30000),
     Sub('lenient', lenients(), check_lenient, quick=3000, thorough=60000),
     Sub('large', large.table_cases(), large.check_permuted, quick=32, thorough=1500)],
    rule='Schemas of 1-5 columns (names, titles, language-tagged titles), files with permuted, missing, '
         'renamed and additional columns, headerless files, short last rows. Non-trivial: some row and a '
         'header different from the declared names.',
    assumptions=['Headers which occur twice, or match several columns, are not generated.',
                 'Cells beyond the last column are not judged.'])
