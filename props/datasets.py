"""
Generator of datasets (table groups with keys and references) which are valid by construction, and of
single defects. Also used by the conversion properties.
"""
import csv
import io
import json

from hypothesis import strategies as st

from . import pools

URLS = ['a.csv', 'b c.csv', 'x.csv', 'ü.csv', 'sub/z.csv', 'A.csv']
NO_SEP = ('json', 'schema', None, 'string', 'pattern', 'decimalChar')


DIALECTS = [None, None, None, {'delimiter': ';'}, {'delimiter': '\t', 'header': True}, {'header': False},
            {'encoding': 'utf-16'}, {'quoteChar': "'"}, {'delimiter': '|', 'encoding': 'utf-8-sig'}]


def cells(sep, null=True):
    one = st.one_of(*([st.tuples(st.integers(0, 9), st.integers(0, 3)).map(list)] * 2 +
                      [st.tuples(st.integers(0, 1), st.integers(0, 3)).map(list)] +
                      ([st.none()] if null else [])))
    return st.lists(one if sep else one, min_size=0 if null else 1, max_size=3) if sep else one


@st.composite
def datasets(draw, n_max=3, kinds=pools.ALL_KINDS, fks=True, max_rows=5, unnamed=True, keys=True,
             seps=(';', '|'), urls=URLS, key_kinds=None, unique=False):
    """
    :param unique: Flag signaling whether references to columns other than the primary key may occur.
    """
    n = draw(st.integers(1, n_max))
    urls = draw(st.permutations(urls))[:n]
    tables = []
    for i in range(n):
        cols = []
        for j in range(draw(st.integers(1, 4))):
            kind = draw(st.sampled_from(kinds))
            sep = None
            if kind not in NO_SEP and draw(st.integers(0, 4)) == 0:
                sep = draw(st.sampled_from(seps))
            cols.append({
                'name': 'c{}'.format(j), 'kind': kind, 'sep': sep,
                'head': draw(st.sampled_from(
                    ['name', 'name', 'name', 'title'] + (['unnamed'] if unnamed else []))),
                'null': draw(st.sampled_from(['', '', '', 'NA'])),
                'required': draw(st.integers(0, 4)) == 0})
        pk = None
        if keys and draw(st.integers(0, 4)):
            keycols = draw(st.permutations(range(len(cols))))[:draw(st.sampled_from([1, 1, 2]))]
            for k in keycols:
                if key_kinds and cols[k]['kind'] not in key_kinds:
                    cols[k]['kind'] = draw(st.sampled_from(key_kinds))
                cols[k].update(sep=None, required=True)
                if cols[k]['head'] == 'unnamed':
                    cols[k]['head'] = 'title'
            pk = list(keycols)
        uniq = None
        if unique and keys and draw(st.integers(0, 2)) == 0:
            uniq = list(draw(st.permutations(range(len(cols))))[:draw(st.sampled_from([1, 1, 2]))])
        for k in uniq or []:
            if key_kinds and cols[k]['kind'] not in key_kinds:
                cols[k]['kind'] = draw(st.sampled_from(key_kinds))
            cols[k].update(sep=None, required=True)
            if cols[k]['head'] == 'unnamed':
                cols[k]['head'] = 'title'
        tables.append({'url': urls[i], 'cols': cols, 'pk': pk, 'uniq': uniq, 'fks': []})
    if fks and keys:
        for f in range(draw(st.sampled_from([0, 1, 2, 2, 4] if unique else [0, 1, 2]))):
            child, parent = [draw(st.integers(0, n - 1)) for _ in range(2)]
            c, p = tables[child], tables[parent]
            targets = [x for x in (p['pk'], p['uniq']) if x]
            if not targets:
                continue
            target = targets[draw(st.integers(0, 3)) % len(targets)]
            cols = []
            for k in target:
                kind = p['cols'][k]['kind']
                sep = None
                if len(target) == 1 and kind not in NO_SEP and draw(st.integers(0, 2)) == 0:
                    sep = draw(st.sampled_from(seps))
                cols.append(len(c['cols']))
                c['cols'].append({'name': 'f{}_{}'.format(f, k), 'kind': kind, 'sep': sep, 'head': 'name',
                                  'null': '', 'required': False, 'fk': True})
            c['fks'].append({'cols': cols, 'table': parent, 'ref': list(target)})
    # Rows: parents are filled before children; cycles of references are filled with rows of the first pass.
    for t in tables:
        rows = []
        for _ in range(draw(st.integers(0, max_rows))):
            row = []
            for c in t['cols']:
                row.append(draw(cells(c['sep'], null=not c['required'] and not c.get('fk'))))
            def key(r, cols):
                return [ident(t['cols'][k], r[k]) for k in cols]
            if any(key(row, u) in [key(r, u) for r in rows] for u in (t['pk'], t['uniq']) if u):
                continue
            rows.append(row)
        t['rows'] = rows
    for _ in range(n):  # rows which cannot refer to anything are dropped (repeatedly, for chains)
        for t in tables:
            if any(not tables[fk['table']]['rows'] for fk in t['fks']):
                t['rows'] = []
    for t in tables:
        for fk in t['fks']:
            p = tables[fk['table']]
            for row in t['rows']:
                src = draw(st.sampled_from(p['rows']))
                for x, k in zip(fk['cols'], fk['ref']):
                    if t['cols'][x]['sep']:
                        row[x] = [draw(st.sampled_from(p['rows']))[k] for _ in row[x]]
                    else:
                        row[x] = src[k]
    return {'tables': tables, 'dialect': draw(st.sampled_from(DIALECTS)),
            'dialect_at': draw(st.sampled_from(['table', 'group']))}


def ident(col, v):
    def one(v):
        return None if v is None else pools.ident(col['kind'], v[0])
    return [one(i) for i in v] if col['sep'] else one(v)


def text(col, v):
    def one(v):
        if isinstance(v, str):
            return v  # injected
        return col['null'] if v is None else pools.text(col['kind'], *v)
    if col['sep'] and not isinstance(v, str):
        return col['sep'].join(one(i) for i in v)
    return one(v)


def head(col):
    return {'name': col['name'], 'title': 'T ' + col['name'], 'unnamed': 'T ' + col['name']}[col['head']]


def column(c):
    col = {}
    if c['head'] != 'unnamed':
        col['name'] = c['name']
    if c['head'] != 'name':
        col['titles'] = ['T ' + c['name'], 'other ' + c['name']] if c['name'].endswith('1') else 'T ' + c['name']
    dt = pools.datatype(c['kind'])
    if dt:
        col['datatype'] = dict(dt) if isinstance(dt, dict) else dt
    if c['sep']:
        col['separator'] = c['sep']
    if c['null']:
        col['null'] = c['null']
    if c['required']:
        col['required'] = True
    return col


def describe(ds):
    tables = []
    for t in ds['tables']:
        schema = {'columns': [column(c) for c in t['cols']]}
        if t['pk']:
            schema['primaryKey'] = [t['cols'][k]['name'] for k in t['pk']]
        if t['fks']:
            schema['foreignKeys'] = [{
                'columnReference': [t['cols'][x]['name'] for x in fk['cols']],
                'reference': {
                    'resource': ds['tables'][fk['table']]['url'],
                    'columnReference': [ds['tables'][fk['table']]['cols'][k]['name'] for k in fk['ref']]}}
                for fk in t['fks']]
        tables.append({'url': t['url'], 'tableSchema': schema})
    res = {'@context': 'http://www.w3.org/ns/csvw', 'tables': tables}
    if ds['dialect'] is not None:
        for obj in ([res] if ds['dialect_at'] == 'group' else tables):
            obj['dialect'] = dict(ds['dialect'])
    return res


def content(t):
    """Rows of the file, as text."""
    return [[head(c) for c in t['cols']]] + [[text(c, v) for c, v in zip(t['cols'], r)] for r in t['rows']]


def dump(rows, dialect=None):
    d = dialect or {}
    buf = io.StringIO(newline='')
    csv.writer(buf, delimiter=d.get('delimiter', ','), lineterminator='\r\n',
               quotechar=d.get('quoteChar', '"')).writerows(rows if d.get('header', True) else rows[1:])
    return buf.getvalue().encode(d.get('encoding', 'utf-8'))


def write(d, desc, contents, name='metadata.json', dialect=None):
    """
    :param contents: {url: rows}
    """
    for url, rows in contents.items():
        p = d / url
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(dump(rows, dialect))
    if desc is not None:
        (d / name).write_text(json.dumps(desc), encoding='utf8')
    return d / name
