"""C17: dangling references are found, and only those."""
import csv
import io
import json
import shutil

from hypothesis import strategies as st

from csvw import TableGroup
from vf.core import *
from . import gen, pools, large
from .c13 import Log

URLS = ['a.csv', 'b c.csv', 'sub/x.csv', 'ü.csv', 'z.csv', 'B.csv']
KINDS = [None, 'string', 'integer', 'decimal', 'boolean', 'date', 'dateTime', 'anyURI', 'duration',
         'hexBinary', 'YN', 'german', 'decimalChar', 'time', 'json']
LISTABLE = [None, 'integer', 'boolean', 'date', 'hexBinary', 'gYear', 'YN', 'anyURI', 'decimal']


def cells(sep=False):
    one = st.one_of(st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list),
                    st.tuples(st.integers(0, 2), st.integers(0, 3)).map(list),
                    st.tuples(st.integers(0, 1), st.integers(0, 3)).map(list), st.none())
    return st.lists(one, max_size=3) if sep else one


@st.composite
def groups(draw):
    n = draw(st.integers(1, 4))
    urls = draw(st.permutations(URLS))[:n]
    tables = []
    for i in range(n):
        cols = []
        # (Some tables have only references.)
        for j in range(draw(st.integers(1, 3)) if i == 0 or draw(st.integers(0, 3)) else 0):
            cols.append({'name': 'c{}'.format(j), 'kind': draw(st.sampled_from(KINDS)), 'sep': None})
        tables.append({'url': urls[i], 'cols': cols, 'fks': [], 'rows': []})
    for f in range(draw(st.integers(1, 4))):
        child, parent = [draw(st.integers(0, n - 1)) for _ in range(2)]
        c, p = tables[child], tables[parent]
        plain = [k for k, col in enumerate(p['cols']) if not col['sep']]
        if not plain:
            continue
        ref = draw(st.permutations(plain))[:draw(st.sampled_from([1, 1, 1, 2, 3]))]
        cols = []
        for k in ref:
            same = [x for x, col in enumerate(c['cols'])
                    if col['kind'] == p['cols'][k]['kind'] and not col['sep'] and x not in cols]
            if same and draw(st.integers(0, 2)) == 0:
                cols.append(draw(st.sampled_from(same)))
            else:
                sep = None
                if len(ref) == 1 and p['cols'][k]['kind'] in LISTABLE and draw(st.booleans()):
                    sep = draw(st.sampled_from([';', '|']))
                cols.append(len(c['cols']))
                c['cols'].append({
                    'name': 'f{}_{}'.format(f, k), 'kind': p['cols'][k]['kind'], 'sep': sep})
        c['fks'].append({'cols': cols, 'table': parent, 'ref': ref,
                         'form': draw(st.sampled_from(['list', 'string']))})
    for t in tables:
        if not t['cols']:
            t['cols'].append({'name': 'c0', 'kind': 'string', 'sep': None})
        t['hoist'] = draw(st.sampled_from([None, 'schema', 'schema', 'table']))
        if t['hoist'] and all(c['sep'] for c in t['cols']):
            for c in t['cols']:
                c['sep'] = t['cols'][0]['sep']
        for col in t['cols']:
            col['null'] = draw(st.sampled_from(['', '', '', 'NA']))
            col['type_at'] = draw(st.sampled_from(['column', 'column', 'column', 'none']))
    for t in tables:
        row = st.tuples(*[cells(c['sep']) for c in t['cols']]).map(list)
        t['rows'] = draw(st.lists(row, max_size=5))
    dangle = draw(st.integers(0, 3))
    for _ in range(2):
        for t in tables:
            for fk in t['fks']:
                p = tables[fk['table']]
                for row in t['rows']:
                    if not p['rows'] or (dangle and draw(st.integers(0, 5)) == 0):
                        continue
                    src = draw(st.sampled_from(p['rows']))
                    for x, k in zip(fk['cols'], fk['ref']):
                        if t['cols'][x]['sep']:
                            row[x] = [draw(st.sampled_from(p['rows']))[k]
                                      for _ in row[x]]
                        else:
                            row[x] = src[k]
    for t in tables:
        t['order'] = draw(st.permutations(range(len(t['cols'])))) if draw(st.booleans()) else \
            list(range(len(t['cols'])))
    return {
        'tables': tables,
        'tableorder': draw(st.permutations(range(n))),
        'strict': draw(st.booleans()),
        'zip': draw(st.integers(0, 5)) == 0,
    }


def value(col, v):
    """(text, identity)"""
    def one(v):
        return (col['null'], None) if v is None else \
            (pools.text(col['kind'], *v), pools.ident(col['kind'], v[0]))
    if not col['sep']:
        return one(v)
    items = [one(i) for i in v]
    text = col['sep'].join(t for t, _ in items)
    if text == '':
        return text, []
    if text == col['null']:
        return text, None
    return text, [i for _, i in items]


def write(case, d):
    """
    Write the data files.

    :return: (description, rows of each table as list of (line, identities))
    """
    desc, data = [], []
    for i, t in enumerate(case['tables']):
        buf = io.StringIO(newline='')
        w = csv.writer(buf, lineterminator='\r\n', quoting=csv.QUOTE_ALL)
        w.writerow([t['cols'][k]['name'] for k in t['order']])
        rows = []
        for line, row in enumerate(t['rows'], start=2):
            vals = [value(c, v) for c, v in zip(t['cols'], row)]
            w.writerow([vals[k][0] for k in t['order']])
            rows.append((line, [v for _, v in vals]))
        data.append(rows)
        p = d / t['url']
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(buf.getvalue().encode('utf8'))
        columns = []
        for c in t['cols']:
            col = {'name': c['name']}
            dt = pools.datatype(c['kind'])
            if dt and not (c['type_at'] == 'none' and c['kind'] == 'string'):
                col['datatype'] = dict(dt) if isinstance(dt, dict) else dt
            if c['sep']:
                col['separator'] = c['sep']
            if c['null']:
                col['null'] = c['null']
            columns.append(col)
        schema = {'columns': columns}
        fks = []
        for fk in t['fks']:
            a = [t['cols'][x]['name'] for x in fk['cols']]
            b = [case['tables'][fk['table']]['cols'][x]['name'] for x in fk['ref']]
            if len(a) == 1 and fk['form'] == 'string':
                a, b = a[0], b[0]
            fks.append({'columnReference': a, 'reference': {
                'resource': case['tables'][fk['table']]['url'], 'columnReference': b}})
        if fks:
            schema['foreignKeys'] = fks
        desc.append({'url': t['url'], 'tableSchema': schema})
        if t.get('hoist'):  # What all columns have in common is inherited.
            for prop in ('separator', 'null', 'datatype'):
                if len(set(json.dumps(c.get(prop)) for c in columns)) == 1 and prop in columns[0]:
                    (schema if t['hoist'] == 'schema' else desc[-1])[prop] = columns[0][prop]
                    for c in columns:
                        del c[prop]
    return {'tables': [desc[i] for i in case['tableorder']]}, data


def reference(case, data):
    """
    :return: set of (table, line) with dangling references, null references?, ambiguous references?
    """
    dangling, nulls, ambiguous = set(), False, False
    for i, t in enumerate(case['tables']):
        for fk in t['fks']:
            keys = [[vals[x] for x in fk['ref']] for _, vals in data[fk['table']]]
            if any(k in keys[:n] for n, k in enumerate(keys)):
                ambiguous = True
            for line, vals in data[i]:
                ref = [vals[x] for x in fk['cols']]
                if None in ref:
                    nulls = True
                    continue
                if len(ref) == 1 and isinstance(ref[0], list):
                    if any([item] not in keys for item in ref[0] if item is not None):
                        dangling.add((i, line))
                elif ref not in keys:
                    dangling.add((i, line))
    return dangling, nulls, ambiguous


def check(case, rec):
    d = gen.scratch(rec, 'd')
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir()
    with oracle():
        desc, data = write(case, d)
        dangling, nulls, ambiguous = reference(case, data)
    tg = TableGroup.fromvalue(desc)
    tg._fname = d / 'metadata.json'
    log = Log()
    eq(tg.check_referential_integrity(log=log), not dangling, 'verdict')
    want = sorted('{}:{}'.format(d / case['tables'][i]['url'], line) for i, line in dangling)
    got = sorted(set(m.split(' Key')[0] for m in log.messages))
    eq(got, want, 'reported rows')
    exc = raises(ValueError, tg.check_referential_integrity)
    eq(exc is not None, bool(dangling), 'ValueError without log')
    if exc:
        expect(str(exc).split(' Key')[0] in want, 'raised for {}, but dangling are {}', exc, want)
    else:
        if case['strict']:
            rec.label('strict')
            if nulls:
                expect(raises(ValueError, tg.check_referential_integrity, strict=True),
                       'null references accepted in strict mode')
            else:
                eq(tg.check_referential_integrity(strict=True), not ambiguous,
                   'strict verdict (keys ambiguous: {})', ambiguous)
    eq(tg.check_referential_integrity(log=Log()), not dangling, 'second verdict')
    n = sum(len(t['fks']) for t in case['tables'])
    rec.label('dangling' if dangling else 'ok')
    for i, t in enumerate(case['tables']):
        for fk in t['fks']:
            rec.label('self' if fk['table'] == i else 'other')
            rec.label('{} columns'.format(len(fk['ref'])))
            rec.label(*['list' for x in fk['cols'] if t['cols'][x]['sep']])
    rec.nt(n > 0 and any(data[fk['table']] and data[i]
                         for i, t in enumerate(case['tables']) for fk in t['fks']))


MISMATCH = [
    ['integer', {'base': 'decimal'}], [{'base': 'string'}, 'decimal'], ['dateTime', 'date'], ['anyURI', 'string'],
    ['normalizedString', {'base': 'string', 'minLength': 1}], ['boolean', 'integer'], ['float', 'double'], ['int', 'long'],
    [{'base': 'integer', 'minimum': 1}, {'base': 'positiveInteger'}], ['hexBinary', 'base64Binary'], ['gYear', 'integer']]


@st.composite
def broken(draw):
    case = draw(groups())
    return dict(case, broken=draw(st.sampled_from(['table', 'column', 'refcolumn', 'number', 'datatype'])),
                which=draw(st.integers(0, 9)), types=draw(st.sampled_from(MISMATCH)))


def check_broken(case, rec):
    """Foreign keys which cannot be satisfied by any data."""
    d = gen.scratch(rec, 'd')
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir()
    with oracle():
        desc, _ = write(case, d)
        fks = [fk for t in desc['tables'] for fk in t['tableSchema'].get('foreignKeys', [])]
        if not fks:
            raise Skip()
        fk = fks[case['which'] % len(fks)]
        aslist = (lambda v: v if isinstance(v, list) else [v])
        how = case['broken']
        if how == 'table':
            fk['reference']['resource'] = 'missing.csv'
        elif how == 'column':
            fk['columnReference'] = aslist(fk['columnReference'])[:-1] + ['missing']
        elif how == 'refcolumn':
            fk['reference']['columnReference'] = ['missing'] + aslist(fk['reference']['columnReference'])[1:]
        elif how == 'number':
            fk['reference']['columnReference'] = aslist(fk['reference']['columnReference']) + ['c0']
        else:
            for t in desc['tables']:
                if fk in t['tableSchema'].get('foreignKeys', []):
                    name = aslist(fk['columnReference'])[0]
                    col = [c for c in t['tableSchema']['columns'] if c['name'] == name][0]
                    other = [tt for tt in desc['tables'] if tt['url'] == fk['reference']['resource']][0]
                    name2 = aslist(fk['reference']['columnReference'])[0]
                    col2 = [c for c in other['tableSchema']['columns'] if c['name'] == name2][0]
                    if col is col2:
                        raise Skip()
                    col['datatype'], col2['datatype'] = case.get('types') or ['integer', {'base': 'decimal'}]
                    for t in desc['tables']:
                        p = d / t['url']
                        p.write_bytes(p.read_bytes().split(b'\r\n')[0] + b'\r\n')
                    break
    tg = TableGroup.fromvalue(desc)
    tg._fname = d / 'metadata.json'
    expect(raises(ValueError, tg.check_referential_integrity), 'invalid foreign key ({}) accepted', how)
    expect(raises(ValueError, tg.validate_schema), 'invalid foreign key ({}) accepted by schema validation', how)
    log = Log()
    eq(tg.check_referential_integrity(log=log), False, 'verdict with log')
    expect(log.messages, 'invalid foreign key ({}) not logged', how)
    rec.label(how)
    rec.nt()


def check_added(case, rec):
    """Foreign keys may be added to a description later."""
    d = gen.scratch(rec, 'd')
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir()
    with oracle():
        desc = json.loads(json.dumps(write(case, d)[0]))
    bare = json.loads(json.dumps(desc))
    for t in bare['tables']:
        t['tableSchema'].pop('foreignKeys', None)
    tg = TableGroup.fromvalue(bare)
    want = TableGroup.fromvalue(desc).asdict()
    before = None
    for t, td in zip(tg.tables, desc['tables']):
        for n, fk in enumerate(td['tableSchema'].get('foreignKeys', [])):
            ref = fk['reference']
            cols = fk['columnReference'] if isinstance(fk['columnReference'], list) else [fk['columnReference']]
            before = tg.asdict()
            for bad in [cols[:-1] + ['nope'], ['nope'] + cols[1:]]:
                expect(raises(ValueError, t.add_foreign_key, bad, ref['resource'], ref['columnReference']),
                       'foreign key from unknown column {} added', bad)
                eq(tg.asdict(), before, 'description after foreign key was refused')
            if len(cols) == 1 and n % 2:
                cols = cols[0]
            elif n % 3 == 0:
                cols = tuple(cols)
            refs = ref['columnReference']
            if isinstance(cols, tuple) and isinstance(refs, list):
                refs = tuple(refs)
            eq(t.add_foreign_key(cols, ref['resource'], refs), None, 'result')
    eq(json.loads(json.dumps(tg.asdict())), json.loads(json.dumps(want)), 'description with foreign keys added')
    rec.nt(before is not None)


PROP = Prop(
    'C17',
    [Sub('groups', groups(), check, quick=6000, thorough=200000),
     Sub('broken', broken(), check_broken, quick=1500, thorough=30000),
     Sub('added', groups(), check_added, quick=500, thorough=10000),
     Sub('large', large.key_cases(), large.check_references, quick=48, thorough=1500)],
    rule='Groups of 1-4 tables with up to 4 foreign keys (1-3 columns, self and mutual references, list-valued, '
         'shared columns) over small pools of values with several lexical forms. Non-trivial: some key '
         'with rows on both sides.',
    assumptions=['Lists as referenced column, or as part of a composite key, are not generated.',
                 'Foreign keys name columns by `name`; a reference with any null column is no reference.'])
