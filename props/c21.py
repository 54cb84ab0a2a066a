"""C21: data loaded into SQLite is read back unchanged."""
import decimal
import pathlib
import shutil
import json

from hypothesis import strategies as st

from csvw import TableGroup
from csvw.db import Database
from vf.core import *
from . import datasets as dsets, gen, pools, tables as T, large

NAMES = ['id', 'name', 'x', 'y', 'select', 'from', 'ü', 'context', 'group', 'a.b', 'Key', 'z9', 'rowid_', 'a||b', "it's", 'B', 'c', 'd']


def acyclic(tables):
    """Drop references which lead to cycles between different tables, or which SQLite cannot have."""
    edges = {}

    def reach(a, b):
        return a == b or any(reach(c, b) for c in edges.get(a, ()))
    for i, t in enumerate(tables):
        keep = []
        for fk in t['fks']:
            p = fk['table']
            listed = any(t['cols'][k]['sep'] for k in fk['cols'])
            if listed and not (t['pk'] and len(t['pk']) == 1):
                continue  # needs a single key column
            if p != i and not listed:
                if reach(p, i):
                    continue
                edges.setdefault(i, set()).add(p)
            keep.append(fk)
        t['fks'] = keep


@st.composite
def groups(draw, unnamed=True):
    ds = draw(dsets.datasets(unnamed=unnamed, kinds=pools.SQL_KINDS, key_kinds=pools.KEY_KINDS, max_rows=6, n_max=4, unique=True,
                             urls=['a.csv', 'b c.csv', 'x.csv', 'ü.csv', 'sub/z.csv', "o'x.csv", 'group']))
    acyclic(ds['tables'])
    for t in ds['tables']:
        names = draw(st.permutations(NAMES))
        for c, n in zip(t['cols'], names):
            c['name'] = n
        t['order'] = draw(st.permutations(range(len(t['cols']))))
        t['ragged'] = draw(st.booleans())
        fkcols = [k for fk in t['fks'] for k in fk['cols']]
        for fk in t['fks']:
            # columns and referenced columns in another (the same) order
            p = draw(st.permutations(range(len(fk['cols']))))
            fk['cols'], fk['ref'] = [fk['cols'][i] for i in p], [fk['ref'][i] for i in p]
            for row in t['rows']:
                k = draw(st.integers(0, 9))
                for x in fk['cols']:
                    c = t['cols'][x]
                    if c['required'] or fkcols.count(x) > 1 or (t['pk'] and x in t['pk']):
                        continue
                    if k == 0:
                        row[x] = [] if c['sep'] else None
                    elif c['sep'] and row[x]:
                        row[x] = draw(st.permutations(row[x]))
    return {'ds': ds, 'file': draw(st.integers(0, 3)) == 0, 'translate': draw(st.sampled_from([None, None, 'prefix'])),
            'drop': draw(st.sampled_from([True, True, True, False])), 'extra': draw(st.integers(0, 4)) == 0,
            'custom': draw(st.integers(0, 3)) == 0}


def translator(kind):
    if kind is None:
        return None

    def translate(table, column=None):
        return 'c ' + column if column else 't_' + table
    return translate


def write_files(d, desc, ds, extra=False):
    header = (ds['dialect'] or {}).get('header', True)
    contents = {}
    for t in ds['tables']:
        rows = dsets.content(t)
        order = t['order'] if header else list(range(len(t['cols'])))
        out = []
        for i, r in enumerate(rows):
            r = [r[k] for k in order]
            if i and t['ragged']:
                while len(r) > 1 and r[-1] == '' and not t['cols'][order[len(r) - 1]]['required']:
                    r.pop()
            if extra:
                r.insert(0, 'x{}'.format(i))
            out.append(r)
        contents[t['url']] = out
    return dsets.write(d, desc, contents, dialect=ds['dialect'])


def equal(a, b):
    if isinstance(a, decimal.Decimal) and isinstance(b, decimal.Decimal):
        return a == b
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return same(a, b) or (type(a) is type(b) and not isinstance(a, (dict, list)) and a == b)


def compare(got, want, lists, what):
    """
    :param lists: names of the columns which are list-valued references.
    """
    eq(len(got), len(want), 'number of rows of {}', what)
    rest = list(got)
    for w in want:
        for k in lists:
            w[k] = w[k] or []
        for i, g in enumerate(rest):
            if g.keys() == w.keys() and all(equal(g[k], w[k]) for k in w):
                del rest[i]
                break
        else:
            fail('{}: row {!r} is not among {!r}', what, dict(w), [dict(g) for g in got][:10])


class Custom(Database):
    """The context of associations may be customised."""
    def association_table_context(self, table, column, fkey):
        return fkey, 'ctx:{}:{}'.format(column, table.name)

    def select_many_to_many(self, db, table, context):
        res = {}
        for pk, pairs in super().select_many_to_many(db, table, None).items():
            expect(all(ctx.startswith('ctx:') for _, ctx in pairs), 'contexts {!r}', pairs)
            pairs = [fk for fk, ctx in pairs if ctx.split(':')[1] == context]
            if pairs:
                res[pk] = pairs
        return res


def check_helpers(db, ds, translate):
    translate = translate or (lambda t, c=None: c or t)
    for t in ds['tables']:
        assoc = {k for fk in t['fks'] for k in fk['cols'] if t['cols'][k]['sep']}
        tname = translate(t['url'])
        for i, c in enumerate(t['cols']):
            if i not in assoc:
                name = translate(t['url'], ('T ' if c['head'] == 'unnamed' else '') + c['name'])
                eq(db.separator(tname, name), c['sep'] or None, 'separator of {} in {}', name, tname)
                for v in ['', 'a', 'a;b|;c', None]:
                    eq(db.split_value(tname, name, v), (v or '').split(c['sep']) if c['sep'] else v, 'split value')
        eq(db.separator(tname, 'no such column'), None, 'separator of an unknown column')


def check_groups(case, rec):
    d = gen.scratch(rec, 'd')
    with oracle():
        ds = case['ds']
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        # Columns which are not described can be left out.
        extra = case.get('extra') and (ds['dialect'] or {}).get('header', True)
        md = write_files(d, dsets.describe(ds), ds, extra=extra)
        fname = d / 'db.sqlite' if case['file'] else None
        translate = translator(case['translate'])
        # Rows which refer to later rows of the same table can only be loaded without these references.
        drop = case['drop'] or any(fk['table'] == i for i, t in enumerate(ds['tables']) for fk in t['fks'])
    tg = TableGroup.from_file(md)
    want = tg.read()
    if extra:
        for rows in want.values():
            for i, r in enumerate(rows, start=1):
                eq(r.pop('x0', None), 'x{}'.format(i), 'undescribed column')
        rec.label('extra column')
    for t in ds['tables']:
        eq(len(want[t['url']]), len(t['rows']), 'rows in {}', t['url'])
    cls = Custom if case.get('custom') and all(':' not in c['name'] for t in ds['tables'] for c in t['cols']) else Database
    db = cls(tg, fname=fname, translate=translate, drop_self_referential_fks=drop)
    if extra:
        expect(raises(ValueError, Database(tg).write_from_tg) or not any(want.values()), 'undescribed columns are accepted')
    db.write_from_tg(_skip_extra=True) if extra else db.write_from_tg()
    if fname:
        db = cls(TableGroup.from_file(md), fname=fname, translate=translate, drop_self_referential_fks=drop)
    check_helpers(db, ds, translate)
    for i in range(2):  # Reading is repeatable
        got = db.read()
        for t in ds['tables']:
            lists = [t['cols'][k]['name'] for fk in t['fks'] for k in fk['cols'] if t['cols'][k]['sep']]
            rows = got.pop(translate(t['url']) if translate else t['url'], [])
            if translate:
                for r in rows:
                    expect(all(k.startswith('c ') for k in r), 'untranslated columns: {!r}', dict(r))
                rows = [{k[2:]: v for k, v in r.items()} for r in rows]
            compare(rows, [dict(r) for r in want[t['url']]], lists, t['url'])
            if lists:
                rec.label('list-valued reference')
            if t['fks']:
                rec.label('reference')
            if any(c['sep'] for c in t['cols']):
                rec.label('list')
        eq(list(got), [], 'other tables')
    if not fname:
        db.connection().close()
    rec.label('file' if fname else 'memory')
    rec.nt(any(t['rows'] for t in ds['tables']))


# ---------------------------------------------------------------- references to all values of a datatype

@st.composite
def keys(draw):
    """A table with (nearly) all values of some datatypes as keys, and tables with many references to it."""
    def column(name, kind, **kw):
        return dict({'name': name, 'kind': kind, 'sep': None, 'head': 'name', 'null': '', 'required': True}, **kw)

    kinds = [draw(st.sampled_from(pools.KEY_KINDS)) for _ in range(draw(st.sampled_from([2, 2, 3])))]
    cols = [column(n, k) for n, k in zip(['id', 'a_id', 'third'], kinds)]
    sizes = [len(pools.pool(k)) for k in kinds]
    rows = [[[r[0], draw(st.integers(0, 2))]] + [[j, 0] for j in r[1:]] for r in zip(*[draw(st.permutations(range(s))) for s in sizes])]
    pk = draw(st.sampled_from([[0], [0], [0, 1], [1, 0]]))
    tables = [{'url': 'group', 'cols': cols, 'pk': pk, 'uniq': None, 'fks': [], 'rows': rows}]
    for t in range(draw(st.integers(1, 2))):
        cols, fks = [column('id', draw(st.sampled_from(['int64', 'spaces', 'real', 'string'])))], []
        # Lists of references to each of the columns
        lists = draw(st.permutations(range(len(kinds)))) if draw(st.integers(0, 3)) == 0 else []
        for f in range(max(len(lists), draw(st.integers(1, 4)))):
            ref = draw(st.sampled_from([[0], [0], [1], [0, 1], [1, 0]] + ([[2], [2], [1, 2]] if len(kinds) > 2 else [])))
            if f < len(lists):
                ref = [lists[f]]
            sep = draw(st.sampled_from([None, ';', '|'][f < len(lists):])) if len(ref) == 1 and kinds[ref[0]] not in dsets.NO_SEP else None
            fks.append({'cols': list(range(len(cols), len(cols) + len(ref))), 'ref': ref, 'table': 0})
            cols.extend(column('f{}{}'.format('_x%y'[f], k), kinds[k], sep=sep, required=False, fk=True) for k in ref)
        data = []
        for i in draw(st.permutations(range(len(pools.pool(cols[0]['kind'])))))[:draw(st.integers(1, 4))]:
            row = [[i, 0]]
            for fk in fks:
                if cols[fk['cols'][0]]['sep']:
                    row.append(draw(st.lists(st.sampled_from([r[fk['ref'][0]] for r in rows]), max_size=5)))
                else:
                    row.extend(draw(st.sampled_from([[r[k] for k in fk['ref']] for r in rows] + [[None] * len(fk['ref'])])))
            data.append(row)
        tables.append({'url': ['group_a', 'a.csv'][t], 'cols': cols, 'pk': [0], 'uniq': None, 'fks': fks, 'rows': data})
    for t in tables:
        t['order'], t['ragged'] = draw(st.permutations(range(len(t['cols'])))), False
    return {'ds': {'tables': tables, 'dialect': None, 'dialect_at': 'table'}, 'file': False,
            'translate': draw(st.sampled_from([None, 'prefix'])), 'drop': True, 'custom': draw(st.integers(0, 3)) == 0}


# ---------------------------------------------------------------- arbitrary values

@st.composite
def values(draw):
    cols = draw(T.columns(virtual=False))
    seen, keep = set(), []
    for i, c in enumerate(cols):
        c.pop('default', None)
        h = T.header(c, i).lower()
        if h not in seen and not h.startswith('_col.'):
            seen.add(h)
            keep.append(c)
    cols = keep or [{'name': 'a'}]
    rows = draw(T.records(cols))
    n = len(cols)
    return {'cols': cols, 'rows': [[r, draw(st.permutations(range(n))), draw(st.booleans())] for r in rows],
            'file': draw(st.integers(0, 5)) == 0}


def in_sqlite(c, v):
    """Can SQLite represent the value of this type?"""
    base = T.base_of(c)
    if v is None or c.get('separator'):
        return True
    v = T.realize(c, v)
    if base == 'integer':
        return -2 ** 63 <= v < 2 ** 63
    if base == 'decimal':
        return decimal.Decimal(repr(float(v))) == v and abs(float(v)) < 1e15
    return True


def check_values(case, rec):
    d = gen.scratch(rec, 'd')
    with oracle():
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        cols = case['cols']
        heads = [T.header(c, i) for i, c in enumerate(cols)]
        fname = d / 'db.sqlite' if case['file'] else None
    tg = TableGroup.fromvalue({'tables': [{'url': 'data', 'tableSchema': {'columns': [dict(c) for c in cols]}}]})
    dts = [c.datatype for c in tg.tables[0].tableSchema.columns]
    items, want = [], []
    for row, order, sparse in case['rows']:
        if any(not in_sqlite(c, v) for c, v in zip(cols, row)):
            rec.label('not in SQLite')
            continue
        if any(v is not None and T.cell_text(c, v, dts[i].formatted if dts[i] else None) is None
               for i, (c, v) in enumerate(zip(cols, row))):
            continue  # cannot stem from a CSV file
        real = [T.realize(c, v) for c, v in zip(cols, row)]
        if any(c.get('required') and v is None for c, v in zip(cols, real)):
            continue  # JSON null
        item = {heads[i]: real[i] for i in order}
        if sparse:
            item = {k: v for k, v in item.items() if v is not None}
        items.append(item)
        want.append(row)
    db = Database(tg, fname=fname)
    db.write(data=iter(items))
    if fname:
        db = Database(tg, fname=fname)
    got = db.read().get('data', [])
    eq(len(got), len(want), 'number of rows')
    for g, row in zip(got, want):
        eq(list(g), heads, 'columns')
        for c, h, v in zip(cols, heads, row):
            if T.realize(c, v) is None:
                eq(g[h], None, 'value of {}', h)
            else:
                eq(T.got_value(c, g[h]), T.expected_value(c, v), 'value of {}', h)
    if not fname:
        db.connection().close()
    rec.nt(items)


PROP = Prop(
    'C21',
    [Sub('groups', groups(), check_groups, quick=2500, thorough=60000),
     Sub('keys', keys(), check_groups, quick=1500, thorough=20000),
     Sub('values', values(), check_values, quick=2500, thorough=60000),
     Sub('large', large.key_cases(), large.check_database, quick=48, thorough=1500)],
    rule='groups: up to three tables of all datatypes with keys, references (composite, list-valued, to the same table), '
         'lists, nulls, permuted and ragged files, loaded into memory or a file, with translated names; keys: up to eight scalar, '
         'composite and list-valued references to a table with all values of the pools as keys; values: arbitrary '
         'values written as dicts with any order of keys and missing keys. Non-trivial: at least one row.',
    assumptions=['Integers of 64 bits; decimals which a float represents; names which differ not only in case; keys whose '
                 'equal values have one form; no cyclic references; references to primary keys.',
                 'Null and empty list-valued references are the same.', 'The order of rows is not judged for table groups.'])
