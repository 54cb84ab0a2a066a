"""C30: what is passed in stays as it was, and what is handed out is not shared."""
import copy
import json
import re
import shutil
import warnings

from hypothesis import strategies as st

from csvw import TableGroup, Table
from csvw.db import Database
from csvw.dsv import Dialect, UnicodeReader, UnicodeWriter, add_rows
from csvw.metadata import Column, Datatype, ForeignKey, Link, Schema
from vf.core import *
from . import c14, docs, datasets as D, gen


def plain(o):
    """Data with types and order of keys."""
    if isinstance(o, dict):
        return [type(o).__name__, [(k, plain(v)) for k, v in o.items()]]
    if isinstance(o, (list, tuple)):
        return [type(o).__name__, [plain(x) for x in o]]
    return [type(o).__name__, repr(o)]


def same(got, want, what, *args):
    """Compares what `plain` returns, reporting the first difference."""
    def diff(a, b, path):
        if a == b:
            return None
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                res = diff(x, y, path + [i])
                if res:
                    return res
        return '{!r} instead of {!r}'.format(a, b)[:500]
    res = diff(got, want, [])
    if res:
        fail(what.format(*args) + ' changed: {}', res)


# ---------------------------------------------------------------- descriptions

@st.composite
def metadata(draw):
    case = draw(c14.bcases())
    if draw(st.integers(0, 2)):
        case['bad'] = None
    case['extra'] = draw(st.sampled_from([None, None, {'datatype': {}}, {'datatype': {'format': 'x+'}}, {'datatype': {'minimum': '1', 'base': 'integer'}},
                                          {'dc:x': {'@value': 'x', '@language': 'nonsense'}}, {'dc:x': [{'@type': 'xsd:string', '@value': 'x'}]},
                                          {'dc:x': {'@id': 'a', 'dc:y': [1, {'@value': '2'}]}}, {'null': 'NA'}, {'null': ['a', 'b']}]))
    case['what'] = draw(st.sampled_from(['group', 'group', 'group', 'table', 'schema', 'column', 'datatype', 'fk', 'file', 'file', 'url']))
    case['refs'] = draw(st.integers(0, 7))
    case['twice'] = draw(st.booleans())
    return case


def check_metadata(case, rec):
    doc = copy.deepcopy(case['doc'])
    with oracle():
        if case['bad']:
            c14.binject(doc, case)
        level = doc['tables'][0] if isinstance(doc.get('tables'), list) and doc['tables'] and isinstance(doc['tables'][0], dict) else None
        what = case['what']
        schema = (level or {}).get('tableSchema')
        cols = schema.get('columns') if isinstance(schema, dict) else None
        col = cols[0] if isinstance(cols, list) and cols and isinstance(cols[0], dict) else None
        if case['extra']:
            for o in (col, level, doc):
                if o is not None:
                    o.update(copy.deepcopy(case['extra']))
                    break
        func, arg = TableGroup.fromvalue, doc
        if what == 'table' and level:
            func, arg = Table.fromvalue, level
        elif what in ('file', 'url'):
            d = gen.scratch(rec, 'd')
            shutil.rmtree(d, ignore_errors=True)
            d.mkdir()
            (d / 'dialect.json').write_text('{"header": true}')
            (d / 'schema.json').write_text('{"columns": [{"name": "x"}]}')
            if what == 'file':
                # Dialects and schemas may be references.
                for i, (o, k) in enumerate([(doc, 'dialect'), (level, 'dialect'), (level, 'tableSchema')]):
                    if case['refs'] & 2 ** i and o is not None:
                        o[k] = 'dialect.json' if k == 'dialect' else 'schema.json'

            def func(data):
                if what == 'file':
                    return TableGroup.from_file(d / 'md.json', data=data)
                return TableGroup.from_url('http://127.0.0.1:9/x/md.json?x', data=data)
        elif what == 'schema' and isinstance(schema, dict):
            func, arg = Schema.fromvalue, schema
        elif what == 'column' and col:
            func, arg = Column.fromvalue, col
        elif what == 'datatype':
            found = [o['datatype'] for o in (col, level, doc) if o and isinstance(o.get('datatype'), dict)]
            if not found:
                raise Skip()
            func, arg = Datatype.fromvalue, found[0]
        elif what == 'fk':
            fks = schema.get('foreignKeys') if isinstance(schema, dict) else None
            if not (isinstance(fks, list) and fks and isinstance(fks[0], dict)):
                raise Skip()
            func, arg = ForeignKey.fromdict, fks[0]
        before = plain(arg)

    def load():
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try:
                obj = func(arg)
            except Exception as e:
                return None, [type(e).__name__, re.sub(r'0x[0-9a-f]+', '', str(e))]
        return obj, [re.sub(r'0x[0-9a-f]+', '', str(w.message)) for w in ws]
    obj, messages = load()
    same(plain(arg), before, 'the argument of {}', func.__qualname__)
    text = None
    if hasattr(obj, 'asdict'):
        text = json.dumps(obj.asdict(), default=str)
        full = json.dumps(obj.asdict(omit_defaults=False), default=str)
        same(plain(arg), before, 'the argument of {} after serialisation', func.__qualname__)
        eq(json.dumps(obj.asdict(), default=str), text, 'second serialisation')
        eq(json.dumps(obj.asdict(omit_defaults=False), default=str), full, 'second full serialisation')
    if case['twice']:
        again, messages2 = load()
        eq(messages2, messages, 'warnings when loaded again')
        eq(type(again), type(obj), 'type when loaded again')
        if text is not None:
            eq(json.dumps(again.asdict(), default=str), text, 'description loaded again')
        expect(again == obj, 'descriptions loaded from the same data differ: {!r} and {!r}', obj, again)
    rec.label(what, 'bad' if case['bad'] else 'good', 'extra' if case['extra'] else 'plain')
    rec.nt(len(json.dumps(arg, default=str)) > 60)


# ---------------------------------------------------------------- rows

@st.composite
def rows(draw):
    return {'ds': draw(D.datasets(unnamed=False)), 'how': draw(st.lists(st.sampled_from(
        ['table.write', 'zip', 'group.write', 'db', 'writer', 'add_rows', 'column', 'read', 'iterate', 'lists', 'reader']), min_size=1, max_size=4)),
        'at': draw(st.integers(0, 20))}


def check_rows(case, rec):
    ds = case['ds']
    d = gen.scratch(rec, 'd')
    with oracle():
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        md = D.write(d, D.describe(ds), {t['url']: D.content(t) for t in ds['tables']}, dialect=ds['dialect'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tg = TableGroup.from_file(md)
        data = {t.url.string: [dict(r) for r in t] for t in tg.tables}
        k = case['at'] % len(tg.tables)
        t, rs = tg.tables[k], data[tg.tables[k].url.string]
        before = plain(data)
        description = json.dumps(tg.asdict(omit_defaults=False), default=str)
        (d / 'out' / 'sub').mkdir(parents=True)
        for how in case['how']:
            if how == 'table.write':
                t.write(rs, fname=d / 'out' / 'x.csv' if case['at'] % 2 else None)
            elif how == 'zip':
                t.write(rs, fname=d / 'out' / 'x.csv', _zipped=True)
            elif how == 'lists':
                ls = [list(r.values()) for r in rs]
                was = plain(ls)
                t.write(ls, fname=None)
                same(plain(ls), was, 'rows given as lists')
            elif how == 'group.write':
                tg.write(d / 'out' / 'md.json', **data)
            elif how == 'db':
                try:
                    db = Database(tg)
                    db.write(_force=True, **data)
                    db.read()
                except Exception:
                    pass
            elif how in ('writer', 'add_rows'):
                cells = [[None if x is None else x if isinstance(x, (str, int)) else str(x) for x in r.values()] for r in rs]
                was = plain(cells)
                if how == 'writer':
                    with UnicodeWriter(None, dialect=Dialect(delimiter=';', quoteChar="'")) as w:
                        w.writerows(cells)
                        for c in cells:
                            w.writerow(c)
                else:
                    add_rows(d / 'out' / 'added.csv', *cells)
                same(plain(cells), was, 'rows of cells')
            elif how == 'column':
                for c in t.tableSchema.columns:
                    for r in rs:
                        c.write(r[c.header])
            elif how == 'reader':
                lines = ['a;b\r\n', '"1;2";3\r\n', '4;5']
                if case['at'] % 2:
                    lines = [s.encode('utf-8') for s in lines]
                was = plain(lines)
                dialect = Dialect(delimiter=';')
                wasd = plain(dialect.asdict(omit_defaults=False))
                with UnicodeReader(lines, dialect=dialect) as r:
                    eq(list(r), [['a', 'b'], ['1;2', '3'], ['4', '5']], 'rows')
                same(plain(lines), was, 'lines')
                same(plain(dialect.asdict(omit_defaults=False)), wasd, 'dialect')
            else:
                # Rows handed out belong to the caller.
                got = list(t.iterdicts()) if how == 'iterate' else tg.read()[t.url.string]
                eq([plain(dict(r)) for r in got], [plain(r) for r in rs], 'rows read')
                for r in got:
                    for key in list(r):
                        spoil(r[key])
                        if len(key) % 2:
                            del r[key]
                        else:
                            r[key] = 'spoilt'
                    r['new'] = 1
                got.clear()
            same(plain(data), before, 'data after {}', how)
            eq(json.dumps(tg.asdict(omit_defaults=False), default=str), description, 'description after {}', how)
        again = {tt.url.string: [dict(r) for r in tt] for tt in tg.tables}
        same(plain(again), before, 'rows read again')
    rec.label(*case['how'])
    rec.nt(any(data.values()))


def spoil(v):
    if isinstance(v, list):
        for x in v:
            spoil(x)
        v.append('spoilt')
    elif isinstance(v, dict):
        for x in v.values():
            spoil(x)
        v['spoilt'] = 1


PROP = Prop(
    'C30',
    [Sub('metadata', metadata(), check_metadata, quick=4000, thorough=80000),
     Sub('rows', rows(), check_rows, quick=1500, thorough=30000)],
    rule='metadata: descriptions of groups, tables, schemas, columns, datatypes and keys, with or without invalid properties, loaded from '
         'Python data; rows: data read, then given to 1-4 writing operations, rows handed out are spoilt. Non-trivial: more than 60 '
         'characters of metadata; some row.',
    assumptions=['Changing a description object may change the data it was loaded from (lists are not copied); not judged.'])
