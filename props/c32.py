"""C32: operations follow the current state of descriptions and files."""
import contextlib
import copy
import io
import json
import shutil
import sqlite3
import warnings

from hypothesis import strategies as st

from csvw import Table, TableGroup, Column, Datatype, Link, NaturalLanguage
from csvw.db import Database
from csvw.metadata import Dialect
from csvw.utils import metadata2markdown
from vf.core import *
from . import datasets as dsets, gen, pools
from .c15 import Log, attempt

USES = ['rows', 'rows', 'half', 'lenient', 'keys', 'references', 'asdict', 'columns', 'database', 'markdown', 'write',
        'inherit', 'schema', 'all']
NAMES = ['id', 'r1', 'r2', 'c0', 'c1', 'T c0', 'ü', 'x y']
DATATYPES = [None, 'string', 'integer', 'decimal', 'boolean', 'date', 'json', 'anyURI', 'float', {'base': 'string', 'maxLength': 1},
             {'base': 'integer', 'minimum': '1'}, {'base': 'boolean', 'format': 'Y|N'}, {'base': 'integer', 'format': '#,##0'},
             {'base': 'string', 'format': '[a-z]*'}, {'base': 'date', 'format': 'd.M.yyyy'}]
PROPS = [('separator', [None, ';', '|', ',']), ('null', [[''], ['NA'], ['', 'NA', '1'], ['x']]), ('default', ['', '1', 'x', 'NA']),
         ('required', [None, True, False]), ('lang', ['und', 'de', 'en']), ('datatype', DATATYPES)]
DEFAULTS = {'null': [''], 'default': '', 'lang': 'und'}
DIALECTS = [None, {}, {'delimiter': ';'}, {'header': False}, {'delimiter': '|', 'header': True}, {'commentPrefix': '#'},
            {'quoteChar': "'"}, {'skipRows': 1}, {'encoding': 'latin-1'}, {'trim': 'true'}, {'skipBlankRows': True}]
SETTINGS = [('delimiter', ';'), ('delimiter', ','), ('header', False), ('header', True), ('skipRows', 1), ('commentPrefix', '"'),
            ('skipBlankRows', True), ('encoding', 'latin-1'), ('skipColumns', 1)]
OPS = ['rename', 'rename', 'titles', 'datatype', 'inherited', 'inherited', 'inherited', 'facet', 'facet', 'delcol', 'movecol', 'addcol',
       'addcol', 'virtual', 'pk', 'addfk', 'addfk', 'delfk', 'dialect', 'dialect', 'setting', 'setting', 'addtable', 'deltable',
       'movetable', 'url', 'common', 'data', 'data', 'group dialect']


@st.composite
def cases(draw):
    ds = draw(dsets.datasets(unnamed=False, kinds=pools.SQL_KINDS, n_max=3, max_rows=4))
    ints = st.integers(0, 11)
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        steps.append({'use': draw(st.sampled_from(USES)), 'op': draw(st.sampled_from(OPS)), 'i': draw(st.lists(ints, min_size=6, max_size=6)),
                      'compare': draw(st.integers(0, 3)) == 0})
    return {'ds': ds, 'steps': steps}


# ---------------------------------------------------------------- observations

def database(tg):
    db = Database(tg)
    try:
        db.write_from_tg(_skip_extra=True)
        return repr(db.read()), list(db.connection().iterdump())
    except sqlite3.Error as e:
        return repr(e)
    finally:
        if db._connection:
            db._connection.close()


def rows(t, **kw):
    log = Log()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            res = [repr(r) for r in t.iterdicts(log=log, with_metadata=True, **kw)]
        except (ValueError, LookupError, TypeError, AttributeError, OSError) as e:
            res = type(e).__name__, str(e)
    return res, list(log), [str(x.message) for x in w]


def keys(t):
    log = Log()
    return attempt(lambda: t.check_primary_key(log=log)), list(log)


def references(tg):
    res = []
    for strict in [False, True]:
        log = Log()
        res.append((attempt(lambda: tg.check_referential_integrity(log=log, strict=strict)), list(log)))
    return res


def index(objs, o):
    return next((i for i, x in enumerate(objs) if x is o), None)


def columns(tg):
    res = []
    for t in tg.tables:
        cols = t.tableSchema.columns
        names = {c.name for c in cols} | {c.header for c in cols} | set(NAMES) | {'T c1', 'other c1'}
        res.append((t.local_name, list(t.tableSchema.columndict),
                    [(n, index(cols, t.get_column(n)), index(cols, t.tableSchema.get_column(n))) for n in sorted(map(str, names))],
                    [index(cols, c) for c in t.tableSchema.columndict.values()], str(t.url.resolve(t.base))))
    return res, list(tg.tabledict), [index(tg.tables, t) for t in tg.tabledict.values()]


def inherit(tg):
    return [[(p, repr(o.inherit(p))) for p, _ in PROPS for o in [c, t.tableSchema, t]] for t in tg.tables for c in t.tableSchema.columns]


def schema(tg):
    return attempt(lambda: tg.validate_schema()), attempt(lambda: [
        (a.local_name, b, c.local_name, d) for a, b, c, d in tg.foreign_keys()])


def written(t):
    items = attempt(lambda: list(t.iterdicts(log=Log())))
    return attempt(lambda: t.write(items, fname=None)) if isinstance(items, list) else None


OBSERVE = [
    ('asdict', lambda tg: [json.dumps(tg.asdict(omit_defaults=o)) for o in (True, False)]),
    ('columns', columns), ('inherit', inherit), ('schema', schema),
    ('rows', lambda tg: [rows(t) for t in tg.tables]),
    ('lenient', lambda tg: [rows(t, strict=False) for t in tg.tables]),
    ('keys', lambda tg: [keys(t) for t in tg.tables]),
    ('references', references),
    ('write', lambda tg: [written(t) for t in tg.tables]),
    ('markdown', lambda tg: attempt(lambda: metadata2markdown(tg, link_files=True))),
    ('database', lambda tg: attempt(lambda: database(tg)))]


def use(tg, name, i):
    if name == 'half':
        for t in tg.tables[:i % 3 + 1]:
            it = t.iterdicts(log=Log())
            attempt(lambda: next(it, None))
            it.close()
    for k, func in OBSERVE:
        if name in (k, 'all'):
            attempt(lambda: func(tg))


# ---------------------------------------------------------------- changes, of the objects and of the document

class Model:
    def __init__(self, d, desc, contents, dialect):
        self.d, self.desc, self.contents, self.dialect = d, desc, contents, dialect
        self.n = 0

    def fresh(self):
        return self.__class__.load(self.d, self.desc)

    @staticmethod
    def load(d, desc):
        tg = TableGroup.fromvalue(json.loads(json.dumps(desc)))
        tg._fname = d / 'metadata.json'
        return tg


def setprop(doc, p, v):
    if v is None or DEFAULTS.get(p) == v:
        doc.pop(p, None)
    else:
        doc[p] = v


def apply(m, tg, op, i):
    """
    :return: Whether something has been changed.
    """
    a, b, c, d, e, f = i
    tables = m.desc['tables']
    with oracle():
        ti = a % len(tables) if tables else 0
        tdoc = tables[ti] if tables else {'tableSchema': {'columns': []}}
        sdoc = tdoc['tableSchema']
        cdocs = sdoc['columns']
        plain = [x for x in cdocs if not x.get('virtual')]
        names = [x['name'] for x in cdocs if 'name' in x]
        ci = b % len(plain) if plain else 0
        if not tables and op not in ('addtable', 'common', 'group dialect'):
            return False
        if not plain and op in ('rename', 'titles', 'datatype', 'facet', 'delcol', 'movecol'):
            return False
        cdoc = plain[ci] if plain else None
    t = tg.tables[ti] if tables else None
    s = t.tableSchema if t else None
    if op == 'rename':
        name = NAMES[c % len(NAMES)]
        if name in names:
            return False
        old = cdoc.get('name')
        s.columns[ci].name = cdoc['name'] = name
        if old and d % 2:  # references are adapted
            if old in sdoc.get('primaryKey', []):
                new = [name if x == old else x for x in sdoc['primaryKey']]
                s.primaryKey, sdoc['primaryKey'] = list(new), new
            for fk, fkdoc in zip(s.foreignKeys, sdoc.get('foreignKeys', [])):
                if old in fkdoc['columnReference']:
                    new = [name if x == old else x for x in fkdoc['columnReference']]
                    fk.columnReference, fkdoc['columnReference'] = list(new), new
            for tt, td in zip(tg.tables, tables):
                for fk, fkdoc in zip(tt.tableSchema.foreignKeys, td['tableSchema'].get('foreignKeys', [])):
                    if fkdoc['reference']['resource'] == tdoc['url'] and old in fkdoc['reference']['columnReference']:
                        new = [name if x == old else x for x in fkdoc['reference']['columnReference']]
                        fk.reference.columnReference, fkdoc['reference']['columnReference'] = list(new), new
    elif op == 'titles':
        v = [None, 'T c0', ['x', 'T c1'], {'en': 'c0', 'de': ['c1', 'ü']}, 'id'][c % 5]
        if v is None and 'name' not in cdoc:
            return False
        s.columns[ci].titles = None if v is None else NaturalLanguage(v)
        setprop(cdoc, 'titles', v)
    elif op in ('datatype', 'inherited'):
        p, values = PROPS[c % len(PROPS)] if op == 'inherited' else PROPS[-1]
        v = values[d % len(values)]
        level = e % 5 if op == 'inherited' else 0
        column = (s.columns[ci], cdoc) if plain else (s, sdoc)
        obj, doc = [column, column, (s, sdoc), (t, tdoc), (tg, m.desc)][level]
        v = copy.deepcopy(v)
        setattr(obj, p, Datatype.fromvalue(v) if p == 'datatype' and v is not None else copy.deepcopy(v))
        setprop(doc, p, v)
    elif op == 'facet':
        dt, col = cdoc.get('datatype'), s.columns[ci]
        base = dt if isinstance(dt, str) else (dt or {}).get('base')
        if base in ('integer', 'decimal', 'float', 'number') and (isinstance(dt, str) or set(dt) <= {'base', 'minimum'}):
            v = ['0', '2', '10'][c % 3]
            col.datatype.minimum = col.datatype.parse(v)
            cdoc['datatype'] = {'base': base, 'minimum': v}
        elif base == 'string' and (isinstance(dt, str) or set(dt) <= {'base', 'maxLength', 'format'}):
            if c % 2:
                col.datatype.maxLength = c % 3
                cdoc['datatype'] = dict({'base': base} if isinstance(dt, str) else dt, maxLength=c % 3)
            else:
                v = ['[a-z]', '.*1', 'x|y'][c % 3]
                col.datatype.format = v
                cdoc['datatype'] = dict({'base': base} if isinstance(dt, str) else dt, format=v)
        elif base == 'boolean':
            v = ['Y|N', '1|0', 'true|false'][c % 3]
            col.datatype.format = v
            cdoc['datatype'] = {'base': base, 'format': v}
        elif base in ('date', 'anyURI') and isinstance(dt, str):
            col.datatype.base = cdoc['datatype'] = 'string'
        else:
            return False
    elif op == 'delcol':
        del s.columns[ci]
        del cdocs[ci]
    elif op == 'movecol':
        j = c % len(plain)
        if c % 2 and d % 2:
            cols = list(s.columns)
            cols.insert(j, cols.pop(ci))
            s.columns = cols
        else:
            s.columns.insert(j, s.columns.pop(ci))
        cdocs.insert(j, cdocs.pop(ci))
    elif op in ('addcol', 'virtual'):
        name = (NAMES + ['c2', 'zz'])[c % (len(NAMES) + 2)]
        if name in names or len(cdocs) > 8:
            return False
        doc = {'name': name}
        if op == 'virtual':
            doc.update(virtual=True, valueUrl='http://example.org/{c0}/{r1}')
        elif DATATYPES[d % len(DATATYPES)]:
            doc['datatype'] = DATATYPES[d % len(DATATYPES)]
        col = Column.fromvalue(copy.deepcopy(doc))
        col._parent = s
        j = len(cdocs) if op == 'virtual' else e % (len(plain) + 1)
        s.columns.insert(j, col)
        cdocs.insert(j, copy.deepcopy(doc))
    elif op == 'pk':
        names = [x['name'] for x in plain if 'name' in x]
        v = None
        if names and c % 4:
            v = sorted({names[d % len(names)], names[e % len(names)]}) if c % 2 else [names[d % len(names)]]
        s.primaryKey = None if v is None else list(v)
        setprop(sdoc, 'primaryKey', v)
    elif op == 'addfk':
        names = [x['name'] for x in plain if 'name' in x]
        oi = c % len(tables)
        odoc = tables[oi]
        onames = odoc['tableSchema'].get('primaryKey') or [x['name'] for x in odoc['tableSchema']['columns'] if 'name' in x and not x.get('virtual')][:1]
        if not onames or len(names) < len(onames) or len(sdoc.get('foreignKeys', [])) > 3:
            return False
        cols = (names + names)[d % len(names):][:len(onames)]
        t.add_foreign_key(cols[0] if len(cols) == 1 and e % 2 else tuple(cols), odoc['url'], list(onames) if e % 3 else tuple(onames))
        sdoc.setdefault('foreignKeys', []).append({
            'columnReference': cols, 'reference': {'resource': odoc['url'], 'columnReference': list(onames)}})
    elif op == 'delfk':
        if not sdoc.get('foreignKeys'):
            return False
        j = c % len(sdoc['foreignKeys'])
        del s.foreignKeys[j]
        del sdoc['foreignKeys'][j]
        if not sdoc['foreignKeys']:
            del sdoc['foreignKeys']
    elif op in ('dialect', 'group dialect'):
        v = DIALECTS[c % len(DIALECTS)]
        obj, doc = (t, tdoc) if op == 'dialect' else (tg, m.desc)
        obj.dialect = None if v is None else Dialect(**v)
        setprop(doc, 'dialect', None if v is None else dict(v))
    elif op == 'setting':
        p, v = SETTINGS[c % len(SETTINGS)]
        obj, doc = (t, tdoc) if 'dialect' in tdoc else (tg, m.desc)
        if 'dialect' not in doc:
            return False
        setattr(obj.dialect, p, v)
        doc['dialect'][p] = v
    elif op == 'addtable':
        urls = [x for x in m.contents if x not in [y['url'] for y in tables]]
        if not urls or len(tables) > 3:
            return False
        doc = {'url': urls[c % len(urls)], 'tableSchema': {'columns': [{'name': 'id'}, {'name': 'c0', 'datatype': 'integer'}][:c % 2 + 1]}}
        if d % 3 == 0:
            doc['tableSchema']['primaryKey'] = ['id']
        obj = Table.fromvalue(copy.deepcopy(doc))
        obj._parent = tg
        j = e % (len(tables) + 1)
        tg.tables.insert(j, obj)
        tables.insert(j, doc)
    elif op == 'deltable':
        if f % 2 and len(tables) > 1:
            tg.tables = tg.tables[:ti] + tg.tables[ti + 1:]
        else:
            del tg.tables[ti]
        del tables[ti]
    elif op == 'movetable':
        j = c % len(tables)
        tg.tables[ti], tg.tables[j] = tg.tables[j], tg.tables[ti]
        tables[ti], tables[j] = tables[j], tables[ti]
    elif op == 'url':
        urls = [x for x in m.contents if x not in [y['url'] for y in tables]]
        if not urls:
            return False
        tdoc['url'] = urls[c % len(urls)]
        t.url = Link(tdoc['url'])
    elif op == 'common':
        obj, doc = [(tg, m.desc), (t, tdoc)][c % 2 if t else 0]
        p, v = [('dc:title', 'X'), ('dc:description', ['a', 'b']), ('schema:x', {'a': 1}), ('dc:title', None)][d % 4]
        if v is None:
            obj.common_props.pop(p, None)
        else:
            obj.common_props[p] = copy.deepcopy(v)
        setprop(doc, p, v)
    elif op == 'data':
        with oracle():
            url = tdoc['url']
            rows_ = m.contents[url]
            if c % 3 == 0 and len(rows_) > 1:
                rows_.pop()
            elif c % 3 == 1 and len(rows_) > 1:
                row = list(rows_[1 + d % (len(rows_) - 1)])
                if row:
                    row[e % len(row)] = ['', '1', 'x', 'NA', '2;1'][f % 5]
                rows_.append(row)
            elif len(rows_) > 1:
                row = rows_[1 + d % (len(rows_) - 1)]
                if row:
                    row[e % len(row)] = ['', '1', 'x', 'NA', '2;1', rows_[1][e % len(rows_[1])] if rows_[1] else ''][f % 6]
            else:
                rows_.append(['1'] * max(len(rows_[0]) if rows_ else 1, 1))
            # The length of the file may well stay the same.
            (m.d / url).write_bytes(dsets.dump(rows_, m.dialect))
    return True


def check(case, rec):
    d = gen.scratch(rec, 'd')
    with oracle():
        ds = case['ds']
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        desc = dsets.describe(ds)
        for t in desc['tables']:
            if t.get('dialect') is None:
                t.pop('dialect', None)
        contents = {t['url']: [list(r) for r in dsets.content(t)] for t in ds['tables']}
        contents['other.csv'] = [['id', 'c0'], ['1', '2'], ['x', '1'], ['1', '']]
        contents['more/x.csv'] = [['c0', 'r1', 'id'], ['1', '2', 'a']]
        dsets.write(d, None, contents, dialect=ds['dialect'])
        m = Model(d, desc, contents, ds['dialect'])
    tg = m.fresh()
    done = []
    for n, step in enumerate(case['steps']):
        with contextlib.redirect_stdout(io.StringIO()):
            use(tg, step['use'], step['i'][0])
        if apply(m, tg, step['op'], step['i']):
            done.append(step['op'])
            rec.label(step['op'])
        if step['compare'] or n == len(case['steps']) - 1:
            other = m.fresh()
            for name, func in OBSERVE:
                with contextlib.redirect_stdout(io.StringIO()):
                    want, got = func(other), func(tg)
                eq(got, want, '{} after {!r}, compared to a fresh description', name, done)
    rec.nt(bool(done) and any(t['rows'] for t in ds['tables']))


PROP = Prop(
    'C32',
    [Sub('histories', cases(), check, quick=2000, thorough=50000)],
    rule='Histories of 1-6 changes of a valid table group (columns renamed, retitled, moved, added, removed, other datatypes, '
         'facets, inherited properties at four levels, keys, references, dialects, tables, locations, common properties) or of its '
         'data files, each after some use of the objects; afterwards everything that can be observed is compared with a description '
         'newly loaded from the JSON document which was changed alike. Non-trivial: something was changed and there are rows.',
    assumptions=['Objects which are added get their _parent set, as in the initialisers.', 'Changes of trim, doubleQuote and '
                 'lineTerminators of a dialect already in use are not generated (the library caches values derived from them).'])
