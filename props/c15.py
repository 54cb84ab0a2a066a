"""C15: inherited properties come from the nearest description that sets them."""
import contextlib
import copy
import io
import itertools
import json
import shutil
import sqlite3
import warnings

from hypothesis import strategies as st

import csvw
import csvw.db
from csvw import TableGroup
from csvw.metadata import Column, Datatype, URITemplate
from vf.core import *
from . import dt, gen, c10
from . import datasets as dsets

LEVELS = ['group', 'table', 'schema', 'column']
# property -> values; the last one is the default of the specification
VALUES = {
    'null': [['NA'], ['-', ''], ['']],
    'default': ['x', '17', ''],
    'lang': ['en', 'de-AT', 'und'],
    'separator': [';', ' | ', ','],
    'datatype': ['integer', {'base': 'date', 'format': 'yyyyMMdd'}, 'string'],
    'required': [True, False, False],
    'ordered': [True, False, False],
    'textDirection': ['ltr', 'rtl', 'inherit'],
    'aboutUrl': ['#a-{x}', 'http://example.org/{y}', ''],
    'propertyUrl': ['#p', 'dc:title', 'http://example.org/p'],
    'valueUrl': ['#v', '{+z}', 'http://example.org/v'],
}
DEFAULTS = {'null': [''], 'default': '', 'lang': 'und'}


def doc(levels):
    """Two tables with two columns each, the properties are set along the path to the first one."""
    def lv(name):
        return copy.deepcopy(levels.get(name) or {})
    other = {'url': 'other.csv', 'tableSchema': {'columns': [{'name': 'o'}]}}
    return dict(
        lv('group'), **{
            '@context': 'http://www.w3.org/ns/csvw',
            'tables': [
                dict(lv('table'), url='t.csv', tableSchema=dict(lv('schema'), columns=[
                    dict(lv('column'), name='c'), {'name': 'd'}])),
                other]})


def plain(p, v):
    """The value of a property as in JSON."""
    if v is None:
        return None
    if p.endswith('Url'):
        return str(v)
    if p == 'datatype':
        return {k: x for k, x in [('base', v.base), ('format', v.format)] if x}
    return v


def jsonval(p, v):
    if p == 'datatype' and isinstance(v, str):
        return {'base': v}
    if p == 'null' and isinstance(v, str):
        return [v]
    return v


def effective(levels, p, path):
    for name in reversed(path):
        if p in (levels.get(name) or {}):
            return jsonval(p, levels[name][p])
    return DEFAULTS.get(p)


def paths(tg):
    t, o = tg.tables
    return [
        (t.tableSchema.columns[0], LEVELS), (t.tableSchema.columns[1], LEVELS[:3]),
        (t.tableSchema, LEVELS[:3]), (t, LEVELS[:2]), (tg, LEVELS[:1]),
        (o.tableSchema.columns[0], LEVELS[:1]), (o.tableSchema, LEVELS[:1]), (o, LEVELS[:1])]


def check_tg(tg, levels, props, what):
    for obj, path in paths(tg):
        for p in props:
            want = effective(levels, p, path)
            got = plain(p, obj.inherit(p))
            if p == 'textDirection' and want is None:
                want = got if got in (None, 'inherit') else None
            eq(got, want, '{} at {} of {!r} ({})', p, type(obj).__name__, levels, what)
            if p == 'null':
                eq(obj.inherit_null(), want, 'inherit_null at {} of {!r} ({})', type(obj).__name__,
                   levels, what)


def placements(tier):
    for p, values in VALUES.items():
        opts = [None] + list(range(len(values)))
        for choice in itertools.product(opts, repeat=4):
            yield {'prop': p, 'at': list(choice)}


def convert(p, v):
    return Datatype.fromvalue(copy.deepcopy(v)) if p == 'datatype' else (
        URITemplate(v) if p.endswith('Url') else copy.deepcopy(v))


def pcheck(case, rec):
    p = case['prop']
    levels = {name: {p: VALUES[p][i]} for name, i in zip(LEVELS, case['at']) if i is not None}
    tg = TableGroup.fromvalue(doc(levels))
    check_tg(tg, levels, [p], 'loaded')
    # The values survive serialisation ...
    d = tg.asdict()
    tg2 = TableGroup.fromvalue(copy.deepcopy(d))
    check_tg(tg2, levels, [p], 'reloaded')
    eq(d, tg2.asdict(), 'serialisation')
    # ... and may be set later, by assignment, without effect on other levels.
    tg3 = TableGroup.fromvalue(doc({}))
    t = tg3.tables[0]
    objs = dict(zip(LEVELS, [tg3, t, t.tableSchema, t.tableSchema.columns[0]]))
    set_ = {}
    for name, i in sorted(zip(LEVELS, case['at']), key=lambda x: x[0]):
        if i is not None and VALUES[p][i] != DEFAULTS.get(p):
            setattr(objs[name], p, convert(p, VALUES[p][i]))
            set_[name] = {p: VALUES[p][i]}
            check_tg(tg3, set_, [p], 'assigned')
    rec.label(p, '{} levels'.format(len(levels)))
    rec.nt(len(levels) > 1)


BEHAVIOUR = ['null', 'default', 'separator', 'datatype', 'required']


@st.composite
def ccases(draw):
    levels = {}
    bases = [None, 'string', 'integer', 'decimal', 'boolean', 'date', 'json', 'hexBinary']
    for name in LEVELS:
        lv = {}
        for p in BEHAVIOUR:
            if draw(st.integers(0, 2)) == 0:
                lv[p] = draw({
                    'null': st.sampled_from([['NA'], ['-', ''], [''], '', 'NA', [], ['0']]),
                    'default': st.sampled_from(['', '1', 'NA', 'a']),
                    'separator': st.sampled_from([';', ' ', ', ', '|']),
                    'datatype': st.sampled_from(bases[1:]).flatmap(
                        lambda b: st.sampled_from([b, {'base': b}])),
                    'required': st.booleans()}[p])
        levels[name] = lv
    eff = {}
    for name in LEVELS:
        eff.update(levels[name])
    base = c10.base_of(eff)
    item = st.one_of(c10.lexical(base), c10.lexical(base), st.sampled_from(c10.TOKENS))
    sep = eff.get('separator')
    cell = st.lists(item, max_size=3).map(sep.join) if sep else item
    return {'levels': levels, 'cells': draw(st.lists(cell, min_size=1, max_size=5)),
            'file': draw(st.integers(0, 3)) == 0}


def ccheck(case, rec):
    levels = case['levels']
    eff = {}
    for name in LEVELS:
        eff.update(levels[name])
    base, sep = c10.base_of(eff), eff.get('separator')
    tg = TableGroup.fromvalue(doc(levels))
    check_tg(tg, levels, BEHAVIOUR, 'loaded')
    col = tg.tables[0].tableSchema.columns[0]
    direct = Column.fromvalue(dict(copy.deepcopy(eff), name='c'))
    good = []
    for s in case['cells']:
        with oracle():
            verdict, want = c10.reference(eff, s)
        r = e = None
        try:
            r = col.read(s)
        except ValueError as ex:
            e = ex
        if verdict == dt.REJECT:
            expect(e, '{!r} must be rejected with {!r}, but is read as {!r}', s, levels, r)
        elif verdict == dt.ACCEPT:
            if e:
                fail('{!r} conforms to {!r}, but is rejected: {!r}', s, levels, e)
            eq(c10.canonlist(base, sep, r), want, '{!r} read with {!r}', s, levels)
            eq(col.write(r), direct.write(r), 'writing {!r} with inherited and own {!r}', r, eff)
            good.append((s, want))
    if case['file'] and good:
        # The whole way: data file, other column described by the schema, table and group only
        p = gen.scratch(rec, 'd')
        shutil.rmtree(p, ignore_errors=True)
        p.mkdir()
        import csv
        with (p / 't.csv').open('w', encoding='utf-8', newline='') as f:
            w = csv.writer(f)
            w.writerow(['c', 'zz'])
            for s, _ in good:
                w.writerow([s, 'zz'])
        tg.to_file(p / 'metadata.json')
        tg2 = TableGroup.from_file(p / 'metadata.json')
        d = tg2.tables[0].tableSchema.columns[1]
        dreq = any(levels[x].get('required') for x in LEVELS[:3])
        if not (dreq and d.inherit('required')):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got = [r['c'] for r in tg2.tables[0]]
            eq([c10.canonlist(base, sep, r) for r in got], [w for _, w in good],
               'cells {!r} of file with {!r}', good, levels)
            rec.label('file')
    rec.label('levels {}'.format(sum(bool(v) for v in levels.values())))
    rec.nt(bool(good) and sum(bool(v) for v in levels.values()) > 1)


# ---------------------------------------------------------------- observable behaviour
# A description which states all effective values explicitly, on all levels, behaves the same.

TEMPLATES = ['http://example.org/{_row}', '#r{_row}', 'http://example.org/{+c0}', '?x={c1}', 'http://example.org/{_name}',
             'http://example.org/p#{c0}', 'schema:{_name}', '{?f0_0,c2}']
INHERITED = sorted(VALUES)


@st.composite
def groups(draw):
    kinds = draw(st.sampled_from([dsets.pools.ALL_KINDS, ['string', 'integer', 'decimal'], ['date', 'integer', 'pattern', 'YN'],
                                  ['german', 'anyURI', 'boolean', 'decimalChar', 'hexBinary']]))
    ds = draw(dsets.datasets(kinds=kinds, unnamed=False, max_rows=4))
    moves = []
    for _ in range(draw(st.integers(1, 5))):
        p = draw(st.sampled_from(INHERITED + ['separator', 'datatype', 'null', 'separator', 'datatype', 'dialect']))
        moves.append({'prop': p, 'level': draw(st.sampled_from(LEVELS[:3])), 'table': draw(st.integers(0, 2)),
                      'col': draw(st.integers(0, 5)), 'mode': draw(st.sampled_from(['all', 'all', 'equal', 'one'])),
                      'value': draw(st.integers(0, 7))})
    return {'ds': ds, 'moves': moves, 'virtual': draw(st.lists(st.sampled_from([None, 'schema:x', '#v']), max_size=2)),
            'noise': draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 5), st.integers(0, 5), st.sampled_from(
                ['', 'NA', 'x', '1', 'x;y', '-'])), max_size=3)) if draw(st.integers(0, 3)) == 0 else [],
            'tmpl': draw(st.sampled_from(TEMPLATES))}


def column_values(table, p):
    return [c.get(p) for c in table['tableSchema']['columns'] if not c.get('virtual')]


def hoist(desc, m, d):
    """Move (or just set) the value of a property of some column to a higher level."""
    p, tables = m['prop'], desc['tables']
    t = tables[m['table'] % len(tables)]
    if p == 'dialect':
        # The dialect of the group is irrelevant for tables with one.
        if 'dialect' in desc:
            for tt in tables:
                tt.setdefault('dialect', dict(desc['dialect']))
        else:
            for tt in tables:
                tt.setdefault('dialect', {})
        desc['dialect'] = [{'delimiter': '#'}, {'header': False}, {'quoteChar': "'"}, {'commentPrefix': 'a'}][m['value'] % 4]
        return
    levels = {'group': desc, 'table': t, 'schema': t['tableSchema']}
    cols = t['tableSchema']['columns']
    col = cols[m['col'] % len(cols)]
    v = col.get(p)
    if v is None:
        v = {'separator': ';', 'datatype': 'string', 'null': 'NA', 'required': False}.get(p, VALUES[p][m['value'] % 3])
        if p.endswith('Url'):
            # Note: {_name} is not defined in the subject of a row.
            pool = [v for v in TEMPLATES if p != 'aboutUrl' or '_name' not in v]
            v = pool[m['value'] % len(pool)]
    affected = cols if m['level'] != 'group' else [c for tt in tables for c in tt['tableSchema']['columns']]
    if m['mode'] == 'one':
        affected = [col]
    for c in affected:
        if c.get(p) == v or m['mode'] == 'all':
            c.pop(p, None)
        elif p not in c and p in ('null', 'required', 'default', 'lang', 'datatype') and m['mode'] == 'equal':
            # The meaning of the description need not change.
            c[p] = {'null': '', 'required': False, 'default': '', 'lang': 'und', 'datatype': 'string'}[p]
    levels[m['level']][p] = copy.deepcopy(v)


def pushed(desc):
    desc = copy.deepcopy(desc)
    eff = {p: desc[p] for p in INHERITED if p in desc}
    for t in desc['tables']:
        if 'dialect' in desc:
            t.setdefault('dialect', copy.deepcopy(desc['dialect']))
        for obj in [t, t['tableSchema']]:
            outer = dict(eff if obj is t else teff)
            for p, v in outer.items():
                obj.setdefault(p, copy.deepcopy(v))
            teff = {p: obj[p] for p in INHERITED if p in obj}
        for c in t['tableSchema']['columns']:
            for p, v in teff.items():
                c.setdefault(p, copy.deepcopy(v))
    desc.pop('dialect', None)
    return desc


class Log(list):
    def warning(self, msg, *args, **kw):
        self.append(str(msg))

    error = info = debug = warning


def attempt(func):
    with warnings.catch_warnings(record=True):
        warnings.simplefilter('always')
        try:
            return func()
        except (ArithmeticError, ValueError, AssertionError, LookupError, TypeError, AttributeError) as e:
            return 'raises', type(e).__name__, str(e)


def observe(d, desc, tmpl):
    (d / 'metadata.json').write_text(json.dumps(desc), encoding='utf8')
    tg = TableGroup.from_file(d / 'metadata.json')
    res = {}
    for i, t in enumerate(tg.tables):
        log = Log()
        rows = attempt(lambda: [repr(r) for r in t.iterdicts(log=log, with_metadata=True)])
        res['rows', i] = rows, log
        read = attempt(lambda: list(t.iterdicts(log=Log())))
        res['lenient rows', i] = attempt(lambda: [repr(r) for r in t.iterdicts(strict=False)])
        log = Log()
        res['primary key', i] = attempt(lambda: t.check_primary_key(log=log)), log
        if isinstance(read, list):
            res['written', i] = attempt(lambda: t.write(read, fname=None))
            res['template', i] = [attempt(lambda: t.expand(csvw.URITemplate(tmpl), row, _row=1, _name='x')) for row in read]
    for strict in [False, True]:
        log = Log()
        res['references', strict] = attempt(lambda: tg.check_referential_integrity(log=log, strict=strict)), log
    res['schema'] = attempt(lambda: tg.validate_schema())
    res['json'] = attempt(lambda: json.dumps(csvw.CSVW(str(d / 'metadata.json')).to_json()))
    res['valid'] = attempt(lambda: csvw.CSVW(str(d / 'metadata.json'), validate=True).is_valid)

    def database():
        db = csvw.db.Database(tg)
        try:
            db.write_from_tg(_skip_extra=True)
            return repr(db.read()), list(db.connection().iterdump())
        except sqlite3.Error as e:
            return repr(e)
        finally:
            if db._connection:
                db._connection.close()
    with contextlib.redirect_stdout(io.StringIO()):
        res['database'] = attempt(database)
    return res


def gcheck(case, rec):
    ds = case['ds']
    d = gen.scratch(rec, 'd')
    with oracle():
        desc = dsets.describe(ds)
        for t in desc['tables']:
            for i, v in enumerate(case['virtual']):
                c = {'name': 'v{}'.format(i), 'virtual': True}
                if v:
                    c['propertyUrl'] = v
                t['tableSchema']['columns'].append(c)
        contents = {t['url']: dsets.content(t) for t in ds['tables']}
        # Columns may become list-valued: that is fine for the data.
        for m in case['moves']:
            hoist(desc, m, ds)
        for ti, ri, ci, text in case['noise']:
            rows = contents[ds['tables'][ti % len(ds['tables'])]['url']]
            if len(rows) > 1:
                row = rows[1 + ri % (len(rows) - 1)]
                row[ci % len(row)] = text
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        dsets.write(d, None, contents, dialect=ds['dialect'])
        explicit = pushed(desc)
    got, want = observe(d, desc, case['tmpl']), observe(d, explicit, case['tmpl'])
    for k in want:
        eq(got[k], want[k], '{} with values inherited from {!r}, compared to values set explicitly', k,
           [(m['level'], m['prop']) for m in case['moves']])
    for m in case['moves']:
        rec.label(m['prop'])
    rec.label('valid' if got['valid'] is True else 'invalid')
    rec.nt(any(t['rows'] for t in ds['tables']) and desc != explicit)



PROP = Prop(
    'C15',
    [Enum('placements', placements, pcheck),
     Sub('cells', ccases(), ccheck, quick=5000, thorough=150000),
     Sub('pushdown', groups(), gcheck, quick=2500, thorough=60000)],
    rule='All placements of each of 11 inherited properties at the four levels with three values '
         '(including the explicit default) or none; random combinations of the five properties that '
         'affect parsing, with cells. Non-trivial: set at more than one level (and some valid cell).',
    assumptions=['An unset text direction may be None or "inherit".'])
