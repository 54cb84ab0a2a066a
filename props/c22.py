"""C22: the SQLite database enforces the schema."""
import datetime
import decimal
import itertools
import json
import math
import shutil
import sqlite3

from hypothesis import strategies as st

from csvw import TableGroup
from csvw.db import Database
from vf.core import *
from . import c21, datasets as dsets, gen, pools, large

D = decimal.Decimal
INTS = ['integer', 'int', 'long', 'nonNegativeInteger', 'unsignedByte', 'short', 'positiveInteger', 'negativeInteger']
RANGE = {'nonNegativeInteger': (0, None), 'unsignedByte': (0, 255), 'positiveInteger': (1, None),
         'negativeInteger': (None, -1)}
UTC = datetime.timezone.utc


def tz(minutes):
    return None if minutes is None else datetime.timezone(datetime.timedelta(minutes=minutes))


# base -> strategy for plain values, function to the Python value, key for comparison, text in the description
def _date(v):
    return datetime.datetime(*v[:6], v[6] * 1000, tz(v[7]))


def _dkey(v):
    v = _date(v)
    return v if v.tzinfo else v.replace(tzinfo=UTC)


def _dtext(v):
    s = '{:04}-{:02}-{:02}T{:02}:{:02}:{:02}'.format(*v[:6])
    if v[6]:
        s += '.{:03}'.format(v[6])
    if v[7] is not None:
        s += '{}{:02}:{:02}'.format('-' if v[7] < 0 else '+', abs(v[7]) // 60, abs(v[7]) % 60)
    return s


dates = st.tuples(
    st.sampled_from([2020, 2020, 2019, 1970, 1000, 9998]), st.sampled_from([1, 1, 2, 12]), st.sampled_from([1, 1, 28]),
    st.sampled_from([0, 0, 23]), st.sampled_from([0, 0, 59]), st.sampled_from([0, 0, 1]), st.sampled_from([0, 0, 0, 1, 500]),
    st.sampled_from([None, None, None, 0, 60, -330])).map(list)


def number_keys(base):
    if base in INTS:
        return int
    return D if base == 'decimal' else float


def numbers(base):
    if base in INTS:
        lo, hi = RANGE.get(base, (-100, None))
        lo, hi = lo if lo is not None else -100, hi if hi is not None else (1000 if base != 'negativeInteger' else -1)
        return st.one_of(st.integers(lo, hi), st.sampled_from(
            [v for v in (-10, -9, -2, -1, 0, 1, 2, 5, 9, 10, 11, 99, 100, 255) if lo <= v <= hi]))
    if base == 'decimal':
        return st.one_of(st.sampled_from(['0', '1', '-1', '0.5', '1.5', '10', '9', '100', '-10', '0.1', '-0.001', '5', '99.99']),
                         st.integers(-10000, 10000).map(lambda i: str(D(i) / 100)))
    return st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, 10.0, 9.0, 1e20, -1e20, 1e-7, 5.0, float('inf'), float('-inf'), 100.0]),
                     st.floats(-100, 100).map(lambda f: round(f, 2)), st.floats(-1e7, 1e7))


LENGTHS = ['string', 'string', 'anyURI', 'normalizedString', 'NMTOKEN', 'hexBinary', 'base64Binary', 'binary']
ORDERED = INTS + ['decimal', 'decimal', 'double', 'float', 'number', 'date', 'dateTime', 'datetime', 'dateTimeStamp', 'time']


def plain(base):
    if base in INTS or base in ('decimal', 'double', 'float', 'number'):
        return numbers(base)
    if base == 'date':
        return dates.map(lambda v: v[:3] + [0, 0, 0, 0, None])
    if base == 'dateTimeStamp':
        return dates.map(lambda v: v[:7] + [v[7] or 0])
    if base == 'time':
        return dates.map(lambda v: [2000, 1, 1] + v[3:])
    if base in ('dateTime', 'datetime'):
        return dates
    if base in ('hexBinary', 'base64Binary', 'binary'):
        return st.integers(0, 6)
    if base == 'anyURI':
        return st.text('abc', min_size=1, max_size=6)
    if base == 'NMTOKEN':
        return st.text('abé-', max_size=6).map(lambda s: 'x' + s)
    return st.text('ab é中\U0001f600"\'', max_size=7)


def real(base, v):
    if base in INTS:
        return v
    if base == 'decimal':
        return D(v)
    if base in ('hexBinary', 'base64Binary', 'binary'):
        return b'abcdef'[:v]
    if isinstance(v, list):
        return _date(v)
    return v


def key(base, v):
    if base == 'decimal':
        return D(v)
    if isinstance(v, list):
        return _dkey(v)
    return v


def text(base, v):
    if isinstance(v, list):
        s = _dtext(v)
        return s[:10] if base == 'date' else s[11:] if base == 'time' else s
    return 'INF' if v == float('inf') else '-INF' if v == float('-inf') else v


def ok(c, v):
    if v is None:
        return not c['required']
    if c['sep']:
        return None  # Items are not checked.
    f, b = c['facets'], c['base']
    if b in ORDERED:
        k = key(b, v)
        return all({'minimum': lambda x: k >= x, 'minInclusive': lambda x: k >= x, 'minExclusive': lambda x: k > x,
                    'maximum': lambda x: k <= x, 'maxInclusive': lambda x: k <= x, 'maxExclusive': lambda x: k < x}[n](
            key(b, x)) for n, x in f.items())
    n = v if isinstance(v, int) else len(v)
    return all({'length': n == x, 'minLength': n >= x, 'maxLength': n <= x}[a] for a, x in f.items())


@st.composite
def facets(draw):
    base = draw(st.sampled_from(ORDERED + LENGTHS))
    c = {'base': base, 'facets': {}, 'required': draw(st.integers(0, 3)) == 0, 'sep': draw(st.sampled_from([None] * 5 + [';']))}
    if base in ORDERED:
        lo = draw(st.sampled_from([None, 'minimum', 'minInclusive', 'minExclusive']))
        hi = draw(st.sampled_from([None, 'maximum', 'maxInclusive', 'maxExclusive']))
        a, b = draw(plain(base)), draw(plain(base))
        if key(base, a) > key(base, b):
            a, b = b, a
        if lo:
            c['facets'][lo] = a
        if hi and (key(base, a) < key(base, b) or not lo or ('Ex' not in lo and 'Ex' not in hi)):
            c['facets'][hi] = b
        near = [a, b]
        if base in ('double', 'float', 'number'):
            near += [math.nextafter(x, y) for x in (a, b) for y in (0.0, math.inf, -math.inf) if math.isfinite(x)]
        synonyms = [a, b]
        if draw(st.integers(0, 4)) == 0 and (not lo or not hi or key(base, a) < key(base, b)):
            # Synonyms with another value
            m = draw(st.sampled_from([x for x in synonyms + [draw(plain(base))] if key(base, a) <= key(base, x) <= key(base, b)]))
            for x, y in [('minimum', 'minInclusive'), ('maximum', 'maxInclusive')]:
                if (x in c['facets']) != (y in c['facets']) and not (
                        key(base, m) in (key(base, a), key(base, b)) and any('Ex' in n for n in c['facets'])):
                    c['facets'][y if x in c['facets'] else x] = m
    else:
        kind = draw(st.sampled_from(['length', 'min', 'max', 'minmax', '']))
        if kind == 'length':
            c['facets']['length'] = draw(st.integers(0, 4))
        a, b = sorted([draw(st.integers(0, 4)), draw(st.integers(0, 6))])
        if 'min' in kind:
            c['facets']['minLength'] = a
        if 'max' in kind:
            c['facets']['maxLength'] = b
        near = []
    value = st.one_of(plain(base), st.sampled_from(near)) if near else plain(base)
    values = draw(st.lists(st.one_of(value, value, value, st.none()), min_size=1, max_size=6))
    c['values'] = values
    return c


@st.composite
def constraints(draw):
    return {'cols': draw(st.lists(facets(), min_size=1, max_size=3)), 'translate': draw(st.booleans()),
            'inherited': draw(st.sampled_from([None, None, None, 'table', 'schema']))}


def check_constraints(case, rec):
    with oracle():
        cols = []
        for i, c in enumerate(case['cols']):
            cd = {'name': 'c{}'.format(i), 'datatype': dict({'base': c['base']}, **{
                k: text(c['base'], v) for k, v in c['facets'].items()})}
            if case['inherited']:
                # All columns are required, unless they say otherwise.
                if not c['required']:
                    cd['required'] = False
            elif c['required']:
                cd['required'] = True
            if c['sep']:
                cd['separator'] = c['sep']
            cols.append(cd)
        desc = {'tables': [{'url': 'data', 'tableSchema': {'columns': cols}}]}
        if case['inherited']:
            t = desc['tables'][0]
            (t if case['inherited'] == 'table' else t['tableSchema'])['required'] = True
    tg = TableGroup.fromvalue(json.loads(json.dumps(desc)))
    db = Database(tg, translate=(lambda t, c=None: "x '" + c if c else t) if case['translate'] else None)
    n = 0
    for row in itertools.zip_longest(*[c['values'] for c in case['cols']]):
        with oracle():
            verdict = [ok(c, v) for c, v in zip(case['cols'], row)]
            item = {}
            for i, (c, v) in enumerate(zip(case['cols'], row)):
                r = None if v is None else real(c['base'], v)
                item['c{}'.format(i)] = [r] if c['sep'] and v is not None else r
        try:
            db.write(data=[item])
            accepted = True
            n += 1
        except sqlite3.IntegrityError:
            accepted = False
        if None in verdict and all(verdict[i] is not False for i in range(len(verdict))):
            expect(accepted, '{!r} is rejected by {!r}', item, cols)
        else:
            eq(accepted, all(v is not False for v in verdict), '{!r} accepted by {!r}', item, cols)
        rec.label('accepted' if accepted else 'rejected')
    eq(len(db.read().get('data', [])), n, 'number of rows')
    db.connection().close()
    rec.nt(any(c['facets'] for c in case['cols']))


# ---------------------------------------------------------------- violations in groups of tables

@st.composite
def violations(draw):
    case = draw(c21.groups(unnamed=False))
    case.update(
        inject=draw(st.sampled_from([None, 'pk', 'pk', 'fk', 'fk', 'fk', 'required', 'extra'])),
        at=[draw(st.integers(0, 50)) for _ in range(4)],
        tables=draw(st.permutations(range(len(case['ds']['tables'])))),
        before=draw(st.sampled_from([None, None, 'file', 'db', 'db'])), force=draw(st.booleans()))
    return case


def inject(case, rows):
    """
    Make one of the tables violate the description.

    :return: True if there was something to be broken.
    """
    tables, (a, b, c, e) = case['ds']['tables'], case['at']

    def pick(seq, i):
        return seq[i % len(seq)]

    kind = case['inject']
    if kind == 'pk':
        cand = [t for t in tables if t['pk'] and rows[t['url']]]
        if not cand:
            return False
        t = pick(cand, a)
        data = rows[t['url']]
        old = pick(data, b)
        new = dict(pick(data, c))
        for k in t['pk']:
            new[t['cols'][k]['name']] = old[t['cols'][k]['name']]
        data.insert(e % (len(data) + 1), new)
        return True
    if kind == 'required':
        # Lists count as present.
        cand = [(t, col) for t in tables for col in t['cols'] if col['required'] and not col['sep'] and rows[t['url']]]
        if not cand:
            return False
        t, col = pick(cand, a)
        pick(rows[t['url']], b)[col['name']] = None
        return True
    if kind == 'fk':
        cand = [(t, fk) for i, t in enumerate(tables) for fk in t['fks'] if rows[t['url']] and (
            fk['table'] != i or len(fk['cols']) == 1 and t['cols'][fk['cols'][0]]['sep'])]
        if not cand:
            return False
        t, fk = pick(cand, a)
        parent = tables[fk['table']]
        names = [t['cols'][k]['name'] for k in fk['cols']]
        refs = [parent['cols'][k]['name'] for k in fk['ref']]
        row = pick(rows[t['url']], b)
        listed = t['cols'][fk['cols'][0]]['sep']
        if listed:
            if not rows[parent['url']]:
                return False
            value = other(pick(rows[parent['url']], c)[refs[0]], [r[refs[0]] for r in rows[parent['url']]])
            if value is None:
                return False
            row[names[0]] = list(row[names[0]] or [])
            row[names[0]].insert(e % (len(row[names[0]]) + 1), value)
            return True
        # A value in one of the columns which does not occur
        vals = [row[n] for n in names]
        if any(v is None for v in vals):
            return False
        j = c % len(names)
        value = other(vals[j], [r[refs[j]] for r in rows[parent['url']]])
        if value is None or (len(names) > 1 and e % 2):
            # swapped rows: each value occurs, but not the combination
            for r in rows[parent['url']]:
                comb = vals[:j] + [r[refs[j]]] + vals[j + 1:]
                if not any([p[x] for x in refs] == comb for p in rows[parent['url']]):
                    row[names[j]] = comb[j]
                    return True
            return False
        # The column could be part of another key or reference, too.
        row[names[j]] = value
        return True
    if kind == 'extra':
        cand = [t for t in tables if rows[t['url']]]
        if not cand:
            return False
        pick(rows[pick(cand, a)['url']], b)['no such column'] = 'x'
        return True


def other(v, values):
    """A value of the same type as v which is not in values."""
    if isinstance(v, bool):
        cand = [not v]
    elif isinstance(v, (int, float, D)):
        cand = [type(v)(i) for i in range(0, 100)]
    elif isinstance(v, datetime.datetime):
        cand = [v + datetime.timedelta(days=i) for i in range(1, 20)]
    elif type(v) is str:
        cand = ['zz{}'.format(i) for i in range(20)] + ['--0{}'.format(i) for i in range(1, 9)]
    elif isinstance(v, bytes):
        cand = [b'z' * i for i in range(1, 20)]
    else:
        cand = []
    cand = [c for c in cand if c not in values]
    return cand[0] if cand else None


def dump(fname):
    with sqlite3.connect(str(fname)) as conn:
        res = {}
        for name, in conn.execute("SELECT name FROM sqlite_master WHERE type = 'table'").fetchall():
            res[name] = conn.execute('SELECT count(*) FROM `{}`'.format(name)).fetchone()[0]
    conn.close()
    return res


def check_violations(case, rec):
    d = gen.scratch(rec, 'd')
    with oracle():
        ds = case['ds']
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        desc = dsets.describe(ds)
        desc['tables'] = [desc['tables'][i] for i in case['tables']]
        md = c21.write_files(d, desc, ds)
        fname = d / 'db.sqlite' if case['file'] else None
        translate = c21.translator(case['translate'])
    tg = TableGroup.from_file(md)
    rows = tg.read()
    good = {k: [dict(r) for r in v] for k, v in rows.items()}
    with oracle():
        broken = case['inject'] and inject(case, good)
    before = None
    if fname and case['before']:
        if case['before'] == 'file':
            fname.write_bytes(b'something else')
        else:
            Database(tg, fname=fname, translate=translate).write(**rows)
        before = fname.read_bytes()
    db = Database(tg, fname=fname, translate=translate)
    force = case['force']
    if before is not None and not force:
        for kw in ({}, rows):
            e = raises(ValueError, lambda: db.write(**kw))
            expect(e is not None, 'existing file is overwritten')
        eq(fname.read_bytes(), before, 'bytes of the existing file')
        rec.label('exists')
        force = True
    try:
        db.write(force=force, **good)
        failed = None
    except (sqlite3.IntegrityError, ValueError) as e:
        failed = e
    except AssertionError as e:  # missing keys of rows with list-valued references
        expect(broken and case['inject'] == 'required', 'unexpected {!r}', e)
        failed = e
    with oracle():
        counts = {}
        if fname:
            counts = dump(fname)
        else:
            for name, in db.connection().execute("SELECT name FROM sqlite_master WHERE type = 'table'").fetchall():
                counts[name] = db.connection().execute('SELECT count(*) FROM `{}`'.format(name)).fetchone()[0]
    if broken:
        expect(failed is not None, 'violation of {} is accepted: {!r}', case['inject'], good)
        if case['inject'] in ('pk', 'fk'):
            expect(isinstance(failed, sqlite3.IntegrityError), 'unexpected {!r}', failed)
        expect(not any(counts.values()), 'partial data after a failed load: {!r}', counts)
        rec.label('broken ' + case['inject'])
        # The valid data can still be loaded.
        if case['at'][3] % 2:
            db.write(force=True, **rows)
            failed = None
    if not broken or case['at'][3] % 2:
        expect(failed is None, 'valid data is rejected: {!r}', failed)
        got = db.read()
        for t in ds['tables']:
            eq(len(got.get(translate(t['url']) if translate else t['url'], [])), len(rows[t['url']]), 'rows of {}', t['url'])
    if not fname:
        db.connection().close()
    rec.label('force' if before is not None and case['force'] else 'new')
    rec.nt(broken or (not case['inject'] and any(t['fks'] or t['pk'] for t in ds['tables'])))


# ---------------------------------------------------------------- references

@st.composite
def shapes(draw):
    n = draw(st.sampled_from([2, 3, 5, 8, 120]))
    order = draw(st.randoms(use_true_random=False)).sample(range(n), n)
    refs = [[draw(st.integers(0, i - 1)) for _ in range(draw(st.integers(0, 4)))] if n < 100 else [i - 1]
            for i in range(1, n)]
    return {'n': n, 'order': order, 'refs': [[]] + refs,
            'list': [draw(st.booleans()) if n < 100 else False for _ in range(n)],
            'target': [draw(st.sampled_from(['id', 'id', 'code'])) if n < 100 else 'id' for _ in range(n)],
            'bad': draw(st.one_of(st.none(), st.integers(0, n - 1)))}


def check_shapes(case, rec):
    """Tables which refer to earlier tables, listed in any order; references to columns which are not the primary key."""
    with oracle():
        tables, items, bad = [], {}, False
        for i in case['order']:
            cols = [{'name': 'id', 'datatype': 'integer'}, {'name': 'code'}]
            fks, row = [], {'id': i, 'code': 'c{}'.format(i)}
            for j, r in enumerate(case['refs'][i]):
                target = case['target'][r]
                col = {'name': 'r{}'.format(j), 'datatype': 'integer' if target == 'id' else 'string'}
                if case['list'][i]:
                    col['separator'] = ' '
                cols.append(col)
                fks.append({'columnReference': col['name'],
                            'reference': {'resource': 't{}'.format(r), 'columnReference': target}})
                v = r if target == 'id' else 'c{}'.format(r)
                if case['bad'] == i and j == 0:
                    v, bad = (1000 if target == 'id' else 'x'), True
                row[col['name']] = [v] if case['list'][i] else v
            tables.append({'url': 't{}'.format(i), 'tableSchema': {'columns': cols, 'primaryKey': ['id'], 'foreignKeys': fks}})
            items['t{}'.format(i)] = [row]
    tg = TableGroup.fromvalue({'tables': tables})
    db = Database(tg)
    try:
        db.write(**items)
        ok_ = True
    except sqlite3.IntegrityError:
        ok_ = False
    eq(ok_, not bad, 'accepted')
    if ok_:
        got = db.read()
        for i in range(case['n']):
            eq([dict(r) for r in got['t{}'.format(i)]], items['t{}'.format(i)], 'rows of t{}', i)
    db.connection().close()
    rec.label('bad' if bad else 'good', 'many tables' if case['n'] > 100 else 'few tables')
    rec.nt(any(case['refs']))


# ---------------------------------------------------------------- references within a table

@st.composite
def within(draw):
    n = draw(st.integers(0, 5))
    return {'ups': [draw(st.one_of(st.none(), st.integers(0, n - 1), st.integers(0, max(i - 1, 0)), st.just(9))) for i in range(n)],
            'drop': draw(st.sampled_from([None, True, False, False])), 'n': draw(st.integers(1, 2)),
            'type': draw(st.sampled_from(['integer', 'string', 'decimal'])), 'key': draw(st.integers(0, 2)) > 0}


def check_within(case, rec):
    with oracle():
        conv = {'integer': int, 'string': 'k{}'.format, 'decimal': lambda i: D(i) / 2}[case['type']]
        dt = case['type']
        keys, refs = ['id', 'k2'][:case['n']], ['up', 'up2'][:case['n']]
        cols = [{'name': c, 'datatype': dt} for c in keys + refs]
        if not case['key']:  # The referenced columns are not the primary key.
            cols.insert(0, {'name': 'pk', 'datatype': 'integer'})
        desc = {'tables': [{'url': 't', 'tableSchema': {'columns': cols, 'primaryKey': keys if case['key'] else ['pk'], 'foreignKeys': [
            {'columnReference': refs, 'reference': {'resource': 't', 'columnReference': keys}}]}}]}
        rows, good = [], True
        for i, up in enumerate(case['ups']):
            row = {} if case['key'] else {'pk': 10 - i}
            row.update((k, conv(i)) for k in keys)
            row.update({k: None if up is None else conv(up) for k in refs})
            rows.append(row)
            good = good and (up is None or up <= i)
        good = good or case['drop'] is not False
    kw = {} if case['drop'] is None else {'drop_self_referential_fks': case['drop']}
    db = Database(TableGroup.fromvalue(desc), **kw)
    try:
        db.write(t=rows)
        accepted = True
    except sqlite3.IntegrityError:
        accepted = False
    eq(accepted, good, 'accepted {!r}', case)
    eq([dict(r) for r in db.read().get('t', [])], rows if good else [], 'rows')
    db.connection().close()
    rec.label('enforced' if case['drop'] is False else 'not enforced', 'good' if good else 'bad', 'key' if case['key'] else 'other columns')
    rec.nt(any(u is not None for u in case['ups']))


# ---------------------------------------------------------------- bounds which SQLite cannot compare

DURATIONS = {
    'duration': ['P1D', 'P10D', 'PT36H', 'P1DT0.5S', '-P2D'],
    'dayTimeDuration': ['P1D', 'P10D', 'PT36H', '-PT5M', 'P1DT12H'],
    'yearMonthDuration': ['P1Y', 'P13M', 'P2Y6M', 'P10Y'],
}
MONTHS = {'P1Y': 12, 'P13M': 13, 'P2Y6M': 30, 'P10Y': 120}
SECONDS = {'P1D': 86400, 'P10D': 864000, 'PT36H': 129600, 'P1DT0.5S': 86400.5, '-P2D': -172800, '-PT5M': -300, 'P1DT12H': 129600}


def durations(tier):
    for base, values in DURATIONS.items():
        order = MONTHS if base.startswith('y') else SECONDS
        for n in ['minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive']:
            for bound in values:
                good = [v for v in values if v != bound and (order[v] > order[bound]) == n.startswith('min') and order[v] != order[bound]]
                for other in [{}, {'c': 'decimal'}]:
                    yield {'base': base, 'facet': n, 'bound': bound, 'good': good, 'other': other}


def check_durations(case, rec):
    with oracle():
        cols = [{'name': 'd', 'datatype': {'base': case['base'], case['facet']: case['bound']}}]
        cols += [{'name': k, 'datatype': v} for k, v in case['other'].items()]
    tg = TableGroup.fromvalue({'tables': [{'url': 't', 'tableSchema': {'columns': cols}}]})
    dt = tg.tables[0].tableSchema.columns[0].datatype
    values = [dt.read(v) for v in case['good']] + [None]
    db = Database(tg)
    db.write(t=[{'d': v} for v in values])
    got = [r['d'] for r in db.read()['t']]
    db.connection().close()
    expect(got == values, 'valid durations {!r}: {!r}', values, got)
    rec.nt(case['good'])


PROP = Prop(
    'C22',
    [Sub('constraints', constraints(), check_constraints, quick=3000, thorough=80000),
     Sub('violations', violations(), check_violations, quick=3000, thorough=60000),
     Enum('durations', durations, check_durations, shards=1),
     Sub('shapes', shapes(), check_shapes, quick=300, thorough=3000),
     Sub('within', within(), check_within, quick=1000, thorough=20000),
     Sub('large', large.key_cases(), large.check_atomic, quick=48, thorough=1500)],
    rule='constraints: all bound and length facets over numeric, date/time, string and binary types with values at and near the '
         'bounds; violations: valid groups of tables with one duplicate key, dangling reference (scalar, composite, item of a '
         'list), missing required value or undeclared column, tables in any order, files which exist, forced or not; shapes: '
         'references between up to 120 tables in any order, to keys and other columns; within: references within a table, enforced and not. Non-trivial: some facet, an injected '
         'violation or a valid group with keys.',
    assumptions=['Times differ by at least a millisecond.', 'Constraints on items of lists, bounds of durations and regular '
                 'expressions are documented as not enforced.', 'References within a table are not enforced by default.'])
