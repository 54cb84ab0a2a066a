"""C04: rewriting files in place."""
import csv

from hypothesis import strategies as st

from csvw import UnicodeReader
from csvw.dsv import rewrite, add_rows, filter_rows_as_dict
from csvw.dsv_dialects import Dialect
from vf.core import *
from . import gen, c01, large


class Boom(Exception):
    pass


def nobom(s):
    return s.replace('\ufeff', '')


@st.composite
def cases(draw):
    d = draw(c01.dialects()) if draw(st.booleans()) else None
    codec = gen.ENCODINGS[d['encoding']] if d else None
    cell = gen.text(5, codec=codec).map(nobom)
    rows = draw(gen.rows(cell, max_rows=6, max_cols=4))
    pool = draw(gen.rows(cell, min_rows=1, max_rows=3, max_cols=4))
    for _ in range(draw(st.integers(0, 2)) if rows else 0):  # repeated rows
        i, j = [draw(st.integers(0, len(rows) - 1)) for _ in range(2)]
        rows[i] = list(rows[j])
    dd = d or {'skipInitialSpace': False, 'commentPrefix': None}
    return {
        'dialect': d, 'rows': c01.representable(rows, dd),
        'pool': c01.representable(
            [['x{}'.format(i)] + r for i, r in enumerate(pool)], dd),
        # per row: keep, drop, replace, change in place, or fail
        'actions': draw(st.lists(st.sampled_from(
            ['keep', 'keep', 'drop', 'replace', 'mutate', 'boom', 'unencodable']),
            min_size=len(rows), max_size=len(rows))),
        'fail': draw(st.integers(0, 3)) == 0,
        'path': draw(st.booleans()),
    }


def setup_file(rec, case, text=None):
    d = case['dialect']
    p = gen.scratch(rec, 't.csv')
    if p.exists():
        p.unlink()
    kw = {'dialect': c01.mkdialect(d)} if d else {}
    if text is None:
        c01.write(p, case['rows'], 'writerows', **kw)
    return p, kw


def read(p, kw):
    with UnicodeReader(p, **({'dialect': Dialect(**vars_(kw['dialect']))} if kw else {})) as r:
        return list(r)


def vars_(d):
    return d.asdict(omit_defaults=False)


def check(case, rec):
    p, kw = setup_file(rec, case)
    rows = case['rows']
    actions = case['actions']
    if not case['fail']:
        actions = ['drop' if a in ('boom', 'unencodable') else a for a in actions]
    seen, expected = [], []
    exc = None
    unencodable = case['dialect'] and case['dialect']['encoding'] in ('ascii', 'latin-1')
    for i, (row, a) in enumerate(zip(rows, actions)):
        if a == 'keep':
            expected.append(row)
        elif a == 'replace':
            expected.append(case['pool'][i % len(case['pool'])])
        elif a == 'mutate':
            expected.append(row + ['m'])
        elif a == 'boom':
            exc = Boom
            break
        elif a == 'unencodable' and unencodable:
            exc = UnicodeEncodeError
            break

    def visitor(i, row):
        seen.append((i, list(row)))
        a = actions[i]
        if a == 'keep':
            return row
        if a == 'replace':
            return list(case['pool'][i % len(case['pool'])])
        if a == 'mutate':
            row.append('m')
            return row
        if a == 'boom':
            raise Boom()
        if a == 'unencodable' and unencodable:
            return ['中' * 3]
        return None

    before = p.read_bytes()
    target = p if case['path'] else str(p)
    if exc:
        got = raises(exc, rewrite, target, visitor, **kw)
        expect(got is not None, 'expected {}', exc)
        eq(p.read_bytes(), before, 'file after failure at row {}', len(seen) - 1)
        rec.label('failure')
        rec.nt(len(seen) > 1)
        return
    rewrite(target, visitor, **kw)
    eq(seen, [(i, r) for i, r in enumerate(rows)], 'rows passed to the visitor')
    # a row ['m'] etc. added to a blank row may not look like a comment
    eq(read(p, kw), expected, 'rows after rewrite')
    if not kw:
        expect(not p.read_bytes().startswith(b'\xef\xbb\xbf'), 'a byte order mark is put before the content')
    # Rewriting with the identity changes nothing.
    before = p.read_bytes()
    rewrite(target, lambda i, row: row, **kw)
    expect(p.read_bytes() == before or not expected, 'identity rewrite changed the file')
    rec.nt(len(set(actions)) > 1)
    if 'drop' in actions:
        rec.label('dropped')
    if kw:
        rec.label('dialect')


@st.composite
def add_cases(draw):
    cell = gen.text(5).map(nobom)
    d = {'skipInitialSpace': False, 'commentPrefix': None}
    return {
        'dialect': None,
        'exists': draw(st.integers(0, 3)) > 0,
        'rows': c01.representable(draw(gen.rows(cell, max_rows=4, max_cols=4)), d),
        'batches': [c01.representable([['y'] + r if draw(st.booleans()) else r for r in b], d) for b in draw(st.lists(
            gen.rows(cell, max_rows=3, max_cols=3), min_size=1, max_size=3))],
        'noeol': draw(st.booleans()),
        'path': draw(st.booleans()),
    }


def check_add(case, rec):
    if case['exists']:
        p, _ = setup_file(rec, case)
        if case['noeol'] and case['rows'] and case['rows'][-1]:
            # The last line of a hand-edited file may lack the terminator.
            p.write_bytes(p.read_bytes()[:-2])
            rec.label('no line end at end of file')
    else:
        p, _ = setup_file(rec, case, text='')
        case = dict(case, rows=[])
    expected = list(case['rows'])
    for b in case['batches']:
        add_rows(p if case['path'] else str(p), *b)
        expected += b
        eq(read(p, {}), expected, 'rows after add_rows')
        expect(not p.read_bytes().startswith(b'\xef\xbb\xbf'), 'a byte order mark is put before the content')
    rec.nt(bool(case['rows']) and any(case['batches']))


@st.composite
def kw_cases(draw):
    case = draw(c01.kw_cases())
    for row in case['rows']:
        if row:  # rows may be dropped: any row may be the first one
            row[0] = nobom(row[0]) or 'x'
    return dict(case, actions=draw(st.lists(st.sampled_from(['keep', 'keep', 'drop', 'mutate']), min_size=len(
        case['rows']), max_size=len(case['rows']))))


def check_kw(case, rec):
    """Formatting parameters given as keywords are used for reading as well as for writing."""
    kw = dict(case['kw'])
    if 'quoting' in kw:
        kw['quoting'] = c01.QUOTE[kw['quoting']]
    if case['named']:
        kw['dialect'] = case['named']
    rows, actions = case['rows'], case['actions']
    expected = [r + ['m'] if a == 'mutate' else r for r, a in zip(rows, actions) if a != 'drop']
    p, q = gen.scratch(rec, 't.csv'), gen.scratch(rec, 'expected.csv')
    c01.write(p, rows, 'writerows', **kw)
    c01.write(q, expected, 'writerows', **kw)
    rewrite(p, lambda i, row: {'keep': row, 'drop': None, 'mutate': row + ['m']}[actions[i]], **kw)
    rkw = {k: v for k, v in kw.items() if k != 'lineterminator'}
    with UnicodeReader(p, **rkw) as r:
        eq(list(r), expected, 'rows after rewrite')
    eq(p.read_bytes(), q.read_bytes(), 'bytes of the rewritten file')
    rec.label(case['named'] or 'keywords')
    rec.nt(len(set(actions)) > 1)


@st.composite
def filter_cases(draw):
    d = draw(c01.dialects()) if draw(st.booleans()) else None
    codec = gen.ENCODINGS[d['encoding']] if d else None
    n = draw(st.integers(1, 4))
    cell = gen.text(4, codec=codec).map(nobom)
    names = ['c{}'.format(i) for i in range(n)]
    if draw(st.booleans()):
        names = ['x' + draw(cell) + str(i) for i in range(n)]
    rows = draw(st.lists(st.lists(cell, max_size=n), max_size=7))
    dd = d or {'skipInitialSpace': False, 'commentPrefix': None}
    for _ in range(draw(st.integers(0, 2)) if rows else 0):
        # repeated rows, or rows which look like the header
        i, j = [draw(st.integers(0, len(rows) - 1)) for _ in range(2)]
        rows[i] = list(draw(st.sampled_from([names, rows[j], names[:1], list(reversed(names))])))
    return {
        'dialect': d, 'rows': c01.representable([names] + rows, dd),
        'keep': draw(st.lists(st.booleans(), min_size=len(rows), max_size=len(rows))),
        'truthy': draw(st.sampled_from([True, 1, 'yes'])),
    }


def check_filter(case, rec):
    p, kw = setup_file(rec, case)
    names, rows = case['rows'][0], case['rows'][1:]
    items, expected, removed, decisions = [], [names], 0, []
    for row, keep in zip(rows, case['keep']):
        if not row:
            continue  # blank rows are not records: they are dropped and do not count.
        items.append(dict(zip(names, row)))
        decisions.append(keep)
        if keep:
            expected.append(row)
        else:
            removed += 1
    seen = []

    def filter_(item):
        seen.append(dict(item))
        return case['truthy'] if decisions[len(seen) - 1] else None

    got = filter_rows_as_dict(p, filter_, **kw)
    eq(seen, items, 'items passed to the filter')
    eq(got, removed, 'number of removed rows')
    eq(read(p, kw), expected, 'rows after filtering')
    if not kw:
        expect(not p.read_bytes().startswith(b'\xef\xbb\xbf'), 'a byte order mark is put before the content')
    rec.nt(0 < removed < len(rows))


PROP = Prop(
    'C04',
    [Sub('rewrite', cases(), check, quick=5000, thorough=100000),
     Sub('add_rows', add_cases(), check_add, quick=3000, thorough=60000),
     Sub('keywords', kw_cases(), check_kw, quick=3000, thorough=60000),
     Sub('filter', filter_cases(), check_filter, quick=3000, thorough=60000),
     Sub('large', large.rewrite_cases(), large.check_rewrite, quick=80, thorough=3000)],
    rule='Random files and dialects with random visitor decisions (keep, drop, replace, mutate, '
         'fail). Non-trivial: at least two different decisions, or a failure after the first row.',
    assumptions=c01.PROP.assumptions)
