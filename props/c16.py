"""C16: primary key violations are found, and only those."""
import csv
import io
import shutil

from hypothesis import strategies as st

from csvw import TableGroup
from csvw.metadata import Table
from vf.core import *
from . import gen, pools, large
from .c13 import Log

NAMES = ['ID', 'b', 'Name', 'é', 'x:y', 'e']
BAD = {'integer': 'x', 'decimal': '1e', 'boolean': 'maybe', 'date': '2019-02-29', 'json': '{'}
SEP = {'space': ' ', 'semi': ';'}


def _cell():
    # (value, lexical variant), null, or text that is no value of the type
    return st.one_of(
        st.tuples(st.integers(0, 8), st.integers(0, 3)).map(list),
        st.tuples(st.integers(0, 1), st.integers(0, 3)).map(list),
        st.tuples(st.integers(0, 1), st.integers(0, 3)).map(list),
        st.sampled_from([None, None, 'bad']))


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    cols = []
    for i in range(n):
        kind = draw(st.sampled_from(pools.KINDS))
        sep = None
        if draw(st.integers(0, 4)) == 0 and kind not in ('json', None, 'decimalChar', 'pattern', 'string'):
            sep = draw(st.sampled_from([';', '|']))
        cols.append({'kind': kind, 'separator': sep,
                     'titles': draw(st.integers(0, 4)) == 0,
                     'null': draw(st.sampled_from(['', '', 'NA']))})
    cell = _cell()
    rows = []
    for _ in range(draw(st.integers(0, 7))):
        rows.append([draw(st.lists(cell, max_size=3)) if c['separator'] else draw(cell) for c in cols])
    for _ in range(draw(st.integers(0, 3)) if rows else 0):
        # (almost) the same row again, somewhere else
        row = list(draw(st.sampled_from(rows)))
        if draw(st.booleans()):
            i = draw(st.integers(0, n - 1))
            row[i] = draw(st.lists(cell, max_size=3)) if cols[i]['separator'] else draw(cell)
        rows.insert(draw(st.integers(0, len(rows))), row)
    k = draw(st.integers(1, n))
    return {
        'cols': cols, 'rows': rows,
        'key': draw(st.permutations(range(n)))[:k] if draw(st.integers(0, 9)) else None,
        'keyform': draw(st.sampled_from(['list', 'string'])),
        'order': draw(st.permutations(range(n))) if draw(st.booleans()) else list(range(n)),
        'header': draw(st.sampled_from([True, True, True, False])),
        'comments': draw(st.lists(st.integers(0, 9), max_size=3)),
        'single': draw(st.booleans()),
        'missing': draw(st.integers(0, 19)) == 0,
    }


def cell(col, v):
    """
    :return: (text, identity of the value); identity 'bad' for what is no value.
    """
    kind, null = col['kind'], col['null']

    def one(v):
        if v is None:
            return null, None
        if v == 'bad':
            return (BAD[kind], 'bad') if kind in BAD else (null, None)
        return pools.text(kind, *v), pools.ident(kind, v[0])
    if col['separator'] is None:
        return one(v)
    items = [one(i) for i in v]
    text = col['separator'].join(t for t, _ in items)
    if 'bad' in [i for _, i in items]:
        return text, 'bad'
    if text == '':
        return text, ()
    if text == null:
        return text, None
    return text, tuple(i for _, i in items)


def check(case, rec):
    cols, header = case['cols'], case['header']
    d = gen.scratch(rec, 'd')
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir()
    with oracle():
        order = case['order'] if header else list(range(len(cols)))
        buf = io.StringIO(newline='')
        w = csv.writer(buf, lineterminator='\n', quoting=csv.QUOTE_ALL)
        line = 0
        if header:
            w.writerow(['T' + NAMES[i] if cols[i]['titles'] else NAMES[i] for i in order])
            line += 1
        seen, duplicates, good = set(), [], 0
        for r, row in enumerate(case['rows']):
            if r in case['comments']:
                buf.write('# a comment\n')
                line += 1
            cells = [cell(c, v) for c, v in zip(cols, row)]
            w.writerow([cells[i][0] for i in order])
            line += 1
            if any(i == 'bad' for _, i in cells):
                continue  # rows with errors are ignored.
            good += 1
            if case['key']:
                pk = tuple(cells[i][1] for i in case['key'])
                if pk in seen:
                    duplicates.append(line)
                seen.add(pk)
    (d / 'data.csv').write_bytes(buf.getvalue().encode('utf8'))
    columns = []
    for i, c in enumerate(cols):
        col = {'name': NAMES[i]}
        if c['titles']:
            col['titles'] = ['other', 'T' + NAMES[i]]
        if pools.datatype(c['kind']):
            dt = pools.datatype(c['kind'])
            col['datatype'] = dict(dt) if isinstance(dt, dict) else dt
        if c['separator']:
            col['separator'] = c['separator']
        if c['null']:
            col['null'] = c['null']
        columns.append(col)
    schema = {'columns': columns}
    if case['key']:
        schema['primaryKey'] = [NAMES[i] for i in case['key']]
        if len(case['key']) == 1 and case['keyform'] == 'string':
            schema['primaryKey'] = NAMES[case['key'][0]]
        if case['missing']:
            schema['primaryKey'] = [NAMES[i] for i in case['key']] + ['no such column']
    desc = {'url': 'data.csv', 'tableSchema': schema,
            'dialect': {'header': header, 'commentPrefix': '#'}}
    if case['single']:
        table = Table.fromvalue(desc)
        table._fname = d / 'md.json'
    else:
        tg = TableGroup.fromvalue({'tables': [desc]})
        tg._fname = d / 'md.json'
        table = tg.tables[0]

    log = Log()
    if case['key'] and case['missing']:
        eq(table.check_primary_key(log=log), False, 'verdict on a key with a missing column')
        expect(log.messages, 'key with a missing column not reported')
        expect(raises(ValueError, table.check_primary_key), 'key with a missing column accepted')
        rec.label('missing column')
        rec.nt()
        return
    eq(table.check_primary_key(log=log), not duplicates, 'verdict')
    want = ['{}:{}'.format(d / 'data.csv', n) for n in duplicates]
    eq([m.split(' ')[0] for m in log.messages], want, 'reported duplicates')
    exc = raises(ValueError, table.check_primary_key)
    eq(exc is not None, bool(duplicates), 'ValueError without log')
    if exc:
        expect(str(exc).startswith(want[0] + ' '), 'the first duplicate is raised: {} {}', exc, want)
    # The verdict does not depend on previous checks.
    eq(table.check_primary_key(log=Log()), not duplicates, 'second verdict')
    if case['key']:
        rec.label('duplicates' if duplicates else 'unique')
        rec.label(*['key type:{}{}'.format(cols[i]['kind'], ' list' if cols[i]['separator'] else '')
                    for i in case['key']])
    rec.nt(bool(case['key']) and good > 1)


PROP = Prop(
    'C16',
    [Sub('keys', cases(), check, quick=9000, thorough=250000),
     Sub('large', large.key_cases(), large.check_primary_keys, quick=80, thorough=3000)],
    rule='Tables of up to 10 rows over small pools of values (with several lexical forms each), nulls, lists, '
         'rows with errors, permuted columns, comments; keys of 1-5 columns. Non-trivial: a key and '
         'at least two valid rows.',
    assumptions=['Nulls in keys are values like others (CSVW does not forbid them).',
                 'Rows with invalid cells are ignored, as documented in the code.',
                 'NaN and durations of months vs. years are not generated.'])
