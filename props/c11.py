"""C11: typed tables written with a schema are read back unchanged."""
import pathlib
import shutil

from hypothesis import strategies as st

from csvw import TableGroup
from csvw.metadata import Table
from vf.core import *
from . import tables as T, gen, large


@st.composite
def cases(draw):
    cols = draw(T.columns())
    n = len([c for c in cols if not c.get('virtual')])
    rows = draw(T.records(cols))
    return {
        'columns': cols, 'rows': rows, 'dialect': draw(T.dialects()),
        'dialect_at': draw(st.sampled_from(['table', 'group'])),
        'url': draw(st.sampled_from(['data.csv', 'sub/data.csv', 'ä b.csv', 'x.tsv'])),
        'form': draw(st.sampled_from(['dict', 'dict', 'list', 'tuple', 'sparse', 'extra'])),
        'order': draw(st.permutations(range(n))),
        'how': draw(st.sampled_from(['table', 'group', 'group-zip', 'memory', 'table-zip', 'fname'])),
    }


def describe(case):
    table = {'url': case['url'], 'tableSchema': {'columns': [dict(c) for c in case['columns']]}}
    tg = {'@context': 'http://www.w3.org/ns/csvw', 'tables': [table]}
    if case['dialect']:
        (table if case['dialect_at'] == 'table' else tg)['dialect'] = dict(case['dialect'])
    return tg


def check(case, rec):
    d = case['dialect']
    dirname = gen.scratch(rec, 'ds')
    shutil.rmtree(dirname, ignore_errors=True)
    (dirname / 'sub').mkdir(parents=True)
    tg = TableGroup.fromvalue(describe(case))
    tg._fname = dirname / 'metadata.json'
    table = tg.tables[0]
    cols = [c for c in case['columns'] if not c.get('virtual')]
    virtual = [c for c in case['columns'] if c.get('virtual')]
    headers = [T.header(c, i) for i, c in enumerate(cols)]
    eq([c.header for c in table.tableSchema.columns if not c.virtual], headers, 'headers')
    dts = [c.datatype for c in table.tableSchema.columns]
    # Only what can be represented is written.
    rows = []
    for row in case['rows']:
        texts = [T.cell_text(c, v, dts[i].formatted if dts[i] else None)
                 for i, (c, v) in enumerate(zip(cols, row))]
        with oracle():
            if T.representable_row(d, texts):
                rows.append(row)
    if d.get('header', True) and not T.representable_row(d, headers):
        raise Skip()
    real = [[T.realize(c, v) for c, v in zip(cols, row)] for row in rows]
    form = case['form']
    if form == 'list':
        items = real
    elif form == 'tuple':
        items = [tuple(r) for r in real]
    else:
        items = []
        for r in real:
            item = {headers[i]: r[i] for i in case['order']}
            if form == 'sparse':
                item = {k: v for k, v in item.items() if v is not None}
            if form == 'extra':
                item['no such column'] = 'x'
            items.append(item)
    how = case['how']
    path = dirname / case['url']
    reread = table
    if how == 'table':
        n = table.write(iter(items))
    elif how == 'table-zip':
        n = table.write(items, _zipped=True)
        expect(not path.exists(), 'unzipped file left')
    elif how == 'fname':
        path = dirname / 'other.csv'
        n = table.write(items, fname=path if len(rows) % 2 else str(path))
    elif how == 'memory':
        content = table.write(items, fname=None)
        expect(isinstance(content, bytes), 'in-memory content: {!r}', content)
        path = dirname / 'other.csv'
        path.write_bytes(content)
        n = len(rows)
        m = table.write(items)
        eq(m, n, 'number of rows')
        if d.get('header', True) or rows:  # else at most a BOM
            eq((dirname / case['url']).read_bytes(), content, 'content on disk and in memory')
    else:
        tg.write(dirname / 'metadata.json', _zipped=how.endswith('zip'), **{case['url']: items})
        n = len(rows)
        tg2 = TableGroup.from_file(dirname / 'metadata.json')
        reread = tg2.tables[0]
        expect(reread == table, 'table description changed by writing')
        eq(list(tg2.read()), [case['url']], 'tables read')
    eq(n, len(rows), 'number of rows written')
    kw = {'fname': path} if how in ('fname', 'memory') else {}
    got = list(reread.iterdicts(**kw))
    want = [[(h, T.expected_value(c, v)) for h, c, v in zip(headers, cols, row)] + [
        (c['name'], c['valueUrl']) for c in virtual] for row in rows]
    eq([[(k, T.got_value(dict(zip(headers, cols)).get(k, {}), v)) for k, v in r.items()]
        for r in got], want, 'rows read')
    # Reading again gives the same, and rows carry increasing line numbers
    again = list(reread.iterdicts(with_metadata=True, **kw))
    expect([r for _, _, r in again] == got or 'float' in repr(case) or 'NaN' in repr(got) or
           repr([r for _, _, r in again]) == repr(got), 'second reading differs')
    lines = [line for _, line, _ in again]
    expect(lines == sorted(set(lines)), 'line numbers {!r}', lines)
    eq([str(f) for f, _, _ in again], [str(path)] * len(rows), 'file names')
    if how == 'table' and form == 'extra' and items:
        expect(raises(ValueError, table.write, items, strict=True), 'strict writing of unknown fields')
        for v in [None, '', 0, []]:
            item = dict(items[-1], **{'no such column': v})
            expect(raises(ValueError, table.write, [item], strict=True), 'strict writing of an unknown field with value {!r}', v)
    elif form in ('dict', 'sparse') and how == 'table':
        eq(table.write(items, strict=True), len(rows), 'strict writing')
    rec.label(how, form, 'rows' if rows else 'norows', *['type:' + str(T.base_of(c)) for c in cols])
    rec.nt(bool(rows))


PROP = Prop(
    'C11',
    [Sub('tables', cases(), check, quick=5000, thorough=120000),
     Sub('large', large.table_cases(), large.check_tables, quick=24, thorough=1500)],
    rule='Schemas of 1-5 columns over 23 datatypes, formats, separators, nulls, defaults, titles, '
         'virtual columns; dialects at table or group; records as dicts (any key order, missing or extra '
         'keys), lists or tuples; written to disk, zip, memory or as group. Non-trivial: some row.',
    assumptions=[
        'Rows with values that collide with null, default, separator, comment prefix or trimming are '
        'left out (counted as rows not written).',
        'skipRows, skipColumns and multiple header rows are reading options only (C02).'])
