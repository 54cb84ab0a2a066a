"""C13: one bad cell is reported precisely and hides nothing else."""
import csv
import datetime
import decimal
import io
import logging
import re
import shutil
import warnings
import zipfile

from hypothesis import strategies as st

from csvw import TableGroup
from vf.core import *
from . import gen, large

D = decimal.Decimal
# kind -> (column description, [(text, value)], [bad text])
KINDS = {
    'str': ({}, [('abc', 'abc'), ('x y', 'x y'), ('', None), ('two\nlines', 'two\nlines'), ('\n', '\n'), ('"', '"'), ('\n\nx\n', '\n\nx\n')], []),
    'req': ({'required': True, 'datatype': 'string'}, [('a', 'a'), ('é', 'é'), ('0', '0')], ['']),
    'reqnull': ({'required': True, 'null': ['NA', '-']}, [('a', 'a'), ('', '')], ['NA', '-']),
    'int': ({'datatype': 'integer'}, [('5', 5), ('-17', -17), ('0', 0), ('', None)],
            ['x', '1.5', '--1', '1 2', '0x1']),
    'range': ({'datatype': {'base': 'integer', 'minimum': 0, 'maximum': 99}},
              [('0', 0), ('99', 99), ('', None)], ['-1', '100', 'x']),
    'bool': ({'datatype': {'base': 'boolean', 'format': 'Y|N'}}, [('Y', True), ('N', False)], ['true', 'y', '1']),
    'date': ({'datatype': 'date'}, [('2020-02-29', datetime.datetime(2020, 2, 29))],
             ['2019-02-29', '2020-13-01', '20']),
    'reqdec': ({'datatype': 'decimal', 'required': True}, [('1.5', D('1.5')), ('0', D(0))], ['1,5', '', 'abc']),
    'max': ({'datatype': {'base': 'string', 'maxLength': 3}}, [('abc', 'abc'), ('a', 'a')], ['abcd']),
    'regex': ({'datatype': {'base': 'string', 'format': 'a+'}}, [('a', 'a'), ('aaa', 'aaa')], ['b', 'ab']),
    'list': ({'datatype': 'integer', 'separator': ';'}, [('1;2', [1, 2]), ('7', [7]), ('', [])],
             ['1;x', 'y', 'x;y', '1;;2.5']),
    'reqlist': ({'separator': ' ', 'required': True}, [('a b', ['a', 'b'])], ['']),
    'json': ({'datatype': 'json'}, [('{"a": 1}', {'a': 1}), ('[]', [])], ['{', 'x']),
    'u8': ({'datatype': 'unsignedByte', 'null': '?'}, [('255', 255), ('?', None)], ['256', '-1', '']),
}
NAMES = ['ID', 'b c', 'Name', 'é', 'x:y', 'e']


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    kinds = draw(st.lists(st.sampled_from(sorted(KINDS)), min_size=n, max_size=n))
    rows = []
    for _ in range(draw(st.integers(1, 8))):
        bad = draw(st.integers(0, 2)) == 0
        rows.append({
            'cells': [(draw(st.integers(0, 9)) if not bad or draw(st.booleans()) else
                       -1 - draw(st.integers(0, 9))) for _ in kinds],
            'cut': draw(st.sampled_from([0] * 8 + [1, 2])),
            'before': draw(st.sampled_from(['', '', '', '', '', '', 'comment', 'blank', 'comment2', 'malformed'])),
        })
    return {
        'kinds': kinds, 'rows': rows,
        'perm': draw(st.permutations(range(n))) if draw(st.booleans()) else list(range(n)),
        'header': draw(st.sampled_from([True, True, True, False])),
        'unknown': draw(st.sampled_from([None, None, None, 0, 1])),
        'delimiter': draw(st.sampled_from([',', '\t'])),
        'lineend': draw(st.sampled_from(['\n', '\r\n'])),
        'comment': draw(st.sampled_from([None, '#', '//'])),
        'skipblank': draw(st.booleans()),
        'zip': draw(st.integers(0, 5)) == 0,
        'log': draw(st.sampled_from(['logger', 'recorder'])),
        'virtual': draw(st.booleans()),
        'titled': draw(st.integers(0, 3)) == 0,
        'required_at': draw(st.sampled_from(['column', 'column', 'column', 'group'])),
    }


class Log:
    def __init__(self):
        self.messages = []

    def warning(self, msg, *a):
        self.messages.append(str(msg) % a if a else str(msg))

    error = info = critical = debug = warn = warning


def make(case, ordered):
    """Write the file; what is expected: [(line, good row | None, [defects], lenient row)]"""
    kinds = case['kinds']
    n = len(kinds)
    order = list(range(n)) if ordered or not case['header'] else case['perm']
    names = NAMES[:n]
    delim, end = case['delimiter'], case['lineend']
    out = []
    unknown = case['unknown'] if case['header'] and not ordered else None

    def text(cells):
        buf = io.StringIO(newline='')
        csv.writer(buf, delimiter=delim, lineterminator=end).writerow(cells)
        return buf.getvalue()

    header = [('The ' if case.get('titled') else '') + names[i] for i in order]
    cols = list(order)
    if unknown is not None:
        unknown = min(unknown, len(cols))
        header.insert(unknown, 'unk')
        cols.insert(unknown, None)
    if case['header']:
        out.append(text(header))
    expected = []
    for row in case['rows']:
        if row['before'].startswith('comment') and case['comment']:
            out.append(case['comment'] + ' some, comment; x' + end)
            if row['before'].endswith('2'):
                out.append(case['comment'] + end)
        if row['before'] == 'blank':
            line = ''.join(out).count('\n') + 1
            if case['skipblank']:
                out.append(end)
            elif len(cols) > 1 and out:
                # A row without any cells
                out.append(end)
                empty = dict({name: None for name in names}, **(
                    {'virt': 'http://example.org/x'} if case['virtual'] else {}))
                missing = [(j + 1, names[i]) for j, i in enumerate(cols) if i is not None and required(case, i)]
                expected.append(((line, line), None if missing else empty, missing, empty))
        if row['before'] == 'malformed':
            line = ''.join(out).count('\n') + 1
            out.append('"a"x' + delim + 'b' + end)
            expected.append(((line, line), None, [(None, '')], None))
        cells, good, defects, lenient = [], {}, [], {}
        width = max(1, len(cols) - row['cut'])
        for j, i in enumerate(cols):
            if i is None:
                if j < width:
                    cells.append('u')
                    good['unk'] = lenient['unk'] = 'u'
                continue
            desc, valid, bad = KINDS[kinds[i]]
            if j >= width:
                if required(case, i):
                    defects.append((j + 1, names[i]))
                continue
            k = row['cells'][i]
            if k < 0 and bad:
                s = bad[-1 - k] if -1 - k < len(bad) else bad[0]
                defects.append((j + 1, names[i]))
                sep = desc.get('separator')
                lenient[names[i]] = s if not sep or not s else [x or None for x in s.split(sep)]
            else:
                s, v = valid[k % len(valid)] if k >= 0 else valid[0]
                if required(case, i) and v in (None, []):
                    s, v = valid[0]
                good[names[i]] = lenient[names[i]] = v
            cells.append(s)
        for i in range(n):
            good.setdefault(names[i], None)
            lenient.setdefault(names[i], None)
        if case['virtual']:
            good['virt'] = lenient['virt'] = 'http://example.org/x'
        if case['skipblank'] and set(cells) == {''}:
            continue
        start = ''.join(out).count('\n') + 1
        out.append(text(cells))
        end_ = ''.join(out).count('\n')
        expected.append(((start, end_), good if not defects else None, defects, lenient))
    return ''.join(out), expected


def required(case, i):
    # A column without own required property inherits the one of the group.
    return bool(KINDS[case['kinds'][i]][0].get('required')) or case['required_at'] == 'group'


def setup(case, rec, content):
    dirname = gen.scratch(rec, 'd')
    shutil.rmtree(dirname, ignore_errors=True)
    dirname.mkdir()
    path = dirname / 'tä ble.csv'
    path.write_text(content, encoding='utf-8', newline='')
    if case['zip']:
        with zipfile.ZipFile(str(path) + '.zip', 'w') as z:
            z.write(str(path), path.name)
        path.unlink()
    columns = [dict(KINDS[k][0], name=name) for k, name in zip(case['kinds'], NAMES)]
    if case.get('titled'):
        for c in columns:
            c['titles'] = 'The ' + c['name']
    if case['virtual']:
        columns.append({'name': 'virt', 'virtual': True, 'valueUrl': 'http://example.org/x'})
    md = {
        '@context': 'http://www.w3.org/ns/csvw',
        'dialect': {
            'delimiter': case['delimiter'], 'commentPrefix': case['comment'],
            'skipBlankRows': case['skipblank'], 'header': case['header'],
            'lineTerminators': [case['lineend']]},
        'tables': [{'url': path.name, 'tableSchema': {'columns': columns}}]}
    if case['required_at'] == 'group':
        md['required'] = True
    tg = TableGroup.fromvalue(md)
    tg._fname = dirname / 'metadata.json'
    return tg.tables[0], path


def where(msg, path):
    m = re.match(re.escape(str(path)) + r':(\d+)(?::(\d+))?\b', msg)
    expect(m, 'message does not start with file name, line and column: {!r}', msg)
    return int(m.group(1)), int(m.group(2)) if m.group(2) else None


def check(case, rec):
    with oracle():
        content, expected = make(case, False)
    table, path = setup(case, rec, content)
    faulty = [e for e in expected if e[2]]
    # 1. with log
    log = rc = Log()
    if case['log'] == 'logger':
        log = logging.Logger('x')
        handler = logging.Handler()
        handler.emit = lambda r: rc.messages.append(r.getMessage())
        log.addHandler(handler)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            got = list(table.iterdicts(log=log, with_metadata=True))
        except ValueError as e:
            fail('reading with log fails: {!r}', e)
        good = [e for e in expected if not e[2]]
        eq([order(r, table) for _, _, r in got], [order(g, table) for _, g, _, _ in good], 'rows yielded')
        for (fname, line, _), (lines, _, _, _) in zip(got, good):
            eq(str(fname), str(path), 'file name of row')
            expect(lines[0] <= line <= lines[1], 'line {} of a row in lines {}', line, lines)
        want = [(lines, col, name) for lines, _, defects, _ in faulty for col, name in defects]
        found = [where(m, path) + (m,) for m in rc.messages]
        for lines, col, name in want:
            m = [f for f in found if lines[0] <= f[0] <= lines[1] and f[1] == col]
            expect(len(m) == 1, 'defect in line {}, column {} reported {} times: {!r}', lines, col, len(m),
                   rc.messages)
            expect(name in m[0][2], 'report does not name column {}: {!r}', name, m[0][2])
        eq(len(rc.messages), len(want), 'number of reports {!r}', rc.messages)
        # 2. strict, without log
        rows, err = [], None
        try:
            for r in table.iterdicts():
                rows.append(r)
        except ValueError as e:
            err = e
        first = [i for i, e in enumerate(expected) if e[2]][:1]
        eq([order(r, table) for r in rows],
           [order(g, table) for _, g, _, _ in expected[:first[0] if first else None]],
           'rows before the first defect')
        if first:
            expect(err, 'no error raised for defective table')
            line, col = where(str(err), path)
            lines, _, defects, _ = expected[first[0]]
            expect(lines[0] <= line <= lines[1] and col in [d[0] for d in defects],
                   'error {!r} does not point to a defect of the first bad row {!r}', err, defects)
        else:
            expect(err is None, 'error for valid table: {!r}', err)
    rec.label('header' if case['header'] else 'noheader', 'zip' if case['zip'] else 'plain',
              *['kind:' + k for k in case['kinds']])
    if any(r['cut'] for r in case['rows']):
        rec.label('short row')
    if any(r['before'] == 'malformed' for r in case['rows']):
        rec.label('malformed row')
    if any(len(e[2]) > 1 for e in expected):
        rec.label('several defects in a row')
    rec.nt(bool(faulty) and len(faulty) < len(expected))


def order(r, table):
    return sorted(r.items())


def check_lenient(case, rec):
    with oracle():
        case = dict(case, required_at='column')
        content, expected = make(case, True)
    table, path = setup(case, rec, content)
    for strict in [False]:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            got = list(table.iterdicts(strict=False, with_metadata=True))
    eq([sorted(r.items()) for _, _, r in got], [sorted(e[3].items()) for e in expected if e[3] is not None],
       'rows yielded')
    defects = sum(len(e[2]) for e in expected)
    if defects:
        expect(w, 'no warning about defects')
    else:
        expect(not w, 'warnings {!r} for valid table', [str(x.message) for x in w])
    rec.nt(bool(defects))


PROP = Prop(
    'C13',
    [Sub('faults', cases(), check, quick=6000, thorough=150000),
     Sub('lenient', cases(), check_lenient, quick=3000, thorough=60000),
     Sub('large', large.table_cases(), large.check_faults, quick=32, thorough=1500)],
    rule='Valid tables of 1-5 columns of 14 kinds with cells replaced by invalid ones, null values in '
         'required columns, rows cut short and rows with malformed quoting, between comments, blank lines and multi-line cells. '
         'Non-trivial: some rows defective and some not (lenient: some defect).',
    assumptions=['For rows over several lines any line of the row is accepted.',
                 'Cells beyond the last column are not judged.'])
