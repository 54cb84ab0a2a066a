"""C01: writing rows as DSV and reading them back is the identity."""
import csv
import io
import collections
import contextlib

from hypothesis import strategies as st

from csvw import UnicodeWriter, UnicodeReader, UnicodeDictReader
from csvw.dsv import iterrows
from csvw.dsv_dialects import Dialect
from csvw.metadata import Dialect as MetadataDialect
from vf.core import *
from . import gen, large

QUOTE = {'minimal': csv.QUOTE_MINIMAL, 'all': csv.QUOTE_ALL, 'none': csv.QUOTE_NONE}


@st.composite
def dialects(draw):
    quote = draw(st.sampled_from(['"', '"', "'", '~']))
    delim = draw(st.sampled_from([',', ';', '\t', '|', ':', ' ', '^', 'x', '§']))
    double = draw(st.booleans())
    enc = draw(st.sampled_from(sorted(gen.ENCODINGS)))
    if gen.ENCODINGS[enc] == 'ascii' and delim == '§':
        delim = ','
    return {
        'delimiter': delim,
        'quoteChar': quote,
        'doubleQuote': double,
        'lineTerminators': draw(st.sampled_from([
            ['\n'], ['\r\n'], ['\r\n', '\n'], ['\n', '\r\n'], ['\r']])),
        'encoding': enc,
        'skipInitialSpace': draw(st.booleans()) if delim != ' ' else False,
        'commentPrefix': draw(st.sampled_from([None, '#', '//'])),
        'header': draw(st.booleans()),
    }


def representable(rows, d):
    """
    Move cells which a dialect cannot represent (documented limits) into its domain: a first cell
    which looks like a comment, initial spaces which the dialect says to skip, a leading BOM.
    """
    res = []
    for row in rows:
        row = list(row)
        for i, c in enumerate(row):
            if d['skipInitialSpace'] and c and c[0] == ' ':
                row[i] = c = 'x' + c
            if i == 0 and c and d['commentPrefix'] and c.startswith(d['commentPrefix']):
                row[i] = c = 'x' + c
        res.append(row)
    for row in res[:1]:
        if row and row[0] and row[0].startswith('\ufeff'):
            row[0] = 'x' + row[0]
    return res


@st.composite
def dialect_cases(draw):
    d = draw(dialects())
    cell = st.one_of(gen.text(codec=gen.ENCODINGS[d['encoding']]), st.none()) \
        if draw(st.integers(0, 3)) == 0 else gen.text(codec=gen.ENCODINGS[d['encoding']])
    rows = representable(draw(gen.rows(cell)), d)
    return {'dialect': d, 'rows': rows, 'cls': draw(st.sampled_from(['base', 'metadata'])),
            'path': draw(st.booleans()), 'how': draw(st.sampled_from(['writerow', 'writerows']))}


def mkdialect(d, cls='base'):
    return {'base': Dialect, 'metadata': MetadataDialect}[cls](**d)


def as_read(rows):
    return [['' if c is None else c for c in row] for row in rows]


def write(target, rows, how, **kw):
    with UnicodeWriter(target, **kw) as w:
        if how == 'writerow':
            for row in rows:
                w.writerow(row)
        else:
            w.writerows(rows)
        return w.read() if target is None else None


def check_memory(got, raw, encoding):
    if raw:
        eq(got, raw, 'in-memory bytes')
    else:  # At most a byte order mark.
        eq(got.decode(encoding), '', 'in-memory bytes for no rows')


def nontrivial(rows, specials):
    return any(c and any(s in c for s in specials) for row in rows for c in row)


def check_dialect(case, rec):
    d, rows = case['dialect'], case['rows']
    p = gen.scratch(rec, 't.csv')
    target = p if case['path'] else str(p)
    expected = as_read(rows)
    write(target, rows, case['how'], dialect=mkdialect(d, case['cls']))

    with UnicodeReader(target, dialect=mkdialect(d, case['cls'])) as r:
        eq(list(r), expected, 'rows read from file')
    eq(list(iterrows(target, dialect=mkdialect(d, case['cls']))), expected, 'rows via iterrows')

    # The file is what the dialect says it is: decode it independently ...
    penc = gen.PY_ENCODING.get(d['encoding'], d['encoding'])
    raw = p.read_bytes()
    try:
        content = raw.decode(penc)
    except UnicodeDecodeError:
        fail('file content is not encoded as {}', d['encoding'])
    # ... and split it with the standard library's reader.
    with oracle():
        try:
            ref = list(csv.reader(
                io.StringIO(content, newline=''), delimiter=d['delimiter'],
                quotechar=d['quoteChar'], doublequote=d['doubleQuote'],
                escapechar=None if d['doubleQuote'] else '\\',
                skipinitialspace=d['skipInitialSpace'], strict=True))
        except csv.Error as e:
            ref = 'csv.Error {}'.format(e)
    eq(ref, expected, 'file content as read by the csv module')
    if rows:
        expect(content.endswith(d['lineTerminators'][0]), 'wrong line terminator: {!r}', content)
        plain = [r for r in rows if not nontrivial([r], '\r\n')]
        if len(plain) == len(rows):
            eq(content.count(d['lineTerminators'][0]), len(rows), 'number of terminated lines')
    else:
        eq(content, '', 'content for no rows')

    # The in-memory writer produces the same bytes.
    check_memory(write(None, rows, case['how'], dialect=mkdialect(d, case['cls'])), raw, penc)

    # ... and the reader accepts handles and lines, too.
    with io.open(str(p), 'rt', encoding=penc, newline='') as fp:
        with UnicodeReader(fp, dialect=mkdialect(d, case['cls'])) as r:
            eq(list(r), expected, 'rows read from handle')
    lines = gen.split_lines(content)
    with UnicodeReader(lines, dialect=mkdialect(d, case['cls'])) as r:
        eq(list(r), expected, 'rows read from list of lines')
    if not penc.lower().startswith(('utf-16', 'utf-32')) and penc != 'utf-8-sig' \
            and '\ufeff' not in content:  # each bytes line is decoded on its own
        with UnicodeReader(
                [line.encode(penc) for line in lines], dialect=mkdialect(d, case['cls'])) as r:
            eq(list(r), expected, 'rows read from list of bytes')

    s = [d['delimiter'], d['quoteChar'], '\n', '\r', '\\', '\u2028']
    rec.nt(nontrivial(rows, s) or any(len(r) == 0 for r in rows))
    if not d['doubleQuote'] and nontrivial(rows, ['\\']):
        rec.label('escape character in data')
    if nontrivial(rows, [d['quoteChar']]):
        rec.label('quote character in data')
    if nontrivial(rows, ['\n', '\r']):
        rec.label('line breaks in data')
    if nontrivial(rows, [d['delimiter']]):
        rec.label('delimiter in data')
    if d['encoding'] not in ('utf-8', 'utf8', 'UTF-8'):
        rec.label('encoding not utf-8')
    if any(not r for r in rows):
        rec.label('blank row')


@st.composite
def kw_cases(draw):
    """Formatting parameters of the csv module instead of a Dialect."""
    q = draw(st.sampled_from(['minimal', 'minimal', 'all', 'none']))
    enc = draw(st.sampled_from(['utf-8', 'utf-8-sig', 'utf-16', 'latin-1', 'ascii', 'UTF-8']))
    escape = draw(st.sampled_from(['\\', '/', '!'])) if q == 'none' or draw(st.booleans()) else None
    kw = {'quoting': q, 'encoding': enc,
          'delimiter': draw(st.sampled_from([',', ';', '\t', '|']))}
    if escape:
        kw['escapechar'] = escape
        kw['doublequote'] = draw(st.booleans())
    if draw(st.booleans()):
        kw['quotechar'] = draw(st.sampled_from(['"', "'"]))
    if draw(st.booleans()):
        kw['lineterminator'] = draw(st.sampled_from(['\n', '\r\n']))
    cell = gen.text(codec=gen.ENCODINGS[enc])
    if q == 'none':
        # QUOTE_NONE cannot represent a single empty cell per row.
        cell = cell.map(lambda s: s or 'x')
    rows = draw(gen.rows(cell))
    for row in rows[:1]:
        if row and row[0].startswith('\ufeff'):
            row[0] = 'x' + row[0]
    named = draw(st.sampled_from([None, None, 'excel', 'excel-tab', 'unix']))
    if named:
        kw = {'encoding': enc}
        if q == 'none':
            named = 'excel'
    return {'kw': kw, 'rows': rows, 'named': named,
            'dicts': draw(st.booleans()) and not named}


def check_kw(case, rec):
    kw = dict(case['kw'])
    if 'quoting' in kw:
        kw['quoting'] = QUOTE[kw['quoting']]
    if case['named']:
        kw['dialect'] = case['named']
    rows = case['rows']
    p = gen.scratch(rec, 't.csv')
    write(p, rows, 'writerows', **kw)
    rkw = dict(kw)
    rkw.pop('lineterminator', None)
    with UnicodeReader(p, **rkw) as r:
        eq(list(r), rows, 'rows')
    eq(list(iterrows(str(p), **rkw)), rows, 'rows via iterrows')
    check_memory(write(None, rows, 'writerow', **kw), p.read_bytes(), kw['encoding'])
    rec.nt(nontrivial(rows, [kw.get('delimiter', ','), '"', "'", '\n', '\r',
                             kw.get('escapechar', '\\')]))
    rec.label('quoting={}'.format(case['kw'].get('quoting', case['named'])))
    if case['kw'].get('escapechar') and nontrivial(rows, [case['kw']['escapechar']]):
        rec.label('escape character in data')


@st.composite
def dict_cases(draw):
    d = draw(dialects())
    d['header'] = True
    codec = gen.ENCODINGS[d['encoding']]
    n = draw(st.integers(1, 4))
    keys = draw(st.lists(gen.text(4, codec=codec), min_size=n, max_size=n, unique=True))
    rows = draw(st.lists(
        st.lists(gen.text(codec=codec), min_size=n, max_size=n), min_size=1, max_size=4))
    allrows = representable([keys] + rows, d)
    if len(set(allrows[0])) < n:
        allrows[0] = ['k{}'.format(i) for i in range(n)]
    return {'dialect': d, 'keys': allrows[0], 'rows': allrows[1:],
            'chunks': draw(st.integers(1, 3)),
            # Empty cells may be given as None.
            'none': draw(st.booleans()), 'lists': draw(st.booleans())}


def check_dicts(case, rec):
    d = case['dialect']
    items = [collections.OrderedDict(zip(case['keys'], row)) for row in case['rows']]
    given = [{k: None if case['none'] and not v else v for k, v in i.items()} for i in items]
    if case['none'] and any(not v for row in case['rows'] for v in row):
        rec.label('None written')
    p = gen.scratch(rec, 't.csv')
    with UnicodeWriter(p, dialect=mkdialect(d)) as w:
        # rows may be written in several calls: there must be only one header row.
        k = -(-len(items) // case['chunks'])
        for i in range(0, len(items), k):
            if case['lists'] and i:
                w.writerows(list(item.values()) for item in given[i:i + k])
            else:
                w.writerows(dict(item) for item in given[i:i + k])
    with UnicodeDictReader(p, dialect=mkdialect(d)) as r:
        got = list(r)
    eq([list(g.items()) for g in got], [list(i.items()) for i in items], 'dict rows')
    eq([dict(g) for g in iterrows(p, dicts=True, dialect=mkdialect(d))],
       [dict(i) for i in items], 'dict rows via iterrows')
    with UnicodeReader(p, dialect=mkdialect(d)) as r:
        eq(list(r), [case['keys']] + case['rows'], 'raw rows')
    rec.nt(nontrivial([case['keys']] + case['rows'], [d['delimiter'], d['quoteChar'], '\n', '\r']))
    if case['chunks'] > 1 and len(items) > 1:
        rec.label('written in several calls')


@st.composite
def noquote_cases(draw):
    """Dialects without quote character can write only some rows, but these must be read back."""
    d = draw(dialects())
    d['quoteChar'] = None
    codec = gen.ENCODINGS[d['encoding']]
    plain = [c for c in 'ab\'"éß 0\t/' if c != d['delimiter'] and (codec != 'ascii' or ord(c) < 128)]
    cell = st.one_of(st.lists(st.sampled_from(plain), max_size=4).map(''.join), gen.text(2, codec=codec)) if draw(st.booleans()) \
        else st.lists(st.sampled_from(plain), max_size=4).map(''.join)
    rows = representable(draw(gen.rows(cell)), d)
    return {'dialect': d, 'rows': rows}


def check_noquote(case, rec):
    d, rows = case['dialect'], case['rows']
    p = gen.scratch(rec, 't.csv')
    written = []
    with UnicodeWriter(p, dialect=mkdialect(d)) as w:
        for row in rows:
            e = raises((csv.Error, UnicodeEncodeError), w.writerow, row)
            if e is None:
                written.append(row)
            else:
                # Only special characters (or a row which would look like a blank line) cannot be written.
                expect(nontrivial([row], [d['delimiter'], '\n', '\r', '\\', '\u2028', '"', "'", ' ']) or row == [''],
                       'row {!r} cannot be written: {}', row, e)
                rec.label('not representable')
    with UnicodeReader(p, dialect=mkdialect(d)) as r:
        eq(list(r), written, 'rows read')
    rec.nt(any('"' in c or "'" in c for row in written for c in row))


@st.composite
def both_cases(draw):
    """A dialect and csv parameters which take precedence."""
    case = draw(dialect_cases())
    kw = {}
    if draw(st.booleans()):
        kw['delimiter'] = draw(st.sampled_from([c for c in '@&$' if c != case['dialect']['delimiter']]))
    if draw(st.booleans()):
        kw['quotechar'] = draw(st.sampled_from('+="'))
    if draw(st.booleans()):
        kw['doublequote'] = False
        kw['escapechar'] = draw(st.sampled_from('\\!'))
    if draw(st.booleans()):
        kw['quoting'] = 'all'
    case['kw'] = kw
    return case


def check_both(case, rec):
    d, rows, kw = case['dialect'], case['rows'], dict(case['kw'])
    if 'quoting' in kw:
        kw['quoting'] = QUOTE[kw['quoting']]
    p = gen.scratch(rec, 't.csv')
    expected = as_read(rows)
    write(p, rows, case['how'], dialect=mkdialect(d, case['cls']), **kw)
    with UnicodeReader(p, dialect=mkdialect(d, case['cls']), **kw) as r:
        eq(list(r), expected, 'rows read')
    eq(list(iterrows(p, dialect=mkdialect(d, case['cls']), **kw)), expected, 'rows via iterrows')
    with oracle():
        content = p.read_bytes().decode(gen.PY_ENCODING.get(d['encoding'], d['encoding']))
        params = dict(
            delimiter=d['delimiter'], quotechar=d['quoteChar'], doublequote=d['doubleQuote'],
            escapechar=None if d['doubleQuote'] else '\\', skipinitialspace=d['skipInitialSpace'], strict=True)
        params.update(kw)
        try:
            ref = list(csv.reader(io.StringIO(content, newline=''), **params))
        except csv.Error as e:
            ref = str(e)
    eq(ref, expected, 'file content as read by the csv module')
    if rows and 'quoting' in kw and rows[0] and rows[0][0] is not None:
        expect(content.startswith(params['quotechar']), 'cells are not quoted: {!r}', content)
    rec.nt(bool(kw) and any(rows))


@st.composite
def unencodable(draw):
    d = draw(dialects())
    d['encoding'] = draw(st.sampled_from(['ascii', 'latin-1', 'iso-8859-1', 'utf-8', 'utf-16']))
    d['delimiter'] = ','
    codec = gen.ENCODINGS[d['encoding']]
    rows = draw(gen.rows(gen.text(codec=codec), min_rows=1))
    bad = draw(st.sampled_from({'ascii': ['é', '\x80', '中', '\ud800'], 'latin-1': ['中', '\u2028', '€', '\ud800']}.get(codec, ['\ud800', '\udfff'])))
    i = draw(st.integers(0, len(rows) - 1))
    rows[i].insert(draw(st.integers(0, len(rows[i]))), draw(st.sampled_from(['', 'a'])) + bad)
    return {'dialect': d, 'rows': rows, 'how': draw(st.sampled_from(['writerow', 'writerows']))}


def check_unencodable(case, rec):
    """Content which the encoding cannot represent is refused, rather than altered."""
    p = gen.scratch(rec, 't.csv')
    for target in (p, None):
        e = raises(UnicodeError, write, target, case['rows'], case['how'], dialect=mkdialect(case['dialect']))
        expect(e, 'rows which cannot be encoded are written {}', 'in memory' if target is None else 'to a file')
    rec.label(case['dialect']['encoding'])
    rec.nt()


PROP = Prop(
    'C01',
    [
        Sub('dialect', dialect_cases(), check_dialect, quick=6000, thorough=150000),
        Sub('csv_parameters', kw_cases(), check_kw, quick=3000, thorough=60000),
        Sub('dict_rows', dict_cases(), check_dicts, quick=2500, thorough=50000),
        Sub('dialect_and_parameters', both_cases(), check_both, quick=1500, thorough=30000),
        Sub('no_quote_character', noquote_cases(), check_noquote, quick=1500, thorough=30000),
        Sub('unencodable', unencodable(), check_unencodable, quick=800, thorough=10000),
     Sub('large', large.dsv_cases(), large.check_roundtrip, quick=120, thorough=4000)],
    rule='Random tables of text cells (ragged, blank rows, None) and random dialects. Non-trivial: '
         'some cell contains the delimiter, quote or escape character or a line break (or a row is '
         'blank), so that the bytes are not just the cells joined.',
    assumptions=[
        'Outside the domain by construction: first cells starting with the comment prefix, cells '
        'with initial space when skipInitialSpace is set, content starting with U+FEFF, and lone '
        'surrogates.'],
)
