"""C02: reading DSV follows the dialect (reference model over constructed text)."""
import csv
import io

from hypothesis import strategies as st

from csvw import UnicodeReader
from csvw.dsv import UnicodeReaderWithLineNumber, iterrows
from csvw.dsv_dialects import Dialect
from csvw.metadata import Dialect as MetadataDialect
from vf.core import *
from . import gen, large

TERMS = ['\n', '\r\n', '\r']
BITS = ['a', 'b', 'é', ' ', '  ', '\t', '0', '-', 'x y', '\xa0', '中', '.', 'NA', '\u2003']


@st.composite
def cases(draw):
    quote = draw(st.sampled_from(['"', '"', "'", None]))
    delim = draw(st.sampled_from([',', ';', '\t', '|']))
    double = draw(st.sampled_from([True, True, False]))
    prefix = draw(st.sampled_from([None, '#', '//', '%%']))
    trim = draw(st.sampled_from(['false', 'true', 'start', 'end', True, False]))
    sis = draw(st.booleans())
    skip = draw(st.sampled_from([0, 0, 1, 2, 3]))
    cols = draw(st.sampled_from([0, 0, 1, 2]))
    blank = draw(st.booleans())
    bits = [b for b in BITS if delim not in b]
    plain = st.lists(st.sampled_from(bits), max_size=3).map(''.join)
    special = [delim, '\n', '\r\n', quote or 'q', (quote or 'q') * 2, '\\', '#', '//', '%%']
    rich = st.lists(st.sampled_from(bits + special), max_size=4).map(''.join)

    def cell():
        if quote and draw(st.integers(0, 2)) == 0:
            return {'v': draw(rich), 'q': True, 'pre': draw(st.sampled_from(['', '', ' ']))
                    if sis else ''}
        if quote and not double and draw(st.booleans()):
            # escapes outside of quotes
            return {'v': draw(st.lists(
                st.sampled_from(bits + [delim, quote, '\\']), max_size=3).map(''.join)), 'q': False}
        return {'v': draw(plain), 'q': False}

    nrows = draw(st.integers(0, 6))
    rows = []
    for i in range(skip + nrows):
        kind = draw(st.sampled_from(['row', 'row', 'row', 'row', 'comment', 'blank', 'empty']))
        if kind == 'comment' and prefix:
            rows.append({'comment': draw(st.sampled_from(['', ' '])) + draw(
                st.sampled_from(['c', 'a comment', 'é x', '1 2', '# c', '/x', '%', '#', '//', 'c #', 'c%%']))})
        elif kind == 'blank':
            rows.append({'cells': []})
        elif kind == 'empty':
            rows.append({'cells': [{'v': '', 'q': False}] * draw(st.integers(2, 4))})
        else:
            cs = [cell() for _ in range(draw(st.integers(1, 5)))]
            if i < skip:  # no line breaks in lines to be skipped by number.
                cs = [dict(c, v=c['v'].replace('\r\n', '').replace('\n', '')) for c in cs]
            rows.append({'cells': cs})
    return {
        'dialect': {'quoteChar': quote, 'delimiter': delim, 'doubleQuote': double,
                    'commentPrefix': prefix, 'trim': trim, 'skipInitialSpace': sis,
                    'skipRows': skip, 'skipColumns': cols, 'skipBlankRows': blank},
        'rows': rows,
        'terms': [draw(st.sampled_from(TERMS)) for _ in rows],
        'last_term': draw(st.booleans()),
        'bom': draw(st.integers(0, 9)) == 0,
        'split': draw(st.integers(0, 9)),
        'encoding': draw(st.sampled_from(['utf-8', 'UTF-8', 'utf8', 'UTF8', 'Utf_8', 'utf-8-sig', 'UTF-8-BOM', 'UTF-16'])),
        'cls': draw(st.sampled_from(['base', 'metadata'])),
    }


TRIM = {'true': str.strip, 'start': str.lstrip, 'end': str.rstrip, 'false': lambda s: s}


def model(case):
    """:return: (text, [((first line, last line), cells)], [comment], ambiguous)"""
    d = case['dialect']
    q, delim, prefix = d['quoteChar'], d['delimiter'], d['commentPrefix']
    trim = TRIM[str(d['trim']).lower()]
    text, expected, comments, line, ambiguous = '', [], [], 1, False

    for i, (row, term) in enumerate(zip(case['rows'], case['terms'])):
        if 'comment' in row:
            raw, values = prefix + row['comment'], [prefix + row['comment']]
            if d['skipInitialSpace']:
                values = [v.lstrip(' ') for v in values]
        else:
            parts, values = [], []
            for j, c in enumerate(row['cells']):
                v, quoted = c['v'], c['q']
                if j == 0 and prefix and (v.lstrip() if d['skipInitialSpace'] else v).startswith(prefix):
                    v = 'x' + v
                values.append(v if quoted or not d['skipInitialSpace'] else v.lstrip(' '))
                if quoted:
                    parts.append(c['pre'] + q + (
                        v.replace(q, q + q) if d['doubleQuote'] else
                        v.replace('\\', '\\\\').replace(q, '\\' + q)) + q)
                elif q and not d['doubleQuote']:
                    # An escaped first character is not initial space, nothing else special.
                    parts.append(v.replace('\\', '\\\\').replace(q, '\\' + q)
                                 .replace(delim, '\\' + delim))
                else:
                    parts.append(v)
            raw = delim.join(parts)
            if raw == '':
                values = []
        last = i == len(case['rows']) - 1
        if last and raw == '':
            term = term if case['last_term'] else ''
            if not term:
                break
        elif last and not case['last_term']:
            term = ''
        # '\r' followed by '\n' of an otherwise empty next line would read as one terminator.
        if text.endswith('\r') and (raw + term).startswith('\n'):
            term = '\r'
        text += raw + term
        first, line = line, line + raw.count('\n')
        lineno, line = line, line + 1
        iscomment = 'comment' in row
        if first <= d['skipRows'] or iscomment:
            if values:
                s = delim.join(values)
                comments.append((s[len(prefix):] if iscomment else s).strip())
            continue
        isblank = all(v == '' for v in values)
        # By the spec trimming and skipColumns come before the check for blank rows.
        if d['skipBlankRows'] and (all(trim(v) == '' for v in values[d['skipColumns']:]) !=
                                   isblank):
            ambiguous = True
        if d['skipBlankRows'] and isblank:
            continue
        expected.append(((first, lineno), [trim(v) for v in values][d['skipColumns']:]))
    return text, expected, comments, ambiguous


def mk(case, **kw):
    cls = {'base': Dialect, 'metadata': MetadataDialect}[case['cls']]
    d = case['dialect']
    items = list(d.items())
    k = case['split']
    if k == 0:
        return cls(**d)
    if case['cls'] == 'metadata' and k % 3 == 0:
        at = {'id': 'http://example.org/d'}
        new = cls(at_props=at, **dict(d, delimiter='x', commentPrefix='%%')).updated(
            delimiter=d['delimiter'], commentPrefix=d.get('commentPrefix'))
        eq(new.at_props, at, 'properties of an updated dialect')
        eq(new, cls(at_props=at, **d), 'updated dialect')
        return new
    # the same dialect, derived from another one.
    res = cls(**dict(items[:k], **{n: v for n, v in items[k:] if n == 'commentPrefix'}))
    if k % 2:
        list(iterrows(['x'], dialect=res))  # use the intermediate one
    return res.updated(**dict(items[k:]))


def check(case, rec):
    d = case['dialect']
    with oracle():
        text, expected, comments, ambiguous = model(case)
    if ambiguous:
        raise Skip
    rows = [cells for _, cells in expected]
    p = gen.scratch(rec, 't.csv')
    with oracle():
        p.write_bytes((b'\xef\xbb\xbf' if case['bom'] else b'') + text.encode('utf-8'))
    for src in [p, str(p), gen.split_lines(text), io.StringIO(text, newline='')]:
        with UnicodeReader(src, dialect=mk(case)) as r:
            eq(list(r), rows, 'rows of {!r}', text)
        eq([c for _, c in r.comments], comments, 'comments of {!r}', text)
    eq(list(iterrows(p, dialect=mk(case))), rows, 'iterrows')
    eq(list(iterrows(p, encoding='utf-8', dialect=mk(case))), rows, 'iterrows with encoding')
    # The names of encodings are not case-sensitive.
    enc = {'dialect': mk(case).updated(encoding=case['encoding'])}
    if case['encoding'] == 'UTF-16':
        with oracle():
            p.write_bytes(text.encode('utf-16'))
    eq(list(iterrows(p, **enc)), rows, 'rows with encoding {}', case['encoding'])
    with oracle():
        p.write_bytes((b'\xef\xbb\xbf' if case['bom'] else b'') + text.encode('utf-8'))
    if not case['bom'] and case['encoding'] != 'UTF-16':
        lines = [line.encode('utf-8') for line in gen.split_lines(text)]
        eq(list(iterrows(lines, **enc)), rows, 'rows of encoded lines')
    with UnicodeReaderWithLineNumber(p, dialect=mk(case)) as r:
        got = list(r)
    eq([row for _, row in got], rows, 'rows with line numbers')
    for (n, _), ((first, last), _) in zip(got, expected):
        # single-line rows: the physical line; else one of the row's lines
        expect(isinstance(n, int) and first <= n <= last,
               'row on lines {}-{} of {!r} reported at {}', first, last, text, n)
    if d['skipRows'] and len(case['rows']) > d['skipRows']:
        rec.label('skipRows')
    if comments:
        rec.label('comments')
    if any(first != last for (first, last), _ in expected):
        rec.label('multi-line rows')
    if d['skipBlankRows']:
        rec.label('skipBlankRows')
    if str(d['trim']).lower() != 'false':
        rec.label('trim')
    if d['skipColumns']:
        rec.label('skipColumns')
    if d['skipInitialSpace'] and ' ' in text:
        rec.label('skipInitialSpace')
    if d['quoteChar'] is None:
        rec.label('no quoteChar')
    if not d['doubleQuote'] and '\\' in text:
        rec.label('escapes')
    rec.nt(bool(rows) and (text != '\n'.join(d['delimiter'].join(r) for r in rows) + '\n'))


@st.composite
def malformed(draw):
    case = draw(cases())
    d = case['dialect']
    d['quoteChar'] = d['quoteChar'] or '"'
    d['skipRows'] = 0
    case['last_term'] = True
    # The csv module doesn't object to text after a closing quote, if quotes are escaped.
    case['bad'] = draw(st.sampled_from(['after', 'open'])) if d['doubleQuote'] else 'open'
    case['at'] = draw(st.integers(0, 2))
    case['tail'] = draw(st.sampled_from(['b', ' ', '1', 'é', 'xy']))
    return case


def check_malformed(case, rec):
    """Text after a closing quote, or a quoted cell which is not closed: an error, not something else."""
    d = case['dialect']
    q = d['quoteChar']
    with oracle():
        text, expected, comments, ambiguous = model(case)
        bad = q + 'a' + (q + case['tail'] if case['bad'] == 'after' else '')
        text += d['delimiter'].join(['x'] * case['at'] + [bad] + ['y'] * (case['at'] % 2))
        if case['bad'] == 'after':
            text += '\n'
    p = gen.scratch(rec, 't.csv')
    p.write_bytes(text.encode('utf-8'))
    for src in [p, gen.split_lines(text), io.StringIO(text, newline='')]:
        e = raises(csv.Error, list, iterrows(src, dialect=mk(case)))
        expect(e, 'malformed text {!r} is read', text)
    rec.label(case['bad'], 'doubleQuote' if d['doubleQuote'] else 'escapes')
    rec.nt()


PROP = Prop(
    'C02', [Sub('model', cases(), check, quick=16000, thorough=400000),
            Sub('malformed', malformed(), check_malformed, quick=2000, thorough=40000),
     Sub('large', large.lines_cases(), large.check_lines, quick=200, thorough=6000)],
    rule='DSV text assembled from cells, comment, blank and skipped lines with known meaning, under '
         'random dialects. Non-trivial: at least one row is read and the text is not simply the '
         'rows joined by delimiter and newline.',
    assumptions=[
        'Comment lines contain no quotes; quoted first cells never start with the comment prefix '
        '(documented limitation, xfail in the test suite).',
        'Rows for which it matters whether blank rows are recognised before or after trimming and '
        'skipping of columns are skipped.',
        'A multi-line row may be numbered by any of its lines (docstring and test disagree).'])
