"""C03: dict and namedtuple readers present rows as records."""
import io
import keyword
import warnings

from hypothesis import strategies as st

from csvw import UnicodeDictReader, NamedTupleReader
from csvw.dsv import iterrows
from csvw.dsv_dialects import Dialect
from csvw.utils import normalize_name, slug
from vf.core import *
from . import gen, large

NAMES = ['a', 'b', 'c', 'id', 'class', 'def', 'None', 'a-b', 'a b', 'a.b', 'Name', 'x1', 'ä',
         'cläss', 'ID', 'col name', 'n;m', 'yield', 'Ünï', 'p/q', 'f(x)', 'b:c', 'print', 'trué']


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    names = draw(st.lists(st.one_of(st.sampled_from(NAMES), gen.text(4)),
                          min_size=n, max_size=n, unique=draw(st.integers(0, 9)) > 0))
    names[0] = names[0].lstrip('\ufeff#') or 'first'
    rows = draw(st.lists(st.lists(gen.text(5), max_size=n + 2), max_size=6))
    for r in rows:
        if r and r[0].startswith(('#', '\ufeff')):
            r[0] = 'x' + r[0]
    return {
        'names': names, 'rows': rows,
        'header': draw(st.booleans()),
        'restkey': draw(st.sampled_from([None, 'rest', 'a', ''])),
        'restval': draw(st.sampled_from([None, '', 'missing'])),
        'skip_blank': draw(st.booleans()),
    }


def quoted(rows):
    return ''.join(
        ','.join('"{}"'.format(c.replace('"', '""')) for c in r) + '\n' for r in rows)


def records(case):
    """The reference: one list of (key, value) pairs per row."""
    res = []
    for row in case['rows']:
        if not row or (case['skip_blank'] and not any(row)):
            continue
        d = dict(zip(case['names'], row))
        if len(row) > len(case['names']):
            d[case['restkey']] = row[len(case['names']):]
        for name in case['names'][len(row):]:
            d[name] = case['restval']
        res.append(d)
    return res


def check(case, rec):
    names = case['names']
    with oracle():
        text = quoted(([names] if case['header'] else []) + case['rows'])
        expected = records(case)
        p = gen.scratch(rec, 't.csv')
        p.write_text(text, encoding='utf-8', newline='')
    kw = dict(restkey=case['restkey'], restval=case['restval'])
    dialect = Dialect(skipBlankRows=case['skip_blank'], commentPrefix=None)
    if not case['header']:
        kw['fieldnames'] = list(names)
    for src in [p, str(p), gen.split_lines(text), io.StringIO(text, newline='')]:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            with UnicodeDictReader(src, dialect=dialect, **kw) as r:
                got = list(r)
        dupes = len(set(names)) != len(names)
        expect(all(isinstance(g, dict) for g in got), 'not dicts')
        eq([dict(g) for g in got], expected, 'records')
        if dupes and (got or case['header']):
            expect(any('uplicate' in str(ww.message) for ww in w), 'no warning for duplicates')
        if not dupes:
            expect(not any('uplicate' in str(ww.message) for ww in w), 'spurious warning')
    if case['header']:
        eq([dict(g) for g in iterrows(p, dicts=True, dialect=dialect, **kw)], expected, 'iterrows')
    eq(bool(raises(ValueError, lambda: list(iterrows(p, dicts=True, namedtuples=True)))), True,
       'iterrows refuses namedtuples and dicts')

    # namedtuples: as long as the normalized names are admissible
    norm = [normalize_name(n) for n in names]
    for n, nn in zip(names, norm):
        check_normalized(n, nn)
    if len(set(norm)) == len(norm) and not any(n.startswith('_') for n in norm):
        rec.label('namedtuple')
        with NamedTupleReader(p, dialect=dialect, **kw) as r:
            got = list(r)
        # surplus cells are not accessible
        want = []
        for d in expected:
            t = [d[n] for n in names]
            want.append(t)
        eq([list(g) for g in got], want, 'namedtuples')
        for g in got:
            eq(list(g._fields), norm, 'fields')
            for n, nn in zip(norm, range(len(norm))):
                eq(getattr(g, n), g[nn], 'attribute access')
        if case['header']:
            eq([list(g) for g in iterrows(p, namedtuples=True, dialect=dialect, **kw)], want,
               'iterrows namedtuples')
        if norm != names:
            rec.label('normalized names')
    if any(len(r) > len(names) for r in case['rows']):
        rec.label('long row')
    if any(0 < len(r) < len(names) for r in case['rows']):
        rec.label('short row')
    if any(not r for r in case['rows']):
        rec.label('blank row')
    rec.nt(any(len(r) != len(names) for r in case['rows']) or norm != names)


def check_normalized(s, n):
    expect(isinstance(n, str) and n.isidentifier() and n.isascii() and not keyword.iskeyword(n),
           'normalize_name({!r}) -> {!r} is no valid name', s, n)


@st.composite
def name_cases(draw):
    s = draw(st.one_of(
        st.sampled_from(NAMES + keyword.kwlist),
        st.text(gen.no_surrogates(), max_size=12),
        st.tuples(st.sampled_from(keyword.kwlist + ['1', '_']),
                  st.sampled_from(['', '\u0301', ',', '中', '\x00', '(', '\n', '\x7f']),
                  st.booleans()).map(lambda t: t[1] + t[0] if t[2] else t[0] + t[1]),
        st.text(st.sampled_from('abXZ09 _-.é,'), max_size=9),
        st.text(st.sampled_from('abcdefgXYZ019_-. '), min_size=20, max_size=70),
        gen.text(10)))
    return {'s': s}


ALNUM = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789')


def check_names(case, rec):
    s = case['s']
    n = normalize_name(s)
    check_normalized(s, n)
    eq(normalize_name(s), n, 'deterministic')
    if s and set(s) <= ALNUM and not s[0].isdigit():
        # already fine: kept as is, but for keywords
        eq(n, s + '_' if keyword.iskeyword(s) else s, 'normalize_name of plain name')
        rec.label('plain')
    if all(ord(c) < 128 and (c.isprintable() or c.isspace()) for c in s):
        # Letters, digits and underscores are kept, as are the usual separators, in form of underscores.
        want = ''.join('_' if c in '-_. ' else c for c in s if c in ALNUM or c in '-_. ')
        if not keyword.iskeyword(want) and want[:1].isalpha():
            eq(n, want, 'normalized name of {!r}', s)
            rec.label('ascii')
    if not keyword.iskeyword(s):
        eq(normalize_name(n), n, 'normalize_name is idempotent')
    for ws in [True, False]:
        for lc in [True, False]:
            r = slug(s, remove_whitespace=ws, lowercase=lc)
            allowed = ALNUM | (set() if ws else {' '})
            if lc:
                allowed -= set('ABCDEFGHIJKLMNOPQRSTUVWXYZ')
            expect(set(r) <= allowed, 'slug({!r}) -> {!r}', s, r)
            if set(s) <= ALNUM:
                eq(r, s.lower() if lc else s, 'slug of alphanumeric')
            if ws:
                eq(slug(r, lowercase=lc), r, 'slug is idempotent')
    rec.nt(n != s)


PROP = Prop(
    'C03',
    [Sub('records', cases(), check, quick=6000, thorough=120000),
     Sub('names', name_cases(), check_names, quick=12000, thorough=300000),
     Sub('large', large.record_cases(), large.check_records, quick=80, thorough=3000)],
    rule='Random headers (keywords, unicode, duplicates) and ragged rows. Non-trivial: some row '
         'is shorter or longer than the header or blank, or some name needs normalization.',
    assumptions=['Namedtuples are only checked when normalized names are distinct and do not start '
                 'with an underscore (a documented limitation of the reader).'])
