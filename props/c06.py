"""C06: each datatype accepts exactly its lexical space, or raises ValueError."""
import decimal
import warnings

from hypothesis import strategies as st

from csvw import Datatype
from vf.core import *
from . import dt, gen

digits = st.text('0123456789', min_size=1, max_size=7)
sign = st.sampled_from(['', '', '+', '-'])


def join(*parts):
    return st.tuples(*[p if isinstance(p, st.SearchStrategy) else st.just(p) for p in parts]).map(
        ''.join)


def opt(s):
    return st.one_of(st.just(''), s)


def n2(lo, hi):
    return st.integers(lo, hi).map('{:02d}'.format)


tz = st.one_of(st.just(''), st.just('Z'), join(st.sampled_from('+-'), n2(0, 15), ':', n2(0, 62)),
               st.sampled_from(['+00:00', '-00:00', '+14:00', '-14:00', '+05:30', '-03:30', '+01']))
date = join(st.one_of(st.integers(0, 9999).map('{:04d}'.format), st.sampled_from(
    ['2000', '1900', '2020', '2021', '0001', '9999', '10000', '-0001', '999'])),
    '-', n2(0, 13), '-', n2(0, 32))
date = st.one_of(date, join(st.sampled_from(['2020', '2019', '1900', '2000']), '-',
                            st.sampled_from(['02', '04', '12']), '-', n2(27, 32)))
frac = opt(join('.', st.text('0123456789', min_size=1, max_size=7)))
time = st.one_of(join(n2(0, 24), ':', n2(0, 60), ':', n2(0, 61), frac),
                 join(n2(0, 23), ':', n2(0, 59), ':', n2(0, 59), frac))
num = st.one_of(join(sign, digits), join(sign, digits, '.', opt(digits)), join(sign, '.', digits),
                join(sign, '000', digits), join(sign, digits, digits, digits, digits, digits, digits,
                                                digits, opt(join('.', digits))))
exponent = join(st.sampled_from('eE'), sign, st.integers(0, 400).map(str))
small = st.integers(0, 99).map(str)
duration = join(
    opt(st.just('-')), 'P', opt(join(small, 'Y')), opt(join(small, 'M')), opt(join(small, 'D')),
    opt(join('T', opt(join(small, 'H')), opt(join(small, 'M')),
             opt(join(small, opt(join('.', digits)), 'S')))))
b64 = st.text('ABab01+/', min_size=4, max_size=4)
binary = st.binary(max_size=12)
words = st.sampled_from([
    'INF', '-INF', '+INF', 'NaN', 'nan', 'inf', 'Infinity', '-Infinity', 'sNaN', '1_000', '1e5',
    '1E5', '0x10', '', ' ', '-', '+', '.', '-.', '1.', '+1', ' 1', '1 ', '1\n', '١٢', '１', '²', '½',
    '1,000', '1,5', '1.000,5', 'true', 'True', 'TRUE', '1', '0', 'false', 'yes', 'P', 'PT', 'P1',
    'P1Y', 'P1S', 'PT1Y', 'P-1D', '1e400', '-1e400', '1e-400', '24:00:00', '2015-02-30', '5%', '5‰',
    '%', '5%%', 'None', 'null', '[]', '{}', '{"a":1,"a":2}', '"', '[1,', 'NaN]', '{"a":}', "'a'",
    '9' * 30, '-' + '9' * 30, '1' + '0' * 40, '1--1', '1-', '--1', '+-1', '1+1', 'a b', 'a,b', 'é',
    '\x00', '\u2028', '2020-01-01T', 'T10:00:00', '10:00', '2020', '2020-01', '2020-W01', '20200101',
    '2020-01-01Z', '2020-01-01+01:00', '2020-01-01 10:00:00', '2020-01-01t10:00:00z', 'YQ=', 'YQ',
    'YQ==', 'Y', 'A===', '====', 'YWJj\n', 'zz', 'abc', 'ABCD', 'P1W', 'P99999999999D',
    'P999999999Y', 'http://[', 'http://example.org:port/', '//', '%zz', 'http://ex ample/', 'http://é',
    'a\nb'])


def lexical(base):
    if base in dt.RANGES:
        lo, hi = dt.RANGES[base]
        edges = [int(b) + d for b in (lo, hi) if abs(b) != dt.INF for d in (-2, -1, 0, 1, 2)]
        res = [num, join(sign, digits), dt.integers(base).map(str)]
        if edges:
            e = st.sampled_from(edges)
            res += [e.map(str), e.map(lambda i: '{}000{}'.format('-' if i < 0 else '+', abs(i))),
                    e.map('{}.0'.format), e.map('{}.'.format), e.map('{:,}'.format)]
        return st.one_of(*res)
    if base == 'decimal':
        return num
    if base in dt.FLOATS:
        return st.one_of(num, join(num, exponent), dt.floats().map(repr))
    if base == 'date':
        return join(date, tz)
    if base == 'time':
        return join(time, tz)
    if base in dt.DATES:
        return st.one_of(
            join(date, 'T', time, tz), join(date, 'T', time, 'Z'),
            join(st.dates().map(lambda d: d.isoformat()), 'T', time, tz))
    if base in dt.DURATIONS:
        return duration
    if base == 'hexBinary':
        return st.one_of(binary.map(bytes.hex), binary.map(lambda b: b.hex().upper()),
                         st.text('0123456789abcdefABCDEF', max_size=9))
    if base in dt.BINARIES:
        return join(opt(b64), opt(b64), opt(st.sampled_from(['YQ==', 'YWI=', 'YW', 'YQ=', '=', 'Y'])))
    if base == 'boolean':
        return st.sampled_from(['true', 'false', '0', '1', 'TRUE', ' true', '', 'tru', '00', '1.0'])
    if base == 'json':
        import json
        return st.one_of(dt.jsons().map(json.dumps), dt.jsons().map(lambda j: json.dumps(j, indent=1)),
                         st.integers(1, 50).map(lambda n: '[' * n + ']' * n),
                         st.sampled_from(['[' * 9000, '{"a":' * 9000]))
    if base == 'anyURI':
        return dt.uris()
    if base == 'NMTOKEN':
        return st.one_of(dt.value(base), gen.text())
    return gen.text()


JUNK = ['', ' ', '-', '+', '.', ',', '_', '0', '1', 'e', 'E', 'T', 'Z', ':', '%', '٣', '\n', 'x', '/',
        '=', '"', '\x00', 'P', 'S', 'é', '\u00a0']


@st.composite
def mutated(draw, base):
    s = draw(lexical(base))
    if draw(st.integers(0, 9)) == 0:
        return s + draw(st.sampled_from(['\n', '\r', '\x00', '\u2028']))
    for _ in range(draw(st.integers(1, 2))):
        s = s[:2000]
        i = draw(st.integers(0, len(s)))
        j = draw(st.integers(0, 2))
        s = s[:i] + draw(st.sampled_from(JUNK)) + s[i + j:]
    return s


@st.composite
def cases(draw, bases, how):
    base = draw(st.sampled_from(bases))
    if how == 'lexical':
        s = draw(lexical(base))
    elif how == 'mutated':
        s = draw(mutated(base))
    elif how == 'foreign':  # lexical forms of other types
        s = draw(lexical(draw(st.sampled_from(dt.ALL))))
    else:
        s = draw(st.one_of(words, gen.text(12), words))
    return {'base': base, 's': s, 'how': draw(st.sampled_from(['str', 'dict']))}


def check(case, rec):
    base, s = case['base'], case['s']
    with oracle():
        verdict, want = dt.verdict(base, s)
        d = Datatype.fromvalue(base if case['how'] == 'str' else {'base': base})
    v, err = None, None
    try:
        v = d.read(s)
    except ValueError as e:
        err = e
    rec.label(base, verdict, 'rejected' if err else 'read')
    if verdict == dt.ACCEPT:
        if err:
            fail('{!r} is a valid {}, but: {!r}', s, base, err)
        if base in dt.DURATIONS:
            want = ('duration',) + want
        elif base == 'anyURI':
            want = ('uri', want)
        else:
            with oracle():
                want = dt.canon(base, want)
        eq(dt.canon(base, v), want, '{!r} read as {}', s, base)
        expect(dt.has_type(base, v), '{!r} as {} read as {!r}', s, base, v)
        rec.nt(s != '')
    elif verdict == dt.REJECT:
        if not err:
            fail('{!r} is not in the lexical space of {}, but read as {!r}', s, base, v)
        rec.nt(s != '')
    elif not err:
        expect(dt.has_type(base, v), '{!r} as {} read as {!r}', s, base, v)
    # Reading is deterministic and datatype objects are stateless.
    again = None
    try:
        again = d.read(s)
    except ValueError as e:
        expect(err is not None, 'second reading of {!r} as {} fails: {!r}', s, base, e)
    else:
        expect(err is None, 'only the first reading of {!r} as {} fails: {!r}', s, base, err)
        eq(dt.canon(base, again), dt.canon(base, v), 'second reading of {!r} as {}', s, base)


NUMBERS = list(dt.RANGES) + ['decimal'] * 4 + dt.FLOATS
TIMES = dt.DATES + dt.DURATIONS
OTHERS = dt.BINARIES + ['boolean', 'NMTOKEN', 'normalizedString', 'json', 'json', 'anyURI',
                        'string', 'gDay', 'xml', 'any']
# 'any' is listed by csvw as name of anyAtomicType.

PROP = Prop(
    'C06',
    [Sub(g + '-' + how, cases(bases, how), check, quick=4000, thorough=100000)
     for g, bases in [('numbers', NUMBERS), ('times', TIMES), ('others', OTHERS)]
     for how in ['lexical', 'mutated']] + [
        Sub('foreign', cases(dt.ALL, 'foreign'), check, quick=4000, thorough=100000),
        Sub('words', cases(dt.ALL, 'words'), check, quick=6000, thorough=150000)],
    rule='Strings from the XSD grammars of the datatypes (incl. range limits +-2), mutations of '
         'these (1-2 edits), lexical forms of other datatypes, odd words and arbitrary text; read '
         'with each datatype. Non-trivial: the oracle requires acceptance or rejection, and the '
         'string is not empty.',
    assumptions=[
        'Do-not-care zone (ValueError or a value of the right type): surrounding white space, '
        'percent and per-mille signs without format, spellings of inf/nan for floats, ISO 8601 forms '
        'beyond XSD for dateTime, more than 6 decimals of seconds, 24:00:00, time zones beyond '
        '14 hours or in basic format (+0100), ISO durations beyond XSD or overflowing timedelta, non-alphabet characters in '
        'base64, NMTOKEN of non-ASCII letters, integers of more than 4000 digits.',
        'Types documented as mapped to str (gYear etc.) accept any string.'])
