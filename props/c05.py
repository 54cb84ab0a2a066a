"""C05: typed values survive formatting and reading."""
import decimal
import warnings

from hypothesis import strategies as st

from csvw import Datatype
from vf.core import *
from . import dt


def datatype(base, how):
    with oracle():
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return Datatype.fromvalue(base if how == 'str' else {'base': base})


@st.composite
def cases(draw, bases):
    base = draw(st.sampled_from(bases))
    return {'base': base, 'how': draw(st.sampled_from(['str', 'dict'])),
            'value': draw(dt.value(base))}


def check(case, rec):
    base = case['base']
    d = datatype(base, case['how'])
    v = dt.realize(base, case['value'])
    want = ('uri', v) if base == 'anyURI' else dt.canon(base, v)
    s = d.formatted(v)
    expect(type(s) is str, 'formatted({!r}) as {} is no string: {!r}'.format(v, base, s))
    r = d.read(s)
    eq(dt.canon(base, r), want, 'reading {!r}, which {!r} is formatted to as {}', s, v, base)
    expect(dt.has_type(base, r), '{} read as {}', base, type(r))
    s2 = d.formatted(r)
    eq(s2, s, 'formatting the value read again, as {}', base)
    with oracle():
        verdict, val = dt.verdict(base, s)
    expect(verdict != dt.REJECT, '{!r} formatted as {} is not in its lexical space: {!r}', v, base, s)
    # A second datatype object, created from the serialization of the first one, agrees.
    other = Datatype.fromvalue(d.asdict())
    eq(dt.canon(base, other.read(s)), want, 'reading with an equal datatype')
    rec.label(base)
    rec.nt(v not in ('', b'', 0, False) and case['value'] is not None)


@st.composite
def coerced(draw):
    base = draw(st.sampled_from(['decimal', 'decimal', 'decimal'] + dt.FLOATS))
    ints = st.one_of(st.integers(-1000, 1000), st.integers(-10 ** 25, 10 ** 25), st.integers(-10 ** 6, 10 ** 6).map(lambda i: i * 10 ** 9))
    floats = st.one_of(st.floats(-1e30, 1e30), st.floats(-10, 10), st.sampled_from([0.1, 1e-7, 1e22, 5e-324, 1.7e308, -2.5e-10, 100.0, 1e16]))
    return {'base': base, 'value': draw(ints if base in dt.FLOATS or draw(st.booleans()) else floats),
            'groupChar': draw(st.sampled_from([None, None, ' ']))}


def check_coerced(case, rec):
    """Integers as decimal or floating point numbers, floating point numbers as decimals."""
    base, v = case['base'], case['value']
    d = Datatype.fromvalue({'base': base, 'format': {'groupChar': case['groupChar']}} if case['groupChar'] else base)
    with oracle():
        want = decimal.Decimal(repr(v)) if base == 'decimal' else float(v)
    s = d.formatted(v)
    expect(type(s) is str, 'formatted({!r}) as {} is no string: {!r}', v, base, s)
    eq(dt.canon(base, d.read(s)), dt.canon(base, want), 'reading {!r}, which {!r} is formatted to as {}', s, v, base)
    if base == 'decimal':
        expect('e' not in s.lower(), '{!r} formatted as decimal: {!r}', v, s)
    rec.label(base, type(v).__name__)
    rec.nt(bool(v))


def specials(tier):
    for base in ['decimal', 'float', 'double', 'number']:
        for fmt in [None, '0.0', '#,##0.00', {'groupChar': ' '}, {'pattern': '0.00', 'decimalChar': ','}, '0']:
            for v in ['INF', '-INF', 'NaN']:
                yield {'base': base, 'format': fmt, 'value': v}


def check_special(case, rec):
    """Numbers which are not finite are written as in XML Schema, whatever the format."""
    base, v = case['base'], case['value']
    d = Datatype.fromvalue({'base': base, 'format': case['format']} if case['format'] else base)
    with oracle():
        value = {'INF': 'Infinity', '-INF': '-Infinity', 'NaN': 'NaN'}[v]
        value = decimal.Decimal(value) if base == 'decimal' else float(value)
    eq(d.formatted(value), v, '{} as {} with format {}', v, base, case['format'])
    with warnings.catch_warnings(record=True):
        warnings.simplefilter('always')
        eq(d.read(v), value, 'reading {} as {} with format {}', v, base, case['format'])
    rec.nt()


GROUPS = {
    'numbers': list(dt.RANGES) + ['decimal'] * 6 + dt.FLOATS * 2,
    'datetimes': dt.DATES + dt.DURATIONS,
    'others': dt.STRINGS + dt.BINARIES + ['boolean', 'anyURI', 'NMTOKEN', 'normalizedString', 'json',
                                          'json', 'anyURI'],
}

PROP = Prop(
    'C05',
    [Sub(k, cases(v), check, quick=8000, thorough=160000) for k, v in GROUPS.items()] + [
        Sub('coerced', coerced(), check_coerced, quick=3000, thorough=60000),
        Enum('special', specials, check_special, shards=1)],
    rule='Random values (biased to range limits, special values, many digits, odd timezones) of '
         'every built-in datatype. Non-trivial: not the empty string, zero or null.',
    assumptions=[
        'Times are compared without the date, which is not part of the value.',
        'URIs are generated in normal form, as documented formatting normalizes them.',
        'Durations with months are compared by months and microseconds; negative ones with months '
        'are not generated.',
        'Decimal values are compared by value, not by number of trailing zeros.'])
