"""Independent models of the built-in datatypes: lexical spaces, values, generators."""
import re
import base64
import datetime
import decimal
import json
import math
import warnings

from hypothesis import strategies as st

D = decimal.Decimal
INF = math.inf
RANGES = {
    'integer': (-INF, INF), 'int': (-INF, INF),   # int is an alias for integer in csvw
    'nonNegativeInteger': (0, INF), 'positiveInteger': (1, INF),
    'nonPositiveInteger': (-INF, 0), 'negativeInteger': (-INF, -1),
    'long': (-2 ** 63, 2 ** 63 - 1), 'short': (-2 ** 15, 2 ** 15 - 1), 'byte': (-128, 127),
    'unsignedLong': (0, 2 ** 64 - 1), 'unsignedInt': (0, 2 ** 32 - 1),
    'unsignedShort': (0, 2 ** 16 - 1), 'unsignedByte': (0, 255),
}
STRINGS = ['string', 'QName', 'gDay', 'gMonth', 'gMonthDay', 'gYear', 'gYearMonth', 'xml', 'html',
           'any']
FLOATS = ['float', 'double', 'number']
DATES = ['date', 'dateTime', 'datetime', 'dateTimeStamp', 'time']
DURATIONS = ['duration', 'dayTimeDuration', 'yearMonthDuration']
BINARIES = ['base64Binary', 'binary', 'hexBinary']
OTHERS = ['boolean', 'anyURI', 'NMTOKEN', 'normalizedString', 'json', 'decimal']
ALL = list(RANGES) + STRINGS + FLOATS + DATES + DURATIONS + BINARIES + OTHERS

ACCEPT, REJECT, DONTCARE = 'accept', 'reject', 'dontcare'


def quiet(f, *a):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a)


def exact(s):
    """Decimal from a plain lexical form, without context rounding."""
    return D(s)


TZ = r'(?P<tz>Z|[+-][0-9]{2}:[0-9]{2})?'
DATE = r'(?P<y>[0-9]{4})-(?P<m>[0-9]{2})-(?P<d>[0-9]{2})'
TIME = r'(?P<H>[0-9]{2}):(?P<M>[0-9]{2}):(?P<S>[0-9]{2})(\.(?P<f>[0-9]+))?'


def tzinfo(s):
    """:return: (valid, tzinfo)"""
    if not s:
        return True, None
    if s == 'Z':
        return True, datetime.timezone.utc
    h, m = int(s[1:3]), int(s[4:6])
    if m > 59 or h > 14 or (h == 14 and m):
        return (None if m < 60 and h < 24 else False), None
    delta = datetime.timedelta(hours=h, minutes=m)
    return True, datetime.timezone(-delta if s[0] == '-' else delta)


def verdict_dt(base, s):
    pat = {'date': DATE + TZ, 'time': TIME + TZ}.get(base, DATE + 'T' + TIME + TZ)
    m = re.fullmatch(pat, s, re.ASCII)
    if not m:
        if s != s.strip():
            return DONTCARE, None
        if re.fullmatch(pat.replace(TZ, r'(z|[+-][0-9]{2}([0-9]{2})?)'), s, re.ASCII):
            return DONTCARE, None  # Basic forms of time zones
        if base in ('date', 'time'):
            return REJECT, None
        # For dateTime other ISO 8601 forms are accepted, too.
        if base == 'dateTimeStamp' or not re.match('[0-9]{4}', s, re.ASCII) or \
                len(re.sub(r'[0-9:.,+\-TZWtz \s]', '', s)) > 1 or len(s) < 4:
            return REJECT, None
        return DONTCARE, None
    g = m.groupdict()
    ok, tz = tzinfo(g['tz'])
    if ok is None:
        return DONTCARE, None
    if not ok:
        return REJECT, None
    if base == 'dateTimeStamp' and not g['tz']:
        return REJECT, None
    if g.get('f') and len(g['f']) > 6:
        return DONTCARE, None
    if g.get('H') == '24':
        return (DONTCARE if g['M'] == g['S'] == '00' and not (g['f'] or '').strip('0')
                else REJECT), None
    try:
        v = datetime.datetime(
            int(g.get('y') or 1), int(g.get('m') or 1), int(g.get('d') or 1),
            int(g.get('H') or 0), int(g.get('M') or 0), int(g.get('S') or 0),
            int(((g.get('f') or '') + '000000')[:6]), tz)
    except ValueError:
        return REJECT, None
    return ACCEPT, v


NUM = r'[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)'
DURATION = (r'-?P(?=.)(?P<Y>[0-9]+Y)?(?P<M>[0-9]+M)?(?P<D>[0-9]+D)?'
            r'(T(?=.)(?P<h>[0-9]+H)?(?P<m>[0-9]+M)?(?P<s>[0-9]+(\.[0-9]+)?S)?)?')


def verdict(base, s):
    """
    :return: (verdict, value) for reading string s with the built-in datatype base.
    """
    if base in STRINGS:
        return ACCEPT, s
    if base == 'normalizedString':
        return ACCEPT, re.sub('[\r\n\t]', ' ', s).strip()
    if base == 'NMTOKEN':
        if re.fullmatch(r'[A-Za-z0-9._:-]+', s):
            return ACCEPT, s
        if s == '' or any(c.isspace() or c in ',;!"§$%&/()=?+*#\'~<>|@\\^`{}[]' for c in s):
            return REJECT, None
        return DONTCARE, None
    if base == 'boolean':
        return (ACCEPT, s in ('true', '1')) if s in ('true', 'false', '0', '1') else (REJECT, None)
    if base in RANGES:
        if re.fullmatch('[+-]?[0-9]+', s, re.ASCII):
            if len(s) > 4000:
                return DONTCARE, None
            v = int(s)
            lo, hi = RANGES[base]
            return (ACCEPT, v) if lo <= v <= hi else (REJECT, None)
        if s != s.strip() or '%' in s or '‰' in s:
            return DONTCARE, None
        return REJECT, None
    if base == 'decimal':
        if re.fullmatch(NUM, s, re.ASCII):
            return ACCEPT, exact(s)
        if s != s.strip() or '%' in s or '‰' in s or s in ('INF', '-INF', 'NaN'):
            return DONTCARE, None
        return REJECT, None
    if base in FLOATS:
        if re.fullmatch(NUM + '([eE][+-]?[0-9]+)?', s, re.ASCII):
            return ACCEPT, float(s)
        if s in ('INF', '-INF', 'NaN'):
            return ACCEPT, float(s)
        if s != s.strip() or '%' in s or '‰' in s or re.fullmatch(
                r'[+-]?(inf(inity)?|nan)', s, re.I | re.ASCII):
            return DONTCARE, None
        return REJECT, None
    if base == 'hexBinary':
        if re.fullmatch('([0-9a-fA-F]{2})*', s, re.ASCII):
            return ACCEPT, bytes.fromhex(s)
        return (DONTCARE if s != s.strip() else REJECT), None
    if base in ('base64Binary', 'binary'):
        if re.fullmatch('([A-Za-z0-9+/]{4})*([A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?', s, re.ASCII):
            return ACCEPT, base64.b64decode(s)
        if not s.isascii() or (re.fullmatch('[A-Za-z0-9+/]*', s, re.ASCII) and len(s) % 4):
            return REJECT, None
        return DONTCARE, None
    if base in DATES:
        return verdict_dt(base, s)
    if base in DURATIONS:
        m = re.fullmatch(DURATION, s, re.ASCII)
        if not m:
            # isodate also accepts weeks, fractions everywhere, signs and ISO's alternative format
            if re.fullmatch(r'\s*[+-]?P.*', s, re.S) and not re.search(r'[^-+P0-9YMWDTHS.,:\s]', s):
                return DONTCARE, None
            return REJECT, None
        g = {k: (v or '0_')[:-1] for k, v in m.groupdict().items()}
        if len(s) > 16:
            return DONTCARE, None   # may exceed what python's timedelta can represent
        neg = s.startswith('-')
        months = int(g['Y']) * 12 + int(g['M'])
        us = ((int(g['D']) * 24 + int(g['h'])) * 60 + int(g['m'])) * 60 * 10 ** 6 + \
            int(exact(g['s']) * 10 ** 6)
        if months > 9999 or us > 10 ** 15 or len(g['s'].partition('.')[2]) > 6:
            return DONTCARE, None
        return ACCEPT, (-months if neg else months, -us if neg else us)
    if base == 'json':
        try:
            return ACCEPT, json.loads(s)
        except (ValueError, RecursionError):
            return REJECT, None
    if base == 'anyURI':
        if re.fullmatch(r'[A-Za-z0-9._~/-]*', s, re.ASCII) and not s.startswith('//'):
            return ACCEPT, s
        return DONTCARE, None
    raise AssertionError(base)


# ---------------------------------------------------------------- generators of values

def tzs(none=True):
    offs = st.one_of(
        st.integers(-14 * 60, 14 * 60),
        st.sampled_from([0, 60, -60, 330, -210, 345, 840, -840, 1, -1, 59, -59, -30, 30]))
    res = offs.map(lambda m: datetime.timezone(datetime.timedelta(minutes=m)))
    return st.one_of(st.none(), res) if none else res


def datetimes(tz=True):
    # Stay away from the ends of the range, where no timezone arithmetics is possible.
    base = st.one_of(
        st.datetimes(datetime.datetime(1, 1, 3), datetime.datetime(9999, 12, 29)),
        st.sampled_from([
            datetime.datetime(2020, 2, 29, 23, 59, 59, 999999), datetime.datetime(999, 1, 31),
            datetime.datetime(2000, 12, 31, 0, 0, 0, 1), datetime.datetime(1969, 10, 9, 1, 2, 3, 4500),
            datetime.datetime(10, 1, 10, 12, 0, 0, 100000)]))
    if not tz:
        return base
    return st.tuples(base, tzs()).map(lambda t: t[0].replace(tzinfo=t[1]))


def decimals():
    return st.one_of(
        st.tuples(st.integers(0, 1), st.text('0123456789', min_size=1, max_size=50),
                  st.integers(-45, 12)).map(
            lambda t: D((t[0], tuple(int(c) for c in t[1]), t[2]))),
        st.tuples(st.integers(0, 1), st.text('0123456789', min_size=1, max_size=6),
                  st.integers(-7, 7)).map(
            lambda t: D((t[0], tuple(int(c) for c in t[1]), t[2]))),
        st.tuples(st.integers(0, 1), st.text('0123456789', min_size=29, max_size=50),
                  st.integers(-45, 12)).map(
            lambda t: D((t[0], tuple(int(c) for c in t[1]), t[2]))),
        st.sampled_from([D('0'), D('-0'), D('0.10'), D('1E+3'), D('1E-7'), D('-1.5E-10'),
                         D('12E10'), D('0E-8'), D('0E+8'), D('1.00')]),
        st.integers(-10 ** 6, 10 ** 6).map(D))


def integers(base):
    lo, hi = RANGES[base]
    kw = {}
    if lo != -INF:
        kw['min_value'] = lo
    if hi != INF:
        kw['max_value'] = hi
    edges = [x for b in (lo, hi) if abs(b) != INF for x in (b, b + 1, b - 1) if lo <= x <= hi]
    res = [st.integers(**kw), st.integers(max(lo, -10), min(hi, 300)) if lo <= 0 <= hi
           else st.integers(**kw)]
    if edges:
        res.append(st.sampled_from(edges))
    big = [x for x in (10 ** 28 + 1, -10 ** 29 - 1, 10 ** 40 + 7, 2 ** 63, -2 ** 63 - 1, 2 ** 53 + 1)
           if lo <= x <= hi]
    if big:
        res.append(st.sampled_from(big))
    return st.one_of(*res)


def floats():
    return st.one_of(st.floats(), st.floats(-1000, 1000), st.sampled_from(
        [0.0, -0.0, 1e16, 1e15, 123456789012345680.0, 1e-5, 1e22, 5e-324, 1.7976931348623157e308,
         0.1, INF, -INF]), st.integers(-10 ** 9, 10 ** 9).map(float))


def jsons(floats=True):
    leaf = st.one_of(st.none(), st.booleans(), st.integers(-10 ** 20, 10 ** 20), st.text(max_size=5),
                     *([st.floats(allow_nan=False, allow_infinity=False)] if floats else []))
    return st.recursive(leaf, lambda c: st.one_of(
        st.lists(c, max_size=4), st.dictionaries(st.text(max_size=3), c, max_size=4)), max_leaves=8)


URI_CHARS = 'abcxyz0123456789-._~'


def uris():
    seg = st.text(URI_CHARS, min_size=1, max_size=5).filter(lambda s: s.strip('.'))
    path = st.lists(seg, min_size=1, max_size=3).map('/'.join)
    q = st.one_of(st.just(''), seg.map('?{}=1'.format))
    f = st.one_of(st.just(''), seg.map('#{}'.format))
    scheme = st.sampled_from(['http', 'https', 'ftp'])
    host = st.lists(st.text('abcdef', min_size=1, max_size=4), min_size=1, max_size=3).map('.'.join)
    absolute = st.tuples(scheme, host, path).map(lambda t: '{}://{}/{}'.format(*t))
    rel = st.one_of(path, path.map('/{}'.format))
    return st.tuples(st.one_of(absolute, rel), q, f).map(''.join)


def plain_text(max_size=8):
    from . import gen
    return gen.text(max_size)


def value(base):
    """Values of the value space (python objects as documented), as codec-able data."""
    if base in STRINGS:
        return plain_text()
    if base == 'normalizedString':
        return plain_text().map(lambda s: re.sub('[\r\n\t]', ' ', s).strip())
    if base == 'NMTOKEN':
        return st.text('abzAZ019._:-', min_size=1, max_size=8)
    if base == 'boolean':
        return st.booleans()
    if base in RANGES:
        return integers(base)
    if base == 'decimal':
        return decimals()
    if base in FLOATS:
        return floats()
    if base in BINARIES:
        return st.one_of(st.binary(max_size=20), st.binary(min_size=50, max_size=120))
    if base == 'date':
        return st.tuples(datetimes(False), tzs()).map(
            lambda t: t[0].replace(hour=0, minute=0, second=0, microsecond=0, tzinfo=t[1]))
    if base == 'dateTimeStamp':
        return st.tuples(datetimes(False), tzs(none=False)).map(lambda t: t[0].replace(tzinfo=t[1]))
    if base in DATES:
        return datetimes()
    if base == 'dayTimeDuration':
        return st.timedeltas(datetime.timedelta(days=-10 ** 6), datetime.timedelta(days=10 ** 6)).map(
            lambda t: ['td', t // datetime.timedelta(microseconds=1)])
    if base == 'yearMonthDuration':
        return st.tuples(st.integers(0, 200), st.integers(0, 30)).map(
            lambda t: ['ym', t[0], t[1], 0])
    if base == 'duration':
        return st.one_of(value('dayTimeDuration'), value('yearMonthDuration'), st.tuples(
            st.integers(0, 200), st.integers(0, 30), st.integers(0, 10 ** 10)).map(
            lambda t: ['ym'] + list(t)))
    if base == 'json':
        return jsons()
    if base == 'anyURI':
        return uris()
    raise AssertionError(base)


def realize(base, v):
    """From case data to the python object csvw documents."""
    if base in DURATIONS:
        import isodate
        if v[0] == 'td':
            return datetime.timedelta(microseconds=v[1])
        if not (v[1] or v[2]):
            return datetime.timedelta(microseconds=v[3])
        return isodate.Duration(years=v[1], months=v[2], microseconds=v[3])
    return v


def canon(base, v):
    """Canonical form of a value read, comparable with `same`."""
    if base in DURATIONS:
        import isodate
        if isinstance(v, isodate.Duration):
            return ('duration', int(v.years * 12 + v.months),
                    v.tdelta // datetime.timedelta(microseconds=1))
        if isinstance(v, datetime.timedelta):
            return ('duration', 0, v // datetime.timedelta(microseconds=1))
        return ('?', repr(v))
    if base == 'anyURI' and hasattr(v, 'unsplit'):
        return ('uri', v.unsplit())
    if base in DATES and isinstance(v, datetime.datetime):
        off = v.utcoffset()
        n = v.replace(tzinfo=None)
        off = None if off is None else int(off.total_seconds())
        if base == 'time':
            return ('time', n.time().isoformat(), off)
        return ('dt', n.isoformat(), off)
    if base == 'json':
        return plain_json(v)
    if isinstance(v, D):
        return ('decimal', str(v) if not v.is_finite() else norm(v))
    if isinstance(v, float):
        return ('float', repr(v))
    return v


def norm(v):
    """Decimal -> sign, digits, exponent without trailing zeros, computed without rounding."""
    sign, digits, exp = v.as_tuple()
    digits = list(digits)
    while digits and digits[-1] == 0:
        digits.pop()
        exp += 1
    while digits and digits[0] == 0:
        digits.pop(0)
    return (sign, tuple(digits), exp) if digits else (0, (), 0)


def plain_json(v):
    if isinstance(v, dict):
        return {k: plain_json(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain_json(x) for x in v]
    return v


TYPES = {
    'boolean': bool, 'decimal': D, 'NMTOKEN': str, 'normalizedString': str,
}


def has_type(base, v):
    if base == 'json':
        return v is None or isinstance(v, (str, int, float, bool, list, dict))
    if base in RANGES:
        return type(v) is int
    if base in FLOATS:
        return type(v) is float
    if base in STRINGS:
        return type(v) is str
    if base in BINARIES:
        return type(v) is bytes
    if base in DATES:
        return isinstance(v, datetime.datetime)
    if base in DURATIONS:
        import isodate
        return isinstance(v, (datetime.timedelta, isodate.Duration))
    if base == 'anyURI':
        import rfc3986
        return isinstance(v, rfc3986.URIReference)
    return type(v) is TYPES[base]
