"""C09: declared constraints on values are enforced exactly."""
import datetime
import itertools
import decimal
import json
import re

from hypothesis import strategies as st

from csvw import Datatype
from vf.core import *
from . import dt, gen

D = decimal.Decimal
LOWER = ['minimum', 'minInclusive', 'minExclusive']
UPPER = ['maximum', 'maxInclusive', 'maxExclusive']
US = datetime.timedelta(microseconds=1)


# ---------------------------------------------------------------- bounds

def lex(base, v):
    """Lexical form of a model value, independent of csvw."""
    if base in dt.RANGES:
        return str(v)
    if base == 'decimal':
        return '{:f}'.format(v)
    if base in dt.FLOATS:
        return repr(v) if abs(v) != dt.INF else ('INF' if v > 0 else '-INF')
    if base in dt.DURATIONS:
        months, us = v
        neg = months < 0 or us < 0
        months, us = abs(months), abs(us)
        days, us = divmod(us, 86400 * 10 ** 6)
        s = 'P'
        if months:
            s += '{}Y{}M'.format(*divmod(months, 12))
        if days or not (months or us):
            s += '{}D'.format(days)
        if us:
            s += 'T{}.{:06d}S'.format(*divmod(us, 10 ** 6))
        return ('-' if neg else '') + s
    off = v.utcoffset()
    tz = ''
    if off is not None:
        m = off // datetime.timedelta(minutes=1)
        tz = 'Z' if m == 0 else '{}{:02d}:{:02d}'.format('-' if m < 0 else '+', *divmod(abs(m), 60))
    v = v.replace(tzinfo=None)
    if base == 'date':
        return v.date().isoformat() + tz
    if base == 'time':
        return v.time().isoformat() + tz
    if base == 'dateTimeStamp':
        return v.isoformat(timespec='microseconds') + tz
    return v.isoformat() + tz


REFS = [datetime.datetime(1696, 9, 1), datetime.datetime(1697, 2, 1), datetime.datetime(1903, 3, 1),
        datetime.datetime(1903, 7, 1)]


def add_duration(d, months, us):
    m = d.year * 12 + d.month - 1 + months
    return d.replace(year=m // 12, month=m % 12 + 1) + us * US


def cmp(base, a, b):
    """-1, 0, 1 or None, if the order is not determined."""
    if base in dt.DURATIONS:
        res = {(x > y) - (x < y) for x, y in (
            (add_duration(r, *a), add_duration(r, *b)) for r in REFS)}
        return res.pop() if len(res) == 1 else None
    if base in dt.DATES:
        if base == 'time':
            a, b = a.replace(year=1972, month=12, day=31), b.replace(year=1972, month=12, day=31)
        mixed = (a.tzinfo is None) != (b.tzinfo is None)
        utc = datetime.timezone.utc
        a = a if a.tzinfo else a.replace(tzinfo=utc)
        b = b if b.tzinfo else b.replace(tzinfo=utc)
        if mixed and abs(a - b) <= datetime.timedelta(hours=14):
            return None
        return (a > b) - (a < b)
    a, b = (D(x) if not isinstance(x, D) else x for x in (a, b))
    return (a > b) - (a < b)


def near(base, v):
    """Values around v."""
    if base in dt.RANGES:
        lo, hi = dt.RANGES[base]
        return st.integers(-2, 2).map(lambda d: max(lo, min(hi, v + d)))
    if base == 'decimal':
        return st.tuples(st.integers(-2, 2), st.integers(0, 25)).map(
            lambda t: decimal.Context(prec=80).add(v, D(t[0]).scaleb(-t[1])))
    if base in dt.FLOATS:
        import math
        return st.sampled_from([v, math.nextafter(v, math.inf), math.nextafter(v, -math.inf),
                                v + 1.0, v - 1.0])
    if base in dt.DURATIONS:
        def f(d):
            months, us = v[0] + (d[0] if v[0] else 0), v[1] + d[1]
            if (months > 0 > us) or (months < 0 < us):
                us = -us
            return (months, us)
        return st.tuples(st.integers(-1, 1), st.sampled_from(
            [0, 0, 1, -1, 86400 * 10 ** 6, -86400 * 10 ** 6])).map(f)
    unit = datetime.timedelta(days=1) if base == 'date' else US

    def g(d):
        r = v + d[0] * unit
        if base == 'time':
            r = r.replace(year=2000, month=1, day=1)
        if base == 'dateTimeStamp' or v.tzinfo:
            m = d[1]
            return r.astimezone(datetime.timezone(datetime.timedelta(minutes=m))) \
                if base != 'date' and m is not None else r
        return r
    return st.tuples(st.integers(-2, 2), st.sampled_from([None, None, 0, 60, -150, 14 * 60])).map(g)


def model_value(base):
    if base == 'decimal':
        return st.tuples(st.integers(-10 ** 6, 10 ** 6), st.integers(0, 6)).map(
            lambda t: D(t[0]).scaleb(-t[1])) | st.sampled_from([D(0), D('0.0'), D(1), D('1e20')]) | \
            dt.decimals()
    if base in dt.RANGES:
        return st.one_of(dt.integers(base), st.integers(-3, 3).filter(
            lambda i: dt.RANGES[base][0] <= i <= dt.RANGES[base][1])) \
            if dt.RANGES[base][0] <= 0 <= dt.RANGES[base][1] else dt.integers(base)
    if base in dt.FLOATS:
        return st.one_of(st.floats(-1e6, 1e6), st.sampled_from([0.0, -0.0, 1.0, 1e300, -1e300]),
                         st.integers(-5, 5).map(float))
    if base in dt.DURATIONS:
        sign = st.sampled_from([1, 1, 1, -1])
        ym = st.tuples(sign, st.integers(0, 40)).map(lambda t: (t[0] * t[1], 0))
        day = st.tuples(sign, st.one_of(st.integers(0, 40).map(lambda d: d * 86400 * 10 ** 6),
                                        st.integers(0, 10 ** 13), st.integers(0, 3 * 10 ** 6))).map(
            lambda t: (0, t[0] * t[1]))
        return {'dayTimeDuration': day, 'yearMonthDuration': ym}.get(base, st.one_of(
            ym, day, st.tuples(sign, ym, day).map(lambda t: (t[0] * abs(t[1][0]), t[0] * abs(t[2][1])))))
    res = dt.value(base)
    if base == 'time':
        res = res.map(lambda v: v.replace(year=2000, month=1, day=1))
    return res


BOUNDED = ['decimal', 'decimal', 'integer', 'long', 'byte', 'nonNegativeInteger', 'unsignedByte',
           'negativeInteger', 'double', 'float', 'number'] + dt.DATES + dt.DURATIONS


@st.composite
def bcases(draw):
    base = draw(st.sampled_from(BOUNDED))
    v = draw(model_value(base))
    tz = None
    if base in dt.DATES and base != 'dateTimeStamp' and draw(st.booleans()):
        v = v.replace(tzinfo=tz)
    which = draw(st.sampled_from(['lower', 'lower', 'upper', 'upper', 'both', 'both', 'both', 'double']))
    facets = {}
    if which in ('lower', 'both'):
        facets[draw(st.sampled_from(LOWER))] = draw(near(base, v))
    if which in ('upper', 'both'):
        facets[draw(st.sampled_from(UPPER))] = draw(st.one_of(near(base, v), near(base, v), model_value(base)))
    if which == 'double':
        a, b = draw(st.sampled_from([
            ('minInclusive', 'minExclusive'), ('maxInclusive', 'maxExclusive'),
            ('minimum', 'minExclusive'), ('maximum', 'maxExclusive')]))
        facets[a] = draw(near(base, v))
        facets[b] = draw(near(base, v))
    if draw(st.integers(0, 5)) == 0:  # the synonyms, too
        for a, b in [LOWER[:2], UPPER[:2]]:
            if (a in facets) != (b in facets):
                facets[b if a in facets else a] = draw(near(base, v))
    values = draw(st.lists(st.one_of(near(base, v), near(base, v), model_value(base)), min_size=1,
                           max_size=5))
    return {'base': base, 'facets': facets, 'values': values,
            'json': draw(st.booleans()), 'null': draw(st.booleans())}


def contradictory(base, facets):
    """True, False, or None if undetermined."""
    lower = [(k, v) for k, v in facets.items() if k in LOWER]
    upper = [(k, v) for k, v in facets.items() if k in UPPER]
    for side in (lower, upper):
        if len(side) > 1 and any(k.endswith('Exclusive') for k, _ in side):
            return True
    res = [crossed(base, *pair) for pair in itertools.product(lower, upper)]
    return True if True in res else None if None in res else False


def crossed(base, lower, upper):
    (lk, lv), (uk, uv) = lower, upper
    c = cmp(base, lv, uv)
    if c is None:
        return None
    if lk == 'minExclusive' and uk == 'maxExclusive':
        # XSD allows equal bounds here, the tabular metadata specification doesn't.
        return c >= 0
    return c > 0 or (c == 0 and (lk == 'minExclusive' or uk == 'maxExclusive'))


def admitted(base, facets, v):
    res = True
    for k, b in facets.items():
        c = cmp(base, v, b)
        if c is None:
            res = None if res else res
            continue
        if not {'minimum': c >= 0, 'minInclusive': c >= 0, 'minExclusive': c > 0,
                'maximum': c <= 0, 'maxInclusive': c <= 0, 'maxExclusive': c < 0}[k]:
            return False
    return res


def as_json(base, v):
    """Facets of numeric types may be given as JSON numbers."""
    if base in dt.RANGES:
        return v
    if base in dt.FLOATS and abs(v) != dt.INF:
        return v
    if base == 'decimal' and v.is_finite():
        # The shortest notation of a JSON number is what it stands for.
        if v == v.to_integral_value() and abs(v) < 10 ** 15:
            return int(v)
        if D(repr(float(v))) == v:
            return float(v)
    return lex(base, v)


def create(spec):
    try:
        return Datatype.fromvalue(spec), None
    except ValueError as e:
        return None, e


def bcheck(case, rec):
    base, facets = case['base'], {k: tuple(v) if isinstance(v, list) else v
                                  for k, v in case['facets'].items()}
    with oracle():
        bad = contradictory(base, facets)
        spec = {'base': base}
        spec.update((k, as_json(base, v) if case['json'] else lex(base, v)) for k, v in facets.items())
    d, err = create(dict(spec))
    rec.label(base, *facets)
    if bad:
        expect(err, 'contradictory constraints accepted: {!r}', spec)
        rec.label('contradictory')
        rec.nt()
        return
    if bad is None and err:
        raise Skip()
    if err:
        fail('valid constraints {!r} refused: {!r}', spec, err)
    again = Datatype.fromvalue(d.asdict())
    for v in case['values']:
        v = tuple(v) if isinstance(v, list) else v
        with oracle():
            ok = admitted(base, facets, v)
            s = lex(base, v)
        for dd in (d, again):
            r = e = None
            try:
                r = dd.read(s)
            except ValueError as ex:
                e = ex
            if ok is False:
                expect(e, '{!r} violates {!r}, but is read as {!r}', s, spec, r)
                rec.label('violating')
                # and so does the parsed value
                p = dd.parse(s)
                expect(raises(ValueError, dd.validate, p), '{!r} violates {!r}, but is valid', p, spec)
            elif ok:
                if e:
                    fail('{!r} satisfies {!r}, but is rejected: {!r}', s, spec, e)
                rec.label('satisfying')
        rec.nt(ok is not None)
    eq(d.validate(None), None, 'validating None')
    if facets and (base in dt.FLOATS or base == 'decimal'):
        # NaN is neither less nor greater than any bound.
        e = raises(ValueError, d.read, 'NaN')
        expect(e, 'NaN satisfies {!r}', spec)


# ---------------------------------------------------------------- lengths

LENGTHY = ['string', 'string', 'normalizedString', 'NMTOKEN', 'anyURI', 'xml', 'html', 'gYear',
           'base64Binary', 'binary', 'hexBinary']


@st.composite
def lcases(draw):
    base = draw(st.sampled_from(LENGTHY))
    n = st.integers(0, 6)
    keys = draw(st.sampled_from([['length'], ['minLength'], ['maxLength'], ['minLength', 'maxLength'],
                                 ['minLength', 'maxLength'], ['length', 'minLength'],
                                 ['length', 'maxLength'], ['length', 'minLength', 'maxLength']]))
    return {'base': base, 'facets': {k: draw(n) for k in keys},
            'str': draw(st.sampled_from([False, False, True])),
            'values': draw(st.lists(st.one_of(
                st.integers(0, 8).map(lambda i: 'abcdefghij'[:i]), gen.text(6)), min_size=1, max_size=6))}


def lcheck(case, rec):
    base, f = case['base'], case['facets']
    spec = dict(base=base, **{k: str(v) if case['str'] else v for k, v in f.items()})
    L, lo, hi = f.get('length'), f.get('minLength'), f.get('maxLength')
    bad = (L is not None and ((lo is not None and lo > L) or (hi is not None and hi < L))) or \
        (lo is not None and hi is not None and lo > hi)
    d, err = create(dict(spec))
    rec.label(base, *f)
    if bad:
        expect(err, 'contradictory lengths accepted: {!r}', spec)
        rec.nt()
        return
    if err:
        fail('valid constraints {!r} refused: {!r}', spec, err)
    for v in case['values']:
        with oracle():
            s = v
            if base == 'NMTOKEN':
                s = re.sub(r'[^a-z]', '', v)
            elif base == 'anyURI':
                s = re.sub(r'[^a-z]', '', v)
            elif base in ('base64Binary', 'binary'):
                import base64
                v = v.encode('utf8')
                s = base64.b64encode(v).decode()
            elif base == 'hexBinary':
                v = v.encode('utf8')
                s = v.hex()
            elif base == 'normalizedString':
                v = s = re.sub(r'[\r\n\t]', ' ', v).strip()
            n = len(v if isinstance(v, bytes) else s)
            if base == 'NMTOKEN' and not s:
                continue
            ok = (L is None or n == L) and (lo is None or n >= lo) and (hi is None or n <= hi)
        r = e = None
        try:
            r = d.read(s)
        except ValueError as ex:
            e = ex
        if ok and e:
            fail('{!r} of length {} satisfies {!r}, but is rejected: {!r}', s, n, spec, e)
        if not ok:
            expect(e, '{!r} of length {} violates {!r}, but is read as {!r}', s, n, spec, r)
        rec.label('satisfying' if ok else 'violating')
    rec.nt()


# ---------------------------------------------------------------- inapplicable facets

def inapplicable(tier):
    for base in dt.ALL:
        if base not in BOUNDED and base not in dt.RANGES:
            for k in LOWER + UPPER:
                for v in {'boolean': ['true', 'false'], 'hexBinary': ['00', ''], 'json': ['1', '0'],
                          }.get(base, ['YQ==', 'a'] if base in dt.BINARIES else ['a', 'x1']):
                    yield {'base': base, k: v}
        if base not in dt.STRINGS[:-1] + dt.BINARIES + ['anyURI', 'NMTOKEN', 'normalizedString', 'json']:
            for k in ['length', 'minLength', 'maxLength']:
                for v in [0, 1, 5]:
                    yield {'base': base, k: v}


def icheck(case, rec):
    d, err = create(dict(case))
    expect(err, 'facets not applicable to the base datatype accepted: {!r}', case)
    rec.label(case['base'])
    rec.nt()


# ---------------------------------------------------------------- regular expressions

ATOMS = ['a', 'b', '1', ' ', 'é', '-', '|', '.', '/']


@st.composite
def regexes(draw):
    def atom():
        return draw(st.one_of(
            st.sampled_from(ATOMS).map(lambda c: ['lit', c]),
            st.sampled_from([['class', 'ab'], ['class', '1a'], ['not', 'a'], ['digit'], ['any']])))

    def seq(depth):
        res = []
        for _ in range(draw(st.integers(0 if depth else 1, 3))):
            x = ['alt', [seq(depth - 1) for _ in range(draw(st.integers(1, 2)))]] \
                if depth and draw(st.integers(0, 3)) == 0 else atom()
            q = draw(st.sampled_from(['', '', '', '*', '+', '?', '{2}', '{1,2}']))
            if x[0] == 'alt' and any(qq in ('*', '+') for sq in x[1] for _, qq in sq):
                q = ''  # no nested repetitions: no catastrophic backtracking
            res.append([x, q])
        return res
    return [seq(1) for _ in range(draw(st.integers(1, 3)))]


def to_regex(alts):
    def one(x):
        if x[0] == 'alt':
            return '(' + to_regex(x[1]) + ')'
        return {'lit': lambda: re.escape(x[1]) if x[1] in '.|-/ ' and x[1] in '.|' else x[1],
                'class': lambda: '[' + x[1] + ']', 'not': lambda: '[^' + x[1] + ']',
                'digit': lambda: '[0-9]', 'any': lambda: '.'}[x[0]]()
    return '|'.join(''.join(one(x) + q for x, q in seq) for seq in alts)


def m_alts(alts, s, starts):
    res = set()
    for seq in alts:
        cur = set(starts)
        for x, q in seq:
            lo, hi = {'': (1, 1), '*': (0, 99), '+': (1, 99), '?': (0, 1), '{2}': (2, 2),
                      '{1,2}': (1, 2)}[q]
            acc, step = set(cur) if lo == 0 else set(), cur
            for i in range(1, hi + 1):
                new = m_one(x, s, step)
                if i >= lo:
                    if new <= acc and i > lo:
                        break
                    acc |= new
                step = new
                if not new:
                    break
            cur = acc
        res |= cur
    return res


def m_one(x, s, starts):
    if x[0] == 'alt':
        return m_alts(x[1], s, starts)
    f = {'lit': lambda c: c == x[1], 'class': lambda c: c in x[1], 'not': lambda c: c not in x[1],
         'digit': lambda c: c in '0123456789', 'any': lambda c: c != '\n'}[x[0]]
    return {i + 1 for i in starts if i < len(s) and f(s[i])}


@st.composite
def samples(draw, alts):
    def one(x):
        if x[0] == 'alt':
            return seq(draw(st.sampled_from(x[1])))
        return {'lit': lambda: x[1], 'class': lambda: draw(st.sampled_from(list(x[1]))),
                'not': lambda: draw(st.sampled_from('bc1')), 'digit': lambda: draw(st.sampled_from('059')),
                'any': lambda: draw(st.sampled_from('abx1'))}[x[0]]()

    def seq(sq):
        res = ''
        for x, q in sq:
            lo, hi = {'': (1, 1), '*': (0, 3), '+': (1, 3), '?': (0, 1), '{2}': (2, 2),
                      '{1,2}': (1, 2)}[q]
            for _ in range(draw(st.integers(lo, hi))):
                res += one(x)
        return res
    s = seq(draw(st.sampled_from(alts)))
    k = draw(st.integers(0, 5))
    if k == 0:
        s += draw(st.sampled_from(ATOMS + ['\n', 'x']))
    elif k == 1:
        s = draw(st.sampled_from(ATOMS + ['\n', 'x'])) + s
    elif k == 2 and s:
        i = draw(st.integers(0, len(s) - 1))
        s = s[:i] + s[i + 1:]
    return s


@st.composite
def rcases(draw):
    alts = draw(regexes())
    return {'base': draw(st.sampled_from(['string', 'string', 'normalizedString', 'anyURI', 'NMTOKEN',
                                          'xml', 'gDay', 'html', 'QName'])),
            'pad': draw(st.sampled_from(['', '', ' ', '\t ', '\n'])),
            'alts': alts, 'values': draw(st.lists(samples(alts), min_size=1, max_size=6))}


DURATIONS = ['P1D', 'P12D', '-P1D', 'P1DT1H', 'PT1H', 'PT0.5S', 'PT1H30M', 'P1Y', 'P2Y3M', '-P1Y', 'P01D',
             'P1M', 'PT1M', 'P11M', '-PT1M', 'PT10S', 'P1Y2M3DT4H5M6S']


@st.composite
def drcases(draw):
    """Durations and patterns: what a duration looks like, possibly with something added or missing."""
    alts = []
    for d in draw(st.lists(st.sampled_from(DURATIONS), min_size=1, max_size=2)):
        seq = []
        for c in d:
            if c.isdigit() and draw(st.booleans()):
                seq.append([['digit'], draw(st.sampled_from(['', '+', '{1,2}']))])
            else:
                seq.append([['lit', c], '?' if c == '-' and draw(st.booleans()) else ''])
        k = draw(st.integers(0, 3))
        if k == 0:
            seq = seq[draw(st.integers(0, 2)):]
        elif k == 1:
            seq = seq[:-draw(st.integers(1, 2))] or seq
        elif k == 2:
            seq.append([['any'], draw(st.sampled_from(['*', '+', '?']))])
        alts.append(seq)
    base = draw(st.sampled_from(['duration', 'duration', 'dayTimeDuration', 'yearMonthDuration']))
    values = [d for d in DURATIONS if base == 'duration' or base == (
        'yearMonthDuration' if re.fullmatch('-?P([0-9]+Y)?([0-9]+M)?', d) else
        'dayTimeDuration' if re.fullmatch('-?P([0-9]+D)?(T.*)?', d) else '')]
    return {'base': base, 'pad': '',
            'alts': alts, 'values': draw(st.lists(st.sampled_from(values), min_size=1, max_size=6))}


def rcheck(case, rec):
    base, alts = case['base'], case['alts']
    with oracle():
        regex = to_regex(alts)
    if not regex:
        raise Skip()
    d = Datatype.fromvalue({'base': base, 'format': regex})
    for s in case['values']:
        s = s if base.endswith('uration') else s[:12]
        raw = s
        if base == 'normalizedString':
            # The format applies to the normalized string.
            raw = case.get('pad', '') + s + case.get('pad', '')[:1]
            s = re.sub('[\r\n\t]', ' ', s).strip()
        with oracle():
            ok = len(s) in m_alts(alts, s, {0})
            assert ok == bool(re.fullmatch(regex, s)), (regex, s)
            if base == 'NMTOKEN':
                ok = ok and bool(re.fullmatch('[a-zé0-9.:-]+', s))
            if base == 'anyURI' and not re.fullmatch('[a-z0-9]+', s):
                if ok:
                    continue
        r = e = None
        try:
            r = d.read(raw)
        except ValueError as ex:
            e = ex
        if ok and e:
            fail('{!r} matches {!r}, but is rejected for {}: {!r}', s, regex, base, e)
        if not ok:
            expect(e, '{!r} does not match {!r}, but is read by {} as {!r}', s, regex, base, r)
        rec.label('matching' if ok else 'other')
    rec.label(base)
    rec.nt()


# ---------------------------------------------------------------- boolean and JSON formats

word = st.one_of(st.sampled_from(['Y', 'N', 'yes', 'no', '1', '0', 'true', 'false', 'x', '-', '+',
                                  '.', '*', 'X', '', ' ', 'Yea', 'Nay', '(', '[']), gen.text(4)).filter(
    lambda s: '|' not in s)


@st.composite
def boolcases(draw):
    a, b = draw(word), draw(word)
    return {'true': a, 'false': b if b != a else a + '1',
            'values': draw(st.lists(st.one_of(word, st.just(a), st.just(b), st.sampled_from(
                ['true', 'false', '1', '0', a + '|' + b, a.upper(), a + ' ', '|'])), max_size=6))}


def boolcheck(case, rec):
    t, f = case['true'], case['false']
    d = Datatype.fromvalue({'base': 'boolean', 'format': t + '|' + f})
    eq(d.formatted(True), t, 'true')
    eq(d.formatted(False), f, 'false')
    eq(d.read(t), True, 'reading {!r}', t)
    eq(d.read(f), False, 'reading {!r}', f)
    for v in case['values']:
        if v not in (t, f):
            expect(raises(ValueError, d.read, v), '{!r} accepted with format {!r}|{!r}', v, t, f)
    rec.nt()


TYPES = ['object', 'array', 'string', 'integer', 'number', 'boolean', 'null']


@st.composite
def jcases(draw):
    schema = {}
    if draw(st.integers(0, 3)):
        schema['type'] = draw(st.sampled_from(TYPES))
    k = draw(st.integers(0, 5))
    if k == 0:
        schema['enum'] = draw(st.lists(st.sampled_from(['a', 'b', 2, None]), min_size=1, max_size=3,
                                       unique_by=repr))
    elif k == 1:
        schema['required'] = draw(st.lists(st.sampled_from(['a', 'b', 'c']), min_size=1, max_size=2,
                                           unique=True))
    elif k == 2:
        schema['minimum'] = draw(st.integers(-3, 3))
    elif k == 3:
        schema['maxLength'] = draw(st.integers(0, 3))
    elif k == 4:
        schema['maxItems'] = draw(st.integers(0, 2))
    key = st.sampled_from(['a', 'b', 'c'])
    leaf = st.one_of(st.none(), st.booleans(), st.integers(-5, 5), st.sampled_from(
        ['', 'a', 'b', 'abcd', 'ab']), st.sampled_from([0.5, -7.25]))
    val = st.one_of(leaf, st.lists(leaf, max_size=3), st.dictionaries(key, leaf, max_size=3))
    return {'schema': schema, 'values': draw(st.lists(val, min_size=1, max_size=6))}


def valid(schema, v):
    isnum = isinstance(v, (int, float)) and not isinstance(v, bool)
    if 'type' in schema:
        if not {'object': isinstance(v, dict), 'array': isinstance(v, list),
                'string': isinstance(v, str), 'integer': isnum and isinstance(v, int),
                'number': isnum, 'boolean': isinstance(v, bool), 'null': v is None}[schema['type']]:
            return False
    if 'enum' in schema and not any(type(v) is type(e) and v == e for e in schema['enum']):
        return False
    if 'required' in schema and isinstance(v, dict) and not set(schema['required']) <= set(v):
        return False
    if 'minimum' in schema and isnum and v < schema['minimum']:
        return False
    if 'maxLength' in schema and isinstance(v, str) and len(v) > schema['maxLength']:
        return False
    if 'maxItems' in schema and isinstance(v, list) and len(v) > schema['maxItems']:
        return False
    return True


def jcheck(case, rec):
    d = Datatype.fromvalue({'base': 'json', 'format': json.dumps(case['schema'])})
    for v in case['values']:
        with oracle():
            ok = valid(case['schema'], v)
        s = json.dumps(v)
        r = e = None
        try:
            r = d.read(s)
        except ValueError as ex:
            e = ex
        if ok:
            if e:
                fail('{} conforms to {!r}, but is rejected: {!r}', s, case['schema'], e)
            eq(dt.plain_json(r), v, 'reading {!r}', s)
        else:
            expect(e, '{} does not conform to {!r}, but is read as {!r}', s, case['schema'], r)
        rec.label('valid' if ok else 'invalid')
    rec.nt(bool(case['schema']))


PROP = Prop(
    'C09',
    [Sub('bounds', bcases(), bcheck, quick=8000, thorough=400000),
     Sub('lengths', lcases(), lcheck, quick=6000, thorough=100000),
     Enum('inapplicable', inapplicable, icheck),
     Sub('regex', rcases(), rcheck, quick=4000, thorough=200000),
     Sub('duration-regex', drcases(), rcheck, quick=3000, thorough=60000),
     Sub('boolean', boolcases(), boolcheck, quick=3000, thorough=50000),
     Sub('json', jcases(), jcheck, quick=4000, thorough=60000)],
    rule='Facets at, next to and far from the values, given as strings or JSON numbers; contradictory '
         'combinations and facets on other datatypes; regular expressions generated with a reference '
         'matcher. Non-trivial: at least one value or combination with a determined verdict.',
    assumptions=[
        'Dates with and without timezone less than 14 hours apart, and durations whose order XML '
        'Schema leaves undetermined, are not judged.',
        'NaN is not generated.'])
