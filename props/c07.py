"""C07: number formats (pattern, group character, decimal character, percent)."""
import decimal

from hypothesis import strategies as st

from csvw import Datatype
from vf.core import *
from . import dt

D = decimal.Decimal
BASES = ['decimal', 'decimal', 'decimal', 'integer', 'integer', 'long', 'nonNegativeInteger',
         'double', 'float', 'number']
CTX = decimal.Context(prec=400, Emax=10 ** 6, Emin=-10 ** 6)


def pattern_string(p):
    """From the structure of a pattern to its UAX35 notation."""
    g = p['groups']           # [] or [primary] or [secondary, primary]
    m = p['min_int']
    if g:
        digits = g[-1] + (g[0] if len(g) == 2 else 0)
        s = '#' * max(0, digits - m) + '0' * m
        s = '#' * max(1, m + 1 - len(s)) + s
        out = ''
        sizes = [g[-1]] + ([g[0]] * 20)
        # insert group characters from the right
        rest, parts = s, []
        for i, size in enumerate(sizes):
            if not rest:
                break
            if i >= len(g):
                parts.append(rest)
                rest = ''
                break
            parts.append(rest[-size:])
            rest = rest[:-size]
        out = ','.join(reversed(parts))
    else:
        out = '#' * p['hashes'] + '0' * m
    if p['min_frac'] or p['opt_frac']:
        out += '.' + '0' * p['min_frac'] + '#' * p['opt_frac']
    out = p['suffix'] + out if p.get('before') else out + p['suffix']
    neg = p['negative']
    return ('+' if p['plus'] else '') + out + (';' + out + '-' if neg == 'trailing' else (';-' + out if neg == 'explicit' else ''))


@st.composite
def patterns(draw, base):
    integer = base in dt.RANGES
    groups = draw(st.sampled_from([[], [3], [3], [3], [2, 3], [4], [2], [3, 2]]))
    min_frac = 0 if integer else draw(st.integers(0, 3))
    opt_frac = 0 if integer else draw(st.integers(0, 4))
    if draw(st.integers(0, 3)) == 0:
        min_frac = opt_frac = 0
    # A leading group is only declared by the pattern if it has at least one more position than digits.
    return dict(
        groups=groups, hashes=draw(st.integers(0, 2)),
        min_int=draw(st.integers(0 if min_frac and not groups else 1, min(4, sum(groups) or 4))),
        min_frac=min_frac, opt_frac=opt_frac,
        suffix=draw(st.sampled_from(['', '', '', '%', '‰'])), before=draw(st.integers(0, 3)) == 0,
        negative=draw(st.sampled_from([None, None, None, 'explicit', 'trailing'])),
        plus=draw(st.integers(0, 5)) == 0)


@st.composite
def formats(draw, base, with_pattern=True):
    p = draw(patterns(base)) if with_pattern else None
    sep = draw(st.sampled_from([
        (None, None), (None, None), ('.', ','), (None, ','), (' ', None), ("'", '.'), ('.', None),
        ("\u00a0", ','), ('_', None), (None, '·'), (',', '.'), ('x', 'y'), (None, '-'), ('|', '*'),
        ('^', None), (']', '\\')]))
    if sep == ('.', None):
        sep = ('.', ',')
    if sep == (None, ',') and p and p['groups']:
        sep = ('.', ',')
    if sep == (None, '-'):
        sep = (None, ':')
    return dict(pattern=p, groupChar=sep[0], decimalChar=sep[1])


def datatype(base, f):
    fmt = {k: f[k] for k in ('groupChar', 'decimalChar') if f[k]}
    if f['pattern']:
        fmt['pattern'] = pattern_string(f['pattern'])
        if len(fmt) == 1 and f['pattern']['hashes'] % 2 == 0:
            fmt = fmt['pattern']
    return Datatype.fromvalue({'base': base, 'format': fmt} if fmt else base)


def affixed(p, number):
    return p['suffix'] + number if p.get('before') else number + p['suffix']


def shift(p):
    return {'': 0, '%': 2, '‰': 3}[p['suffix']] if p else 0


def group(digits, groups, sep):
    if not groups or not sep:
        return digits
    parts = [digits[-groups[-1]:]]
    digits = digits[:-groups[-1]]
    size = groups[0]
    while digits:
        parts.append(digits[-size:])
        digits = digits[:-size]
    return sep.join(reversed(parts))


def chars(f):
    g = f['groupChar'] or (',' if f['pattern'] and f['pattern']['groups'] else None)
    return g, f['decimalChar'] or '.'


def render(v, f, rounding):
    """Reference formatter: set of acceptable strings."""
    p = f['pattern']
    g, d = chars(f)
    q = CTX.scaleb(v, shift(p))
    q = q.quantize(D((0, (1,), -(p['min_frac'] + p['opt_frac']))), rounding=rounding, context=CTX)
    sign, digits, exp = q.as_tuple()
    n = p['min_frac'] + p['opt_frac']
    s = ''.join(map(str, digits)).rjust(n + 1, '0')
    i, fr = (s[:-n], s[-n:]) if n else (s, '')
    i = i.lstrip('0').rjust(p['min_int'], '0')
    while len(fr) > p['min_frac'] and fr.endswith('0'):
        fr = fr[:-1]
    res = set()
    for ii in {i, i or '0'}:
        body = affixed(p, group(ii, p['groups'], g) + (d + fr if fr else ''))
        neg = body + '-' if p['negative'] == 'trailing' else '-' + body
        body = '+' * p['plus'] + body
        if q == 0:
            res |= {body, neg}
        else:
            res.add(neg if sign else body)
    return res, CTX.scaleb(q, -shift(p))


def same_value(base, got, want):
    if base in dt.RANGES:
        return type(got) is int and D(got) == want
    if base in dt.FLOATS:
        return type(got) is float and got == float(want)
    return type(got) is D and got == want


@st.composite
def fcases(draw):
    base = draw(st.sampled_from(BASES))
    f = draw(formats(base))
    if base in dt.RANGES:
        v = draw(dt.integers(base))
    elif base in dt.FLOATS:
        v = draw(st.one_of(st.floats(-1e22, 1e22), st.floats(-1000, 1000), st.sampled_from(
            [0.5, 0.125, 1e-7, 123456.785, 1e16, -0.0, 0.005, 99.995, 1234567.891])))
    else:
        v = draw(st.one_of(dt.decimals(), st.tuples(
            st.integers(-10 ** 9, 10 ** 9), st.integers(0, 6)).map(lambda t: D(t[0]).scaleb(-t[1]))))
    return {'base': base, 'format': f, 'value': v}


def fcheck(case, rec):
    base, f, v = case['base'], case['format'], case['value']
    p = f['pattern']
    with oracle():
        exact = D(repr(v)) if isinstance(v, float) else D(v)
        options, values = set(), []
        for r in (decimal.ROUND_HALF_EVEN, decimal.ROUND_HALF_UP):
            o, q = render(exact, f, r)
            options |= o
            values.append(q)
    d = datatype(base, f)
    s = d.formatted(v)
    expect(s in options, '{!r} formatted with {!r}: expected {!r}, got {!r}',
           v, d.format, sorted(options), s)
    if base in dt.RANGES and not all(q == q.to_integral_value() for q in values):
        return
    r = d.read(s)
    expect(any(same_value(base, r, q) for q in values),
           '{!r} formatted with {!r} as {!r} is read as {!r}', v, d.format, s, r)
    # Formatting is stable under reading
    if any(c in '123456789' for c in s):
        eq(d.formatted(r), s, 'formatting {!r} read from {!r} with {!r}', r, s, d.format)
    rec.label(base, 'grouped' if p['groups'] else 'plain', p['suffix'] or 'nosuffix',
              'neg' if exact < 0 else 'pos', 'rounded' if values[0] != exact else 'exact')
    g, dc = chars(f)
    rec.nt((g and g in s) or dc in s or p['suffix'])


@st.composite
def rcases(draw):
    """Strings assembled from parts, conforming to the format or with one defect."""
    base = draw(st.sampled_from(['decimal', 'decimal', 'double', 'number', 'integer', 'long', 'byte',
                                 'unsignedShort', 'negativeInteger']))
    f = draw(formats(base, with_pattern=draw(st.integers(0, 4)) > 0))
    p = f['pattern']
    g, d = chars(f)
    i = draw(st.text('0123456789', min_size=1, max_size=10))
    if p:
        i = i.rjust(p['min_int'], '7')
        fr = draw(st.text('0123456789', min_size=p['min_frac'],
                          max_size=p['min_frac'] + p['opt_frac']))
        groups = p['groups']
        suffix = p['suffix']
    else:
        fr = draw(st.text('0123456789', max_size=6)) if base not in dt.RANGES else \
            draw(st.sampled_from(['', '', '', '0', '00', '5']))
        groups = draw(st.sampled_from([[], [3]])) if g else []
        suffix = draw(st.sampled_from(['', '', '', '%', '‰']))
    sign = draw(st.sampled_from(['', '', '-', '+']))
    if p and p['plus'] and not sign:
        sign = '+'
    defects = ['none', 'none', 'none']
    if p and p['min_int'] > 1 and not fr:
        defects += ['short_int', 'short_int']
    if p and p['negative'] != 'trailing':
        defects += ['trailing_sign']
    if suffix:
        defects += ['two_suffixes', 'suffix_first']
    if p:
        defects += ['long_frac', 'long_frac']
        if p['min_frac']:
            defects += ['short_frac', 'no_frac']
        if p['min_int'] > 1:
            defects.append('short_int')
        if groups:
            defects += ['ungrouped', 'moved', 'extra_group', 'short_group', 'long_first', 'short_middle', 'long_middle']
    if g:
        defects.append('double_group')
    if base in dt.RANGES:
        defects.append('point')
    if base in dt.FLOATS:
        defects.append('bare_e')
    defects += ['undeclared', 'two_points', 'letter', 'empty', 'two_signs']
    defect = draw(st.sampled_from(defects))
    k = draw(st.integers(0, 30))
    # Numbers without pattern may have an exponent.
    exp = draw(st.sampled_from(['', '', 'e2', 'E-3', 'e+1'])) if not p and base in dt.FLOATS and defect == 'none' else ''
    return {'base': base, 'format': f, 'int': i, 'frac': fr, 'groups': groups, 'sign': sign, 'exp': exp,
            'suffix': suffix, 'defect': defect, 'k': k}


def assemble(case):
    """:return: (string, verdict, value)"""
    f, i, fr, groups = case['format'], case['int'], case['frac'], case['groups']
    p = f['pattern']
    g, d = chars(f)
    defect, k, sign, suffix = case['defect'], case['k'], case['sign'], case['suffix']
    ok = True
    if defect == 'long_frac':
        fr = fr.ljust(p['min_frac'] + p['opt_frac'], '3') + '1' * (1 + k % 3)
        ok = False
    elif defect == 'short_frac':
        fr = fr[:p['min_frac'] - 1]
        ok = False
    elif defect == 'no_frac':
        fr = ''
        ok = False
    elif defect == 'short_int':
        i = i[:p['min_int'] - 1]
        ok = False
    s = group(i, groups, g)
    if defect == 'ungrouped':
        i = i.rjust(groups[-1] + 1 + k % 4, '5')
        s = i
        ok = False
    elif defect == 'moved':
        i = i.rjust(sum(groups) + 2, '5')
        s = group(i, groups, g)
        a = s.rindex(g)
        s = s[:a - 1] + g + s[a - 1] + s[a + 1:] if k % 2 else s[:a] + s[a + 1] + g + s[a + 2:]
        ok = False
    elif defect == 'extra_group':
        s = s + g
        ok = False
    elif defect == 'short_group':
        i = i.rjust(groups[-1] + 1, '5')
        s = group(i, groups, g)[:-1]
        ok = False
    elif defect == 'long_first':
        # more digits before the first separator than a group may have
        i = '9' * (groups[0] + 1 + k % 3) + '1' * groups[-1]
        s = i[:-groups[-1]] + g + i[-groups[-1]:]
        ok = False
    elif defect in ('short_middle', 'long_middle'):
        # more than two groups, one in the middle has not the declared size
        i = i.rjust(groups[-1] + 2 * groups[0] + 1, '5')
        parts = group(i, groups, g).split(g)
        a = 1 + k % (len(parts) - 2)
        parts[a] = parts[a][1:] or '55' if defect == 'short_middle' else parts[a] + '5'
        s = g.join(parts)
        ok = False
    elif defect == 'double_group':
        i = i.rjust(4, '5')
        s = [i[:-3] + g + g + i[-3:], g + g + i, i + g + g][k % 3]
        ok = False
    number = s + (d + fr if fr else '')
    if defect == 'point':
        number, ok = s + d, False
    elif defect == 'bare_e':
        number, ok = number + 'eE'[k % 2], False
    if defect == 'undeclared':
        c = [c for c in '.,;:/' if c not in (g, d)][k % 3]
        if case['base'] in dt.FLOATS and c == '.':
            c = ';'
        a = k % (len(number) + 1)
        number = number[:a] + c + number[a:]
        ok = False
    elif defect == 'two_points':
        number = s + d + '1' + d + '2'
        ok = False
    elif defect == 'letter':
        a = k % (len(number) + 1)
        number = number[:a] + 'abcdfz'[k % 6] + number[a:]
        ok = ('abcdfz'[k % 6] in (g, d))and None
    elif defect == 'empty':
        number = ''
        ok = False
    elif defect == 'two_signs':
        number = '-+' + number
        ok = False
    if defect == 'none' and p is None and case['base'] in dt.RANGES and fr:
        ok = False
    value = CTX.scaleb(D(i + '.' + (fr or '0')),
                       -{'': 0, '%': 2, '‰': 3}[suffix])
    if sign == '-':
        value = value.copy_negate()
    trailing = p and p['negative'] == 'trailing'
    if defect == 'suffix_first':
        return sign + suffix + number, None, value
    if case.get('exp'):
        number += case['exp']
        value = CTX.scaleb(value, int(case['exp'][1:]))
    number = suffix + number if p and p.get('before') else number + suffix
    if defect == 'trailing_sign':
        return number + '-', False, value
    if defect == 'two_suffixes':
        return sign + number + ['%', '‰', suffix][k % 3], False, value
    if trailing and sign == '-':
        return number + '-', ok, value
    return sign + number, ok, value


def rcheck(case, rec):
    base = case['base']
    with oracle():
        s, ok, value = assemble(case)
    d = datatype(base, case['format'])
    rec.label(case['defect'], base)
    if ok is None:
        raise Skip()
    if ok and base in dt.RANGES and value != value.to_integral_value():
        ok = False
    if ok and base in dt.RANGES:
        lo, hi = dt.RANGES[base]
        ok = lo <= value <= hi
    try:
        v = d.read(s)
    except ValueError as e:
        if ok:
            fail('{!r} conforms to {!r}, but is rejected: {!r}', s, d.format, e)
        rec.nt()
        return
    if not ok:
        fail('{!r} does not conform to format {!r} ({}), but is read as {!r}',
             s, d.format, case['defect'], v)
    expect(same_value(base, v, value), '{!r} with {!r} read as {!r}, expected {!r}',
           s, d.format, v, value)
    if base == 'decimal':
        expect(v == value, '{!r} read as {!r}, expected {!r}', s, v, value)
    rec.nt()


@st.composite
def scases(draw):
    """Separators without pattern: round trip of any value."""
    base = draw(st.sampled_from(BASES))
    f = draw(formats(base, with_pattern=False))
    v = draw(dt.integers(base) if base in dt.RANGES else (
        dt.floats() if base in dt.FLOATS else dt.decimals()))
    return {'base': base, 'format': f, 'value': v}


def scheck(case, rec):
    base, f, v = case['base'], case['format'], case['value']
    d = datatype(base, f)
    s = d.formatted(v)
    eq(dt.canon(base, d.read(s)), dt.canon(base, v), '{!r} formatted with {!r} as {!r}, read again',
       v, d.format, s)
    g, dc = f['groupChar'], f['decimalChar']
    if dc and dc != '.' and '.' != g:
        expect('.' not in s, '{!r} formatted with {!r}: {!r}', v, d.format, s)
    if g and base in dt.RANGES and abs(v) >= 1000:
        eq(s, '{:,}'.format(v).replace(',', g), 'formatting {!r} with {!r}', v, d.format)
    rec.label(base)
    rec.nt((g and g in s) or (dc and dc in s))


@st.composite
def ecases(draw):
    """Patterns with exponents."""
    a, b = draw(st.integers(0, 3)), draw(st.integers(0, 3))
    case = {'base': draw(st.sampled_from(dt.FLOATS)), 'a': a, 'b': b if a + b else 1,
            'c': draw(st.integers(1, 3)), 'plus': draw(st.booleans()),
            'decimalChar': draw(st.sampled_from([None, None, ','])),
            'value': draw(st.one_of(
                st.floats(-1e9, 1e9), st.floats(-10, 10), st.floats(-1e99, 1e99),
                st.sampled_from([0.0, 9.9999, 1e-7, 99.995, 1e22, -1e-300, 5e-324, 1.7e308, 1.0, 1000.0, -0.5]))),
            'int': draw(st.sampled_from('123456789')), 'defect': draw(st.sampled_from(
                [None, None, 'long_frac', 'short_frac', 'long_exp', 'two_exp', 'letter', 'no_digit'])),
            'exp': draw(st.text('0123456789', min_size=1, max_size=3)), 'sign': draw(st.sampled_from(['', '-', '+'])),
            'esign': draw(st.sampled_from(['', '-'])), 'k': draw(st.integers(0, 9))}
    case['frac'] = draw(st.text('0123456789', min_size=a, max_size=a + case['b']))
    return case


def echeck(case, rec):
    a, b, c, v = case['a'], case['b'], case['c'], case['value']
    dc = case['decimalChar'] or '.'
    pattern = '0.' + '0' * a + '#' * b + 'E' + '+' * case['plus'] + '0' * c
    fmt = {'pattern': pattern}
    if case['decimalChar']:
        fmt['decimalChar'] = dc
    d = Datatype.fromvalue({'base': case['base'], 'format': fmt})
    with oracle():
        exact = D(repr(v))
        options = set()
        for e in ({exact.adjusted(), exact.adjusted() + 1} if exact else {0}):
            m = abs(CTX.scaleb(exact, -e))
            for r in (decimal.ROUND_HALF_EVEN, decimal.ROUND_HALF_UP):
                q = m.quantize(D(1).scaleb(-a - b), rounding=r, context=CTX)
                if (exact and q < 1) or q > 10:
                    continue
                i, _, f = '{:f}'.format(q).partition('.')
                while len(f) > a and f.endswith('0'):
                    f = f[:-1]
                exp = ('-' if e < 0 else '+' * case['plus']) + str(abs(e)).rjust(c, '0')
                for sign in {'-'} if exact < 0 else ({'', '-'} if exact == 0 else {''}):
                    options.add(sign + i + (dc + f if f else '') + 'E' + exp)
    s = d.formatted(v)
    expect(s in options, '{!r} formatted with {!r}: expected {!r}, got {!r}', v, d.format, sorted(options), s)
    if len(s.partition('E')[2].lstrip('+-')) <= c:
        r = d.read(s)
        expect(isinstance(r, float) and r == float(s.replace(dc, '.')), '{!r} with {!r} is read as {!r}', s, d.format, r)
    # Strings conforming to the pattern, or with one defect.
    i, f, exp, defect, k = case['int'], case['frac'], case['exp'][:c], case['defect'], case['k']
    ok = defect is None
    if defect == 'long_frac':
        f = f.ljust(a + b, '3') + '1'
    elif defect == 'short_frac':
        f = f[:a - 1] if a else f
        ok = not a
    elif defect == 'long_exp':
        exp = exp.rjust(c, '0') + '0'
        ok = None if case['plus'] else False
    elif defect == 'two_exp':
        exp += 'E' + exp
    elif defect == 'letter':
        exp = exp[:k] + 'xaf,.'[k % 5] + exp[k:]
    elif defect == 'no_digit':
        exp = ''
    s = case['sign'] + i + (dc + f if f else '') + 'E' + case['esign'] + exp
    try:
        r = d.read(s)
    except ValueError as e:
        if ok:
            fail('{!r} conforms to {!r}, but is rejected: {!r}', s, d.format, e)
    else:
        if ok is False:
            fail('{!r} does not conform to {!r} ({}), but is read as {!r}', s, d.format, defect, r)
        expect(r == float(s.replace(dc, '.')), '{!r} with {!r} is read as {!r}', s, d.format, r)
    rec.label(defect or 'conforming', case['base'])
    rec.nt()


PROP = Prop(
    'C07',
    [Sub('format', fcases(), fcheck, quick=12000, thorough=300000),
     Sub('read', rcases(), rcheck, quick=12000, thorough=300000),
     Sub('exponents', ecases(), echeck, quick=3000, thorough=60000),
     Sub('separators', scases(), scheck, quick=6000, thorough=100000)],
    rule='Patterns generated structurally (grouping sizes, minimal and optional digits, percent and '
         'per-mille, negative patterns), separators, values; strings to read are assembled from '
         'parts, conforming or with one known defect. Non-trivial: the formatted string contains a '
         'separator or suffix; respectively any string with required verdict.',
    assumptions=[
        'At ties, rounding half even and half up are both accepted; zero may keep its sign.',
        'A pattern without digit before the decimal point may be rendered with or without 0.',
        'Quoted literals in patterns and exponents with group characters are not generated.',
        'Group separators in strings, where the pattern has none, are not judged.'])
