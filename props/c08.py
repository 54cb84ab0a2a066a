"""C08: date and time formats read and write the fields they name."""
import re
import datetime
import warnings

from hypothesis import strategies as st

from csvw import Datatype
from vf.core import *
from . import dt

DATES = ["yyyy-MM-dd", "yyyyMMdd", "dd-MM-yyyy", "d-M-yyyy", "MM-dd-yyyy", "M-d-yyyy",
         "dd/MM/yyyy", "d/M/yyyy", "MM/dd/yyyy", "M/d/yyyy", "dd.MM.yyyy", "d.M.yyyy",
         "MM.dd.yyyy", "M.d.yyyy"]
TIMES = ["HH:mm:ss", "HHmmss", "HH:mm", "HHmm"]
TZ = ['', 'X', 'XX', 'XXX', 'x', 'xx', 'xxx', ' X', ' XX', ' XXX', ' x', ' xx', ' xxx']
FRACTIONS = ['', '.S', '.SS', '.SSS', '.SSSS', '.SSSSS', '.SSSSSS', '.SSSSSSSSS']


def formats():
    for tz in TZ:
        for d in DATES:
            yield 'date', d, '', '', '', tz
        for t in TIMES:
            for f in FRACTIONS:
                if f and 'ss' not in t:
                    continue
                yield 'time', '', '', t, f, tz
                for d in DATES:
                    for sep in ' T':
                        for base in ['dateTime', 'datetime'] + (['dateTimeStamp'] if tz else []):
                            yield base, d, sep, t, f, tz


ALL_FORMATS = list(formats())


def offset(v):
    off = v.utcoffset()
    return None if off is None else off // datetime.timedelta(minutes=1)


def render(v, d, sep, t, f, tz):
    """Independent formatter."""
    out, fields = '', dict(
        yyyy='%04d' % v.year, MM='%02d' % v.month, dd='%02d' % v.day, M=str(v.month), d=str(v.day),
        HH='%02d' % v.hour, mm='%02d' % v.minute, ss='%02d' % v.second)
    for tok in re.findall('yyyy|MM|M|dd|d|[^yMd]', d):
        out += fields.get(tok, tok)
    out += sep
    for tok in re.findall('HH|mm|ss|:', t):
        out += fields.get(tok, tok)
    if f:
        out += '.' + ('%06d' % v.microsecond).ljust(9, '0')[:len(f) - 1]
    if tz:
        off = offset(v) or 0
        x = tz.strip()
        if tz[0] == ' ':
            out += ' '
        if off == 0 and 'X' in x:
            return out + 'Z'
        h, m = divmod(abs(off), 60)
        out += ('-' if off < 0 else '+') + '%02d' % h
        if len(x) == 1:
            out += '%02d' % m if m else ''
        else:
            out += (':' if len(x) == 3 else '') + '%02d' % m
    return out


def truncate(v, d, sep, t, f, tz):
    if not t:
        v = v.replace(hour=0, minute=0)
    if 'ss' not in t:
        v = v.replace(second=0)
    n = min(len(f) - 1, 6) if f else 0
    unit = 10 ** (6 - n)
    v = v.replace(microsecond=v.microsecond // unit * unit)
    if not tz:
        v = v.replace(tzinfo=None)
    elif v.tzinfo is None:
        v = v.replace(tzinfo=datetime.timezone.utc)
    return v


def key(base, v):
    return (v.time().isoformat() if base == 'time' else v.replace(tzinfo=None).isoformat(), offset(v))


def check(case, rec):
    base, *f = case['format']
    fmt = ''.join(f)
    rec.label(base, 'tz' + f[-1].strip() if f[-1] else 'notz', 'fraction' if f[3] else 'nofraction')
    # A string is just a shorthand for an object with a pattern.
    d = Datatype.fromvalue({'base': base, 'format': {'pattern': fmt} if len(case['values']) == 3 else fmt})
    for v in case['values']:
        with oracle():
            want = render(v, *f)
            wv = truncate(v, *f)
        s = d.formatted(v)
        eq(s, want, '{!r} formatted as {} {!r}', v, base, fmt)
        r = d.read(s)
        expect(isinstance(r, datetime.datetime), 'read {!r}', r)
        eq(key(base, r), key(base, wv), 'reading {!r} with {} {!r}', s, base, fmt)
        if len(f[3]) > 7:
            # Digits beyond microseconds are dropped.
            i = s.index(want[want.rindex('.'):]) + 9
            eq(key(base, d.read(s[:i] + '7' + s[i + 1:])), key(base, wv), 'reading {!r} with more digits', s)
        if f[4]:
            expect(r.tzinfo is not None, 'time zone of {!r} lost', s)
    rec.nt()


zone = datetime.timezone


def tz(m):
    return zone(datetime.timedelta(minutes=m))


FIXED = [datetime.datetime(2020, 2, 29, 23, 59, 58, 123456, tz(330)),
         datetime.datetime(3, 12, 1, 0, 0, 0, 7000, tz(-210)),
         datetime.datetime(1999, 11, 10, 5, 30, 1, 0, tz(0)),
         datetime.datetime(2015, 3, 22, 12, 7, 9, 999999, tz(840)),
         datetime.datetime(2015, 1, 2, 3, 4, 5, 600000, tz(-60)),
         datetime.datetime(2001, 10, 11, 20, 0, 0, 50000, tz(-30))]


def enumerated(tier):
    for f in ALL_FORMATS:
        yield {'format': list(f), 'values': FIXED + [FIXED[2].replace(tzinfo=None)]}


@st.composite
def random_values(draw):
    return {'format': list(draw(st.sampled_from(ALL_FORMATS))),
            'values': draw(st.lists(dt.datetimes(), min_size=1, max_size=4))}


@st.composite
def bad(draw):
    """A correctly formatted string, made wrong in a known way."""
    f = draw(st.sampled_from(ALL_FORMATS))
    defects = ['trailing', 'leading', 'other_sep', 'letter', 'nonascii', 'dropped']
    if f[1]:
        defects += ['day', 'month', 'feb', 'day0', 'month0', 'year']
    if f[3]:
        defects += ['hour', 'minute'] + (['second'] if 'ss' in f[3] else [])
    if f[4]:
        defects.append('long_fraction')
    if f[3] and not f[4]:
        defects.append('fraction')
    defects += ['notz', 'badtz', 'tzspace'] if f[5] else ['tz']
    return {'format': list(f), 'value': draw(dt.datetimes()), 'defect': draw(st.sampled_from(defects)),
            'k': draw(st.integers(0, 40))}


class Fields:
    """Values which need not form a valid datetime."""
    def __init__(self, v, **kw):
        for a in ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond']:
            setattr(self, a, kw.get(a, getattr(v, a)))
        self.v = v

    def utcoffset(self):
        return self.v.utcoffset()


def spoil(case):
    f, v, defect, k = case['format'][1:], case['value'], case['defect'], case['k']
    base = case['format'][0]
    s = render(v, *f)
    plain = render(v, *(f[:-1] + ['']))
    if defect == 'trailing':
        return s + ['x', '.', '0x', ' 1', '-', '\n1'][k % 6]
    if defect == 'leading':
        return ['x', '.', '-', '+', '1 '][k % 5] + s
    if defect in ('day', 'month', 'day0', 'month0', 'hour', 'minute', 'second', 'feb'):
        kw = {'day': dict(day=32 + k), 'month': dict(month=13 + k, day=13 + k % 15),
              'day0': dict(day=0), 'month0': dict(month=0),
              'hour': dict(hour=25 + k), 'minute': dict(minute=60 + k % 39),
              'second': dict(second=61 + k % 38), 'feb': dict(month=[2, 4, 6, 9, 11][k % 5], day=31),
              }[defect]
        return render(Fields(v, **kw), *f)
    if defect == 'year':
        return render(Fields(v, year=0), *f)
    if defect in ('letter', 'nonascii', 'dropped'):
        pos = [i for i, c in enumerate(plain) if c.isdigit()]
        if f[3] and defect == 'dropped':
            pos = [i for i in pos if i < len(plain) - len(f[3])]  # fractions are optional
        if 'd' in f[0].replace('dd', '') and defect == 'dropped':
            pos = pos[-2:] if f[2] and not f[3] else []
            if not pos:
                return None
        i = pos[k % len(pos)]
        c = {'letter': 'O', 'dropped': '', 'nonascii': chr(0x660 + int(plain[i]))}[defect]
        return s[:i] + c + s[i + 1:]
    if defect == 'other_sep':
        pos = [i for i, c in enumerate(plain) if not c.isdigit()]
        if not pos:
            return None
        i = pos[k % len(pos)]
        return s[:i] + [c for c in '-/.:_T ,' if c != s[i]][k % 7] + s[i + 1:]
    if defect == 'long_fraction':
        return plain + '1' * (k % 3 + 1) + s[len(plain):]
    if defect == 'fraction':
        return plain + '.5' + s[len(plain):]
    if defect == 'notz':
        return plain
    if defect == 'tzspace':  # A space before the time zone where there must be none, or vice versa
        return plain + (s[len(plain) + 1:] if f[4][0] == ' ' else ' ' + s[len(plain):])
    if defect == 'badtz':
        return plain + (' ' if f[4][0] == ' ' else '') + [
            'Y', '+1', '0100', '+99:00', '+01:60', 'UTC', '+01:0', '++01', '+0x', '+-1'][k % 10]
    if defect == 'tz':
        return s + ['Z', '+01:00', ' Z', '-0330', '+01'][k % 5]


def bcheck(case, rec):
    with oracle():
        s = spoil(case)
    if s is None:
        raise Skip()
    base, fmt = case['format'][0], ''.join(case['format'][1:])
    d = Datatype.fromvalue({'base': base, 'format': fmt})
    good = render(case['value'], *case['format'][1:])
    d.read(good)
    try:
        v = d.read(s)
    except ValueError:
        rec.label(case['defect'])
        rec.nt()
        return
    fail('{!r} does not conform to {} format {!r} ({}), but is read as {!r}',
         s, base, fmt, case['defect'], v)


def bad_formats(tier):
    for base in ['date', 'dateTime', 'datetime', 'dateTimeStamp', 'time']:
        for fmt in ['yy-MM-dd', 'yyyy-MM', 'MM-yyyy', 'yyyy/MM/dd', 'dd-MM-yy', 'yyyy-MM-dd HH:mm:ss:SSS',
                    'yyyy-MM-ddTHH', 'hh:mm', 'HH:mm:ss.s', 'HH:mm:ss.SxS', 'HH.mm', 'abc', 'x', 'X',
                    'yyyy-MM-ddxX', 'HH:mmXx', 'yyyy-MM-ddXXXX', 'yyyy-MM-dd  X', 'EEE', 'ss', 'd/M',
                    'yyyy-MM.dd', 'yyyy-MM-ddTHH:mm:ssz', '%Y-%m-%d', 'd', 'yyyy', 'YYYY-MM-DD',
                    'yyyy-MM-ddT', ' HH:mm', 'HH:mm:ss.'] + (
                        ['yyyy-MM-dd'] if base == 'time' else []) + (
                        ['HH:mm'] if base != 'time' else []):
            yield {'base': base, 'format': fmt}


def bfcheck(case, rec):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            d = Datatype.fromvalue(dict(case))
        except ValueError:
            rec.nt()
            rec.label('refused')
            return
    expect(w, 'unsupported format {!r} for {} neither refused nor reported', case['format'], case['base'])
    rec.label('reported')
    rec.nt()
    # If reported, the datatype falls back to the default format.
    if case['base'] == 'date':
        eq(d.read('2020-01-31'), datetime.datetime(2020, 1, 31), 'default format')


PROP = Prop(
    'C08',
    [Enum('formats', enumerated, check),
     Sub('values', random_values(), check, quick=6000, thorough=300000),
     Sub('bad', bad(), bcheck, quick=9000, thorough=300000),
     Enum('bad-formats', bad_formats, bfcheck)],
    rule='All documented formats (14 date x 4 time layouts, 6 fractions, 13 time zone markers, 5 '
         'datatypes, complete enumeration), each with fixed values and random values; strings with one known '
         'defect. Non-trivial: all.',
    assumptions=[
        'A missing time zone is written as UTC if the format has a marker.',
        'On reading, "X" markers are not required to tell +00:00 and Z or forms with and without '
        'colon apart.'])
