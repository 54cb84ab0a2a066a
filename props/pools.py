"""
Small pools of values, each value with several lexical forms, so that equal values are frequent.
A value is identified by its index in the pool; None is null.
"""
POOLS = {
    None: [['a'], ['b'], ['A'], ['ab'], ['a b'], ['1'], ['01'], ['None'], ['a '], [' a']],
    'string': [['x'], ['y'], ['é'], ['e\u0301'], ['1'], ['1.0'], ["'"], ['"q"'], ['x,y'], ['x '], [' x'], ['X']],
    'integer': [['1', '01', '+1'], ['2'], ['10', '010'], ['0', '-0', '00'], ['-1'],
                ['12345678901234567890123'], ['12345678901234567890124']],
    'decimal': [['1', '1.0', '01.00', '+1'], ['1.5', '1.50'], ['-1'], ['0', '0.0', '-0'],
                ['0.1000000000000000000000000000001'], ['0.1', '.1']],
    'float': [['1', '1.0', '1e0', '10E-1'], ['2.5', '25e-1'], ['INF'], ['-INF'], ['0', '0.0']],
    'boolean': [['true', '1'], ['false', '0']],
    'date': [['2020-02-29'], ['2020-03-01'], ['0001-01-01'], ['2020-02-29Z']],
    'dateTime': [['2020-01-01T00:00:00Z', '2020-01-01T01:00:00+01:00', '2019-12-31T23:30:00-00:30'],
                 ['2020-01-01T00:00:00', '2020-01-01T00:00:00.000'], ['2020-01-01T00:00:01Z'],
                 ['2020-01-01T00:00:00.5'], ['2020-01-01T00:00:00.25Z']],
    'time': [['10:00:00', '10:00:00.0'], ['10:00:01'], ['10:00:00Z', '11:00:00+01:00'], ['10:00:00.5Z']],
    'anyURI': [['http://example.org/a'], ['http://example.org/b'], ['a'], ['?a#b']],
    'json': [['{"a": 1}', '{"a":1}', ' {"a" : 1 }'], ['[1, 2]', '[1,2]'], ['[2, 1]'], ['"x"'],
             ['{"a": 1, "b": [{}]}', '{"b": [{}], "a": 1}'], ['{}'], ['[]'], ['2'], ['{"a": "1"}'], ['["1", 2]']],
    'duration': [['P1D', 'PT24H', 'P1DT0H'], ['P2D'], ['PT1S'], ['P1M']],
    'hexBinary': [['ab', 'AB', 'aB'], ['cd'], ['abcd']],
    'base64Binary': [['YWJj'], ['YWI='], ['YQ==']],
    'gYear': [['2020'], ['2021']],
    'number': [['1', '1.0'], ['2']],
}
FORMATS = {
    'pattern': ({'base': 'integer', 'format': '#,##0'}, [['1,000'], ['1'], ['1,001'], ['-1,000']]),
    'YN': ({'base': 'boolean', 'format': 'Y|N'}, [['Y'], ['N']]),
    'german': ({'base': 'date', 'format': 'd.M.yyyy'}, [['1.2.2020', '01.02.2020'], ['2.1.2020']]),
    'decimalChar': ({'base': 'decimal', 'format': {'decimalChar': ','}}, [['1,5', '1,50'], ['15']]),
}
KINDS = sorted(POOLS, key=str) + sorted(FORMATS)


def pool(kind):
    return FORMATS[kind][1] if kind in FORMATS else POOLS[kind]


def datatype(kind):
    return FORMATS[kind][0] if kind in FORMATS else kind


def text(kind, i, variant=0):
    """
    :return: A lexical form of the value no. i; the form with which i is normalised.
    """
    p = pool(kind)
    forms = p[i % len(p)]
    return forms[variant % len(forms)]


def ident(kind, i):
    return i % len(pool(kind))

# Types whose constraints can be violated by well-formed values.
CONSTRAINED = {
    'range': ({'base': 'integer', 'minimum': 0, 'maximum': 99}, [['0', '00'], ['99'], ['7', '07']]),
    'exclusive': ({'base': 'decimal', 'minExclusive': 0, 'maxExclusive': 1}, [['0.5', '.50'], ['0.001']]),
    'maxLength': ({'base': 'string', 'maxLength': 3}, [['abc'], ['a']]),
    'length': ({'base': 'string', 'length': 2}, [['ab'], ['éé']]),
    'minLength': ({'base': 'string', 'minLength': 2}, [['ab'], ['abc']]),
    'regex': ({'base': 'string', 'format': 'a+b?'}, [['a'], ['aab']]),
    'dates': ({'base': 'date', 'minimum': '2020-01-01'}, [['2020-01-01'], ['2021-12-31']]),
    'unsignedByte': ('unsignedByte', [['0'], ['255'], ['1', '01']]),
    'negativeInteger': ('negativeInteger', [['-1'], ['-255', '-0255']]),
    'schema': ({'base': 'json', 'format': '{"type": "object"}'}, [['{}'], ['{"a": 1}']]),
}
FORMATS.update(CONSTRAINED)
# No values of the types
BAD = {
    'integer': ['x', '1.5', '1_000', '--1'], 'decimal': ['x', '1e5', '1,5'], 'float': ['x', '1.5.5'],
    'number': ['x'], 'boolean': ['maybe', 'yes', '2'], 'date': ['2019-02-29', 'x', '2020-13-01'],
    'dateTime': ['x', '2020-01-01T25:00:00'], 'time': ['25:00:00', 'x'], 'json': ['{', 'x'],
    'duration': ['x', '1 day'], 'hexBinary': ['xyz', 'abc'], 'pattern': ['1,00', 'x', '1.5'],
    'YN': ['true', 'y', 'x'], 'german': ['2020-01-01', '30.2.2020'], 'decimalChar': ['1.5', 'x'],
    'range': ['-1', '100', 'x'], 'exclusive': ['0', '1', '1.5', '-0.5'], 'maxLength': ['abcd'],
    'length': ['a', 'abc'], 'minLength': ['a'], 'regex': ['b', 'abb', 'ac', 'xa'],
    'dates': ['2019-12-31', '0001-01-01'], 'unsignedByte': ['256', '-1'], 'negativeInteger': ['0', '1'],
    'schema': ['[]', '1'],
}
ALL_KINDS = sorted(POOLS, key=str) + sorted(FORMATS)

# Only values which SQLite can represent, and the datatypes which are missing above. (Not in ALL_KINDS.)
SQL = {
    'int64': ('integer', [['1', '01'], ['2'], ['10', '010'], ['0', '-0'], ['-1'], ['9223372036854775807'],
                          ['-9223372036854775808'], ['100']]),
    'real': ('decimal', [['1', '1.0'], ['1.5', '1.50'], ['-1'], ['0', '0.0'], ['0.1', '.1'], ['123456.789'],
                         ['0.000001'], ['1000000000000']]),
    'big': ('nonNegativeInteger', [['1', '01'], ['12345678901234567890123'], ['0'], ['9'], ['10']]),
    'long': ('long', [['1'], ['-9'], ['10'], ['0']]), 'double': ('double', [['1.5'], ['10'], ['9'], ['1e100'], ['-INF']]),
    'NMTOKEN': ('NMTOKEN', [['a-b'], ['x'], ['1']]), 'QName': ('QName', [['a:b'], ['c']]),
    'gMonth': ('gMonth', [['--02'], ['--12']]), 'gDay': ('gDay', [['---01']]), 'gMonthDay': ('gMonthDay', [['--02-29']]),
    'gYearMonth': ('gYearMonth', [['2020-01']]), 'xml': ('xml', [['<a/>'], ['x & y']]), 'html': ('html', [['<p>x']]),
    'binary': ('binary', [['YWJj'], ['YQ==']]), 'datetime': ('datetime', [['2020-01-01T00:00:00']]),
    'dateTimeStamp': ('dateTimeStamp', [['2020-01-01T00:00:00Z', '2020-01-01T01:00:00+01:00']]),
    'dayTime': ('dayTimeDuration', [['P1DT2H'], ['PT0.5S']]), 'yearMonth': ('yearMonthDuration', [['P1Y2M'], ['-P1M']]),
    'normalized': ('normalizedString', [['a b'], ['x']]), 'byte': ('byte', [['-128'], ['127'], ['0']]),
    'spaces': ('string', [['a b'], ['a'], ['b'], ["it's"], ['x, y'], ['"'], ['é ü'], ['1'], ['%'], ['a  b']]),
    'isodate': ('date', [['2020-02-29'], ['2020-03-01'], ['0001-01-01']]),
    'jsonitem': ('json', [['"x"'], ['2'], ['{"a": 1}'], ['"1"'], ['"{}"'], ['[1, 2]'], ['0'], ['false'], ['"null"'], ['""'],
                          ['{}'], ['[]'], ['1.5']]),
}
FORMATS.update(SQL)
SQL_KINDS = [k for k in ALL_KINDS if k not in ('integer', 'decimal')] + sorted(SQL)
# Kinds whose equal values have a single form in the database
KEY_KINDS = [None, 'string', 'int64', 'real', 'big', 'long', 'double', 'NMTOKEN', 'spaces', 'isodate', 'boolean', 'YN',
             'pattern', 'german', 'range', 'maxLength', 'gMonth', 'anyURI', 'hexBinary', 'base64Binary', 'int64', 'spaces']
