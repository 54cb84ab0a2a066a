"""
Large inputs (many rows, columns, tables, comment lines, list items, long cells), for which an operation might run into
a limit, forget something at the border of a block, or take another route. Cases are compact: the content follows
from the numbers in the case.
"""
import csv
import io
import json
import random
import shutil
import sqlite3
import warnings
import zipfile

from hypothesis import strategies as st

from csvw import CSVW, Table, TableGroup, UnicodeDictReader, UnicodeReader, UnicodeWriter
from csvw.db import Database
from csvw.dsv import NamedTupleReader, UnicodeReaderWithLineNumber, add_rows, filter_rows_as_dict, iterrows, rewrite
from csvw.dsv_dialects import Dialect
from vf.core import *
from . import gen

SIZES = [30, 100, 127, 128, 129, 255, 256, 257, 499, 500, 501, 999, 1000, 1001, 1023, 1024, 1025, 1100, 1500, 2000, 2048, 2049]
LONG = [0, 0, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 16384, 65536, 131072]
ALPHABET = ['a', 'b', 'é', '中', '\U0001f600', ' x', '"', '""', ',', ';', '\n', '\r\n', '\t', '0', "'", '']


def cases(**kw):
    return st.fixed_dictionaries(dict({'n': st.sampled_from(SIZES), 'seed': st.integers(0, 10 ** 6)}, **kw))


def dirname(rec):
    d = gen.scratch(rec, 'large')
    shutil.rmtree(str(d), ignore_errors=True)
    d.mkdir()
    return d


def cell(rnd):
    return ''.join(rnd.choice(ALPHABET) for _ in range(rnd.randint(0, 4)))


def first_difference(got, want, what):
    """As `eq`, with a message of reasonable size."""
    for i, (g, w) in enumerate(zip(got, want)):
        eq(g, w, '{}, no. {}', what, i)
    eq(len(got), len(want), 'number of {}', what)


def quietly(func, *args, **kw):
    with warnings.catch_warnings(record=True):
        warnings.simplefilter('always')
        return func(*args, **kw)


# ---------------------------------------------------------------- C01, C03, C04: files

def dsv_cases():
    return cases(cols=st.integers(1, 4), long=st.sampled_from(LONG), at=st.integers(0, 3000),
                 encoding=st.sampled_from(['utf-8', 'utf-8', 'utf-16', 'utf-8-sig', 'utf-32']),
                 terminator=st.sampled_from(['\r\n', '\n']), memory=st.booleans())


def dsv_rows(case):
    rnd = random.Random(case['seed'])
    rows = [['x' + cell(rnd)] + [cell(rnd) for _ in range(case['cols'] - 1)] for _ in range(case['n'])]
    if case['long']:
        row = rows[case['at'] % len(rows)]
        # (The csv module refuses longer cells.)
        s = 'xé"中\r\n' if case['seed'] % 2 else 'x'
        row[-1] = (s * case['long'])[:case['long']]
    return rows


def check_roundtrip(case, rec):
    d = dirname(rec)
    with oracle():
        rows = dsv_rows(case)
    kw = dict(encoding=case['encoding'], lineTerminators=[case['terminator']])
    if case['memory']:
        with UnicodeWriter(None, dialect=Dialect(**kw)) as w:
            w.writerows(rows)
            content = w.read()
        with oracle():
            (d / 't.csv').write_bytes(content)
    else:
        with UnicodeWriter(d / 't.csv', dialect=Dialect(**kw)) as w:
            for row in rows:
                w.writerow(row)
    with UnicodeReader(d / 't.csv', dialect=Dialect(**kw)) as r:
        first_difference(list(r), rows, 'rows read')
    with oracle():
        text = (d / 't.csv').read_bytes().decode(case['encoding'])
    with UnicodeReader(io.StringIO(text, newline=''), dialect=Dialect(**kw)) as r:
        first_difference(list(r), rows, 'rows read from memory')
    rec.label('long cell' if case['long'] else 'many rows')
    rec.nt()


def record_cases():
    return cases(cols=st.sampled_from([1, 2, 3, 26, 27, 100, 255, 256, 300]), rows=st.sampled_from([1, 2, 30, 300]))


def check_records(case, rec):
    d = dirname(rec)
    with oracle():
        rnd = random.Random(case['seed'])
        names = ['n{}'.format(i) for i in range(case['cols'])]
        rows = [['x' + cell(rnd)] + ['v{}'.format(rnd.randint(0, 9)) for _ in range(rnd.randint(0, case['cols'] - 1))]
                for _ in range(min(case['rows'], 30000 // case['cols']))]
        with open(str(d / 't.csv'), 'w', encoding='utf8', newline='') as f:
            csv.writer(f).writerows([names] + rows)
        want = [dict(zip(names, r + [None] * (len(names) - len(r)))) for r in rows]
    with UnicodeDictReader(d / 't.csv') as r:
        first_difference([dict(x) for x in r], want, 'records')
    with NamedTupleReader(d / 't.csv') as r:
        first_difference([dict(x._asdict()) for x in r], want, 'namedtuples')
    first_difference([dict(x) for x in iterrows(d / 't.csv', dicts=True)], want, 'dicts of iterrows')
    rec.nt(case['cols'] > 26 or len(rows) > 100)


def rewrite_cases():
    return cases(cols=st.integers(1, 3), long=st.sampled_from(LONG), at=st.integers(0, 3000),
                 keep=st.sampled_from(['few', 'most', 'all', 'none']), added=st.sampled_from([0, 1, 10, 1000, 2500]))


def check_rewrite(case, rec):
    d = dirname(rec)
    p = d / 't.csv'
    with oracle():
        rnd = random.Random(case['seed'])
        names = ['n{}'.format(i) for i in range(case['cols'])]
        rows = dsv_rows(case)
        with open(str(p), 'w', encoding='utf8', newline='') as f:
            csv.writer(f).writerows([names] + rows)
        keep = [rnd.random() < {'few': 0.05, 'most': 0.95, 'all': 2, 'none': -1}[case['keep']] for _ in rows]
        more = [['y', cell(rnd)] for _ in range(case['added'])]
    decisions = iter(keep)
    eq(filter_rows_as_dict(p, lambda row: next(decisions)), keep.count(False), 'number of rows dropped')
    rest = [names] + [r for r, k in zip(rows, keep) if k]
    with UnicodeReader(p) as r:
        first_difference(list(r), rest, 'rows after filtering')
    add_rows(p, *more)
    seen = []

    def visitor(i, row):
        seen.append(i)
        return None if i % 3 == 2 else row + ['z']
    rewrite(p, visitor)
    eq(seen, list(range(len(rest) + len(more))), 'numbers of rows')
    with UnicodeReader(p) as r:
        first_difference(list(r), [r + ['z'] for i, r in enumerate(rest + more) if i % 3 != 2], 'rows after rewriting')
    rec.nt()


# ---------------------------------------------------------------- C02: lines which are not data

def lines_cases():
    return cases(blocks=st.lists(st.tuples(st.sampled_from(['comment', 'blank', 'data', 'multi']), st.sampled_from([1, 2, 50, 1200])),
                                 min_size=1, max_size=4), skip=st.sampled_from([0, 0, 1, 1200]),
                 file=st.booleans(), skipBlank=st.booleans())


def check_lines(case, rec):
    d = dirname(rec)
    with oracle():
        rnd = random.Random(case['seed'])
        out, want, comments, line = [], [], [], 0
        for i in range(case['skip']):
            out.append('skipped {}'.format(i))
        line = len(out)
        # Skipped lines are comments of the table.
        skipped = list(out)
        for kind, n in case['blocks'] + [('data', 1)]:
            for i in range(n):
                line += 1
                if kind == 'comment':
                    out.append('#comment {}'.format(i))
                    comments.append('comment {}'.format(i))
                elif kind == 'blank':
                    out.append('')
                    if not case['skipBlank']:
                        want.append((line, []))
                elif kind == 'multi':
                    out.append('"a\n{}",x'.format(i))
                    line += 1
                    want.append((line, ['a\n{}'.format(i), 'x']))
                else:
                    s = rnd.choice('xyz')
                    out.append('{},{}'.format(s, i))
                    want.append((line, [s, str(i)]))
        text = '\n'.join(out) + '\n'
        (d / 't.csv').write_text(text, encoding='utf8', newline='')
    dialect = Dialect(commentPrefix='#', skipRows=case['skip'], skipBlankRows=case['skipBlank'])
    with UnicodeReaderWithLineNumber(d / 't.csv' if case['file'] else text.encode('utf8').splitlines(keepends=True), dialect=dialect) as r:
        first_difference(list(r), want, 'rows with line numbers')
        got = r.comments
    first_difference([c for _, c in got], skipped + comments, 'comments')
    rec.label(*[k for k, n in case['blocks'] if n > 1000])
    rec.nt(len(out) > 100)


# ---------------------------------------------------------------- C11, C12, C13, C19: tables

def table_cases():
    return cases(cols=st.sampled_from([2, 3, 27, 101, 300]), items=st.sampled_from([0, 3, 1000, 3000]), zipped=st.booleans(),
                 lines=st.sampled_from([0, 0, 1200]))


def schema(n, items=False):
    cols = [{'name': 'ID'}, {'name': 'Int', 'datatype': 'integer'}]
    cols += [{'name': 'c{}'.format(i), 'datatype': ['string', 'integer', 'boolean'][i % 3]} for i in range(2, n)]
    if items:
        cols.append({'name': 'List', 'separator': ';', 'datatype': 'integer'})
    return cols


def record(rnd, i, cols, items):
    row = {'ID': 'r{}'.format(i), 'Int': rnd.randint(-9, 9)}
    for c in cols[2:]:
        if c['name'] == 'List':
            row['List'] = list(range(items if rnd.randint(0, 9) == 0 or i == 0 else 2))
        else:
            row[c['name']] = {'string': 's', 'integer': rnd.randint(0, 999), 'boolean': bool(rnd.randint(0, 1))}[c['datatype']]
            if rnd.randint(0, 5) == 0:
                row[c['name']] = None
    return row


def records(case):
    rnd = random.Random(case['seed'])
    cols = schema(case['cols'], case['items'])
    n = max(2, min(case['n'], 16000 // case['cols'], 20000 // (1 + case['items'] // 10)))
    return cols, [record(rnd, i, cols, case['items']) for i in range(n)]


def check_tables(case, rec):
    d = dirname(rec)
    with oracle():
        cols, rows = records(case)
    desc = {'url': 't.csv', 'tableSchema': {'columns': cols}}
    t = Table.fromvalue(desc)
    t._fname = d / 'md.json'
    t.common_props['dc:x'] = 'y'
    eq(t.write(iter(rows), _zipped=case['zipped']), len(rows), 'number of rows written')
    first_difference([dict(r) for r in t], rows, 'rows')
    content = t.write([[r[c['name']] for c in cols] for r in rows], fname=None)
    with oracle():
        if case['zipped']:
            with zipfile.ZipFile(str(d / 't.csv.zip')) as z:
                data = z.read('t.csv')
        else:
            data = (d / 't.csv').read_bytes()
    expect(content == data, 'content in memory differs from that on disk')
    rec.nt(len(rows) > 50 or len(cols) > 50)


def text_of(v):
    return '' if v is None else {True: 'true', False: 'false'}[v] if isinstance(v, bool) else \
        ';'.join(map(str, v)) if isinstance(v, list) else str(v)


def check_permuted(case, rec):
    d = dirname(rec)
    with oracle():
        rnd = random.Random(case['seed'] + 1)
        cols, rows = records(case)
        order = list(cols)
        rnd.shuffle(order)
        order = [c for c in order if rnd.randint(0, 9)] or order
        for i, c in enumerate(cols):
            if rnd.randint(0, 1):
                c['titles'] = ['T{}'.format(i), 'U{}'.format(i)]
        header = [c['titles'][rnd.randint(0, 1)] if 'titles' in c and rnd.randint(0, 1) else c['name'] for c in order]
        with open(str(d / 't.csv'), 'w', encoding='utf8', newline='') as f:
            w = csv.writer(f)
            w.writerow(header)
            w.writerows([text_of(r[c['name']]) for c in order] for r in rows)
        present = {c['name'] for c in order}
        want = [{k: v if k in present else None for k, v in r.items()} for r in rows]
    t = Table.fromvalue({'url': 't.csv', 'tableSchema': {'columns': cols}})
    t._fname = d / 'md.json'
    first_difference([dict(sorted(r.items())) for r in t], [dict(sorted(r.items())) for r in want], 'rows')
    rec.nt(len(rows) > 50 or len(cols) > 50)


class Log:
    def __init__(self):
        self.messages = []

    def warning(self, msg, *a):
        self.messages.append(str(msg))


def check_faults(case, rec):
    d = dirname(rec)
    with oracle():
        rnd = random.Random(case['seed'] + 2)
        cols, rows = records(case)
        idx = [i for i, c in enumerate(cols) if c.get('datatype') == 'integer' and not c.get('separator')]
        faults = set()
        for _ in range(rnd.choice([1, 2, 3, 50])):
            faults.add((rnd.choice([0, len(rows) - 1, rnd.randrange(len(rows))]), rnd.choice(idx)))
        with open(str(d / 't.csv'), 'w', encoding='utf8', newline='') as f:
            f.write('#c\n' * case['lines'])
            w = csv.writer(f)
            w.writerow([c['name'] for c in cols])
            line, lines = case['lines'] + 2, []
            for i, r in enumerate(rows):
                if rnd.randint(0, 9) == 0 and case['cols'] > 3:
                    # A cell of several lines
                    r[rnd.choice([c for c in cols if c.get('datatype') == 'string'])['name']] = rnd.choice(['\n', 'a\nb', '\n\n'])
                cells = [text_of(r[c['name']]) for c in cols]
                w.writerow(['x' if (i, j) in faults else x for j, x in enumerate(cells)])
                lines.append((line, line + sum(x.count('\n') for x in cells)))
                line = lines[-1][1] + 1
        bad = {i for i, _ in faults}
        want = [r for i, r in enumerate(rows) if i not in bad]
        wantlines = [l for i, l in enumerate(lines) if i not in bad]
        places = [['{}:{}:{} '.format(d / 't.csv', k, j + 1) for k in range(lines[i][0], lines[i][1] + 1)] for i, j in sorted(faults)]
    t = Table.fromvalue({'url': 't.csv', 'tableSchema': {'columns': cols}, 'dialect': {'commentPrefix': '#'}})
    t._fname = d / 'md.json'
    log = Log()
    got = [(line, dict(r)) for _, line, r in t.iterdicts(log=log, with_metadata=True)]
    first_difference([r for _, r in got], want, 'good rows')
    for (n, _), (a, b) in zip(got, wantlines):
        expect(a <= n <= b, 'line {} of a row in lines {}-{}', n, a, b)
    eq(len(log.messages), len(places), 'number of messages')
    for m, p in zip(log.messages, places):
        expect(m.startswith(tuple(p)), 'message {!r} does not start with {!r}', m, p)
    rec.nt(len(rows) > 50 or len(cols) > 50)


def check_json(case, rec):
    d = dirname(rec)
    with oracle():
        case = dict(case, cols=min(case['cols'], 30))
        cols, rows = records(case)
        with open(str(d / 't.csv'), 'w', encoding='utf8', newline='') as f:
            w = csv.writer(f)
            w.writerow([c['name'] for c in cols])
            w.writerows([text_of(r[c['name']]) for c in cols] for r in rows)
        want = [{k: v for k, v in r.items() if v is not None and v != []} for r in rows]
    t = TableGroup.fromvalue({
        '@context': 'http://www.w3.org/ns/csvw', 'tables': [{'url': 't.csv', 'tableSchema': {'columns': cols}}]})
    with oracle():
        import json
        (d / 'md.json').write_text(json.dumps({
            '@context': 'http://www.w3.org/ns/csvw', 'url': 't.csv', 'tableSchema': {'columns': cols}}), encoding='utf8')
    del t
    c = CSVW(str(d / 'md.json'))
    first_difference([dict(r) for r in quietly(c.to_json, minimal=True)], want, 'objects')
    table = quietly(c.to_json)['tables'][0]
    first_difference([[r['rownum'], r['url'].split('#')[-1], [dict(o) for o in r['describes']]] for r in table['row']],
                     [[i, 'row={}'.format(i + 1), [w]] for i, w in enumerate(want, start=1)], 'rows')
    rec.nt(len(rows) > 50)


# ---------------------------------------------------------------- C16, C17, C21, C22: keys

def key_cases():
    return cases(first=st.integers(0, 3000), second=st.integers(0, 3000), defect=st.sampled_from([True, True, False]),
                 composite=st.booleans(), chain=st.booleans())


def check_primary_keys(case, rec):
    d = dirname(rec)
    with oracle():
        n = case['n']
        rows = [[str(i // 7), 'k{}'.format(i % 7)] if case['composite'] else [str(i), 'x'] for i in range(n)]
        a, b = sorted([case['first'] % n, case['second'] % n])
        dup = case['defect'] and a != b
        if dup:
            rows[b] = ['0' + rows[a][0], rows[a][1]]  # (the same number)
        with open(str(d / 't.csv'), 'w', encoding='utf8', newline='') as f:
            csv.writer(f).writerows([['ID', 'b']] + rows)
    t = Table.fromvalue({'url': 't.csv', 'tableSchema': {
        'columns': [{'name': 'ID', 'datatype': 'integer'}, {'name': 'b'}],
        'primaryKey': ['ID', 'b'] if case['composite'] else ['ID']}})
    t._fname = d / 'md.json'
    log = Log()
    eq(t.check_primary_key(log=log), not dup, 'verdict')
    eq([m.split(' ')[0] for m in log.messages], ['{}:{}'.format(d / 't.csv', b + 2)] if dup else [], 'places')
    rec.label('duplicate' if dup else 'unique')
    rec.nt()


def verdict_cases():
    return cases(at=st.integers(0, 3000), defect=st.sampled_from(
        [None, 'null', 'reference', 'second null', 'duplicate', 'value', 'required', 'length']))


def check_verdict(case, rec):
    """One defect anywhere in many rows makes the data invalid."""
    d = dirname(rec)
    with oracle():
        n, defect = case['n'], case['defect']
        k = case['at'] % n if case['seed'] % 2 else n - 1 - case['at'] % 7
        rnd = random.Random(case['seed'])
        parents = [['p{}'.format(i), str(i % 5)] for i in range(n)]
        children = [['c{}'.format(i)] + list(rnd.choice(parents)) + ['x', str(i)] for i in range(n)]
        row = children[k]
        if defect == 'duplicate':
            row[0] = children[(k + 1 + case['seed'] % (n - 1)) % n][0]
        elif defect:
            i, v = {'null': (1, ''), 'reference': (1, 'q'), 'second null': (2, ''), 'value': (4, '1.5'),
                    'required': (3, ''), 'length': (3, 'xyz')}[defect]
            row[i] = v
        for name, rows in [('p.csv', [['ID', 'num']] + parents), ('c.csv', [['ID', 'pid', 'num', 'text', 'n']] + children)]:
            with open(str(d / name), 'w', encoding='utf8', newline='') as f:
                csv.writer(f).writerows(rows)
        (d / 'md.json').write_text(json.dumps({'@context': 'http://www.w3.org/ns/csvw', 'tables': [
            {'url': 'p.csv', 'tableSchema': {'columns': [{'name': 'ID'}, {'name': 'num', 'datatype': 'integer'}], 'primaryKey': ['ID']}},
            {'url': 'c.csv', 'tableSchema': {
                'columns': [{'name': 'ID'}, {'name': 'pid'}, {'name': 'num', 'datatype': 'integer'},
                            {'name': 'text', 'required': True, 'datatype': {'base': 'string', 'maxLength': 2}},
                            {'name': 'n', 'datatype': 'integer'}],
                'primaryKey': ['ID'], 'foreignKeys': [
                    {'columnReference': ['pid', 'num'], 'reference': {'resource': 'p.csv', 'columnReference': ['ID', 'num']}}]}}]}))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            valid = CSVW(str(d / 'md.json'), validate=True).is_valid
        except ValueError:
            valid = False
    eq(valid, defect is None, 'verdict on {} in row {} of {}', defect, k, n)
    rec.label(str(defect))
    rec.nt()


def check_references(case, rec):
    d = dirname(rec)
    with oracle():
        n = case['n']
        rnd = random.Random(case['seed'])
        parents = [['p{}'.format(i), str(i % 5)] for i in range(n)]
        children = []
        for i in range(n):
            p = parents[rnd.choice([i, n - 1, 0, rnd.randrange(n)])]
            many = [parents[rnd.randrange(n)][0] for _ in range(1200 if i == 1 else 2)]
            children.append(['c{}'.format(i)] + list(p) + [';'.join(many)])
        k = case['first'] % n
        broken = None
        if case['defect']:
            broken = case['second'] % 3
            if broken == 0:
                children[k][1] = 'q'
            elif broken == 1:
                children[k][2] = '7'
            else:
                children[k][3] += ';q'
        refs = [{'columnReference': ['pid', 'num'], 'reference': {'resource': 'p.csv', 'columnReference': ['ID', 'num']}}] \
            if case['composite'] or broken == 1 else \
            [{'columnReference': 'pid', 'reference': {'resource': 'p.csv', 'columnReference': 'ID'}}]
        refs.append({'columnReference': 'many', 'reference': {'resource': 'p.csv', 'columnReference': 'ID'}})
        for name, rows in [('p.csv', [['ID', 'num']] + parents), ('c.csv', [['ID', 'pid', 'num', 'many']] + children)]:
            with open(str(d / name), 'w', encoding='utf8', newline='') as f:
                csv.writer(f).writerows(rows)
    tg = TableGroup.fromvalue({'tables': [
        {'url': 'p.csv', 'tableSchema': {'columns': [{'name': 'ID'}, {'name': 'num', 'datatype': 'integer'}], 'primaryKey': ['ID']}},
        {'url': 'c.csv', 'tableSchema': {
            'columns': [{'name': 'ID'}, {'name': 'pid'}, {'name': 'num', 'datatype': 'integer'}, {'name': 'many', 'separator': ';'}],
            'primaryKey': ['ID'], 'foreignKeys': refs}}]})
    tg._fname = d / 'md.json'
    log = Log()
    eq(tg.check_referential_integrity(log=log), broken is None, 'verdict')
    eq([m.split(' ')[0] for m in log.messages], [] if broken is None else ['{}:{}'.format(d / 'c.csv', k + 2)], 'places')
    rec.label('broken' if broken is not None else 'intact')
    rec.nt()


def db_group(case, d):
    n = case['n']
    rnd = random.Random(case['seed'])
    parents = [{'ID': 'p{}'.format(i), 'num': i % 5 or None, 'up': 'p{}'.format(max(0, i - 1)) if i else None,
                'words': ['w{}'.format(k) for k in range(rnd.choice([0, 1, 3]))]} for i in range(n)]
    children = []
    for i in range(n):
        many = [parents[j]['ID'] for j in rnd.sample(range(n), min(n, 1100) if i == 1 else 2)]
        children.append({'ID': i, 'pid': rnd.choice(parents)['ID'] if rnd.randint(0, 9) else None, 'many': many,
                         'text': cell(rnd) or None})
    tg = TableGroup.fromvalue({'tables': [
        {'url': 'c.csv', 'tableSchema': {
            'columns': [{'name': 'ID', 'datatype': 'integer'}, {'name': 'pid'}, {'name': 'many', 'separator': ';'}, {'name': 'text'}],
            'primaryKey': ['ID'],
            'foreignKeys': [{'columnReference': 'pid', 'reference': {'resource': 'p.csv', 'columnReference': 'ID'}},
                            {'columnReference': 'many', 'reference': {'resource': 'p.csv', 'columnReference': 'ID'}}]}},
        {'url': 'p.csv', 'tableSchema': {
            'columns': [{'name': 'ID'}, {'name': 'num', 'datatype': 'integer'}, {'name': 'up'}, {'name': 'words', 'separator': ' '}],
            'primaryKey': ['ID'],
            'foreignKeys': [{'columnReference': 'up', 'reference': {'resource': 'p.csv', 'columnReference': 'ID'}}] if case['chain'] else []}}]})
    tg._fname = d / 'md.json'
    return tg, parents, children


def check_database(case, rec):
    d = dirname(rec)
    tg, parents, children = db_group(case, d)
    fname = d / 'db.sqlite' if case['first'] % 2 else None
    db = Database(tg, fname=fname)
    if case['second'] % 2:
        tg.write(d / 'md.json', **{'p.csv': parents, 'c.csv': children})
        db.write_from_tg()
    else:
        db.write(**{'p.csv': iter(parents), 'c.csv': iter(children)})
    if fname:
        db = Database(tg, fname=fname)
    got = db.read()
    if not fname:
        db.connection().close()
    for url, key, rows in [('p.csv', 'ID', parents), ('c.csv', 'ID', children)]:
        res = sorted(([r[key], {k: r[k] for k in sorted(r)}] for r in got[url]), key=lambda x: x[0])
        # (References of the same table are dropped by default, their columns are not.)
        first_difference(res, sorted(([r[key], {k: r[k] for k in sorted(r)}] for r in rows), key=lambda x: x[0]), 'rows of ' + url)
    rec.nt()


def check_atomic(case, rec):
    d = dirname(rec)
    tg, parents, children = db_group(dict(case, chain=False), d)
    with oracle():
        k = case['first'] % len(children)
        kind = case['second'] % 4
        if case['defect']:
            if kind == 0:
                children[k]['pid'] = 'q'
            elif kind == 1:
                children[k]['many'] = children[k]['many'] + ['q']
            elif kind == 2:
                children[k]['ID'] = children[(k + 1) % len(children)]['ID']
            else:
                parents[k]['ID'] = parents[(k + 1) % len(parents)]['ID']
                for c in children:
                    c['pid'], c['many'] = None, []
    fname = d / 'db.sqlite'
    db = Database(tg, fname=fname)
    e = raises((ValueError, sqlite3.Error, AssertionError), db.write, **{'p.csv': parents, 'c.csv': children})
    expect((e is not None) == case['defect'], 'result of writing: {!r}', e)
    if e:
        with oracle():
            n = 0
            if fname.exists():
                con = sqlite3.connect(str(fname))
                try:
                    names = [r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE type = 'table'")]
                    n = sum(con.execute('SELECT count(*) FROM "{}"'.format(x.replace('"', '""'))).fetchone()[0] for x in names)
                finally:
                    con.close()
        eq(n, 0, 'rows left after the failure')
    rec.label('defect' if case['defect'] else 'valid')
    rec.nt()


# ---------------------------------------------------------------- C14, C25: descriptions

def description_cases():
    return cases(tables=st.sampled_from([1, 30, 150]), cols=st.sampled_from([1, 3, 300]), depth=st.sampled_from([1, 5, 60]))


def check_description(case, rec):
    d = dirname(rec)
    with oracle():
        deep = 'x'
        for _ in range(case['depth']):
            deep = {'dc:x': [deep, 'y']}
        ncols = case['cols'] if case['tables'] == 1 else min(case['cols'], 20)
        desc = {'@context': 'http://www.w3.org/ns/csvw', 'dc:deep': deep, 'tables': []}
        for i in range(case['tables']):
            cols = [{'name': 'c{}'.format(j), 'titles': ['t{}'.format(k) for k in range(1 + j % 3)],
                     'dc:order': j} for j in range(ncols)]
            t = {'url': 't{}.csv'.format(i), 'tableSchema': {'columns': cols, 'primaryKey': [c['name'] for c in cols]}}
            if i:
                t['tableSchema']['foreignKeys'] = [{
                    'columnReference': ['c0'], 'reference': {'resource': 't{}.csv'.format(i - 1), 'columnReference': ['c0']}}]
            t['notes'] = [{'dc:n': k} for k in range(i)]
            desc['tables'].append(t)
        import json
        (d / 'md.json').write_text(json.dumps(desc), encoding='utf8')
    tg = TableGroup.from_file(d / 'md.json')
    eq([t.local_name for t in tg.tables], ['t{}.csv'.format(i) for i in range(case['tables'])], 'tables')
    for t, w in zip(tg.tables, desc['tables']):
        first_difference([c.header for c in t.tableSchema.columns], ['c{}'.format(j) for j in range(ncols)], 'columns')
        eq(t.tableSchema.primaryKey, w['tableSchema']['primaryKey'], 'primary key')
        eq(t.notes, w['notes'], 'notes')
    eq(tg.common_props['dc:deep'], deep, 'nested property')
    once = tg.asdict()
    tg.to_file(d / 'copy.json')
    tg2 = TableGroup.from_file(d / 'copy.json')
    eq(tg2.asdict(), once, 'description after saving and loading')
    for t in tg.tables:
        t.write([{c: 'x' for c in t.tableSchema.columndict} for _ in range(2 if case['depth'] == 1 else 1)])
    tg.copy(d / 'other')
    for t in tg.tables:
        expect((d / 'other' / t.local_name).read_bytes() == (d / t.local_name).read_bytes(), 'copied file differs')
    eq(list(TableGroup.from_file(d / 'other' / 'md.json').tabledict), list(tg.tabledict), 'tables of the copy')
    rec.nt(case['tables'] > 1 or ncols > 1)
