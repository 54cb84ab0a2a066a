"""C18: validation verdict: valid data passes, each defect fails."""
import copy
import json
import os
import shutil
import warnings

from hypothesis import strategies as st

from csvw import CSVW
from vf.core import *
from . import gen, large, pools
from . import datasets as D

CELLS = ['cell', 'cell', 'cell', 'item', 'required', 'pk', 'fk', 'fkitem', 'fknull', 'fkdup', 'header', 'extra', 'missing',
         'encoding']
META = ['pk-unknown', 'fk-table', 'fk-column', 'fk-count', 'context', 'url', 'tables', 'property', 'base',
        'type', 'name', 'lang', 'separator', 'dupname', 'virtual', 'length', 'null', 'titles', 'id', 'facet']


@st.composite
def cases(draw):
    ds = draw(D.datasets(unique=draw(st.booleans())))
    return {
        'ds': ds,
        'defect': draw(st.sampled_from([None] * 6 + CELLS * 2 + META)),
        'where': [draw(st.integers(0, 30)) for _ in range(4)],
        'access': draw(st.sampled_from(['metadata', 'metadata', 'csv', 'md_url'])),
        'single': draw(st.booleans()),
        'relative': draw(st.integers(0, 4)) == 0,
        'filters': draw(st.sampled_from(['default', 'default', 'ignore', 'error', 'always'])),
        'order': draw(st.booleans()),
    }


def inject(case, desc, contents):
    """Break something. Returns False if the defect does not apply to the dataset."""
    ds, how, (w, x, y, z) = case['ds'], case['defect'], case['where']
    tables = ds['tables']

    def pick(options, n=w):
        return options[n % len(options)] if options else None

    if how in ('cell', 'item', 'required', 'pk', 'fk', 'fkitem', 'fknull', 'fkdup'):
        spots = []
        for i, t in enumerate(tables):
            for r in range(len(t['rows'])):
                for k, c in enumerate(t['cols']):
                    if how == 'cell' and c['kind'] in pools.BAD and not c['sep']:
                        spots.append((i, r, k))
                    elif how == 'item' and c['kind'] in pools.BAD and c['sep'] and t['rows'][r][k]:
                        spots.append((i, r, k))
                    elif how == 'required' and c['required']:
                        spots.append((i, r, k))
                if how == 'pk' and t['pk']:
                    spots.append((i, r, None))
                if how == 'fknull':
                    spots.extend((i, r, k) for fk in t['fks'] for k in fk['cols']
                                 if not t['cols'][k]['sep'])
                if how == 'fkdup':
                    spots.extend((i, r, fk) for tt in tables for fk in tt['fks'] if fk['table'] == i and tt['rows'])
                if how in ('fk', 'fkitem'):
                    for fk in t['fks']:
                        if (how == 'fk') != any(t['cols'][k]['sep'] for k in fk['cols']):
                            spots.append((i, r, fk))
        spot = pick(spots)
        if not spot:
            return False
        i, r, k = spot
        t = tables[i]
        rows = contents[t['url']]
        if how in ('cell', 'item'):
            c = t['cols'][k]
            bad = pools.BAD[c['kind']][x % len(pools.BAD[c['kind']])]
            if how == 'item':
                items = [D.text(dict(c, sep=None), v) for v in t['rows'][r][k]]
                items[y % len(items)] = bad
                bad = c['sep'].join(items)
            rows[r + 1][k] = bad
        elif how == 'required':
            c = t['cols'][k]
            # An empty cell is an empty string (not null) if null is set to something else.
            rows[r + 1][k] = c['null']
            if c['sep']:
                rows[r + 1][k] = ''
        elif how == 'fknull':
            rows[r + 1][k] = t['cols'][k]['null']
        elif how == 'fkdup':
            # the values referenced once more, in a row with another primary key if possible
            new = copy.deepcopy(t['rows'][x % len(t['rows'])])
            for n in k['ref']:
                new[n] = [t['rows'][r][n][0], t['rows'][r][n][1] + y]
            for n in t['pk'] or []:
                used = [D.ident(t['cols'][n], row[n]) for row in t['rows']]
                free = [j for j in range(len(pools.pool(t['cols'][n]['kind']))) if D.ident(t['cols'][n], [j, 0]) not in used]
                if n not in k['ref'] and free:
                    new[n] = [free[z % len(free)], z]
            rows.insert(1 + z % len(rows), [D.text(c, v) for c, v in zip(t['cols'], new)])
        elif how == 'pk':
            # another row with the same key, but possibly other lexical forms
            new = copy.deepcopy(t['rows'][r])
            for n in t['pk']:
                new[n][1] += y
            other = copy.deepcopy(t['rows'][x % len(t['rows'])])
            for n in t['pk']:
                other[n] = new[n]
            rows.insert(1 + z % len(rows), [D.text(c, v) for c, v in zip(t['cols'], other)])
        else:
            fk = k
            parent = tables[fk['table']]
            keys = [[D.ident(parent['cols'][n], row[n]) for n in fk['ref']] for row in parent['rows']]
            ref = [[j % len(pools.pool(parent['cols'][n]['kind'])) for n in fk['ref']] for j in range(x, x + 9)]
            ref += [[a] + q[1:] for q in keys for a in range(9)]
            ref = [q for q in ref if q not in keys and all(
                v < len(pools.pool(parent['cols'][n]['kind'])) for v, n in zip(q, fk['ref']))]
            if not ref:
                return False
            if how == 'fk':
                for n, v in zip(fk['cols'], ref[0]):
                    rows[r + 1][n] = D.text(t['cols'][n], [v, y])
            else:
                c = t['cols'][fk['cols'][0]]
                items = list(t['rows'][r][fk['cols'][0]])
                items.insert(y % (len(items) + 1), [ref[0][0], y])
                rows[r + 1][fk['cols'][0]] = D.text(c, items)
        return True

    t = pick(tables)
    i = tables.index(t)
    rows = contents[t['url']]
    table = desc['tables'][i]
    schema = table['tableSchema']
    headerless = (ds['dialect'] or {}).get('header') is False
    if headerless and how in ('header', 'extra') or (how == 'missing' and headerless and not t['rows']):
        return False
    if how == 'header':
        options = [k for k, c in enumerate(t['cols']) if c['head'] == 'unnamed']
        if not options:
            return False
        rows[0][pick(options, x)] = 'Something else'
    elif how == 'extra':
        for j, row in enumerate(rows):
            row.append('extra' if j else 'Xtra')
    elif how == 'missing':
        if not t['cols'][-1]['required']:
            return False
        for row in rows:
            row.pop()
        if not rows[0]:
            return False
    elif how == 'encoding':
        if (ds['dialect'] or {}).get('encoding') == 'utf-16':
            return False
    elif how == 'pk-unknown':
        schema['primaryKey'] = ['nope'] if x % 2 else [c['name'] for c in schema['columns'] if 'name' in c][:1] + ['nope']
    elif how.startswith('fk-'):
        fks = [fk for tt in desc['tables'] for fk in tt['tableSchema'].get('foreignKeys', [])]
        fk = pick(fks)
        if not fk:
            return False
        if how == 'fk-table':
            fk['reference']['resource'] = 'nope.csv'
        elif how == 'fk-column':
            (fk if x % 2 else fk['reference'])['columnReference'][0] = 'nope'
        else:
            fk['columnReference'].append(fk['columnReference'][0])
    elif how == 'context':
        if x % 2:
            del desc['@context']
        else:
            desc['@context'] = 'http://example.org/'
    elif how == 'url':
        del table['url']
    elif how == 'tables':
        desc['tables'] = [] if x % 2 else {}
    elif how == 'property':
        [table, schema, schema['columns'][0]][x % 3]['nope'] = 'x'
    elif how == 'type':
        [table, schema, schema['columns'][0]][x % 3]['@type'] = 'Nope'
    elif how == 'id':
        [table, schema, schema['columns'][0]][x % 3]['@id'] = '_:nope'
    else:
        options = [k for k, c in enumerate(t['cols']) if not c.get('fk') and k not in (t['pk'] or []) and
                   not any(k in fk['ref'] and fk['table'] == i for tt in tables for fk in tt['fks'])]
        if not options:
            return False
        col = schema['columns'][pick(options, x)]
        if how == 'base':
            col['datatype'] = ['nope', {'base': 'nope'}][y % 2]
        elif how == 'name':
            col['name'] = ['_x', 'a b', 5][y % 3]
        elif how == 'lang':
            col['lang'] = ['1', 'x y', 'eng_US'][y % 3]
        elif how == 'separator':
            col['separator'] = [5, ['|']][y % 2]
        elif how == 'dupname':
            names = [c['name'] for c in schema['columns'] if 'name' in c and c is not col]
            if not names:
                return False
            col['name'] = names[y % len(names)]
        elif how == 'virtual':
            if col is schema['columns'][-1]:
                return False
            col['virtual'] = True
        elif how == 'length':
            col['datatype'] = {'base': 'string', 'minLength': 5, 'maxLength': 4}
        elif how == 'facet':
            col['datatype'] = [{'base': 'integer', 'minimum': 1, 'maximum': 0}, {'base': 'string', 'minimum': 1},
                               {'base': 'integer', 'length': 1}][y % 3]
        elif how == 'null':
            col['null'] = [5, [1]][y % 2]
        elif how == 'titles':
            col['titles'] = [5, {'en': 5}, [5]][y % 3]
    return True


def verdict(func, filters):
    with warnings.catch_warnings():
        warnings.simplefilter(filters)
        try:
            res = func()
            v = res.is_valid
        except ValueError as e:
            return False, e
        if filters != 'error':
            eq(res.is_valid, v, 'second verdict')
    expect(v in (True, False), 'verdict is {!r}', v)
    return v, [str(w.message) for w in res.warnings]


def like_metadata(p):
    """Data of the form of a JSON object or array is taken for metadata."""
    try:
        return isinstance(json.loads(p.read_bytes().decode('utf-8-sig')), (dict, list))
    except ValueError:
        return False


def prepare(case, d):
    """
    Write the files.

    :return: path of the metadata, name of the first table, form of access, whether there is a single table
    """
    ds = case['ds']
    desc = D.describe(ds)
    contents = {t['url']: D.content(t) for t in ds['tables']}
    how = case['defect']
    if how and not inject(case, desc, contents):
        raise Skip()
    single = case['single'] and len(ds['tables']) == 1 and 'tables' in desc and desc['tables']
    if single:
        ctx = {k: v for k, v in desc.items() if k in ('@context', 'dialect')}
        desc = dict(ctx, **desc['tables'][0])
    first = ds['tables'][0]['url']
    access = 'metadata' if '/' in first else case['access']
    # A description without valid "url" etc. cannot be found by the data.
    name = 'metadata.json' if access != 'csv' else first + '-metadata.json'
    if how in ('url', 'tables', 'context') and access == 'csv':
        access, name = 'metadata', 'metadata.json'
    md = D.write(d, desc, contents, name=name, dialect=ds['dialect'])
    if access == 'csv' and like_metadata(d / first):
        raise Skip
    if how == 'encoding':
        p = d / ds['tables'][case['where'][0] % len(ds['tables'])]['url']
        p.write_bytes(p.read_bytes() + b'caf\xe9\r\n')
    return md, first, access, single


def check(case, rec):
    ds, how = case['ds'], case['defect']
    d = gen.scratch(rec, 'd')
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir()
    with oracle():
        md, first, access, single = prepare(case, d)
        if case['relative']:
            cwd = os.getcwd()
            os.chdir(str(d))
            path = (lambda p: str(p.relative_to(d)))
        else:
            cwd, path = None, str
    try:
        if access == 'metadata':
            v, why = verdict(lambda: CSVW(path(md), validate=True), case['filters'])
        elif access == 'csv':
            v, why = verdict(lambda: CSVW(path(d / first), validate=True), case['filters'])
        else:
            v, why = verdict(
                lambda: CSVW(path(d / first), md_url=path(md), validate=True), case['filters'])
    finally:
        if cwd:
            os.chdir(cwd)
    if how:
        expect(not v, 'defect {} not found', how)
    else:
        expect(v, 'valid dataset considered invalid: {}', why)
    rec.label(str(how), access, 'single' if single else 'group', case['filters'])
    rec.nt(bool(how) or any(t['rows'] for t in ds['tables']))


@st.composite
def fuzz_cases(draw):
    ds = draw(D.datasets(n_max=2))
    return {
        'ds': ds,
        'edits': [[draw(st.integers(0, 400)), draw(st.integers(0, 4)), draw(st.one_of(
            st.sampled_from(['"', '\n', '\r', '\r\n', ',', ';', '\x00', '""', '|', "'", '\u2028', '\ufeff',
                             '#', '1', '-', 'e', '', '\t', '[', '{', 'NaN', '\\', '9' * 30]),
            st.text(max_size=3)))] for _ in range(draw(st.integers(1, 4)))],
        'which': draw(st.integers(0, 1)),
    }


def check_fuzz(case, rec):
    """Whatever the file contains, the result is a verdict."""
    ds = case['ds']
    d = gen.scratch(rec, 'd')
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir()
    with oracle():
        md = D.write(d, D.describe(ds), {t['url']: D.content(t) for t in ds['tables']}, dialect=ds['dialect'])
        p = d / ds['tables'][case['which'] % len(ds['tables'])]['url']
        enc = (ds['dialect'] or {}).get('encoding', 'utf-8')
        text = p.read_bytes().decode(enc)
        for pos, n, new in case['edits']:
            pos = pos % (len(text) + 1)
            text = text[:pos] + new + text[pos + n:]
        p.write_bytes(text.encode(enc, errors='surrogatepass'))
    v, _ = verdict(lambda: CSVW(str(md), validate=True), 'default')
    rec.label('valid' if v else 'invalid')
    rec.nt(not v)


PROP = Prop(
    'C18',
    [Sub('verdict', cases(), check, quick=9000, thorough=250000),
     Sub('fuzz', fuzz_cases(), check_fuzz, quick=4000, thorough=150000),
     Sub('large', large.verdict_cases(), large.check_verdict, quick=60, thorough=2000)],
    rule='Datasets of 1-3 tables, valid by construction (types, lists, required, primary and foreign keys), '
         'with no or exactly one defect of 31 classes in data or description; given as metadata file, found next '
         'to the data, or passed along; under five warning filters. Also files with random edits, for which only some '
         'verdict is required. Non-trivial: a defect, or some row.',
    assumptions=['Nulls in foreign keys are not generated (csvw forbids them in strict mode).',
                 'Renamed headers of named columns, missing optional columns and ragged rows are not judged.'])
