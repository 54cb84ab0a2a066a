"""C29: files are closed, whatever happens."""
import gc
import json
import os
import shutil
import warnings
import zipfile

from hypothesis import strategies as st

from csvw import CSVW, TableGroup
from csvw.db import Database
from csvw.dsv import (
    Dialect, UnicodeDictReader, UnicodeReader, UnicodeReaderWithLineNumber, UnicodeWriter, add_rows, filter_rows_as_dict, iterrows, rewrite)
from csvw.frictionless import DataPackage
from csvw.utils import metadata2markdown
from vf.core import *
from . import c18, c21, datasets as D, gen

OPS = ['iterdicts', 'iterdicts', 'iterdicts', 'iterrows', 'reader', 'dictreader', 'read', 'pk', 'refs', 'table.write', 'table.write', 'tg.write',
       'copy', 'to_file', 'json', 'validate', 'validate', 'db', 'db', 'rewrite', 'add_rows', 'filter', 'writer', 'markdown', 'package', 'load']


@st.composite
def cases(draw):
    case = draw(c18.cases())
    case['relative'] = False
    case['ops'] = draw(st.lists(st.tuples(
        st.sampled_from(OPS), st.integers(0, 3), st.integers(0, 3), st.integers(0, 3)).map(list), min_size=1, max_size=4))
    case['zip'] = draw(st.integers(0, 2)) == 0
    case['damage'] = draw(st.sampled_from([None, None, None, 'missing', 'quote', 'bytes', 'metadata', 'badzip', 'emptyzip', 'directory']))
    return case


def descriptors(d):
    res = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if p.startswith(str(d) + '/'):
            res.append(p[len(str(d)) + 1:])
    return sorted(res)


class Boom(Exception):
    pass


def take(it, n, how):
    """Take some items of an iterator; n == 3: all."""
    res = []
    if n == 3:
        res.extend(it)
    else:
        for _ in range(n):
            try:
                res.append(next(it))
            except StopIteration:
                break
        if hasattr(it, 'close'):
            it.close()
    return res


def perform(op, n, k, h, d, md, tg, keep):
    """Performs an operation; what it returns is kept alive."""
    t = tg.tables[k % len(tg.tables)] if tg and tg.tables else None
    p = d / t.url.string if t is not None else d / 'x.csv'
    dialect = t._get_dialect() if t is not None else Dialect()
    if op == 'iterdicts':
        it = t.iterdicts(strict=bool(h % 2), with_metadata=h > 1)
        keep.append(it)
        take(it, n, h)
    elif op == 'iterrows':
        it = iterrows(p if h % 2 else str(p), dialect=dialect, dicts=h > 1)
        keep.append(it)
        take(it, n, h)
    elif op in ('reader', 'dictreader'):
        cls = UnicodeDictReader if op == 'dictreader' else [UnicodeReader, UnicodeReaderWithLineNumber][h % 2]
        kw = {'delimiter': 'ab'} if h == 3 else {'dialect': dialect}
        if k // 2 % 2:
            kw['lineterminator'] = '\n'
        r = cls(p, **kw)
        keep.append(r)
        with r:
            for i, _ in enumerate(r):
                if i == n:
                    if h % 2:
                        raise Boom()
                    break
    elif op == 'read':
        keep.append(tg.read())
    elif op == 'pk':
        t.check_primary_key()
    elif op == 'refs':
        tg.check_referential_integrity()
    elif op == 'table.write':
        rows = list(t.iterdicts(strict=False)) + ([{c.header: object() for c in t.tableSchema.columns}] if h > 1 else [])
        keep.append(t.write(rows, fname=[d / 'new.csv', d / 'new.csv', None, d / 'nodir' / 'new.csv'][n], base=d if h % 2 else None,
                            **({'_zipped': True} if k % 2 and n < 2 else {})))
    elif op == 'tg.write':
        data = tg.read()
        if h > 1 and tg.tables:
            data[tg.tables[-1].url.string] = [{'x': object()}, {c.header: object() for c in tg.tables[-1].tableSchema.columns}]
        (d / 'out').mkdir(exist_ok=True)
        keep.append(tg.write(d / 'out' / 'md.json', _zipped=bool(n % 2), **data))
    elif op == 'copy':
        tg.copy(d / 'copied')
    elif op == 'to_file':
        if h > 1:
            tg.common_props['dc:x'] = object()
        tg.to_file(d / 'saved.json')
    elif op == 'json':
        c = CSVW(str(md))
        keep.append(c)
        keep.append(c.to_json(minimal=bool(h % 2)))
    elif op == 'validate':
        c = CSVW(str(md if h % 2 else p), validate=True)
        keep.append(c)
        keep.append(c.is_valid)
    elif op == 'db':
        db = Database(tg, None if h == 3 else d / 'db{}.sqlite'.format(n))
        keep.append(db)
        if h == 2:
            db.write(**tg.read())
        else:
            db.write_from_tg(_force=True)
        keep.append(db.read())
        if n % 2:
            keep.append(db.query('SELECT * FROM nothing'))
    elif op == 'rewrite':
        def visitor(i, row):
            if i >= n and h % 2:
                raise Boom()
            return row
        rewrite(p, visitor, dialect=dialect)
    elif op == 'add_rows':
        add_rows(p, ['a', 'b'], *([[5, object()]] if h > 1 else []))
    elif op == 'filter':
        def filt(row):
            if h % 2:
                raise Boom()
            return n % 2
        keep.append(filter_rows_as_dict(p, filt, dialect=dialect))
    elif op == 'writer':
        kw = [{}, {'delimiter': 'ab'}, {'encoding': 'ascii'}, {'encoding': 'no-such-encoding'}][h]
        w = UnicodeWriter(d / 'w.csv', **kw)
        keep.append(w)
        (d / 'w.csv').write_bytes(b'before')
        try:
            with w:
                w.writerow(['a', 'é', None])
                if n % 2:
                    raise Boom()
        except (TypeError, LookupError):
            eq((d / 'w.csv').read_bytes(), b'before', 'file although parameters are invalid')
            raise
    elif op == 'markdown':
        metadata2markdown(tg, link_files=True)
    elif op == 'package':
        (d / 'datapackage.json').write_text(json.dumps({'resources': [{
            'path': p.name, 'name': 'x', 'scheme': 'file', 'format': 'csv', 'profile': 'tabular-data-resource',
            'schema': {'fields': [{'name': 'a'}]}}]} if h else '{'), encoding='utf8')
        g = DataPackage(d / 'datapackage.json').to_tablegroup()
        keep.append(g)
        keep.append(g.read())
    elif op == 'load':
        keep.append(TableGroup.from_file(md) if h % 2 else TableGroup.from_url(str(md)))


def check(case, rec):
    d = gen.scratch(rec, 'd')
    keep = []
    with oracle():
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        md, first, access, single = c18.prepare(case, d)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            tg = CSVW(str(md)).tablegroup if single or access == 'csv' else TableGroup.from_file(md)
        except Exception:
            tg = None
    eq(descriptors(d), [], 'open files after loading')
    with oracle():
        p = d / first
        how = case['damage']
        if p.exists() and case['zip']:
            with zipfile.ZipFile(str(d / (first + '.zip')), 'w') as z:
                if how != 'emptyzip':
                    z.writestr(p.name, p.read_bytes() + (b'"x' if how == 'quote' else b'\xff\xfe\xe9' if how == 'bytes' else b''))
            p.unlink()
            if how == 'badzip':
                (d / (first + '.zip')).write_bytes(b'PK no zip')
        elif p.exists():
            if how == 'missing':
                p.unlink()
            elif how in ('quote', 'bytes'):
                p.write_bytes(p.read_bytes() + (b'"x' if how == 'quote' else b'\xff\xfe\xe9'))
            elif how == 'directory':
                p.unlink()
                p.mkdir()
        if how == 'metadata':
            md.write_text(md.read_text(encoding='utf8')[:-3], encoding='utf8')
    failed = 0
    gc.disable()
    try:
        with warnings.catch_warnings(record=True) as ws:
            for op in case['ops']:
                if tg is None and op[0] in ('iterdicts', 'read', 'pk', 'refs', 'table.write', 'tg.write', 'copy', 'to_file', 'db', 'markdown'):
                    continue
                try:
                    warnings.simplefilter('ignore')
                    warnings.simplefilter('always', ResourceWarning)
                    perform(*op, d=d, md=md, tg=tg, keep=keep)
                except Violation:
                    raise
                except Exception as e:
                    failed += 1
                    keep.append(e)  # including the frames of the functions left
                    what = '{}: {}'.format(type(e).__name__, e)
                else:
                    what = 'succeeded'
                eq(descriptors(d), [], 'open files after {} ({})', op, what)
            keep.clear()
            tg = None
        leaks = [str(w.message) for w in ws if issubclass(w.category, ResourceWarning)]
        eq(leaks, [], 'resource warnings after {}', case['ops'])
    finally:
        gc.enable()
        if keep:  # i.e. something is wrong: no influence on the next case
            keep.clear()
            gc.collect()
    rec.label('failed' if failed else 'succeeded', 'zip' if case['zip'] else 'plain', *{op[0] for op in case['ops']})
    rec.nt(failed or any(n < 3 for _, n, _, _ in case['ops']))


PROP = Prop(
    'C29',
    [Sub('files', cases(), check, quick=3000, thorough=60000)],
    rule='Datasets with or without a defect or damaged files, then 1-4 operations (reading partially or completely, with errors in '
         'between, writing, copying, converting, databases). Non-trivial: an operation fails or stops early.',
    assumptions=['Open files are listed in /proc/self/fd.',
                 'Partially consumed generators are closed explicitly; readers are used as context managers.'])
