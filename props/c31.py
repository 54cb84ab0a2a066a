"""C31: operations on the same objects do not disturb each other, however they are interleaved."""
import csv
import decimal
import json
import locale
import logging
import os
import shutil
import sys
import threading
import time
import warnings
import zipfile

from hypothesis import strategies as st

from csvw import CSVW, TableGroup
from csvw.db import Database
from csvw.dsv import Dialect, UnicodeDictReader, UnicodeReader, UnicodeReaderWithLineNumber, UnicodeWriter, iterrows
from csvw.metadata import Column
from vf.core import *
from . import c18, datasets as D, gen

STEP = ['iterdicts', 'iterdicts', 'iterdicts', 'nested', 'reader', 'dictreader', 'iterrows', 'write', 'writer', 'write.lazy']
ATOMIC = ['pk', 'refs', 'asdict', 'json', 'read', 'string', 'db', 'cells', 'headers', 'load', 'lookup']


@st.composite
def cases(draw, ops=STEP * 2 + ATOMIC, n_min=2, n_max=5):
    case = draw(c18.cases())
    if draw(st.integers(0, 2)):
        case['defect'] = None
    case.update(relative=False, single=False, access='metadata')
    case['zip'] = draw(st.integers(0, 3)) == 0
    case['comments'] = draw(st.integers(0, 2)) == 0
    n = draw(st.integers(n_min, n_max))
    case['agents'] = [[draw(st.sampled_from(ops))] + [draw(st.integers(0, 3)) for _ in range(3)] for _ in range(n)]
    case['schedule'] = draw(st.lists(st.integers(0, n - 1), min_size=5, max_size=40))
    return case


def plain(o):
    if isinstance(o, dict):
        return [(str(k), plain(v)) for k, v in o.items()]
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    return [type(o).__name__, repr(o)]


def agent(a, i, d, md, tg, csvw, out):
    """Generator of the steps of an operation; yields observations."""
    op, k, n, h = a
    t = tg.tables[k % len(tg.tables)]
    dialect = t._get_dialect()
    p = d / t.url.string
    if op == 'iterdicts':
        for row in t.iterdicts(strict=bool(h % 2), with_metadata=True):
            yield [str(row[0]), row[1], plain(row[2])]
    elif op == 'nested':
        other = tg.tables[n % len(tg.tables)]
        for row in t.iterdicts(strict=False):
            yield plain(row)
            if h % 2:
                for row2 in other.iterdicts(strict=False):
                    yield plain(row2)
            else:
                yield plain(list(other.iterdicts(strict=False)))
    elif op in ('reader', 'dictreader'):
        cls = UnicodeDictReader if op == 'dictreader' else [UnicodeReader, UnicodeReaderWithLineNumber][h % 2]
        with cls(p, dialect=dialect) as r:
            for row in r:
                yield plain(row)
            yield [plain(c) for c in r.comments]
    elif op == 'iterrows':
        for row in iterrows(p, dialect=dialect, dicts=h > 1):
            yield plain(row)
    elif op in ('write', 'write.lazy', 'string'):
        rows = list(t.iterdicts(strict=False))
        if op == 'string':
            yield plain(t.write(rows, fname=None))
            return
        target = out / '{}.csv'.format(i)
        if op == 'write.lazy':
            # Rows are read while they are written.
            t.write(t.iterdicts(strict=False), fname=target, _zipped=bool(h % 2))
        else:
            # Several tables are written row by row.
            with UnicodeWriter(target, dialect=dialect) as w:
                for row in rows:
                    w.writerow([c.write(row.get(c.header)) for c in t.tableSchema.columns if not c.virtual])
                    yield None
        if h % 2 and op == 'write.lazy':
            with zipfile.ZipFile(str(target) + '.zip') as z:
                yield [(name, z.read(name)) for name in z.namelist()]
        else:
            yield target.read_bytes()
    elif op == 'writer':
        with UnicodeWriter(None, dialect=Dialect(delimiter=',;|:'[n], quoteChar='"\''[h % 2])) as w:
            for row in [['a,b', None, '"'], ["'c;d|", 1], [], [h, 'é:']]:
                w.writerow(row)
                yield None
            yield w.read()
    elif op == 'pk':
        yield plain(t.check_primary_key())
    elif op == 'refs':
        yield plain(tg.check_referential_integrity())
    elif op == 'asdict':
        yield json.dumps(tg.asdict(omit_defaults=bool(h % 2)), default=str)
    elif op == 'json':
        yield json.dumps(csvw.to_json(minimal=bool(h % 2)), default=str)
    elif op == 'read':
        yield plain(tg.read())
    elif op == 'db':
        db = Database(tg, out / '{}.sqlite'.format(i) if h % 2 else None)
        yield None
        db.write_from_tg(_force=True)
        yield None
        yield sorted([k, sorted(map(plain, v), key=str)] for k, v in db.read().items())
    elif op == 'cells':
        for c in t.tableSchema.columns:
            for s in ('1', 'x', '', 'NA', '2020-01-01', 'a;b', 'true'):
                try:
                    v = c.read(s)
                    yield [plain(v), c.write(v)]
                except (ValueError, TypeError) as e:
                    yield type(e).__name__
    elif op == 'headers':
        yield [[c.header, str(c), c.inherit('null'), c.inherit('separator'), str(c.inherit('datatype')), c.inherit('required')]
               for c in t.tableSchema.columns]
    elif op == 'load':
        g = TableGroup.from_file(md)
        g.tables[0].common_props['dc:title'] = 'changed'
        g.tables[0].tableSchema.columns.append(Column(name='zzz'))
        g.dialect = Dialect(delimiter='\x01', header=False, skipRows=3)
        yield None
        yield json.dumps(TableGroup.from_file(md).asdict(), default=str)
    elif op == 'lookup':
        for tt in tg.tables:
            for c in tt.tableSchema.columns:
                yield str(tt.tableSchema.columndict.get(c.header) is not None)
        yield sorted(tg.tabledict)


class Run:
    """Runs an agent, recording what it observes."""

    def __init__(self, *args):
        self.gen, self.log, self.done = agent(*args), [], False

    def step(self):
        if self.done:
            return False
        try:
            self.log.append(next(self.gen))
        except StopIteration:
            self.done = True
        except Exception as e:
            self.log.append([type(e).__name__, str(e)])
            self.done = True
        return not self.done

    def all(self):
        while self.step():
            pass
        return self.log


def settings():
    """What all of the process shares."""
    ctx = decimal.getcontext()
    return {
        'warnings': [str(f) for f in warnings.filters], 'showwarning': warnings.showwarning,
        'decimal': [ctx.prec, ctx.rounding, sorted(str(k) for k, v in ctx.traps.items() if v)],
        'locale': locale.setlocale(locale.LC_ALL), 'dir': os.getcwd(), 'environ': dict(os.environ),
        'csv': [sorted(csv.list_dialects()), csv.field_size_limit()],
        'logging': [logging.root.level, len(logging.root.handlers), logging.root.manager.disable],
        'recursion': sys.getrecursionlimit(), 'path': list(sys.path), 'tz': time.tzname}


def prepare(case, d):
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir()
    md, first, access, single = c18.prepare(case, d)
    if single or access == 'csv':
        raise Skip()
    p = d / first
    if case.get('comments') and not case['defect']:
        # Comment lines in the beginning and at the end of the files, which end up as comments of the tables.
        desc = json.loads(md.read_text(encoding='utf-8-sig'))
        for obj in [desc] + desc.get('tables', []):
            if isinstance(obj, dict) and (obj is desc or isinstance(obj.get('dialect'), dict)):
                obj['dialect'] = dict(obj.get('dialect') or {}, commentPrefix='//')
        md.write_text(json.dumps(desc), encoding='utf8')
        for t in desc.get('tables', []):
            f = d / str(t.get('url')) if isinstance(t, dict) else d
            if f.is_file():
                dialect = t.get('dialect') or desc['dialect']
                enc = dialect.get('encoding', 'utf-8')
                text = f.read_bytes().decode(enc)
                end = '' if text.endswith('\n') or not text else '\r\n'
                f.write_bytes(('//first\r\n' + text + end + '//last\r\n//last\r\n').encode(enc))
    if case['zip'] and p.exists():
        with zipfile.ZipFile(str(d / (first + '.zip')), 'w') as z:
            z.writestr(p.name, p.read_bytes())
        p.unlink()
    out = d / 'out'
    out.mkdir()
    return md, out


def load(md):
    try:
        tg, c = TableGroup.from_file(md), CSVW(str(md))
    except Exception:
        raise Skip()
    if not tg.tables:
        raise Skip()
    return tg, c


def expected(case, d, md, out):
    """What each operation observes if it is the only one, on objects of its own."""
    res = []
    for i, a in enumerate(case['agents']):
        shutil.rmtree(out)
        out.mkdir()
        tg, c = load(md)
        res.append(Run(a, i, d, md, tg, c, out).all())
    shutil.rmtree(out)
    out.mkdir()
    return res


def clean(log):
    import re
    return json.loads(re.sub(r'0x[0-9a-f]+', '', json.dumps(log, default=repr)))


def compare(case, want, got, how):
    for a, w, g in zip(case['agents'], want, got):
        eq(clean(g), clean(w), 'what {} observes {}'.format(a, how))


def check_interleaved(case, rec):
    d = gen.scratch(rec, 'd')
    with warnings.catch_warnings(record=True):
        warnings.simplefilter('always')
        with oracle():
            md, out = prepare(case, d)
        state = settings()
        want = expected(case, d, md, out)
        tg, c = load(md)
        before = json.dumps(tg.asdict(omit_defaults=False), default=str)
        runs = [Run(a, i, d, md, tg, c, out) for i, a in enumerate(case['agents'])]
        for k in case['schedule']:
            runs[k].step()
        # In the end each takes its turn.
        while sum([r.step() for r in runs]):
            pass
        compare(case, want, [r.log for r in runs], 'when interleaved')
        eq(settings(), state, 'settings of the process afterwards')
        eq(json.dumps(tg.asdict(omit_defaults=False), default=str), before, 'description afterwards')
    rec.label(*[a[0] for a in case['agents']])
    switches = sum(1 for x, y in zip(case['schedule'], case['schedule'][1:]) if x != y)
    rec.label('defect' if case['defect'] else 'valid')
    rec.nt(switches >= 2 and any(len(w) > 1 for w in want))


def check_threads(case, rec):
    d = gen.scratch(rec, 'd')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with oracle():
            md, out = prepare(case, d)
        want = expected(case, d, md, out)
        tg, c = load(md)
        runs = []
        for i, a in enumerate(case['agents']):
            if a[3] > 1:  # on objects of its own
                own, ownc = load(md)
                runs.append(Run(a, i, d, md, own, ownc, out))
            else:
                runs.append(Run(a, i, d, md, tg, c, out))
        barrier = threading.Barrier(len(runs))

        def work(r):
            barrier.wait()
            r.all()
        interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work, args=(r,), daemon=True) for r in runs]
            for t in ts:
                t.start()
            for t in ts:
                t.join(60)
        finally:
            sys.setswitchinterval(interval)
        expect(not any(t.is_alive() for t in ts), 'thread does not end')
        compare(case, want, [r.log for r in runs], 'in a thread')
    rec.label(*[a[0] for a in case['agents']])
    rec.nt(any(len(w) > 1 for w in want))


THREADED = ['iterdicts', 'iterdicts', 'nested', 'reader', 'dictreader', 'iterrows', 'write', 'writer', 'write.lazy', 'pk', 'asdict', 'json',
            'read', 'string', 'db', 'cells', 'headers', 'lookup']

PROP = Prop(
    'C31',
    [Sub('interleaved', cases(), check_interleaved, quick=4000, thorough=40000),
     Sub('threads', cases(ops=THREADED, n_max=4), check_threads, quick=1200, thorough=10000)],
    rule='interleaved: 2-5 operations (iterations, nested iterations, readers, writers, checks, conversions, loading) on the same group, '
         'advanced row by row in a generated order; threads: 2-4 of them in threads on shared or separate groups with a switch interval of '
         '1 microsecond. Expected: what each observes alone on a fresh group. Non-trivial: two switches and some operation of several steps.',
    assumptions=['Changing a description while it is used by another operation is not judged.'])
