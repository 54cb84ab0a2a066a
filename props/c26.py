"""C26: the command line tools report what the library computes."""
import contextlib
import csv
import io
import json
import os
import re
import shutil
import sqlite3
import stat
import sys
import warnings

from hypothesis import strategies as st

from csvw import CSVW, TableGroup
from csvw import __main__ as cli
from csvw.db import Database
from csvw.frictionless import DataPackage
from csvw.utils import metadata2markdown
from vf.core import *
from . import c18, c21, c23, datasets as dsets, gen, pools


@contextlib.contextmanager
def cwd(d):
    old = os.getcwd()
    os.chdir(str(d))
    try:
        yield
    finally:
        os.chdir(old)


def run(func, *argv):
    """:return: exit status, standard output without escape sequences, exception (reported as status 1)"""
    out, old = io.StringIO(), sys.argv
    sys.argv = [func] + [str(a) for a in argv]
    exc = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                getattr(cli, func)()
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except Exception as e:
                code, exc = 1, e
    finally:
        sys.argv = old
    return code, re.sub('\x1b\\[[0-9;]*m', '', out.getvalue()), exc


@contextlib.contextmanager
def on_path(d, code):
    """Provides a stand-in for the frictionless command."""
    path = os.environ['PATH']
    script = d / 'frictionless'
    script.write_text('#!/bin/sh\n{}\n'.format(code))
    script.chmod(script.stat().st_mode | stat.S_IEXEC)
    os.environ['PATH'] = str(d) + os.pathsep + path
    try:
        yield
    finally:
        os.environ['PATH'] = path


def parse(s):
    def nonstandard(x):
        fail('{} is no JSON', x)
    try:
        return json.loads(s, parse_constant=nonstandard)
    except ValueError as e:
        fail('{!r} is no JSON: {}', s[:300], e)


# ---------------------------------------------------------------- csvwvalidate

@st.composite
def validations(draw):
    case = draw(c18.cases())
    case.update(verbose=draw(st.sampled_from([None, '-v', '--verbose'])), access=draw(st.sampled_from(['metadata', 'csv'])),
                missing=draw(st.integers(0, 15)) == 0)
    return case


def check_validate(case, rec):
    d = gen.scratch(rec, 'd')
    with oracle():
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        md, first, access, single = c18.prepare(case, d)
        target = md if access == 'metadata' else d / first
        if case['missing']:
            target = d / 'nothing here'
        if case['relative']:
            target = target.relative_to(d)
        argv = [target] + ([case['verbose']] if case['verbose'] else [])
        if case['order']:
            argv.reverse()
    with cwd(d), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if case['missing']:
            code, out, exc = run('csvwvalidate', *argv)
            expect(code not in (0, None) and 'OK' not in out, 'missing file: {} {!r}', code, out)
            rec.label('missing')
            return
        messages = []
        try:
            obj = CSVW(str(target), validate=True)
            want = 0 if obj.is_valid else 1
            messages = [str(w.message) for w in obj.warnings]
        except ValueError as e:
            want, messages = 2, [str(e)]
        code, out, exc = run('csvwvalidate', *argv)
    expect(exc is None, 'unexpected {!r}', exc)
    eq(code, want, 'exit status')
    eq(code == 0, not case['defect'], 'exit status 0 for {}', case['defect'])
    head, _, rest = out.partition('\n')
    eq(head, 'FAIL' if case['defect'] else 'OK', 'verdict printed')
    if case['verbose']:
        eq(rest.replace('\n', ''), ''.join(messages).replace('\n', '') if want else '', 'details printed')
    else:
        eq(rest, '', 'rest of the output')
    rec.label('status {}'.format(code), 'verbose' if case['verbose'] else 'terse')
    rec.nt(bool(case['defect']) or any(t['rows'] for t in case['ds']['tables']))


# ---------------------------------------------------------------- conversion

@st.composite
def conversions(draw):
    tool = draw(st.sampled_from(['json', 'json', 'datasette', 'sqlite', 'markdown', 'markdown']))
    case = draw(c21.groups()) if tool in ('datasette', 'sqlite') else {'ds': draw(dsets.datasets())}
    case.update(
        tool=tool, relative=draw(st.booleans()), csv=draw(st.integers(0, 4)) == 0, broken=draw(st.integers(0, 6)) == 0,
        outdir=draw(st.sampled_from(['-o', '--outdir', None])), again=draw(st.booleans()),
        out=draw(st.sampled_from(['out.sqlite', 'out', 'o u.db', 'out.sqlite3', 'é.x'])), at=draw(st.integers(0, 50)),
        meta=draw(st.dictionaries(st.sampled_from(['dc:title', 'dc:description', 'dc:license', 'dc:creator']),
                                  st.sampled_from(['x', 'é\n"', 'http://example.org', ['a', 'b'], {'@value': 'x'}]), max_size=3)))
    return case


def tables_of(path):
    conn = sqlite3.connect(str(path))
    try:
        res = {}
        for name, in conn.execute("SELECT name FROM sqlite_master WHERE type = 'table' ORDER BY name").fetchall():
            cu = conn.execute('SELECT * FROM `{}`'.format(name))
            res[name] = [[c[0] for c in cu.description], cu.fetchall()]
        return res
    finally:
        conn.close()


def check_convert(case, rec):
    d = gen.scratch(rec, 'd')
    with oracle():
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        ds, tool = case['ds'], case['tool']
        desc = dict(dsets.describe(ds), **case['meta'])
        for t in ds['tables']:
            t.setdefault('order', list(range(len(t['cols']))))
            t.setdefault('ragged', False)
        md = c21.write_files(d, desc, ds)
        target = md
        first = ds['tables'][0]['url']
        if case['csv'] and '/' not in first and tool in ('json', 'datasette'):
            target = d / first
            if c18.like_metadata(target):
                raise Skip
            md.rename(d / (first + '-metadata.json'))
        if case['broken']:
            victim = d / ds['tables'][case['at'] % len(ds['tables'])]['url']
            if case['at'] % 3 == 2 and ds['tables'][case['at'] % len(ds['tables'])]['rows'] and not ds['dialect']:
                # A column which is not described
                rows = list(csv.reader(io.StringIO(victim.read_text(encoding='utf8'), newline='')))
                rows = [r + ['x'] for r in rows]
                buf = io.StringIO(newline='')
                csv.writer(buf).writerows(rows)
                victim.write_bytes(buf.getvalue().encode('utf8'))
            elif case['at'] % 3:
                victim.write_bytes(victim.read_bytes() + b'"unclosed')
            else:
                victim.unlink()
        if case['relative']:
            target = target.relative_to(d)
    with cwd(d), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        eval_ = globals()['tool_' + tool]
        eval_(case, d, target, rec)
    rec.label(tool, 'broken' if case['broken'] else 'valid')
    rec.nt(any(t['rows'] for t in ds['tables']))


def library(func):
    try:
        return func(), None
    except Exception as e:
        return None, e


def tool_json(case, d, target, rec):
    want, e = library(lambda: json.loads(json.dumps(CSVW(str(target)).to_json())))
    code, out, exc = run('csvw2json', target)
    if e:
        expect(code != 0, 'status {}, although {!r}', code, e)
        eq(out, '', 'output')
        return
    eq((code, exc), (0, None), 'status')
    eq(parse(out), want, 'JSON')


def tool_markdown(case, d, target, rec):
    want, e = library(lambda: metadata2markdown(TableGroup.from_file(target), link_files=True))
    code, out, exc = run('csvw2markdown', target)
    if e:
        expect(code != 0, 'status {}, although {!r}', code, e)
        return
    eq((code, exc), (0, None), 'status')
    eq(out, want + '\n', 'markdown')


def tool_sqlite(case, d, target, rec):
    def load():
        db = Database(TableGroup.from_file(target), d / 'expected.sqlite')
        db.write_from_tg()
        return db.read()
    want, e = library(load)
    out_ = d / case['out']
    code, out, exc = run('csvw2sqlite', target, out_)
    if e:
        expect(code != 0, 'status {}, although {!r}', code, e)
        return
    eq((code, exc), (0, None), 'status')
    eq(tables_of(out_), tables_of(d / 'expected.sqlite'), 'tables')
    eq(compact(Database(TableGroup.from_file(target), out_).read()), compact(want), 'rows')
    if case['again']:
        code, out, exc = run('csvw2sqlite', target, out_)
        eq((code, exc), (0, None), 'status')
        eq(tables_of(out_), tables_of(d / 'expected.sqlite'), 'tables')


def compact(db):
    return {k: [dict(r) for r in v] for k, v in db.items() if v}


def tool_datasette(case, d, target, rec):
    def load():
        db = Database(CSVW(str(target)).tablegroup, d / 'expected.sqlite')
        db.write_from_tg()
    _, e = library(load)
    outdir = d
    argv = [target]
    if case['outdir']:
        outdir = d / 'out dir'
        outdir.mkdir()
        argv = [case['outdir'], outdir] + argv
    code, out, exc = run('csvw2datasette', *argv)
    if e:
        expect(code != 0, 'status {}, although {!r}', code, e)
        return
    eq((code, exc), (0, None), 'status')
    eq(tables_of(outdir / 'datasette.db'), tables_of(d / 'expected.sqlite'), 'tables')
    md = parse((outdir / 'datasette-metadata.json').read_text(encoding='utf8'))
    eq(md, {k[3:]: case['meta'][k] for k in ['dc:title', 'dc:description', 'dc:license'] if k in case['meta']}, 'metadata')
    expect('datasette.db' in out and 'datasette-metadata.json' in out, 'output {!r}', out)
    if case['again']:
        before = {p.name: p.read_bytes() for p in outdir.iterdir() if p.is_file()}
        code, out, exc = run('csvw2datasette', *argv)
        expect(code != 0, 'existing database')
        eq({p.name: p.read_bytes() for p in outdir.iterdir() if p.is_file()}, before, 'files')


# ---------------------------------------------------------------- csvwdescribe

@st.composite
def descriptions(draw):
    case = draw(c23.packages())
    case.update(access='dict', defect=None)
    return {'pkg': case, 'delimiter': draw(st.sampled_from([None, None, ',', ';', '\t', '|', '"', '\\', "'", ' ', 'é', '{'])),
            'files': draw(st.lists(st.sampled_from(['a.csv', 'b c.csv', "it's.csv", 'x/y.tsv', '*.csv', 'ü;a']), min_size=1, max_size=3)),
            'fails': draw(st.integers(0, 9)) == 0}


def check_describe(case, rec):
    d = gen.scratch(rec, 'd')
    with oracle():
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        res = c23.build(case['pkg'])
        if res is None:
            raise Skip()
        pkg = res[0]
        one = len(case['files']) == 1 and '*' not in case['files'][0]
        if one:
            pkg['resources'] = pkg['resources'][:1]
            rs = pkg['resources'][0]
            for fk in rs.get('schema', {}).get('foreignKeys', []):
                fk['reference']['resource'] = ''
            if rs.get('schema', {}).get('foreignKeys') and ('path' not in rs):
                raise Skip()
            pkg = {'resources': pkg['resources'], 'profile': 'data-package'}
        if any(fk['reference']['resource'] not in [''] + [r['name'] for r in pkg['resources'] if 'path' in r]
               for r in pkg['resources'] for fk in r.get('schema', {}).get('foreignKeys', [])):
            raise Skip()
        if any(fk['reference']['resource'] == '' and 'path' not in r
               for r in pkg['resources'] for fk in r.get('schema', {}).get('foreignKeys', [])):
            raise Skip()
        (d / 'result.json').write_text(json.dumps(pkg['resources'][0] if one else pkg), encoding='utf8')
        argv = (['--delimiter', case['delimiter']] if case['delimiter'] else []) + case['files']
    script = 'for a in "$@"; do printf "%s\\n" "$a" >> "{0}/argv"; done\ncat "{0}/result.json"\nexit {1}'
    with warnings.catch_warnings(), on_path(d, script.format(d, int(case['fails']))):
        warnings.simplefilter('ignore')
        want = DataPackage(pkg).to_tablegroup()
        code, out, exc = run('csvwdescribe', *argv)
    if case['fails']:
        expect(code != 0 and not out, 'status {} and output {!r} although frictionless failed', code, out)
        return
    eq((code, exc), (0, None), 'status')
    got = parse(out)
    eq(got, json.loads(json.dumps(want.asdict())), 'description')
    with oracle():
        args = (d / 'argv').read_text(encoding='utf8').split('\n')[:-1]
    eq(args[-len(case['files']):], case['files'], 'files passed to frictionless')
    eq(args[0], 'describe', 'command')
    expect('--json' in args, 'output of {!r} is no JSON', args)
    if case['delimiter']:
        expect('--dialect' in args, 'no dialect in {!r}', args)
        eq(parse(args[args.index('--dialect') + 1]), {'delimiter': case['delimiter']}, 'dialect')
    else:
        expect('--dialect' not in args, 'dialect in {!r}', args)
    eq('--type' in args, not one, 'package in {!r}', args)
    if one:  # whatever the suffix of the file
        expect('--format' in args and args[args.index('--format') + 1] == 'csv', 'no format in {!r}', args)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        again = TableGroup.fromvalue(got)
    eq([t.url.string for t in again.tables], [t.url.string for t in want.tables], 'tables')
    rec.label('one' if one else 'package', 'delimiter' if case['delimiter'] else 'no delimiter')
    rec.nt(bool(want.tables))


# ---------------------------------------------------------------- usage

TOOLS = ['csvwdescribe', 'csvwvalidate', 'csvw2json', 'csvw2datasette', 'csvw2sqlite', 'csvw2markdown']


def usages(tier):
    for tool in TOOLS:
        for argv, code in [(['-h'], 0), (['--help'], 0), ([], 2), (['--no-such-option', 'x'], 2)]:
            yield {'tool': tool, 'argv': argv, 'code': code}


def check_usage(case, rec):
    d = gen.scratch(rec, 'd')
    with oracle():
        d.mkdir(exist_ok=True)
    with on_path(d, 'exit 3'):
        code, out, exc = run(case['tool'], *case['argv'])
    eq((code, exc), (case['code'], None), 'status of {} {}', case['tool'], case['argv'])
    if case['argv'] and not code:
        expect('usage' in out and len(out.splitlines()) > 3, 'help {!r}', out)
    rec.nt()


PROP = Prop(
    'C26',
    [Sub('validate', validations(), check_validate, quick=2500, thorough=60000),
     Sub('convert', conversions(), check_convert, quick=2000, thorough=40000),
     Sub('describe', descriptions(), check_describe, quick=600, thorough=10000),
     Enum('usage', usages, check_usage)],
    rule='validate: the datasets with one or no defect of C18; convert: groups of tables, valid or with broken or missing files, to '
         'JSON, Markdown, SQLite and datasette; describe: generated data packages with a stand-in for the frictionless command. '
         'Non-trivial: a defect, or some row, or some table.',
    assumptions=['The functions behind the commands are run in the process of the check, with the command line in sys.argv.',
                 'csvw2sqlite overwrites existing files by design.'])
