"""C25: saving, copying and reloading a dataset keeps it intact."""
import contextlib
import itertools
import json
import os
import pathlib
import shutil
import zipfile

from hypothesis import strategies as st

from csvw import TableGroup, Table
from vf.core import *
from . import datasets as dsets, gen, pools

DIRS = ['a', 'b c', 'd/e', 'ü#x']


@st.composite
def histories(draw):
    ds = draw(dsets.datasets(kinds=[k for k in pools.ALL_KINDS], max_rows=4,
                             urls=['x.csv', 'y z.csv', 'sub/z.csv', 'p/q/r.csv', 'ü.csv', 'y.tsv', 'a#b.csv', 'no-suffix', 'X.csv', 'sub/Z.csv']))
    for t in ds['tables']:
        t['zip'] = draw(st.integers(0, 4)) == 0
    rows = st.lists(st.integers(0, 9), max_size=5)
    dirs = st.integers(0, len(DIRS) - 1)
    handle = st.integers(0, 5)
    op = st.one_of(
        st.tuples(st.just('load'), dirs, st.sampled_from(['str', 'path', 'relative'])),
        st.tuples(st.just('read'), handle),
        st.tuples(st.just('partial'), handle, st.integers(0, 3), st.integers(0, 3)),
        st.tuples(st.just('interleaved'), handle, st.integers(0, 3)),
        st.tuples(st.just('write'), handle, dirs, st.lists(st.one_of(st.none(), rows), min_size=3, max_size=3),
                  st.booleans(), st.sampled_from(['str', 'path', 'relative']), st.sampled_from(['dict', 'list', 'iter'])),
        st.tuples(st.just('copy'), handle, dirs, st.sampled_from(['str', 'path', 'relative'])),
        st.tuples(st.just('copy'), handle, dirs, st.sampled_from(['str', 'path', 'relative'])),
        st.tuples(st.just('base'), handle, dirs, st.integers(0, 3), rows, st.booleans(), st.booleans()),
        st.tuples(st.just('to_file'), handle, dirs, st.booleans()),
        st.tuples(st.just('unserialisable'), handle, dirs, st.booleans()),
        st.tuples(st.just('table'), handle, st.integers(0, 3), rows, st.booleans()),
        st.tuples(st.just('text'), handle, st.integers(0, 3), rows),
        st.tuples(st.just('elsewhere'), handle, st.integers(0, 3), rows, st.booleans()),
    )
    return {'ds': ds, 'ops': [list(o) for o in draw(st.lists(op, min_size=2, max_size=8))],
            'mkdir': draw(st.sampled_from([15, 15, 0, 5])), 'external': draw(st.sampled_from([None, None, None, 'schema', 'dialect']))}


def snapshot(root):
    return {str(p.relative_to(root)): p.read_bytes() for p in sorted(root.rglob('*')) if p.is_file()}


@contextlib.contextmanager
def chdir(d):
    cwd = os.getcwd()
    os.chdir(str(d))
    try:
        yield
    finally:
        os.chdir(cwd)


def zip_file(p):
    with zipfile.ZipFile(str(p.parent / (p.name + '.zip')), 'w', compression=zipfile.ZIP_DEFLATED) as z:
        z.write(str(p), arcname=p.name)
    p.unlink()


def check_histories(case, rec):
    root = gen.scratch(rec, 'root')
    with oracle():
        shutil.rmtree(root, ignore_errors=True)
        for i, name in enumerate(DIRS):
            if i == 0 or case['mkdir'] & 2 ** i:
                (root / name).mkdir(parents=True)
        ds = case['ds']
        urls = [t['url'] for t in ds['tables']]
        desc = dsets.describe(ds)
        first = root / DIRS[0]
        for u in urls:
            # Must not be overwritten.
            for where in ['', 'd', 'sub']:
                if not (root / where / u).exists():
                    (root / where / u).parent.mkdir(exist_ok=True, parents=True)
                    (root / where / u).write_bytes(b'x')
        if case['external'] == 'schema':
            (first / 'schema.json').write_text(json.dumps(desc['tables'][0]['tableSchema']), encoding='utf8')
            desc['tables'][0]['tableSchema'] = 'schema.json'
        elif case['external'] == 'dialect' and ds['dialect'] is not None:
            (first / 'dialect.json').write_text(json.dumps(ds['dialect']), encoding='utf8')
            for obj in [desc] + desc['tables']:
                if 'dialect' in obj:
                    obj['dialect'] = 'dialect.json'
        dsets.write(first, desc, {t['url']: dsets.content(t) for t in ds['tables']}, dialect=ds['dialect'])
        for t in ds['tables']:
            if t['zip']:
                zip_file(first / t['url'])
    with chdir(root):
        tg = TableGroup.from_file(first / 'metadata.json')
        base = {k: [dict(r) for r in v] for k, v in tg.read().items()}
        for t in ds['tables']:
            eq(len(base[t['url']]), len(t['rows']), 'rows of {}', t['url'])
        description = json.dumps(tg.asdict(omit_defaults=False), default=str)
        source = rewritable(ds, base)
        handles = [(tg, DIRS[0])]
        model = {DIRS[0]: {u: list(base[u]) for u in urls}}  # contents of the directories
        described = {DIRS[0]}
        changed = 0
        for op in case['ops']:
            before = snapshot(root)
            name, touched = op[0], None
            if name == 'load':
                if DIRS[op[1]] not in described:
                    continue
                p = root / DIRS[op[1]] / 'metadata.json'
                p = p.relative_to(root) if op[2] == 'relative' else p
                tg = TableGroup.from_file(str(p) if op[2] == 'str' else p)
                eq(json.dumps(tg.asdict(omit_defaults=False), default=str), description, 'description loaded')
                handles.append((tg, DIRS[op[1]]))
                readable(tg, model[DIRS[op[1]]], urls)
            else:
                i = op[1] % len(handles)
                tg, where = handles[i]
                content = model.get(where, {})
                if name == 'read':
                    readable(tg, content, urls)
                elif name == 'partial':
                    t = tg.tables[op[2] % len(urls)]
                    if urls[op[2] % len(urls)] in content:
                        got = [dict(r) for r in itertools.islice(t.iterdicts(), op[3])]
                        eq(got, content[t.url.string][:op[3]], 'first rows')
                        readable(tg, content, urls)
                elif name == 'interleaved':
                    t = tg.tables[op[2] % len(urls)]
                    if t.url.string in content:
                        pairs = [(dict(a), dict(b)) for a, b in zip(iter(t), t.iterdicts())]
                        eq(pairs, [(r, r) for r in content[t.url.string]], 'rows of two iterators')
                elif name == 'write':
                    touched = DIRS[op[2]]
                    new = {u: pick(source[u], spec) for u, spec in zip(urls, op[3]) if spec is not None}
                    out = root / touched / 'metadata.json'
                    out = out.relative_to(root) if op[5] == 'relative' else out
                    tg.write(str(out) if op[5] == 'str' else out, _zipped=op[4],
                             **{u: form(rows, op[6], tg.tabledict[u]) for u, rows in new.items()})
                    for u in new:
                        zipped = (root / touched / (u + '.zip')).exists() and not (root / touched / u).exists()
                        eq(zipped, op[4], 'zipped')
                        if zipped:
                            with zipfile.ZipFile(str(root / touched / (u + '.zip'))) as z:
                                eq(z.namelist(), [u.split('/')[-1]], 'content of the zip archive')
                    model.setdefault(touched, {}).update(new)
                    described.add(touched)
                    changed += bool(new)
                    fresh(root, touched, model, urls, description)
                    readable(tg, model.get(where, {}), urls)
                elif name == 'copy':
                    if set(content) != set(urls) or where == DIRS[op[2]]:
                        continue
                    touched = DIRS[op[2]]
                    dest = root / touched
                    dest = dest.relative_to(root) if op[3] == 'relative' else dest
                    tg.copy(str(dest) if op[3] == 'str' else dest)
                    model[touched] = {u: list(rows) for u, rows in content.items()}
                    described.add(touched)
                    handles[i] = (tg, touched)
                    changed += 1
                    fresh(root, touched, model, urls, description)
                    readable(tg, model[touched], urls)
                elif name == 'to_file':
                    if DIRS[op[2]] not in model:
                        continue
                    touched = DIRS[op[2]]
                    p = tg.to_file(root / touched / 'metadata.json', omit_defaults=op[3])
                    eq(p, root / touched / 'metadata.json', 'path')
                    described.add(touched)
                    fresh(root, touched, model, urls, description)
                elif name == 'unserialisable':
                    # Nothing is lost if the description cannot be saved.
                    if DIRS[op[2]] not in described:
                        continue
                    tg.common_props['dc:x'] = object()
                    try:
                        func = tg.to_file if op[3] else tg.write
                        expect(raises(TypeError, func, root / DIRS[op[2]] / 'metadata.json'), 'no error')
                    finally:
                        del tg.common_props['dc:x']
                elif name == 'table':
                    t = tg.tables[op[2] % len(urls)]
                    u = t.url.string
                    if u not in content and not (root / where / u).parent.exists():
                        continue
                    touched = where
                    rows = pick(source[u], op[3])
                    eq(t.write([dict(r) for r in rows], _zipped=op[4]), len(rows), 'number of rows')
                    model.setdefault(where, {})[u] = rows
                    changed += 1
                    readable(tg, model[where], urls)
                elif name == 'base':
                    t = tg.tables[op[3] % len(urls)]
                    touched, rows = DIRS[op[2]], pick(source[t.url.string], op[4])
                    dest = root / touched
                    eq(t.write([dict(r) for r in rows], base=str(dest) if op[6] else dest, _zipped=op[5]), len(rows), 'number of rows')
                    model.setdefault(touched, {})[t.url.string] = rows
                    changed += 1
                    if touched in described:
                        fresh(root, touched, model, urls, description)
                elif name == 'text':
                    t = tg.tables[op[2] % len(urls)]
                    rows = pick(source[t.url.string], op[3])
                    text = t.write([dict(r) for r in rows], fname=None)
                    expect(isinstance(text, (str, bytes)), 'type of {!r}', text)
                elif name == 'elsewhere':
                    # Other files do not matter.
                    t = tg.tables[op[2] % len(urls)]
                    rows = pick(source[t.url.string], op[3])
                    touched = DIRS[-1]
                    (root / DIRS[-1]).mkdir(exist_ok=True)
                    t.write([dict(r) for r in rows], fname=root / DIRS[-1] / 'unrelated', _zipped=op[4])
                    readable(tg, content, urls)
            after = snapshot(root)
            for p in set(before) | set(after):
                if touched is None or not p.startswith(touched + '/'):
                    expect(before.get(p) == after.get(p), '{} changes {}', op, p)
            rec.label(name)
        for where in sorted(described):
            fresh(root, where, model, urls, description)
    rec.label('external' if case['external'] else 'inline', 'zipped' if any(t['zip'] for t in ds['tables']) else 'plain')
    rec.nt(changed and any(base.values()))


def pick(rows, spec):
    return [dict(rows[i % len(rows)]) for i in spec] if rows else []


def rewritable(ds, base):
    """A missing list is written as empty list."""
    res = {}
    for t in ds['tables']:
        lists = [i for i, c in enumerate(t['cols']) if c['sep']]
        res[t['url']] = [{k: [] if v is None and i in lists else v for i, (k, v) in enumerate(r.items())} for r in base[t['url']]]
    return res


def form(rows, kind, table):
    if kind == 'list':
        return [[r.get(c.header) for c in table.tableSchema.columns] for r in rows]
    return iter(rows) if kind == 'iter' else [dict(r) for r in rows]


def readable(tg, content, urls):
    for t, u in zip(tg.tables, urls):
        if u in content:
            for _ in range(2):
                eq([dict(r) for r in t], content[u], 'rows of {}', u)
    if set(content) == set(urls):
        eq({k: [dict(r) for r in v] for k, v in tg.read().items()}, {u: content[u] for u in urls}, 'all rows')


def fresh(root, where, model, urls, description):
    tg = TableGroup.from_file(root / where / 'metadata.json')
    eq(json.dumps(tg.asdict(omit_defaults=False), default=str), description, 'description reloaded')
    readable(tg, model.get(where, {}), urls)


PROP = Prop(
    'C25',
    [Sub('histories', histories(), check_histories, quick=1500, thorough=40000)],
    rule='sequences of 2-8 operations (load, read, partial and interleaved iteration, write, copy, save the description, write '
         'single tables to disk, memory or elsewhere; zipped or not) on groups of 1-3 tables in 4 directories, with several '
         'TableGroup objects at once. Non-trivial: some rows exist and some data was written or copied.',
    assumptions=['A group is not copied to its own directory.'])
