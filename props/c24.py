"""C24: metadata is located in the order the standard prescribes."""
import contextlib
import json
import os
import shutil
import warnings

from hypothesis import strategies as st

from csvw import CSVW
from vf.core import *
from . import gen, rfc, web

PATHS = ['/d/data.csv', '/data.csv', '/d/e/data.csv', '/d/data', '/d/data.csv?v=1', '/d/b%20c.csv', '/d/%C3%BC.csv', '/d/a.csv']
STATES = ['absent', 'absent', 'good', 'good', 'group', 'group', 'relative', 'path', 'up', 'up', 'other', 'other', 'othergroup', 'suffix', 'prefix', 'nourl', 'jsonld', 'list',
          'scalar', 'null', 'broken', 'empty', 'tables', 'csv', '500', 'strings']
TEMPLATES = ['{+url}-metadata.json', 'csv-metadata.json', 'meta.json', '../up.json', '/abs.json', '{+url}.json', '/m/x.json',
             '{+url}/../sib.json', '/q.json{?x}', './csvm']
TYPES = ['application/csvm+json', 'application/ld+json', 'application/json']


@st.composite
def remote(draw):
    locs = draw(st.lists(st.sampled_from(TEMPLATES), min_size=0, max_size=4, unique=True))
    state = st.sampled_from(STATES)
    return {
        'path': draw(st.sampled_from(PATHS)),
        'link': draw(st.one_of(st.none(), st.none(), st.fixed_dictionaries({
            'state': state, 'ref': draw(st.sampled_from([
                st.just('linked.json'), st.just('/m/linked.json'), st.just('../linked.json'), st.just('abs')])),
            'type': st.sampled_from(TYPES + TYPES + ['text/html', None]),
            'rel': st.sampled_from(['describedby'] * 5 + ['alternate']),
            'first': st.sampled_from([None, None, 'describedby', 'license'])}))),
        'wellknown': draw(st.one_of(st.none(), st.none(), st.fixed_dictionaries({
            'lines': st.just(locs), 'eol': st.sampled_from(['\n', '\n', '\r\n']), 'blank': st.booleans(), 'final': st.booleans()}))),
        'states': {t: draw(state) for t in sorted(set(locs) | {'{+url}-metadata.json', 'csv-metadata.json'})},
        'wkstatus': draw(st.sampled_from([404, 404, 500])),
        'md': draw(st.sampled_from([None] * 5 + ['/x/explicit.json', '/d/explicit.json'])),
        'mdstate': draw(st.sampled_from(GOOD)),
        'noheader': draw(st.sampled_from([False, False, False, True])),
        'validate': draw(st.booleans()),
        'rows': draw(st.integers(0, 2)), 'crlf': draw(st.booleans())}


def document(state, marker, url, location):
    """:return: (status, bytes)"""
    def table(u):
        return {'url': u, 'tableSchema': {'columns': [{'name': marker + '_a', 'titles': 'a'},
                                                      {'name': marker + '_b', 'titles': 'b', 'datatype': 'integer'}]}}

    def md(**kw):
        return dict({'@context': 'http://www.w3.org/ns/csvw', 'dc:title': marker}, **kw)
    other = rfc.resolve(url.split('?')[0], 'other.txt')
    doc = None
    if state in ('absent', '500'):
        return (404 if state == 'absent' else 500), json.dumps(md(**table(url))).encode()
    if state == 'good':
        doc = md(**table(url))
    elif state == 'relative':
        doc = md(**table('//' + url.split('//')[1]))
    elif state == 'path':
        doc = md(**table('/' + url.split('/', 3)[3]))
    elif state == 'up':
        # relative to the location of the description
        doc = md(**table('../' * (location.split('?')[0].count('/') - 3) + url.split('/', 3)[3]))
    elif state == 'group':
        doc = md(tables=[table(other), table(url)])
    elif state == 'other':
        doc = md(**table(other))
    elif state in ('suffix', 'prefix'):
        # Another file, whose name contains the name of this one, or the other way round
        last = url.split('/')[-1]
        doc = md(**table(rfc.resolve(url, last[1:] if state == 'suffix' else 'x' + last)))
    elif state == 'othergroup':
        doc = md(tables=[table(other)])
    elif state == 'nourl':
        doc = md(tableSchema=table(url)['tableSchema'])
    elif state == 'tables':
        doc = md(tables={'url': url})
    elif state == 'strings':
        doc = md(tables=[1, 'a', None])
    elif state == 'jsonld':
        doc = {'@context': 'http://schema.org/', 'name': 'x', 'url': other}
    elif state == 'list':
        doc = [table(url)]
    elif state == 'scalar':
        doc = 5
    elif state == 'null':
        return 200, b'null'
    elif state == 'broken':
        return 200, b'{"url": '
    elif state == 'empty':
        return 200, b''
    elif state == 'csv':
        return 200, b'a,b\r\nx,1\r\n'
    return 200, json.dumps(doc).encode('utf-8')


GOOD, OTHER = ('good', 'group', 'relative', 'path', 'up'), ('other', 'othergroup', 'suffix', 'prefix')


@contextlib.contextmanager
def recorded():
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        yield w


def check_remote(case, rec):
    with oracle():
        res = {}
        host, requested = web.serve(res)
        url = host + case['path']
        eol = '\r\n' if case['crlf'] else '\n'
        lines = ([] if case['noheader'] else ['a,b']) + ['x{0},{0}'.format(i) for i in range(case['rows'])]
        headers = {'Content-Type': 'text/csv' + ([
            '; header=absent', ';header=absent; charset=utf-8', '; charset=utf-8; header = absent', '; header\t=absent'][
                (case['rows'] + case['crlf'] * 2) % 4] if case['noheader'] else '')}
        res[rfc.resolve(url, 'other.txt')[len(host):]] = (200, {}, b'a,b\r\nother,7\r\n')
        chain = []  # (state, marker) in order of precedence
        link = case['link']
        if link:
            loc = host + '/abs/linked.json' if link['ref'] == 'abs' else rfc.resolve(url, link['ref'])
            value = '<{}>; rel="{}"'.format(loc if link['ref'] == 'abs' else link['ref'], link['rel'])
            if link['type']:
                value += '; type="{}"'.format(link['type'])
            if link['first']:
                value = '<first.json>; rel="{}"; type="application/csvm+json", '.format(link['first']) + value
            headers['Link'] = value
            status, content = document(link['state'], 'link', url, loc)
            res[loc[len(host):]] = (status, {'Content-Type': 'application/json'}, content)
            if link['first']:
                floc = rfc.resolve(url, 'first.json')
                res[floc[len(host):]] = (200, {}, document('good', 'first', url, floc)[1])
            if link['first'] == 'describedby' and (link['rel'] != 'describedby' or link['type'] not in TYPES):
                raise Skip  # Which one is the last?
            if link['rel'] == 'describedby' and link['type'] in TYPES:
                chain.append((link['state'], 'link'))
        wk = case['wellknown']
        if wk:
            ls = list(wk['lines'])
            if wk['blank']:
                ls.insert(len(ls) // 2, '')
            res['/.well-known/csvm'] = (200, {'Content-Type': 'text/plain'},
                                        (wk['eol'].join(ls) + (wk['eol'] if wk['final'] else '')).encode())
            templates = wk['lines']
        else:
            res['/.well-known/csvm'] = (case['wkstatus'], {}, b'meta.json')
            templates = ['{+url}-metadata.json', 'csv-metadata.json']
        paths = set(res) | {case['path']}
        for i, t in enumerate(TEMPLATES):
            if t in case['states']:
                loc = rfc.resolve(url, t.replace('{+url}', url).replace('{?x}', ''))
                if loc[len(host):] in paths:
                    raise Skip
                paths.add(loc[len(host):])
                status, content = document(case['states'][t], 'loc{}'.format(i), url, loc)
                res[loc[len(host):]] = (status, {'Content-Type': 'application/json'}, content)
        for t in templates:
            chain.append((case['states'][t], 'loc{}'.format(TEMPLATES.index(t))))
        if case['md']:
            chain = [(case['mdstate'], 'explicit')]
            res[case['md']] = (200, {}, document(case['mdstate'], 'explicit', url, host + case['md'])[1])
        res[case['path']] = (200, headers, ''.join(line + eol for line in lines).encode())
        found = next((i for i, (s, _) in enumerate(chain) if s in GOOD), None)
        ignored = [s for s, _ in chain[:found] if s in OTHER]
        marker = None if found is None else chain[found][1]
    kw = {'validate': True} if case['validate'] else {}
    with recorded() as w:
        obj = CSVW(url, md_url=host + case['md'], **kw) if case['md'] else CSVW(url, **kw)
        eq(obj.common_props.get('dc:title'), marker, 'description used')
        msgs = [str(m.message) for m in w] + [str(m.message) for m in obj.warnings]
        if ignored:
            expect(sum('ignoring' in m.lower() for m in msgs) >= len(ignored), 'warnings for {}: {!r}', ignored, msgs)
        if all(s in GOOD + ('absent',) for s, _ in (chain if found is None else chain[:found + 1])):
            eq([m for m in msgs if 'unclosed' not in m], [], 'warnings')
            if case['validate'] and not case['noheader']:
                eq(obj.is_valid, True, 'is_valid')
        if case['validate'] and ignored:
            eq(obj.is_valid, False, 'is_valid')
        tables = [t for t in obj.tables if str(t.url.resolve(t.base)) == url]
        eq(len(tables), 1, 'tables with the URL {}', url)
        if case['noheader'] and (case['md'] or (found is not None and chain[found][0] == 'group')):
            pass  # Not specified
        else:
            rows = [dict(r) for r in tables[0].iterdicts(strict=False)]
            if marker:
                want = [{marker + '_a': 'x{}'.format(i), marker + '_b': i} for i in range(case['rows'])]
            elif case['noheader']:
                want = [{'_col.1': 'x{}'.format(i), '_col.2': str(i)} for i in range(case['rows'])]
            else:
                want = [{'a': 'x{}'.format(i), 'b': str(i)} for i in range(case['rows'])]
            eq(rows, want, 'rows')
    rec.label('explicit' if case['md'] else marker[:3] if marker else 'embedded')
    if ignored:
        rec.label('ignored')
    if case['noheader']:
        rec.label('no header')
    rec.nt(len(chain) > 1 or case['md'])


# ---------------------------------------------------------------- local files

@st.composite
def local(draw):
    return {'name': draw(st.sampled_from(['data.csv', 'b c.csv', 'ü.csv', 'a#b.csv', '50%.csv', 'data', 'x.tsv', 'a?b.csv'])),
            'dir': draw(st.sampled_from(['', 'sub/', 'a b/', 'x#y/'])),
            'states': [draw(st.sampled_from(['absent', 'good', 'group', 'other', 'othergroup', 'suffix', 'prefix',
                                                 'nourl', 'list', 'scalar'])) for _ in range(2)],
            'md': draw(st.sampled_from([None, None, None, 'explicit.json', 'other/explicit.json'])),
            'abs': draw(st.booleans()), 'pathlib': draw(st.booleans()),
            'content': draw(st.sampled_from(['a,b', 'a,b', 'a,b', '1,2'])), 'rows': draw(st.integers(0, 2)),
            'validate': draw(st.booleans())}


@contextlib.contextmanager
def chdir(d):
    cwd = os.getcwd()
    os.chdir(str(d))
    try:
        yield
    finally:
        os.chdir(cwd)


def check_local(case, rec):
    d = gen.scratch(rec, 'd')
    with oracle():
        shutil.rmtree(d, ignore_errors=True)
        p = d / case['dir'] / case['name']
        p.parent.mkdir(parents=True)
        heads = case['content'].split(',')
        p.write_bytes((case['content'] + '\n' + ''.join('x{0},{0}\n'.format(i) for i in range(case['rows']))).encode())
        (p.parent / 'other.txt').write_bytes(b'a,b\nother,7\n')
        ref = case['name']

        def document(state, marker):
            def table(u):
                return {'url': u, 'tableSchema': {'columns': [
                    {'name': marker + '_a', 'titles': heads[0]}, {'name': marker + '_b', 'titles': heads[1], 'datatype': 'integer'}]}}
            md = {'@context': 'http://www.w3.org/ns/csvw', 'dc:title': marker}
            return dict(md, **{
                'good': table(ref), 'group': {'tables': [table('other.txt'), table(ref)]}, 'other': table('other.txt'),
                'suffix': table(ref[1:]), 'prefix': table('x' + ref),
                'othergroup': {'tables': [table('other.txt')]}, 'nourl': {'tableSchema': {}},
            }[state]) if state not in ('list', 'scalar') else [md] if state == 'list' else 5
        chain = []
        for name, state, marker in [(case['name'] + '-metadata.json', case['states'][0], 'specific'),
                                    ('csv-metadata.json', case['states'][1], 'directory')]:
            if state != 'absent':
                (p.parent / name).write_text(json.dumps(document(state, marker)), encoding='utf8')
            chain.append((state, marker))
        mdp = None
        if case['md']:
            mdp = d / case['dir'] / case['md']
            mdp.parent.mkdir(exist_ok=True)
            doc = document('good', 'explicit')
            if '/' in case['md']:
                doc['url'] = '../' + doc['url']
            mdp.write_text(json.dumps(doc), encoding='utf8')
            chain = [('good', 'explicit')]
        found = next((i for i, (s, _) in enumerate(chain) if s in GOOD), None)
        ignored = [s for s, _ in chain[:found] if s in OTHER]
        marker = None if found is None else chain[found][1]
        arg = [x if case['abs'] else x.relative_to(d) for x in [p] + ([mdp] if mdp else [])]
        arg = [x if case['pathlib'] else str(x) for x in arg]
    kw = {'validate': True} if case['validate'] else {}
    with recorded() as w, chdir(d):
        obj = CSVW(arg[0], md_url=arg[1], **kw) if mdp else CSVW(arg[0], **kw)
        eq(obj.common_props.get('dc:title'), marker, 'description used')
        msgs = [str(m.message) for m in w] + [str(m.message) for m in obj.warnings]
        if ignored:
            expect(sum('ignoring' in m.lower() for m in msgs) >= len(ignored), 'warnings for {}: {!r}', ignored, msgs)
        if all(s in GOOD + ('absent',) for s, _ in (chain if found is None else chain[:found + 1])):
            eq([m for m in msgs if 'unclosed' not in m], [], 'warnings')
            if case['validate']:
                eq(obj.is_valid, True, 'is_valid')
        if case['validate'] and ignored:
            eq(obj.is_valid, False, 'is_valid')
        table = obj.tables[-1]
        rows = [dict(r) for r in table.iterdicts(strict=False)]
        if marker:
            want = [{marker + '_a': 'x{}'.format(i), marker + '_b': i} for i in range(case['rows'])]
        else:
            want = [{heads[0]: 'x{}'.format(i), heads[1]: str(i)} for i in range(case['rows'])]
        eq(rows, want, 'rows')
    rec.label(marker or 'embedded', 'ignored' if ignored else 'nothing ignored')
    rec.nt(any(s != 'absent' for s in case['states']) or case['md'])


PROP = Prop(
    'C24',
    [Sub('remote', remote(), check_remote, quick=1500, thorough=30000),
     Sub('local', local(), check_local, quick=1500, thorough=20000)],
    rule='remote: data on a loopback web server with link header, site-wide configuration and metadata at up to 6 locations, each '
         'absent, describing the data (alone or among others), describing something else, no CSVW metadata or broken; local: '
         'metadata next to the file or passed explicitly. Non-trivial: several places to look at, or explicit metadata.',
    assumptions=['A description with the same last path component in another directory is not generated (documented as '
                 'superficial comparison in the code).', 'The header parameter of the media type is judged for single tables only.'])
