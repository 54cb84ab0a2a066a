"""C28: language-tagged titles keep all strings and languages."""
import collections
import copy
import json
import shutil
import warnings

from hypothesis import strategies as st

from csvw import CSVW, Column, NaturalLanguage, TableGroup
from vf.core import *
from . import gen

VALID = ['en', 'de', 'en-US', 'EN', 'und', 'fr-CA', 'zh-Hant', 'mul', 'abc', 'en-x-foo', 'nl-BE']
INVALID = ['xx', '', 'not a tag', '1', 'en_US', 'a', 'None', 'x-foo', 'zz-zz']
STRINGS = ['a', 'b', 'x', 'X', '', ' ', 'é', 'e\u0301', 'über', '0', '_col.1', 'a b', '{', '"', "'", '\\', '\n', '漢字', 'a' * 50]
OTHER = [5, 0, 1.5, None, True, {'a': 'b'}, ['x'], []]


def strings():
    return st.one_of(st.sampled_from(STRINGS), st.text(max_size=4).filter(lambda s: not any('\ud800' <= c <= '\udfff' for c in s)))


# ---------------------------------------------------------------- values and operations

@st.composite
def values(draw):
    kind = draw(st.sampled_from(['str', 'list', 'list', 'map', 'map', 'map', 'map', 'other']))
    if kind == 'str':
        v = draw(strings())
    elif kind == 'list':
        v = draw(st.lists(strings(), max_size=4))
        if draw(st.integers(0, 5)) == 0:
            v.insert(draw(st.integers(0, len(v))), draw(st.sampled_from(OTHER)))
    elif kind == 'map':
        v = []
        for lang in draw(st.lists(st.sampled_from(VALID), max_size=4, unique=True)):
            vv = draw(st.one_of(strings(), st.lists(strings(), max_size=3)))
            if draw(st.integers(0, 7)) == 0:
                other = draw(st.sampled_from(OTHER))
                vv = vv + [other] if isinstance(vv, list) else other
            v.append([lang, vv])
        if draw(st.integers(0, 9)) == 0:
            v.insert(draw(st.integers(0, len(v))), [draw(st.sampled_from(INVALID)), draw(strings())])
    else:
        v = draw(st.sampled_from([x for x in OTHER if not isinstance(x, (list, dict))]))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('add'), strings(), st.sampled_from([None, None, 'und'] + VALID)),
        st.tuples(st.just('reload'), st.sampled_from(['json', 'direct', 'column'])),
        st.tuples(st.just('read'))), max_size=6))
    return {'kind': kind, 'value': v, 'tuple': draw(st.booleans()), 'ops': [list(o) for o in ops]}


def model(case):
    """:return: (mapping of languages to strings, whether something has been dropped) or None, if invalid"""
    kind, v = case['kind'], case['value']
    if kind == 'str':
        return {None: [v]}, False
    if kind == 'list':
        if all(isinstance(x, str) for x in v):
            return {None: list(v)}, False
        return {}, True
    if kind == 'map':
        res, dropped = {}, False
        for lang, vv in v:
            if lang in INVALID:
                return None
            vv = vv if isinstance(vv, list) else [vv]
            res[lang] = [x for x in vv if isinstance(x, str)]
            dropped = dropped or len(res[lang]) < len(vv)
        return res, dropped
    return None


def build(case):
    v = copy.deepcopy(case['value'])
    if case['kind'] == 'map':
        return collections.OrderedDict((k, vv) for k, vv in v)
    if case['kind'] == 'list' and case['tuple']:
        return tuple(v)
    return v


def items(nl):
    return [(k, list(v)) for k, v in nl.items()]


def compare(nl, want):
    eq(items(nl), list(want.items()), 'languages and strings')
    for lang in list(want) + [None, 'xyz', 'en', 'de']:
        strs = want.get(lang) or []
        eq(nl.getfirst(lang), strs[0] if strs else None, 'first string in {!r}', lang)
    if None in want and want[None] and want[None][0]:
        eq(str(nl), want[None][0], 'preferred string')
    else:
        everything = [s for ss in want.values() for s in ss]
        s = str(nl)
        if everything and None not in want:
            eq(s, everything[0], 'preferred string')
        expect(s in everything or (not everything and s == ''), 'preferred string {!r} is none of {}', s, everything)


def check_model(case, rec):
    with oracle():
        want = model(case)
        value = build(case)
        before = copy.deepcopy(value)
    if want is None:
        expect(raises(ValueError, NaturalLanguage, value), 'invalid value {!r} accepted', value)
        rec.label('invalid')
        rec.nt()
        return
    want, dropped = want
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        nl = NaturalLanguage(value)
    eq(bool(ws), dropped, 'warnings {}', [str(w.message) for w in ws])
    compare(nl, want)
    for op in case['ops']:
        if op[0] == 'add':
            nl.add(op[1], op[2]) if op[2] is not None or len(op[1]) % 2 else nl.add(op[1])
            want.setdefault(op[2], []).append(op[1])
        elif op[0] == 'reload':
            s = nl.asdict()
            text = json.dumps(s)
            if op[1] == 'json':
                nl = NaturalLanguage(json.loads(text, object_pairs_hook=collections.OrderedDict))
            elif op[1] == 'direct':
                nl = NaturalLanguage(s)
            else:
                nl = Column.fromvalue({'name': 'c', 'titles': s}).titles
            if None in want and len(want) > 1:  # strings without language along with others are `und`
                if 'und' in want:
                    return
                want = {'und' if k is None else k: v for k, v in want.items()}
        compare(nl, want)
    eq(value, before, 'the value passed in')
    rec.label(case['kind'], 'empty' if not any(want.values()) else 'nonempty', 'dropped' if dropped else 'kept')
    rec.nt(sum(map(len, want.values())) > 1)


# ---------------------------------------------------------------- columns

TITLES = ['A', 'a', 'B', 'b', 'b c', 'é', 'E', 'name', 'x.y', 'Ä"', "it's", 'a,b', 'l1\nl2']
LANGS = ['en', 'de', 'en-US', 'und', 'fr']


@st.composite
def tables(draw):
    pool = draw(st.permutations(TITLES))
    cols, at = [], 0
    for i in range(draw(st.integers(1, 4))):
        n = draw(st.integers(0, 3))
        mine = pool[at:at + n]
        at += n
        kind = draw(st.sampled_from(['none', 'str', 'list', 'map', 'map', 'map']))
        if kind == 'str':
            t = mine[0] if mine else None
        elif kind == 'list':
            t = mine
        elif kind == 'map':
            t = []
            for s in mine:
                lang = draw(st.sampled_from(LANGS))
                for tt in t:
                    if tt[0] == lang:
                        tt[1].append(s)
                        break
                else:
                    t.append([lang, [s]])
            for tt in t:
                if len(tt[1]) == 1 and draw(st.booleans()):
                    tt[1] = tt[1][0]
        else:
            t = None
        cols.append({'kind': kind, 'titles': t, 'name': 'n{}'.format(i) if draw(st.integers(0, 2)) else None,
                     'by': draw(st.integers(0, 5))})
    return {'cols': cols, 'order': draw(st.permutations(range(len(cols)))), 'langs': draw(st.sampled_from(
        [None, None, ['table', 'en'], ['table', 'de'], ['group', 'en'], ['group', 'fr'], ['table', 'en-GB'], ['group', 'und'],
         ['both', 'en'], ['both', 'de']])), 'rows': draw(st.integers(0, 3))}


def titles(col):
    """:return: list of (language, title)"""
    t = col['titles']
    if t is None:
        return []
    if isinstance(t, str):
        return [('und', t)]
    if col['kind'] == 'list':
        return [('und', x) for x in t]
    return [(lang, x) for lang, xs in t for x in (xs if isinstance(xs, list) else [xs])]


def check_column(case, rec):
    d = gen.scratch(rec, 'd')
    cols = case['cols']
    with oracle():
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        keys, heads, langs = [], [], []
        for i, c in enumerate(cols):
            ts = titles(c)
            first = [x for _, x in ts][:1] if c['kind'] in ('str', 'list') else []
            keys.append(c['name'] or (first[0] if first else '_col.{}'.format(i + 1)))
            options = ([('', c['name'])] if c['name'] else []) + ts
            options = options or [('', keys[-1])]
            lang, head = options[c['by'] % len(options)]
            heads.append(head)
            langs.append(lang)
        schema = {'columns': []}
        for c in cols:
            col = {}
            if c['name']:
                col['name'] = c['name']
            if c['kind'] == 'map' and c['titles'] is not None:
                col['titles'] = {k: v for k, v in c['titles']}
            elif c['titles'] is not None:
                col['titles'] = c['titles']
            schema['columns'].append(col)
        table = {'url': 'a.csv', 'tableSchema': schema}
        group = {'@context': 'http://www.w3.org/ns/csvw', 'tables': [table]}
        if case['langs']:
            where, lang = case['langs']
            if where in ('table', 'both'):
                table['lang'] = lang
            if where in ('group', 'both'):
                group['lang'] = 'fr' if where == 'both' else lang
        (d / 'm.json').write_text(json.dumps(group), encoding='utf8')

        def write(order):
            def q(s):
                return '"' + s.replace('"', '""') + '"'
            with (d / 'a.csv').open('w', encoding='utf8', newline='') as fp:
                fp.write(','.join(q(heads[i]) for i in order) + '\n')
                for r in range(case['rows']):
                    fp.write(','.join('{}-{}'.format(r, i) for i in order) + '\n')
        data = [{keys[i]: '{}-{}'.format(r, i) for i in case['order']} for r in range(case['rows'])]
        duplicate = len(set(keys)) < len(keys) or len(set(heads)) < len(heads)
        # A header which is also the name of another column, or a title of an earlier one, is ambiguous.
        ambiguous = any(h in keys[:i] + keys[i + 1:] for i, h in enumerate(heads))
        numbered = any(k.startswith('_col.') for k in keys)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tg = TableGroup.from_file(d / 'm.json')
    schema = tg.tables[0].tableSchema
    eq([c.header for c in schema.columns], keys, 'headers')
    for c, col in zip(cols, schema.columns):
        for lang, t in titles(c):
            got = col.has_title(t)
            if t == c['name']:
                eq(got, True, 'name {!r}', t)
            else:
                eq(got, lang, 'language of the title {!r}', t)
        if c['name']:
            eq(col.has_title(c['name']), True, 'name')
        for t in ['no such title', '', 'N0', 'ZZ']:
            eq(col.has_title(t), False, 'title {!r}', t)
        if col.titles is not None:
            eq([(lang or 'und', s) for lang, ss in col.titles.items() for s in ss], titles(c), 'titles')
    if duplicate or ambiguous:
        rec.label('ambiguous')
        return
    # Reading columns by name or title in any language, in any order.
    if not numbered or case['order'] == sorted(case['order']):
        with oracle():
            write(case['order'])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            eq([dict(r) for r in tg.tables[0].iterdicts()], data, 'rows')
    # Validation
    with oracle():
        write(range(len(cols)))
        lang = table.get('lang') or group.get('lang')
        untitled = any(not c['name'] and not titles(c) for c in cols)
        if untitled:
            return
        tagged = [x for x, c, h in zip(langs, cols, heads) if h != c['name'] and x != 'und' and x != '']
        if tagged and lang in (None, 'und'):
            return
        want = all(x.split('-')[0] == lang.split('-')[0] for x in tagged)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = CSVW(str(d / 'm.json'), validate=True)
        eq(bool(got.is_valid), want, 'validity with titles in {} and language {} ({})', tagged, lang, [str(w.message) for w in got.warnings])
    rec.label('compatible' if want else 'incompatible', 'tagged' if tagged else 'untagged')
    rec.nt(bool(tagged) or len(cols) > 1)


PROP = Prop(
    'C28',
    [Sub('model', values(), check_model, quick=6000, thorough=200000),
     Sub('column', tables(), check_column, quick=3000, thorough=60000)],
    rule='model: strings, lists, language maps, with invalid parts, followed by additions, lookups and reloads; column: 1-4 columns '
         'with names and titles in several languages, files headed by any of them. Non-trivial: at least two strings, or '
         'columns, or a tagged title.',
    assumptions=['Whether tagged titles are compatible with tables without language is not judged.',
                 'Strings without language added to a language map are serialised as "und".'])
