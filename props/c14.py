"""C14: metadata survives serialisation."""
import copy
import json
import warnings

from hypothesis import strategies as st

from csvw import TableGroup, Table
from csvw.metadata import Column, Schema, Dialect
from vf.core import *
from . import docs, gen, large


def deep(o):
    """Plain JSON data, order of keys ignored."""
    if isinstance(o, dict):
        return {k: deep(o[k]) for k in sorted(o)}
    if isinstance(o, (list, tuple)):
        return [deep(x) for x in o]
    return o


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['group', 'group', 'group', 'table']))
    doc = draw(docs.group()) if kind == 'group' else dict(
        draw(docs.table('t.csv')), **{'@context': draw(docs.CONTEXT)})
    return {'kind': kind, 'doc': doc, 'add': draw(st.sampled_from([None, None, 'column', 'fk', 'prop']))}


def nontrivial(doc):
    return len(json.dumps(doc)) > 200


def check(case, rec):
    cls = TableGroup if case['kind'] == 'group' else Table
    doc = case['doc']
    with oracle():
        want = docs.norm(copy.deepcopy(doc), cls.__name__)
        want = json.loads(json.dumps(want))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        obj = cls.fromvalue(copy.deepcopy(doc))
    expect(not w, 'warnings {!r} for valid description', [str(x.message) for x in w])
    if case['add'] and case['kind'] == 'group':
        t = obj.tables[-1]
        wt = want['tables'][-1]
        if case['add'] == 'prop':
            t.common_props['dc:added'] = 'x'
            wt['dc:added'] = 'x'
            obj.notes.append('added')
            want.setdefault('notes', []).append('added')
        elif case['add'] == 'column':
            t.tableSchema.columns.insert(0, Column.fromvalue({'name': 'added', 'datatype': 'date'}))
            wt.setdefault('tableSchema', {}).setdefault('columns', []).insert(
                0, {'name': 'added', 'datatype': 'date'})
        else:
            names = [c.name for c in t.tableSchema.columns if c.name]
            if names:
                t.add_foreign_key(names[-1], t.url.string, names[0])
                wt['tableSchema'].setdefault('foreignKeys', []).append({
                    'columnReference': [names[-1]],
                    'reference': {'resource': t.url.string, 'columnReference': [names[0]]}})
    text = json.dumps(obj.asdict())
    d = json.loads(text)
    if want.get('tableSchema') == {}:
        del want['tableSchema']
    eq(deep(d), deep(want), 'serialisation')
    # Loading again gives an equal object and the same document.
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        again = cls.fromvalue(json.loads(text))
    expect(not w, 'warnings {!r} for serialised description', [str(x.message) for x in w])
    # (Columns added later have no number, so they are not equal.)
    expect(again == obj or case['add'] == 'column', 'reloaded description differs: {!r} vs {!r}', obj, again)
    eq(json.dumps(again.asdict()), text, 'second serialisation')
    # All properties, including defaults
    full = json.loads(json.dumps(obj.asdict(omit_defaults=False)))
    for k, v in want.items():
        if k not in ('tables', 'tableSchema', 'dialect'):
            eq(deep(full.get(k)), deep(v), 'property {} in full serialisation', k)
    # Files
    p = gen.scratch(rec, 'm.json')
    obj.to_file(p if len(text) % 2 else str(p))
    expect(deep(json.loads(p.read_text(encoding='utf-8'))) == deep(want), 'content of file')
    a = cls.from_file(p)
    eq(json.dumps(a.asdict()), text, 'description loaded from file')
    a.to_file(p)
    eq(deep(json.loads(p.read_text(encoding='utf-8'))), deep(want), 'file written again')
    expect(cls.from_file(str(p)) == a, 'loading the file twice gives different descriptions')
    a._fname = None
    expect(a == again or a == obj, 'description loaded from file differs')
    p.unlink()
    rec.label(case['kind'], 'added:' + str(case['add']))
    rec.nt(nontrivial(doc))


DEFAULTS = ['', False, 'und', 'inherit', 'auto', [''], None]


# Descriptions that differ must not be equal.
@st.composite
def dcases(draw):
    doc = draw(docs.group(2))
    paths = []

    def walk(o, path):
        for k, v in (o.items() if isinstance(o, dict) else enumerate(o)):
            if k in ('tables', 'tableSchema', 'columns') or isinstance(k, int):
                walk(v, path + [k])
            elif path and k not in ('@type', '@context', 'url', 'name', 'titles', 'virtual'):
                paths.append(path + [k])
            elif k in ('url', 'name') and v.swapcase() != v:
                swap.append(path + [k])
            if k == 'foreignKeys':
                swap.extend(path + [k, i, 'reference', r] for i, fk in enumerate(v)
                            for r in fk['reference'] if r != 'columnReference')
    swap = []
    walk(doc, [])
    if swap and draw(st.integers(0, 3)) == 0:
        return {'doc': doc, 'path': draw(st.sampled_from(swap)), 'swap': True}
    return {'doc': doc, 'path': draw(st.sampled_from(paths)) if paths else None}


def dcheck(case, rec):
    if not case['path']:
        raise Skip()
    doc = copy.deepcopy(case['doc'])
    o = doc
    for k in case['path'][:-1]:
        o = o[k]
    was = o[case['path'][-1]]
    if case.get('swap'):
        with oracle():
            o[case['path'][-1]] = o[case['path'][-1]].swapcase()
    else:
        del o[case['path'][-1]]
    with oracle():
        differ = deep(docs.norm(copy.deepcopy(doc))) != deep(docs.norm(copy.deepcopy(case['doc'])))
    a = TableGroup.fromvalue(copy.deepcopy(case['doc']))
    b = TableGroup.fromvalue(copy.deepcopy(doc))
    eq(json.dumps(a.asdict()) != json.dumps(b.asdict()), differ,
       'serialisation depends on {}', case['path'][-1])
    # (Default values given explicitly are kept, but do not matter for equality.)
    expect(not differ or was in DEFAULTS or (a != b and not a == b), 'descriptions differing in {} are equal', case['path'][-1])
    rec.label(case['path'][-1] if ':' not in case['path'][-1] else 'common')
    rec.nt(differ)


ATOMIC = [5, ['x'], {}]
BAD = {
    'any': [('foo', 'x'), ('dataType', 'x'), ('Null', ['x']), ('lang', 'x'), ('lang', 5), ('lang', ['en']),
            ('default', 5), ('default', ['x']), ('null', 5), ('null', ['x', 5]), ('null', {}),
            ('separator', 5), ('separator', [';']), ('ordered', 'x'), ('ordered', [True]), ('ordered', 1),
            ('textDirection', 'up'), ('textDirection', 5), ('textDirection', ['ltr']),
            ('aboutUrl', 5), ('propertyUrl', ['x']), ('valueUrl', {}), ('datatype', 'foo'), ('datatype', 5),
            ('datatype', ['string']), ('datatype', {'base': 'foo'}), ('datatype', {'base': ['string']}),
            ('datatype', {'foo': 1}), ('datatype', {'base': 'string', 'minimum': '5'}),
            ('datatype', {'base': 'integer', 'length': 5}), ('datatype', {'minLength': 5, 'maxLength': 4}),
            ('datatype', {'base': 'integer', 'minimum': '5', 'maximum': '4'}),
            ('datatype', {'base': 'integer', 'minimum': 'x'}), ('datatype', {'format': '('}),
            ('datatype', {'base': 'date', 'format': 'foo'}), ('datatype', {'base': 'boolean', 'format': 'x'}),
            ('datatype', {'base': 'decimal', 'format': 'foo'}),
            ('datatype', {'@id': 'http://www.w3.org/2001/XMLSchema#string'}),
            ('@type', 'Foo'), ('@id', '_:x'), ('@id', 5),
            ('dc:x', {'@value': 'x', '@language': 'en', '@type': 'xsd:string'}),
            ('dc:x', {'@value': ['x'], '@language': 'en'}), ('dc:x', {'@language': 'en'}),
            ('dc:x', {'@value': 'x', '@id': 'http://example.org/'}), ('dc:x', {'@value': 'x', 'foo': 'y'}),
            ('dc:x', {'@value': {'a': 1}, '@type': 'xsd:string'}), ('dc:x', {'y': [{'@value': 1, '@id': 'x:y'}]}),
            ('dc:x', {'@value': 'x', 'dc:x': 'y', 'dc:y': 'z'}),
            ('dc:x', {'@foo': 'y'}), ('dc:x', {'@type': '_:b'}), ('dc:x', {'@type': 'foo'}),
            ('dc:x', {'@type': 5}), ('dc:x', {'@value': 'x', '@language': 'nonsense'}),
            ('dc:x', [{'@list': ['x']}]), ('dc:x', {'@id': '_:x'}), ('dc:x', {'a': {'@language': 'en'}})],
    'column': [('name', 5), ('name', ['x']), ('name', '_x'), ('name', 'x y'), ('titles', 5), ('titles', [5]),
               ('titles', {'nonsense': 'x'}), ('titles', {'en': 5}), ('suppressOutput', 'x'),
               ('suppressOutput', [True]), ('virtual', 'yes'), ('virtual', 1), ('virtual', True),
               ('name', 'dup')],
    'schema': [('columns', 5), ('columns', {}), ('columns', [5]), ('columns', 'x'), ('foreignKeys', 'x'),
               ('foreignKeys', 5), ('foreignKeys', ['x']), ('foreignKeys', [{}]),
               ('foreignKeys', [{'columnReference': 'a', 'reference': {'foo': 'x'}}]),
               ('foreignKeys', [{'columnReference': 'a', 'foo': 1, 'reference': {
                   'resource': 'a.csv', 'columnReference': 'a'}}]),
               ('foreignKeys', [{'columnReference': 'a', 'reference': {
                   'resource': 'a.csv', 'schemaReference': 'x', 'columnReference': 'a'}}]),
               ('primaryKey', 5), ('primaryKey', [5]), ('primaryKey', {}), ('primaryKey', ['a', None]),
               ('rowTitles', 5), ('rowTitles', {}), ('rowTitles', [1, 'a'])],
    'table': [('url', 5), ('url', None), ('url', ['a.csv']), ('suppressOutput', 'x'), ('suppressOutput', 1)],
    'tablelike': [('dialect', 5), ('dialect', [5]), ('dialect', {'foo': 1}), ('dialect', {'delimiter': 5}),
                  ('dialect', {'delimiter': [';']}), ('dialect', {'header': 'x'}),
                  ('dialect', {'headerRowCount': -1}), ('dialect', {'skipRows': 'x'}), ('dialect', {'skipRows': True}), ('dialect', {'headerRowCount': True}),
                  ('dialect', {'skipColumns': False}),
                  ('dialect', {'skipColumns': 1.5}), ('dialect', {'trim': 'x'}), ('dialect', {'trim': 5}),
                  ('dialect', {'encoding': 'foo'}), ('dialect', {'encoding': 5}),
                  ('dialect', {'quoteChar': 5}), ('dialect', {'doubleQuote': 'true'}),
                  ('dialect', {'lineTerminators': 5}), ('dialect', {'commentPrefix': 5}),
                  ('dialect', {'@type': 'Foo'}), ('dialect', {'skipInitialSpace': 1}),
                  ('notes', 'x'), ('notes', {}), ('notes', 5), ('tableDirection', 'x'),
                  ('tableDirection', 5), ('tableDirection', ['ltr']), ('transformations', 'x'),
                  ('transformations', 5), ('transformations', [{'foo': 'x'}]),
                  ('transformations', [{'url': 'x', '@type': 'Foo'}]), ('tableSchema', 5)],
    'group': [('tables', 5), ('tables', 'x'), ('tables', [5]), ('tables', [{}]), ('tables', [{'url': 5}]),
              ('@context', ['http://example.org']), ('@context', ['http://www.w3.org/ns/csvw', {'@foo': 'x'}]),
              ('@context', ['http://www.w3.org/ns/csvw', {'@language': 'nonsense'}]),
              ('@context', ['http://www.w3.org/ns/csvw', {'@language': ''}])],
}


@st.composite
def bcases(draw):
    doc = draw(docs.group(2))
    level = draw(st.sampled_from(['group', 'table', 'schema', 'column']))
    bad = BAD['any'] + BAD[level] * 3 + (BAD['tablelike'] * 2 if level in ('group', 'table') else [])
    return {'doc': doc, 'level': level, 'bad': list(draw(st.sampled_from(bad))),
            'i': draw(st.integers(0, 3)), 'j': draw(st.integers(0, 5))}


def binject(doc, case):
    o = doc
    level = case['level']
    if level != 'group':
        o = doc['tables'][case['i'] % len(doc['tables'])]
    if level in ('schema', 'column'):
        if 'tableSchema' not in o:
            raise Skip()
        o = o['tableSchema']
    k, v = case['bad']
    if level == 'column':
        cols = o['columns']
        o = cols[case['j'] % len(cols)]
        if o.get('virtual') and (k in ('virtual', 'name')):
            raise Skip()
        if k == 'virtual' and v is True and cols[-1] is o or (cols[-1].get('virtual') and cols[-2:][0] is o):
            raise Skip()
        if k == 'name' and v == 'dup':
            if len(cols) < 2 or cols[1].get('virtual'):
                raise Skip()
            cols[0]['name'] = cols[1]['name'] = 'dup'
            return
    o[k] = copy.deepcopy(v)


def bcheck(case, rec):
    doc = copy.deepcopy(case['doc'])
    with oracle():
        binject(doc, case)
    err = obj = None
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            obj = TableGroup.fromvalue(copy.deepcopy(doc))
        except Exception as e:
            err = e
    expect(w or err, 'invalid property {!r} of {} is accepted silently: {!r}', case['bad'], case['level'],
           obj and obj.asdict())
    if case['bad'] == ['name', 'dup']:
        # There is no way to give the values of both columns by name.
        expect(isinstance(err, ValueError), 'duplicate column name gives {!r}', err)
    if obj is not None:
        # What remains is serialisable, and loads again.
        try:
            text = json.dumps(obj.asdict())
        except Exception as e:
            fail('description with invalid property {!r} cannot be serialised: {!r}', case['bad'], e)
        rec.label('warned')
    else:
        rec.label('raised')
    rec.label(case['level'])
    rec.nt()


PROP = Prop(
    'C14',
    [Sub('roundtrip', cases(), check, quick=3000, thorough=60000),
     Sub('differ', dcases(), dcheck, quick=1500, thorough=30000),
     Sub('invalid', bcases(), bcheck, quick=3000, thorough=60000),
     Sub('large', large.description_cases(), large.check_description, quick=24, thorough=500)],
    rule='Table and table group descriptions with all properties of the vocabulary; descriptions differing '
         'in one property; one invalid property (of some 120) injected. Non-trivial: document of more than '
         '200 characters; property with other than default value; all.',
    assumptions=['The value of "required" is not validated by csvw (an existing test uses a string).',
                 'Empty titles and unknown @-properties are not judged.'])
