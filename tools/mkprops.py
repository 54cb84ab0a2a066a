#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json (the checks which exist in props/) from the table below."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=['src/csvw/' + f for f in files],
            mechanism=[dict(name=n, where='src/csvw/' + w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))
    P[-1]['_m'] = (technique, note)


prop('C01', 'Delimited text written is read back unchanged',
     'Rows of strings written with the library\'s writer (to a path or in memory, row by row, many '
     'at once, or as dictionaries) and read back with the library\'s reader under the same dialect '
     'and encoding come back as exactly the same rows, cell for cell. This holds for every '
     'delimiter, quote character, quote escaping mode, line end, header and skip setting the '
     'dialect can express, wherever the dialect can represent the content at all.',
     ['inputs', 'configurations'],
     'all rows of cells (ragged, empty, with delimiters, quotes, line ends, any Unicode) x all '
     'consistent dialects x encodings x ways of writing',
     'The tests write a handful of rows with two or three dialects; quoting and escaping bugs depend '
     'on the combination of cell content, dialect and encoding.',
     ['dsv.py', 'dsv_dialects.py'],
     [('UnicodeWriter', 'dsv.py'), ('UnicodeReader', 'dsv.py'), ('Dialect.as_python_formatting_parameters', 'dsv_dialects.py')],
     'property-based round-trip testing (generated rows x dialects, shrinking)',
     'Search over generated rows and dialects; no claim beyond the cases generated. Excluded: content '
     'a dialect cannot represent (listed in the evidence as assumptions).',
     ['UnicodeWriter', 'UnicodeReader', 'reader()'])

prop('C02', 'Readers follow the dialect when parsing arbitrary text',
     'Reading any text in any encoding under a dialect yields the rows which the dialect prescribes: '
     'skipped rows, comments, header rows, skipped columns, trimming, blank rows, delimiters, quotes '
     'and escapes are interpreted as declared. The same rows come out whether the text is given as path, file '
     'object, byte lines or text lines, and line numbers and comments are reported consistently.',
     ['inputs', 'configurations'],
     'all texts (including malformed quoting and mixed line ends) x all dialects x source kinds',
     'Tests read few fixed files, mostly with the default dialect and combine at most two dialect '
     'properties.',
     ['dsv.py', 'dsv_dialects.py'],
     [('UnicodeReader.__next__', 'dsv.py'), ('Dialect', 'dsv_dialects.py')],
     'model-based testing: generated text x dialect against an independent reference reader',
     'The reference is an independent implementation of the documented semantics; the search is random.',
     ['UnicodeReader', 'reader()'])

prop('C03', 'Rows as records: names, extra and missing cells, safe identifiers',
     'Reading rows as dictionaries or named tuples assigns every cell to the name of its column, '
     'in column order; short rows are filled with the given default and surplus cells are '
     'kept under the given key instead of being lost. Any column header yields valid, distinct attribute '
     'names, and generated slugs consist only of the documented characters.',
     ['inputs', 'configurations'],
     'all headers (any Unicode, duplicates, keywords, empty) x all ragged bodies x reader kinds',
     'Tests use well-formed headers and rectangular data.',
     ['dsv.py', 'utils.py'],
     [('UnicodeDictReader', 'dsv.py'), ('NamedTupleReader', 'dsv.py'), ('normalize_name', 'utils.py'), ('slug', 'utils.py')],
     'property-based testing against a reference assignment of cells to names',
     'Random search; identifier rules checked as invariants on any Unicode string.',
     ['reader(dicts=, namedtuples=)', 'normalize_name', 'slug'])

prop('C04', 'Rewriting a file in place is exact and all-or-nothing',
     'Rewriting a file through a visitor, appending rows or filtering it leaves a file whose rows are '
     'exactly the rows the visitor returned (or the old rows plus the appended ones, or the records '
     'the filter accepted, with the number of removed ones returned). If the visitor or the writing fails at any row, '
     'the original file keeps its bytes.',
     ['inputs', 'crash_points', 'configurations'],
     'all files x dialects x visitor decisions x failing rows',
     'Tests exercise one small file without failures.',
     ['dsv.py'],
     [('rewrite', 'dsv.py'), ('add_rows', 'dsv.py'), ('filter_rows_as_dict', 'dsv.py')],
     'property-based testing with fault injection in the visitor',
     'Random search over files, decisions and the failing row.',
     ['rewrite', 'add_rows', 'filter_rows_as_dict'])

prop('C05', 'Typed values survive formatting and reading',
     'For every built-in datatype, formatting a value of its value space and reading the resulting string '
     'with the same datatype yields an equal value of the same type, and the canonical string stays the '
     'same when formatted again. Integers and decimals of any size and scale, floats, booleans, binaries, '
     'dates, times with or without timezone, durations, URIs, strings and JSON are covered.',
     ['inputs', 'configurations'],
     'all built-in datatypes x all values of their value space',
     'Tests check some 40 fixed examples, most of them short and in the middle of the range.',
     ['datatypes.py', 'metadata.py'],
     [('to_python/to_string', 'datatypes.py'), ('Datatype.formatted/read', 'metadata.py')],
     'property-based round-trip testing per datatype',
     'Random search with boundary-biased generators. URI normalisation, duplicate JSON keys etc. excluded as documented.',
     ['Datatype.read', 'Datatype.formatted'])

prop('C06', 'Each datatype accepts exactly its lexical space, or raises ValueError',
     'Reading any string with any datatype either returns a value of the documented Python type or '
     'raises ValueError, never anything else. Strings in the lexical space of the datatype (XML Schema as restated in the '
     'documentation) are accepted with the right value; numbers out of the range of an integer type, '
     'and strings which are not in the lexical space, are rejected.',
     ['inputs', 'configurations'],
     'all strings x all built-in datatypes, with range boundaries',
     'Tests check about a dozen invalid strings.',
     ['datatypes.py', 'metadata.py'],
     [('to_python', 'datatypes.py'), ('range', 'datatypes.py')],
     'property-based and mutation fuzzing of lexical forms against independent recognisers and reference parsers',
     'Three-way oracle: must accept with value, must reject, and a documented do-not-care zone.',
     ['Datatype.read'])

prop('C07', 'Number formats: patterns, group and decimal characters, percent',
     'For numeric datatypes with a format (pattern, group character, decimal character) a value formatted '
     'by the library is a string which matches the pattern and reads back as the value rounded '
     'to the precision of the pattern. Strings which violate grouping, digit counts or the declared separators '
     'are rejected, and percent and per-mille signs scale the value.',
     ['inputs', 'configurations'],
     'all number patterns of 0 # , . % ‰ ; x separators x values x numeric base types',
     'Tests check three patterns.',
     ['datatypes.py'],
     [('NumberPattern', 'datatypes.py'), ('decimal.to_python/to_string', 'datatypes.py')],
     'property-based testing: round trip and differential test against an exact Decimal reference formatter',
     'Patterns with exponents are excluded for decimals (documented as unsupported).',
     ['Datatype.read', 'Datatype.formatted'])

prop('C08', 'Date and time formats read and write the fields they name',
     'For every supported date, time and date-time format, formatting a value and reading it back with the same '
     'format yields the same fields (at the precision of the format, with timezone where the format has a marker), and the '
     'formatted string has the layout of the format. Strings naming impossible dates or with another layout are rejected; '
     'unsupported formats are refused or reported when the datatype is created.',
     ['inputs', 'configurations'],
     'all documented date and time formats (with fractional seconds and timezone markers) x all datetimes',
     'Tests check about ten fixed format/value pairs out of several hundred combinations.',
     ['datatypes.py'],
     [('dt_format_and_regex', 'datatypes.py'), ('dateTime._parse', 'datatypes.py')],
     'complete enumeration of the formats x property-based values, against an independent formatter',
     'Formats enumerated completely, values searched randomly.',
     ['Datatype.read', 'Datatype.formatted'])

prop('C09', 'Declared constraints on values are enforced exactly',
     'A derived datatype rejects with ValueError exactly the values which violate one of its declared facets: '
     'length, minimum and maximum length, inclusive and exclusive bounds, regular expression, JSON schema, enumerated booleans. '
     'Contradictory facet combinations are refused when the datatype is created, and bounds of zero '
     'count like any other bound.',
     ['inputs', 'configurations'],
     'all facet combinations x values at, near and far from the bounds x base types',
     'Tests check single facets with one or two values each.',
     ['metadata.py', 'datatypes.py'],
     [('Datatype.validate', 'metadata.py'), ('Datatype.__attrs_post_init__', 'metadata.py')],
     'property-based testing against a reference predicate for each facet, boundary-biased',
     'Random search; regular expressions come from a grammar with a known language.',
     ['Datatype.fromvalue', 'Datatype.read', 'Datatype.validate'])

prop('C10', 'Cells follow null, default, required, separator and datatype',
     'Reading a cell through a column description yields what the column declares: null strings become None, '
     'empty cells take the default (or become an empty list if there is none and a separator), required columns reject nulls and '
     'empty lists, a separator splits into a list whose items are each parsed. Writing a value and reading it back through the same column gives the '
     'value back, including None and lists (None in place of a list being an empty list), wherever it does not collide with null, default or separator.',
     ['inputs', 'configurations'],
     'all column descriptions x all cell strings and values',
     'Tests combine few of these properties, with one or two cells each.',
     ['metadata.py'],
     [('Column.read', 'metadata.py'), ('Column.write', 'metadata.py')],
     'model-based property testing against a reference of the cell parsing rules',
     'The reference covers the documented rules; strings that collide with null or separator are handled explicitly.',
     ['Column.read', 'Column.write'])

prop('C11', 'Typed tables written with a schema are read back unchanged',
     'Records written to a table with its schema and dialect (to disk, zipped or not, or to memory) and iterated '
     'again are the same records: same column names, order, values and types, including nulls, lists and '
     'every supported datatype. The number of rows written is returned, and records '
     'may be given as dictionaries (keys in any order) or as lists in column order.',
     ['inputs', 'configurations'],
     'all table schemas x dialects x records',
     'Tests write one or two fixed tables.',
     ['metadata.py', 'dsv.py'],
     [('Table.write', 'metadata.py'), ('Table.iterdicts', 'metadata.py')],
     'property-based round-trip testing of whole tables over generated schemas and dialects',
     'Random search over schemas of up to 6 columns.',
     ['Table.write', 'Table.iterdicts'])

prop('C12', 'Cells are matched to columns by header, wherever they stand',
     'When a file has a header, each cell is assigned to the column described for its header: by name or by any '
     'title. Undescribed columns are kept under their header, described columns '
     'missing from the file do not shift others, virtual columns add their value, and without header the '
     'position decides.',
     ['inputs', 'configurations'],
     'all permutations, omissions, additions and renamings (name/title) of columns x headerless dialects',
     'Tests use files whose columns stand in the declared order, with one exception.',
     ['metadata.py'],
     [('Table.iterdicts', 'metadata.py'), ('Column.header', 'metadata.py')],
     'metamorphic property testing: permuted and renamed files against the described columns',
     'Random search.',
     ['Table.iterdicts'])

prop('C13', 'One bad cell is reported precisely and hides nothing else',
     'When a table contains invalid rows or cells, strict reading raises a ValueError, while reading with a log reports '
     'each defect exactly once with its file name, line and column, and still yields every other row unchanged. '
     'Without strictness a malformed cell keeps its string value.',
     ['inputs', 'fault_sequences'],
     'all placements of bad cells, missing required values and malformed rows in otherwise valid tables',
     'Tests have one file with one defect.',
     ['metadata.py', 'utils.py'],
     [('Table.iterdicts', 'metadata.py'), ('log_or_raise', 'metadata.py')],
     'fault injection into generated valid tables, with the injected faults as oracle',
     'Faults are injected at random positions; the expected report is known by construction.',
     ['Table.iterdicts(log=, strict=)'])

prop('C14', 'Metadata survives serialisation',
     'A metadata description loaded from JSON, serialised and loaded again is the same description: same properties, values, common '
     'properties, notes, column order, datatypes, keys and dialect. Serialising twice gives the same document, '
     'properties that were given explicitly are not lost, saved files load to an equal object, and invalid '
     'properties are reported instead of being silently dropped or accepted.',
     ['inputs', 'configurations'],
     'all well-formed table and table group descriptions (all properties, nesting, inheritance)',
     'Tests round-trip two or three fixture files.',
     ['metadata.py'],
     [('Description.fromvalue/asdict', 'metadata.py'), ('TableGroup.to_file', 'metadata.py')],
     'property-based round-trip testing over generated metadata documents',
     'Grammar-based documents of the CSVW vocabulary.',
     ['TableGroup.fromvalue', 'Description.asdict', 'TableGroup.to_file'])

prop('C15', 'Inherited properties come from the nearest description that sets them',
     'The null, separator, datatype, default, required, lang, text direction and URL template values that apply to a column '
     'are those set on the column itself or else on the closest enclosing schema, table or group, or else '
     'the default of the specification. Setting a property at one level changes no other, and cells are parsed accordingly. '
     'All that uses the values - reading, writing, keys, references, templates, JSON, the database - behaves as if the '
     'effective values were stated explicitly at each level; likewise the dialect of a group applies to tables without one.',
     ['inputs', 'configurations'],
     'all placements of inherited properties at the four levels',
     'Tests check inheritance of one or two properties from one level.',
     ['metadata.py'],
     [('Description.inherit', 'metadata.py')],
     'enumeration and property-based testing against a reference lookup, metamorphic testing (values moved between levels)',
     'Placements are enumerated for each property; values are sampled.',
     ['Column.inherit', 'Column.read', 'Table.iterdicts'])

prop('C16', 'Primary key violations are found, and only those',
     'Checking a primary key reports a violation exactly when two rows agree in all key columns (by value, not by spelling), '
     'whatever the types, the number of key columns and the position of the rows. '
     'Each duplicate is logged with its line, or raised as ValueError when there is no log.',
     ['inputs', 'configurations'],
     'all tables x all sets of key columns x duplicate placements',
     'One test with one duplicate pair.',
     ['metadata.py'],
     [('Table.check_primary_key', 'metadata.py')],
     'property-based testing against a brute-force duplicate search',
     'Random tables with a small value alphabet so that duplicates are frequent.',
     ['Table.check_primary_key'])

prop('C17', 'Dangling references are found, and only those',
     'Checking referential integrity of a table group reports a violation exactly when some row has a foreign key value that does not '
     'occur in the referenced columns; null references and nulls in lists-valued references are not violations, '
     'list-valued references are checked item by item, and composite, self- and mutual references work in any table order. '
     'Every dangling row is logged, or the first one raised as ValueError.',
     ['inputs', 'configurations'],
     'all table groups with foreign keys x contents x dangling placements',
     'Few fixed groups with one foreign key.',
     ['metadata.py'],
     [('TableGroup.check_referential_integrity', 'metadata.py')],
     'property-based testing against a brute-force join',
     'Random groups of up to 4 tables with small alphabets.',
     ['TableGroup.check_referential_integrity'])

prop('C18', 'Validation verdict: valid data passes, each defect fails',
     'Validating a CSVW description together with its data says valid for data that conforms, and not valid as soon as '
     'one cell, key, reference, header or required value is broken, and it never fails with another exception for broken data. '
     'The verdict does not depend on whether the description is given as file, or found next to the data.',
     ['inputs', 'fault_sequences', 'configurations'],
     'all generated valid datasets x all single defects',
     'The conformance tests need network and are skipped; local tests have one valid and one invalid set.',
     ['metadata.py', '__main__.py'],
     [('CSVW.is_valid', 'metadata.py')],
     'fault injection (mutation of valid datasets), verdict known by construction',
     'One defect of a list of defect classes per dataset.',
     ['CSVW.is_valid', 'csvwvalidate'])

prop('C19', 'Conversion to JSON contains exactly the data',
     'Converting a dataset to JSON gives, for each table and row, an object with the column\'s property names and '
     'typed JSON values of all non-null cells, in order, with row numbers, source URLs, notes and annotations in '
     'standard mode, and just the row objects in minimal mode. Suppressed tables and columns do not occur, about '
     'URLs become subjects, and nothing is invented or lost.',
     ['inputs', 'configurations'],
     'all datasets x schemas x modes',
     'Official csv2json tests need network; few local examples.',
     ['metadata.py', 'jsonld.py'],
     [('CSVW.to_json', 'metadata.py'), ('jsonld', 'jsonld.py')],
     'differential property testing against an independent reference converter',
     'The reference covers the csv2json rules for the generated subset; where nested objects stand is not judged.',
     ['CSVW.to_json'])

prop('C20', 'URL properties and templates expand and resolve correctly',
     'Table URLs, about, property and value URLs and references resolve against the base of the document that contains '
     'them, and templates expand with the values of the row as RFC 6570 prescribes, percent-encoding reserved characters. '
     'Local files are found relative to the metadata file whatever the working directory and characters in their names.',
     ['inputs', 'configurations'],
     'all templates and row values x base URLs x directory layouts',
     'Tests have one or two templates with plain ASCII values.',
     ['metadata.py', 'jsonld.py'],
     [('URITemplate', 'metadata.py'), ('Link.resolve', 'metadata.py'), ('Table.local_name', 'metadata.py')],
     'differential property testing against an independent RFC 6570/3986 reference',
     'Level 1-4 template expressions over string, list and null values.',
     ['URITemplate.expand', 'Link.resolve', 'CSVW.to_json'])

prop('C21', 'Data loaded into SQLite is read back unchanged',
     'A table group written to a SQLite database and read back gives for every table the same records as the CSV files: '
     'same columns, values and types, including nulls, list-valued columns, JSON, and list-valued foreign keys with their order. '
     'No row is lost or duplicated, and the database may be in memory or on disk.',
     ['inputs', 'configurations'],
     'all table groups x contents',
     'Tests load three fixed datasets.',
     ['db.py'],
     [('Database.write', 'db.py'), ('Database.read', 'db.py'), ('TYPE_MAP', 'db.py')],
     'property-based round-trip testing over generated table groups',
     'Random groups; limits of SQLite itself (integers over 64 bit, case-insensitive names) excluded.',
     ['Database.write_from_tg', 'Database.read'])

prop('C22', 'The SQLite database enforces the schema',
     'The generated database rejects data that violates the declared primary keys, foreign keys, required columns, and bounds '
     'or lengths which the description states, and accepts every dataset that satisfies them, regardless of the order in which tables are '
     'listed. A file is only overwritten when forced, and a failed load leaves no partial data behind.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all table groups with constraints x one violation x table orders',
     'Tests check one violation for one fixed group.',
     ['db.py'],
     [('schema', 'db.py'), ('TableSpec.sql', 'db.py'), ('Database.write', 'db.py')],
     'fault injection into generated datasets, verdict known by construction',
     'Constraint kinds are enumerated; data is random.',
     ['Database.write_from_tg', 'Database.write'])

prop('C23', 'Frictionless data packages convert faithfully',
     'A Frictionless data package or its resources converted to CSVW describes the same data: fields, types, formats, constraints, '
     'missing values, primary and foreign keys and dialect of the package are carried over, so that reading '
     'rows through the result gives the values which the package declares and rejects what it forbids.',
     ['inputs', 'configurations'],
     'all tabular data packages over the supported field types and constraints',
     'Two fixed packages in the tests.',
     ['frictionless.py'],
     [('DataPackage.to_tablegroup', 'frictionless.py'), ('convert_column_spec', 'frictionless.py')],
     'property-based testing against a reference reading of the data package',
     'Supported field types only; documented as a partial converter.',
     ['TableGroup.from_frictionless', 'DataPackage'])

prop('C24', 'Metadata is located in the order the standard prescribes',
     'Given only a CSV file or URL, the description used is the first one that exists and describes the file: explicitly '
     'passed metadata, Link header, site-wide configuration, file-specific, then directory-level metadata; otherwise the '
     'embedded header is used. A description that does not mention the file is ignored with a warning, and missing ones are no error.',
     ['inputs', 'configurations'],
     'all subsets of present/absent/irrelevant metadata sources',
     'Network tests are mocked for single cases.',
     ['metadata.py', 'utils.py'],
     [('CSVW.__init__', 'metadata.py'), ('CSVW.locate_metadata', 'metadata.py')],
     'enumeration and property testing against a loopback web server, with reference precedence',
     'Uses http://127.0.0.1 only.',
     ['CSVW(url)'])

prop('C25', 'Saving, copying and reloading a dataset keeps it intact',
     'Writing, copying, or saving a table group to another directory, with or without zipped data files, gives a directory '
     'which loads to the same description with the same rows in all tables. Source files are not modified, and '
     'reading is repeatable: iterating a table again gives the same rows.',
     ['inputs', 'histories', 'configurations'],
     'all table groups x sequences of write, copy, load and read operations',
     'Each operation is tested once, separately.',
     ['metadata.py'],
     [('TableGroup.write', 'metadata.py'), ('TableGroup.copy', 'metadata.py')],
     'stateful model-based testing: random operation sequences against an in-memory model',
     'Sequences of up to 8 operations.',
     ['TableGroup.write', 'TableGroup.copy', 'TableGroup.from_file'])

prop('C26', 'Command line tools report what the library computes',
     'The command line tools print the same description, validation verdict, JSON and database that the library computes, '
     'for any dataset. The exit status is zero exactly when the input could be processed and is valid, '
     'and csvw2datasette does not overwrite an existing database.',
     ['inputs', 'configurations'],
     'all generated datasets, valid or not x tools x options',
     'One call per tool in the tests.',
     ['__main__.py'],
     [('csvwdescribe/csvwvalidate/csvw2json/csvw2datasette', '__main__.py')],
     'differential property testing of the tools against the library API',
     'Run in-process on generated datasets, with a stand-in for the frictionless command.',
     ['csvwvalidate', 'csvw2json', 'csvw2datasette', 'csvwdescribe'])

prop('C27', 'Markdown descriptions show every table, column and key',
     'The Markdown rendering of a dataset shows its title and properties, and every table and every column exactly once, '
     'in order, with the datatype (base, choices or regular expression, minimum, maximum) and separator which apply to '
     'it, own or inherited, its description, whether it is part of the primary key, and the tables and columns it '
     'references (for keys of one column), in well-formed table rows. Pipes and line breaks in names, '
     'descriptions or values never break a row apart.',
     ['inputs'],
     'all table groups with arbitrary text in names, titles, descriptions and formats',
     'One snapshot-like test.',
     ['utils.py'],
     [('metadata2markdown', 'utils.py')],
     'property-based testing with a Markdown table parser as oracle',
     'Structural oracle only.',
     ['metadata2markdown', 'csvw2markdown'])

prop('C28', 'Language-tagged titles keep all strings and languages',
     'Titles and other natural-language properties given as string, list or language map keep every string under its '
     'language in order; the preferred string is the first one, lookups by language return the matching strings, '
     'and serialising gives back a form that loads to the same value.',
     ['inputs'],
     'all strings, lists and language maps',
     'Three fixed examples in the tests.',
     ['metadata.py'],
     [('NaturalLanguage', 'metadata.py')],
     'property-based testing against a dictionary model',
     'Random search.',
     ['NaturalLanguage', 'Column.titles'])

prop('C29', 'Files are closed, whatever happens',
     'After any operation on files returns, fails or is abandoned half-way (an iterator closed, a visitor or filter that raises), '
     'no file opened by it stays open. Invalid parameters are reported before a file is truncated.',
     ['inputs', 'fault_sequences'],
     'all operations of readers, writers, groups, databases and packages, on valid, damaged, zipped and missing files, completed or abandoned',
     'Tests do not look at open files; leaks show up as exhausted descriptors or locked and unflushed files.',
     ['dsv.py', 'metadata.py', 'db.py', 'frictionless.py'],
     [('UnicodeWriter', 'dsv.py'), ('Table.iterdicts', 'metadata.py'), ('Database', 'db.py')],
     'property-based testing with fault injection; /proc/self/fd as oracle',
     'Random search; descriptors are compared, not memory.',
     ['open descriptors below the directory of the case', 'bytes of files after a failed call'])

prop('C30', 'Arguments stay as they were; rows handed out belong to the caller',
     'Loading a description from Python data, writing rows, filling a database and reading with a dialect change neither the data '
     'passed in nor the description used. Changing rows which were handed out does not change what is read later.',
     ['inputs', 'histories'],
     'all metadata documents (valid or not) loaded at any level, all datasets and orders of operations',
     'Tests compare results, not the arguments afterwards; aliasing shows up only when data is used twice.',
     ['metadata.py', 'dsv.py', 'db.py'],
     [('Datatype.fromvalue', 'metadata.py'), ('valid_common_property', 'metadata.py'), ('Table.write', 'metadata.py')],
     'property-based testing: deep comparison before and after, loading twice',
     'Random search. Changes of a description object may reach the data it was loaded from (not judged).',
     ['the arguments', 'asdict', 'rows read again'])

prop('C31', 'Operations on the same objects do not disturb each other',
     'Iterations, readers, writers, checks and conversions which are interleaved row by row on the same table group, or run in threads '
     'that only read the description, each observe exactly what they observe when running alone, and leave settings which the whole '
     'process shares (warning filters, decimal context, current directory, locale, csv dialects) as they are.',
     ['inputs', 'schedules'],
     'all schedules of several operations on one group of tables, valid or with defects',
     'Tests run one operation at a time; shared state shows up only in interleavings.',
     ['metadata.py', 'dsv.py', 'db.py'],
     [('Table.iterdicts', 'metadata.py'), ('UnicodeReader', 'dsv.py'), ('Database', 'db.py')],
     'property-based testing with generated schedules and threads; differential against sequential runs on fresh objects',
     'Interleavings at the level of rows are generated and replayed; those of threads are sampled with a small switch interval.',
     ['rows, errors and files of each operation'])


prop('C32', 'Operations follow the current state of descriptions and files',
     'After any changes of a table group (columns, their names, datatypes and other properties, inherited properties at any level, '
     'keys, references, dialects, tables and their locations) or of its data files, before or after the objects have been used, reading, '
     'writing, lookups, checks, conversions and serialisation behave as on a description newly loaded from a document changed in the '
     'same way.',
     ['inputs', 'histories'],
     'all histories of changes and uses of a group of tables',
     'Tests load, use and discard objects; stale caches and copies show up only when objects change after use.',
     ['metadata.py', 'db.py'],
     [('Schema.columndict', 'metadata.py'), ('TableGroup.tabledict', 'metadata.py'), ('Description.inherit', 'metadata.py'),
      ('Datatype.derived_description', 'metadata.py'), ('Table.add_foreign_key', 'metadata.py')],
     'model-based testing: histories of changes, differential against a fresh description after the same changes of the document',
     'Random search. Dialect settings from which the library derives cached values are not changed after use.',
     ['rows, columndict, tabledict, check_primary_key, check_referential_integrity, asdict, Database'])


def main():
    with ROOT.joinpath('properties.jsonl').open('w', encoding='utf-8') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != '_m'}, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in P:
        if not ROOT.joinpath('props', p['id'].lower() + '.py').exists():
            na.append(dict(property=p['id'], reason='The check is not built yet.'))
            continue
        checks.append(dict(
            property=p['id'],
            quick_cmd='/opt/venv/bin/python check.py {}'.format(p['id']),
            thorough_cmd='/opt/venv/bin/python check.py {} --tier thorough'.format(p['id']),
            evidence_file='evidence/{}.json'.format(p['id']),
            technique=p['_m'][0], level='exploration', level_note=p['_m'][1]))
    m = dict(
        version=1,
        setup_cmd='/opt/venv/bin/python check.py --selftest',
        checks=checks, not_applicable=na,
        notes='No hooks in /repo: everything is judged through the public API of the package, '
              'imported from /repo/src. known_findings.json lists repaired and recorded defects.')
    ROOT.joinpath('MANIFEST.json').write_text(json.dumps(m, indent=1, ensure_ascii=False) + '\n')
    import jsonschema
    schema = json.loads(pathlib.Path('/root/.vp/MANIFEST.schema.json').read_text())
    jsonschema.validate(m, schema)
    schema = json.loads(pathlib.Path('/root/.vp/PROPERTIES.schema.json').read_text())
    for line in ROOT.joinpath('properties.jsonl').read_text().splitlines():
        p = json.loads(line)
        jsonschema.validate(p, schema)
        import re
        s = re.split(r'[.] [A-Z]', p['statement'])
        assert len(s) <= 3, p['id']
    assert len({p['id'] for p in P}) == len(P)
    print(len(P), 'properties', len(checks), 'checks')


if __name__ == '__main__':
    main()
