"""Generators shared by several properties. Cases are plain data."""
import io
import pathlib

from hypothesis import strategies as st

SPECIAL = [' ', '"', "'", ',', ';', '|', '\t', ':', '\\', '\n', '\r', '\r\n', '#', '""', "''",
           '\\"', 'é', '\u2028', '\x85', '\x0b', '\x1c', '\xa0', '\ufeff', '\U0001f600', '~', '%',
           '{', '}', '0', '1', 'a', 'b', 'A', 'NULL', 'Ä', 'ß', '中', 'e\u0301', '--', '//', '`']


def no_surrogates(**kw):
    return st.characters(exclude_categories=['Cs'], **kw)


def text(max_size=8, codec=None):
    """Cell contents: heavy on characters which mean something to some DSV dialect."""
    special = [s for s in SPECIAL if encodable(s, codec)]
    chars = st.characters(codec=codec) if codec in ('ascii', 'latin-1', 'iso-8859-1') \
        else no_surrogates()
    return st.one_of(
        st.lists(st.sampled_from(special), max_size=max_size // 2 + 1).map(''.join),
        st.sampled_from(['', '', 'a', 'b', 'x y', '1', ' a', 'a ', ' ']),
        st.text(chars, max_size=max_size),
    )


def encodable(s, codec):
    if codec is None:
        return True
    try:
        s.encode(codec)
        return True
    except UnicodeEncodeError:
        return False


def rows(cell, min_rows=0, max_rows=6, max_cols=5, ragged=True):
    if ragged:
        return st.lists(st.lists(cell, max_size=max_cols), min_size=min_rows, max_size=max_rows)
    return st.integers(1, max_cols).flatmap(lambda n: st.lists(
        st.lists(cell, min_size=n, max_size=n), min_size=min_rows, max_size=max_rows))


# encoding name as given in a dialect -> codec used to check that content can be encoded.
ENCODINGS = {
    'utf-8': None, 'utf8': None, 'UTF-8': None, 'utf-8-sig': None, 'UTF-8-BOM': None,
    'utf-16': None, 'utf-16-le': None, 'utf-16-be': None, 'utf-32': None,
    'latin-1': 'latin-1', 'iso-8859-1': 'latin-1', 'ascii': 'ascii',
}
PY_ENCODING = {'UTF-8-BOM': 'utf-8-sig'}


def names(n=None, alphabet='abcdefgh', min_size=1, max_size=4):
    """Distinct simple column names."""
    s = st.text(alphabet, min_size=1, max_size=3)
    return st.lists(s, min_size=min_size if n is None else n, max_size=max_size if n is None else n,
                    unique=True)


def split_lines(text):
    return list(io.StringIO(text, newline=''))


def scratch(rec, name):
    return pathlib.Path(str(rec.scratch)) / name
