"""Independent implementations of RFC 3986 reference resolution and RFC 6570 template expansion."""
import re

UNRESERVED = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~'
RESERVED = ":/?#[]@!$&'()*+,;="
# operator -> (first, separator, named, value if empty, reserved characters allowed)
OPS = {
    '': ('', ',', False, '', False), '+': ('', ',', False, '', True), '#': ('#', ',', False, '', True),
    '.': ('.', '.', False, '', False), '/': ('/', '/', False, '', False), ';': (';', ';', True, '', False),
    '?': ('?', '&', True, '=', False), '&': ('&', '&', True, '=', False),
}


def pct(s, reserved=False):
    ok = UNRESERVED + (RESERVED if reserved else '')
    return ''.join(c if c in ok else ''.join('%{:02X}'.format(b) for b in c.encode('utf-8')) for c in s)


def expression(op, specs, values):
    """
    :param specs: list of (name, prefix length or None, explode)
    :param values: name -> None, str or list of str
    """
    first, sep, named, ifemp, reserved = OPS[op]
    res = []
    for name, prefix, explode in specs:
        v = values.get(name)
        if v is None or v == []:
            continue
        if isinstance(v, str):
            v = pct(v if prefix is None else v[:prefix], reserved)
            if named:
                v = pct(name) + ('=' + v if v else ifemp)
            res.append(v)
        elif explode:
            items = []
            for i in v:
                i = pct(i, reserved)
                if named:
                    i = pct(name) + ('=' + i if i else ifemp)
                items.append(i)
            res.append(sep.join(items))
        else:
            v = ','.join(pct(i, reserved) for i in v)
            res.append((pct(name) + ('=' + v if v else ifemp)) if named else v)
    return first + sep.join(res) if res else ''


def split(url):
    m = re.match(r'^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?$', url, re.DOTALL)
    return [m.group(2), m.group(4), m.group(5), m.group(7), m.group(9)]


def unsplit(scheme, authority, path, query, fragment):
    res = ''
    if scheme is not None:
        res += scheme + ':'
    if authority is not None:
        res += '//' + authority
    res += path
    if query is not None:
        res += '?' + query
    if fragment is not None:
        res += '#' + fragment
    return res


def remove_dots(path):
    out = []
    while path:
        if path.startswith('../'):
            path = path[3:]
        elif path.startswith('./'):
            path = path[2:]
        elif path.startswith('/./'):
            path = path[2:]
        elif path == '/.':
            path = '/'
        elif path.startswith('/../'):
            path = path[3:]
            out = out[:-1]
        elif path == '/..':
            path = '/'
            out = out[:-1]
        elif path in ('.', '..'):
            path = ''
        else:
            m = re.match(r'/?[^/]*', path)
            out.append(m.group(0))
            path = path[m.end():]
    return ''.join(out)


def resolve(base, ref):
    bs, ba, bp, bq, _ = split(base)
    s, a, p, q, f = split(ref)
    if s is not None:
        return unsplit(s, a, remove_dots(p), q, f)
    if a is not None:
        return unsplit(bs, a, remove_dots(p), q, f)
    if p == '':
        return unsplit(bs, ba, bp, q if q is not None else bq, f)
    if not p.startswith('/'):
        if ba is not None and not bp:
            p = '/' + p
        else:
            p = bp[:bp.rfind('/') + 1] + p
    return unsplit(bs, ba, remove_dots(p), q, f)


def normal(url):
    """Empty queries and fragments are not told apart from missing ones, nor an empty path from /, nor an
    absolute URL with dot segments from the one without."""
    s, a, p, q, f = split(url)
    return unsplit(s, a, remove_dots(p) or ('/' if a else ''), q or None, f or None)
