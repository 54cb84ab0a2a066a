"""Tagged JSON for test cases, so that replay files do not depend on the generator library."""
import base64
import datetime
import decimal
import json


def enc(o):
    if o is None or isinstance(o, (bool, str)):
        return o
    if isinstance(o, int):
        return o if abs(o) < 2 ** 53 else {'!': 'int', 'v': str(o)}
    if isinstance(o, float):
        return {'!': 'float', 'v': repr(o)}
    if isinstance(o, list):
        return [enc(x) for x in o]
    if isinstance(o, dict):
        if all(isinstance(k, str) for k in o) and '!' not in o:
            return {k: enc(v) for k, v in o.items()}
        return {'!': 'dict', 'v': [[enc(k), enc(v)] for k, v in o.items()]}
    if isinstance(o, tuple):
        return {'!': 'tuple', 'v': [enc(x) for x in o]}
    if isinstance(o, (set, frozenset)):
        return {'!': 'set', 'v': sorted((enc(x) for x in o), key=repr)}
    if isinstance(o, bytes):
        return {'!': 'bytes', 'v': base64.b64encode(o).decode()}
    if isinstance(o, decimal.Decimal):
        return {'!': 'decimal', 'v': str(o)}
    if isinstance(o, datetime.datetime):
        return {'!': 'datetime', 'v': o.isoformat()}
    if isinstance(o, datetime.timedelta):
        return {'!': 'timedelta', 'v': [o.days, o.seconds, o.microseconds]}
    raise TypeError('cannot encode {!r}'.format(o))


def dec(o):
    if isinstance(o, list):
        return [dec(x) for x in o]
    if isinstance(o, dict):
        t = o.get('!')
        if t is None:
            return {k: dec(v) for k, v in o.items()}
        v = o['v']
        return {
            'int': lambda: int(v), 'float': lambda: float(v),
            'dict': lambda: {dec(a): dec(b) for a, b in v},
            'tuple': lambda: tuple(dec(x) for x in v),
            'set': lambda: set(dec(x) for x in v),
            'bytes': lambda: base64.b64decode(v),
            'decimal': lambda: decimal.Decimal(v),
            'datetime': lambda: datetime.datetime.fromisoformat(v),
            'timedelta': lambda: datetime.timedelta(*v),
        }[t]()
    return o


def dumps(o, **kw):
    return json.dumps(enc(o), ensure_ascii=True, **kw)


def loads(s):
    return dec(json.loads(s))
