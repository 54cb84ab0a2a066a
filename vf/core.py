"""Vocabulary used by the property modules."""
import math
import contextlib
import collections

__all__ = ['Violation', 'OracleError', 'Sub', 'Enum', 'Prop', 'Rec', 'expect', 'eq', 'same',
           'oracle', 'fail', 'raises', 'Skip']


class Violation(Exception):
    """The property does not hold on this case."""


class Skip(Exception):
    """The case lies outside the property's domain (counted, neither pass nor failure)."""


class OracleError(BaseException):
    """The machinery is broken: never to be reported as a violation."""


@contextlib.contextmanager
def oracle():
    """Code in this block is ours: an exception is a defect of the check, not of csvw."""
    try:
        yield
    except (Violation, Skip):
        raise
    except Exception as e:
        raise OracleError('{}: {}'.format(type(e).__name__, e)) from e


def fail(msg, *a):
    raise Violation(msg.format(*a) if a else msg)


def expect(cond, msg='', *a):
    if not cond:
        fail(msg, *a)


def same(a, b):
    """Deep equality which tells apart types (True/1/1.0/Decimal), but equates NaN with itself."""
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, float) and math.isnan(a) and math.isnan(b):
        return True
    if type(a).__name__ == 'Decimal' and a.is_nan() and b.is_nan():
        return True
    return a == b


def eq(got, want, what='', *a):
    if not same(got, want):
        raise Violation('{}: expected {}, got {}'.format(
            what.format(*a) if a else what, short(want), short(got)))


def short(o, n=700):
    s = repr(o)
    return s if len(s) <= n else s[:n] + '...'


def raises(exc, func, *args, **kw):
    """Call func; return the exception if it is an `exc`, None if it returned normally."""
    try:
        func(*args, **kw)
    except exc as e:
        return e
    return None


class Rec:
    """What a check tells the engine about the case at hand."""
    def __init__(self, scratch=None):
        self.labels = collections.Counter()
        self.scratch = scratch
        self.reset()

    def reset(self):
        self._nt = False
        self._seen = set()

    def label(self, *names):
        for name in names:
            if name not in self._seen:  # at most once per case
                self._seen.add(name)
                self.labels[name] += 1

    def nt(self, flag=True):
        """Mark the case as non-trivial by the property's stated rule."""
        if flag:
            self._nt = True


class Sub:
    """One generated search: a strategy for plain-data cases and a check(case, rec)."""
    def __init__(self, name, strategy, check, quick=1000, thorough=None, shards=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough or quick * 12
        self.shards = shards

    def n(self, tier):
        return self.thorough if tier == 'thorough' else self.quick


class Enum:
    """An enumerated (finite, complete) list of cases: cases(tier) -> iterable."""
    def __init__(self, name, cases, check, shards=8):
        self.name, self.cases, self.check, self.shards = name, cases, check, shards


class Prop:
    def __init__(self, id, subs, rule, assumptions=(), setup=None, budget=(240, 1500)):
        self.id, self.subs, self.rule = id, subs, rule
        self.assumptions, self.setup = list(assumptions), setup
        self.budget = budget

    def sub(self, name):
        return {s.name: s for s in self.subs}[name]
