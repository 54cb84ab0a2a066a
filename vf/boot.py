"""
Process bootstrap: fixed environment, third-party libraries, and the csvw package imported from the
working tree of the repository under test (never from a stale .pyc or an installed copy).
"""
import os
import sys
import importlib.abc
import importlib.machinery

REPO = os.environ.get('VF_REPO', '/repo')   # overridden only by the development tools
PYENV = '/opt/venv/bin/python'
HYP_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
HYP_NAMES = {'hypothesis', 'sortedcontainers', '_hypothesis_globals', '_hypothesis_ftz_detector',
             '_hypothesis_pytestplugin'}
ENV = {
    'PYTHONHASHSEED': '0', 'TZ': 'UTC', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
    'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONUTF8': '1', 'no_proxy': '*', 'NO_PROXY': '*',
    'VF_BOOTED': '1',
}
DROP = ['PYTHONPATH', 'PYTHONWARNINGS', 'PYTHONOPTIMIZE', 'PYTHONHOME', 'PYTHONSTARTUP',
        'HTTP_PROXY', 'HTTPS_PROXY', 'http_proxy', 'https_proxy', 'ALL_PROXY', 'all_proxy']


def reexec():
    """Run under the interpreter the repository's tests use, with a pinned environment."""
    if os.environ.get('VF_BOOTED') == '1':
        return
    env = {k: v for k, v in os.environ.items() if k not in DROP}
    env.update(ENV)
    sys.stdout.flush()
    os.execve(PYENV, [PYENV] + sys.argv, env)


class _Finder(importlib.abc.MetaPathFinder):
    """Resolves hypothesis (and what it needs) only, so nothing else of that venv leaks in."""
    def find_spec(self, name, path, target=None):
        if name.split('.')[0] in HYP_NAMES and path is None:
            return importlib.machinery.PathFinder.find_spec(name, [HYP_SITE])


def load():
    sys.dont_write_bytecode = True
    sys.meta_path.append(_Finder())
    import hypothesis  # noqa: F401
    # third-party dependencies of csvw first, with their caches:
    import attr, babel.dates, babel.numbers, dateutil.parser, isodate, jsonschema  # noqa
    import language_tags, rdflib, requests, rfc3986, termcolor, uritemplate  # noqa
    # ... then csvw from source. A prefix which does not exist makes python ignore (and not write)
    # any __pycache__ lying around in the working tree.
    sys.pycache_prefix = '/nonexistent/vf-pycache'
    src = os.path.join(REPO, 'src')
    sys.path.insert(0, src)
    import csvw
    import csvw.__main__, csvw.db, csvw.frictionless, csvw.jsonld  # noqa
    if not os.path.realpath(csvw.__file__).startswith(os.path.realpath(src) + os.sep):
        raise SystemExit('csvw imported from {}, not from {}'.format(csvw.__file__, src))
    return csvw
