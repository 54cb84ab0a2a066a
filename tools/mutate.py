#!/opt/venv/bin/python
"""
Mutation analysis: which small changes of csvw pass its tests and stay unnoticed by the checks?

mutate.py list                    count mutants
mutate.py run OUT.jsonl [-j N] [-n CASES] [--file F] [--sample K] [--only ID ...]
mutate.py show OUT.jsonl          undetected ones, as diffs

Every mutant is made in a scratch copy under /dev/shm. Mutants which the test suite detects are dropped,
the others are given to the checks which execute the changed line (smallest first), with few cases.
"""
import argparse
import ast
import collections
import concurrent.futures
import functools
import json
import os
import pathlib
import random
import shutil
import subprocess
import tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VF_REPO', '/repo'))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONDONTWRITEBYTECODE='1', VF_NOSHRINK='1')
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in',
       ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}


def mutants(fname):
    src = (REPO / 'src' / 'csvw' / fname).read_text(encoding='utf8')
    tree = ast.parse(src)
    starts = [0]
    for line in src.splitlines(keepends=True):
        starts.append(starts[-1] + len(line.encode()))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def add(n, new, kind):
        a, b = span(n)
        out.append({'file': fname, 'line': n.lineno, 'start': a, 'end': b, 'old': raw[a:b].decode(), 'new': new, 'kind': kind})

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
            docs.add(n.body[0])
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and text(n.func) in ('warnings.warn', 'log_or_raise', 'parsed_args'):
            for x in ast.walk(n):  # messages
                if x is not n and isinstance(x, (ast.Constant, ast.BinOp, ast.Call)):
                    skip.add(x)
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                skip.update(ast.walk(d))
            if n.returns:
                skip.update(ast.walk(n.returns))
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    skip.update(ast.walk(a.annotation))
    for n in ast.walk(tree):
        if n in docs or n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, '({} {} {})'.format(text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join('({})'.format(text(v)) for v in n.values) + ')', 'boolop')
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                op = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, '(' + op.join('({})'.format(text(v)) for v in rest) + ')', 'operand')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '({})'.format(text(n.operand)), 'not')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), 'const')
            elif isinstance(n.value, str) and n.value and '\n' not in text(n):
                add(n, "'XX'" if not text(n).startswith(('r', 'b')) else "r'XX'", 'str')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            add(n, '({} {} {})'.format(text(n.left), '-' if isinstance(n.op, ast.Add) else '+', text(n.right)), 'arith')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(n.test, 'False', 'cond')
            if not isinstance(n, ast.While):
                add(n.test, 'True', 'cond')
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                add(c, 'True', 'filter')
        elif isinstance(n, ast.Return) and n.value is not None:
            if not (isinstance(n.value, ast.Constant) and n.value.value is None):
                add(n.value, 'None', 'return')
        elif isinstance(n, (ast.Expr, ast.Raise, ast.Continue, ast.Break, ast.AugAssign, ast.Delete)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.YieldFrom))):
                add(n, 'pass', 'stmt')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(n, 'pass', 'stmt')
        elif isinstance(n, ast.Call):
            for kw in n.keywords:
                if kw.arg:
                    args = [text(a) for a in n.args] + [text(k) for k in n.keywords if k is not kw]
                    add(n, '{}({})'.format(text(n.func), ', '.join(args)), 'kwarg')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('strip', 'rstrip', 'lstrip', 'lower', 'upper', 'copy', 'split'):
                if n.func.attr != 'split':
                    add(n, text(n.func.value), 'method')
    res = []
    for m in out:
        new = raw[:m['start']] + m['new'].encode() + raw[m['end']:]
        try:
            compile(new, fname, 'exec')
        except (SyntaxError, ValueError):
            continue
        m['id'] = '{}:{}:{}-{}:{}'.format(fname, m['line'], m['start'], m['end'], m['new'][:60])
        res.append(m)
    return list({m['id']: m for m in res}.values())


def files():
    return sorted(p.name for p in (REPO / 'src' / 'csvw').glob('*.py') if p.name != '__init__.py')


def props():
    return sorted(p.stem.upper() for p in (ROOT / 'props').glob('c[0-9][0-9].py'))


def coverage(n):
    cov = collections.defaultdict(dict)
    for p in props():
        d = tempfile.mkdtemp(prefix='lines-', dir='/dev/shm')
        subprocess.run([PY, 'check.py', p, '-n', str(n)], cwd=str(ROOT), env=dict(ENV, VF_LINES=d, VF_REPO=str(REPO)),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        total = set()
        for f in pathlib.Path(d).glob('*.json'):
            total.update(map(tuple, json.loads(f.read_text())))
        shutil.rmtree(d)
        for fname, line in total:
            cov[(fname, line)][p] = len(total)
    return cov


caught = collections.defaultdict(list)


def rank(m, c):
    """The checks which have caught mutants nearby come first, then those which execute least."""
    near = collections.Counter(r for line, r in list(caught[m['file']]) if abs(line - m['line']) < 15)
    return sorted(c, key=lambda p: (-near[p], c[p]))


def runner(args):
    m, order, n = args
    tmp = pathlib.Path(tempfile.mkdtemp(prefix='mut-', dir='/dev/shm'))
    try:
        repo = tmp / 'repo'
        shutil.copytree(str(REPO), str(repo), symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__', '*.egg-info', 'docs'))
        p = repo / 'src' / 'csvw' / m['file']
        raw = p.read_bytes()
        p.write_bytes(raw[:m['start']] + m['new'].encode() + raw[m['end']:])
        env = dict(ENV, PYTHONPATH=str(repo / 'src'), TMPDIR=str(tmp))
        try:
            r = subprocess.run([PY, '-m', 'pytest', '-q', '--no-cov', '-p', 'no:cacheprovider', '-x', '--ignore=tests/test_conformance.py'],
                               cwd=str(repo), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            if r.returncode:
                return dict(m, result='tests')
        except subprocess.TimeoutExpired:
            return dict(m, result='tests')
        tried = []
        order = order()
        for prop in order:
            try:
                r = subprocess.run([PY, 'check.py', prop, '--jobs', '1', '-n', str(n)], cwd=str(ROOT), env=dict(ENV, VF_REPO=str(repo)),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=300)
            except subprocess.TimeoutExpired:
                return dict(m, result='timeout ' + prop)
            if r.returncode == 1:
                return dict(m, result=prop, message=r.stdout[-300:])
            if r.returncode:
                tried.append('{} status {}: {}'.format(prop, r.returncode, r.stdout[-200:]))
            else:
                tried.append(prop)
        return dict(m, result=None, tried=tried)
    finally:
        shutil.rmtree(str(tmp), ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('out', nargs='?')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-n', type=int, default=250)
    ap.add_argument('--file')
    ap.add_argument('--sample', type=int)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--retry', action='store_true')
    ap.add_argument('--ids', help='JSON file with the ids of mutants')
    a = ap.parse_args()
    ms = [m for f in files() if a.file in (None, f) for m in mutants(f)]
    if a.cmd == 'list':
        print(collections.Counter(m['file'] for m in ms), collections.Counter(m['kind'] for m in ms), len(ms))
        return
    done = {}
    out = pathlib.Path(a.out)
    if out.exists():
        for line in out.read_text().splitlines():
            m = json.loads(line)
            done[m['id']] = m
    if a.cmd == 'show':
        for m in sorted(done.values(), key=lambda m: (m['file'], m['line'])):
            if m['result'] is None or str(m['result']).startswith('timeout'):
                print('{file}:{line} [{kind}] {old!r} -> {new!r}'.format(**m), m['result'] or '', ' '.join(x for x in m['tried'] if len(x) > 3) if m['result'] is None else '',
                      '' if m.get('tried') else 'NOT COVERED')
        print(collections.Counter(m['result'] for m in done.values()))
        return
    if a.ids:
        ids = set(json.loads(pathlib.Path(a.ids).read_text()))
        ms = [m for m in ms if m['id'] in ids]
    if a.sample:
        random.Random(a.seed).shuffle(ms)
        ms = ms[:a.sample]
    ms = [m for m in ms if m['id'] not in done or a.retry and done[m['id']]['result'] is None]
    cov = coverage(a.n)
    print(len(ms), 'mutants', flush=True)
    jobs = []
    for m in ms:
        c = cov.get((m['file'], m['line'])) or {}
        if not c:  # several lines
            for k in range(m['line'] - 3, m['line'] + 4):
                c.update(cov.get((m['file'], k)) or {})
        jobs.append((m, functools.partial(rank, m, c), a.n))
    for m in done.values():
        caught[m['file']].append((m['line'], m['result']))
    with out.open('a') as fp, concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        for fut in concurrent.futures.as_completed([ex.submit(runner, j) for j in jobs]):
            res = fut.result()
            caught[res['file']].append((res['line'], res['result']))
            fp.write(json.dumps(res) + '\n')
            fp.flush()


if __name__ == '__main__':
    main()
