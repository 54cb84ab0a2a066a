#!/opt/venv/bin/python
"""
Plant bugs: plant.py FILE [ID...], where FILE is a Python file defining a list SPECS of
  dict(id=, property=, needs=, what=, edits=[(file, old, new), ...], demo='python source')
applies the edits in a scratch copy of /repo, confirms that the tests pass there, and that the demo
fails there and passes on /repo; then writes /verif/seeded/<id>/ and runs the check of the property.
Options: --recheck [ID...], --table
"""
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONDONTWRITEBYTECODE='1')


def run(cmd, cwd, repo, **kw):
    env = dict(ENV, PYTHONPATH=str(repo / 'src'))
    return subprocess.run(cmd, cwd=str(cwd), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **kw)


def scratch():
    tmp = pathlib.Path(tempfile.mkdtemp(prefix='plant-', dir='/tmp'))
    shutil.copytree('/repo', str(tmp / 'repo'), symlinks=True)
    return tmp


def check(prop, repo, seed='1'):
    out = tempfile.mkdtemp(prefix='plant-out-', dir='/tmp')
    r = subprocess.run([PY, 'check.py', prop, '--seed', seed], cwd=str(ROOT),
                       env=dict(ENV, VF_REPO=str(repo)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       universal_newlines=True)
    shutil.rmtree(out)
    return r.returncode, [x for x in r.stdout.splitlines() if x.strip()][-2:]


def plant(spec):
    tmp = scratch()
    repo = tmp / 'repo'
    try:
        for fname, old, new in spec['edits']:
            p = repo / fname
            s = p.read_text(encoding='utf-8')
            if s.count(old) != 1:
                return 'edit matches {} times: {!r}'.format(s.count(old), old)
            p.write_text(s.replace(old, new), encoding='utf-8')
        diff = subprocess.run(['git', 'diff'], cwd=str(repo), stdout=subprocess.PIPE).stdout.decode()
        removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        base = ''
        for fname, _, _ in spec['edits']:
            base += subprocess.run(['git', 'show', 'c0a8517:' + fname], cwd=str(repo),
                                   stdout=subprocess.PIPE).stdout.decode()
        new = [l for l in removed if l not in base.splitlines()]
        if new or not removed:
            return 'changes lines which are not original: {}'.format(new)
        r = run([PY, '-m', 'pytest', '-q', '--no-cov', '-p', 'no:cacheprovider', '-x',
                 '--ignore=tests/test_conformance.py'], repo, repo)
        if r.returncode:
            return 'tests fail:\n' + r.stdout[-1500:]
        d = tmp / 'demo'
        d.mkdir()
        (d / 'demo.py').write_text(spec['demo'].lstrip(), encoding='utf-8')
        (d / 'demo.sh').write_text(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"\n'
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        good = run(['bash', str(d / 'demo.sh')], '/repo', pathlib.Path('/repo'))
        bad = run(['bash', str(d / 'demo.sh')], repo, repo)
        if good.returncode or not bad.returncode:
            return 'demo: unchanged {} {}, planted {} {}'.format(
                good.returncode, good.stdout[-800:], bad.returncode, bad.stdout[-800:])
        dest = ROOT / 'seeded' / spec['id']
        dest.mkdir(parents=True, exist_ok=True)
        (dest / 'patch.diff').write_text(diff, encoding='utf-8')
        for n in ('demo.py', 'demo.sh'):
            shutil.copy(str(d / n), str(dest / n))
        (dest / 'meta.json').write_text(json.dumps(dict(
            property=spec['property'], needs=spec['needs'], what_it_breaks=spec['what']), indent=1) + '\n')
        rc, tail = check(spec['property'], repo)
        return 'planted; check exits {}: {}'.format(rc, ' | '.join(t[:300] for t in tail))
    finally:
        shutil.rmtree(str(tmp))


def recheck(id):
    meta = json.loads((ROOT / 'seeded' / id / 'meta.json').read_text())
    tmp = scratch()
    repo = tmp / 'repo'
    try:
        r = subprocess.run(['git', 'apply', str(ROOT / 'seeded' / id / 'patch.diff')], cwd=str(repo))
        if r.returncode:
            return 'patch does not apply'
        d = ROOT / 'seeded' / id / 'demo.sh'
        good = run(['bash', str(d)], '/repo', pathlib.Path('/repo'))
        bad = run(['bash', str(d)], repo, repo)
        rc, tail = check(meta['property'], repo)
        return 'demo {}/{}; {} exits {}: {}'.format(
            good.returncode, bad.returncode, meta['property'], rc, ' | '.join(t[:200] for t in tail))
    finally:
        shutil.rmtree(str(tmp))


if __name__ == '__main__':
    if sys.argv[1:2] == ['--recheck']:
        for i in sys.argv[2:] or sorted(p.name for p in ROOT.joinpath('seeded').iterdir()):
            print(i, recheck(i), flush=True)
    elif sys.argv[1:2] == ['--table']:
        # Runs all checks against all planted bugs and updates the list in DESIGN.md.
        lines = ['| bug | needs | result |', '|---|---|---|']
        for i in sorted(p.name for p in ROOT.joinpath('seeded').iterdir()):
            meta = json.loads((ROOT / 'seeded' / i / 'meta.json').read_text())
            r = recheck(i)
            print(i, r, flush=True)
            prop = meta['property']
            lines.append('| {} | {} | {} |'.format(
                i, meta['needs'].replace('|', '&#124;'),
                'caught by {}'.format(prop) if '{} exits 1'.format(prop) in r else 'MISSED'))
        p = ROOT / 'DESIGN.md'
        s = p.read_text(encoding='utf-8')
        a, b = s.index('<!-- seeds -->'), s.index('<!-- /seeds -->')
        p.write_text(s[:a] + '<!-- seeds -->\n' + '\n'.join(lines) + '\n' + s[b:], encoding='utf-8')
    else:
        ns = {}
        exec(open(sys.argv[1], encoding='utf-8').read(), ns)
        for spec in ns['SPECS']:
            if not sys.argv[2:] or spec['id'] in sys.argv[2:]:
                print(spec['id'], plant(spec), flush=True)
