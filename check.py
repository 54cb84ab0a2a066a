#!/opt/venv/bin/python
"""
check.py C01                  run the check of property C01 (tier and seed from VERIF_TIER/VERIF_SEED)
check.py C01 --replay FILE    re-run the single case (or history) a replay file records
"""
import os
import sys
import argparse

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import boot  # noqa: E402


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop', nargs='?')
    p.add_argument('--selftest', action='store_true')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--seed', type=int, default=None)
    p.add_argument('--replay')
    p.add_argument('--sub')
    p.add_argument('-n', type=int)
    p.add_argument('--jobs', type=int)
    a = p.parse_args()
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get('VERIF_SEED') or 1)
        except ValueError:
            seed = 1
    boot.load()
    from vf import run
    if a.selftest:
        run.selftest()
        print('ok')
        return 0
    if a.replay:
        return run.replay(a.replay)
    return run.run(a.prop, 'thorough' if a.tier == 'thorough' else 'quick', seed,
                   only=a.sub, nmax=a.n, jobs=a.jobs)


if __name__ == '__main__':
    boot.reexec()
    rc = 2
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 2
        if not isinstance(e.code, int) and e.code:
            print(e.code)
    except BaseException:
        import traceback
        traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
