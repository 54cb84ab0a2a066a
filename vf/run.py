"""
Runs the searches of a property over worker processes, shrinks failures, writes replay and evidence.
"""
import os
import sys
import json
import time
import zlib
import errno
import shutil
import signal
import hashlib
import pathlib
import tempfile
import warnings
import traceback
import importlib
import itertools
import contextlib
import collections

from . import codec
from .core import Violation, Skip, OracleError, Rec, Sub, Enum

VERIF = pathlib.Path(__file__).resolve().parent.parent
CPU_LIMIT = 30      # seconds of CPU time a single (small) case may take
WALL_LIMIT = 240    # wall clock seconds, after which a case is inconclusive
SHRINK_SECONDS = 60


class Hang(BaseException):
    pass


class Inconclusive(BaseException):
    pass


class OutOfTime(BaseException):
    pass


def _on_prof(*_):
    raise Hang()


def _on_alrm(*_):
    raise Inconclusive('case ran into the wall clock limit')


@contextlib.contextmanager
def guarded():
    old1 = signal.signal(signal.SIGPROF, _on_prof)
    old2 = signal.signal(signal.SIGALRM, _on_alrm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    signal.alarm(WALL_LIMIT)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        signal.signal(signal.SIGPROF, old1)
        signal.signal(signal.SIGALRM, old2)


HARNESS_ERRNO = {errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN,
                 errno.EADDRINUSE, errno.EADDRNOTAVAIL, errno.EDQUOT, errno.EROFS}


def run_case(sub, case, rec):
    """
    :return: None if the property holds on case, else a message. Raises OracleError for defects \
    of the machinery.
    """
    rec.reset()
    cwd = os.getcwd()
    try:
        with guarded(), warnings.catch_warnings(record=True):
            warnings.resetwarnings()
            warnings.simplefilter('always')
            for cat in (DeprecationWarning, PendingDeprecationWarning, ImportWarning,
                        ResourceWarning, EncodingWarning):
                warnings.simplefilter('ignore', cat)
            sub.check(case, rec)
    except Skip:
        rec.label('skipped')
    except Violation as e:
        return str(e)
    except (MemoryError, ImportError) as e:
        raise OracleError('{}: {}'.format(type(e).__name__, e)) from e
    except OSError as e:
        if e.errno in HARNESS_ERRNO:
            raise OracleError(str(e)) from e
        return describe(e)
    except RecursionError as e:
        return describe(e)
    except Exception as e:
        return describe(e)
    finally:
        with contextlib.suppress(OSError):
            os.chdir(cwd)
    return None


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ' <- '.join(
        '{}:{}'.format(pathlib.Path(f.filename).name, f.lineno) for f in reversed(tb[-4:]))
    return 'unexpected {}: {} [{}]'.format(type(e).__name__, str(e)[:400], where)


def seed_for(seed, prop, sub, shard):
    return zlib.crc32('{}:{}:{}:{}'.format(seed, prop, sub, shard).encode())


def digest(case):
    return hashlib.blake2b(codec.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()


class Shard:
    def __init__(self, prop, sub, index, total, tier, seed, deadline, scratch):
        self.prop, self.sub, self.index, self.total = prop, sub, index, total
        self.tier, self.seed, self.deadline = tier, seed, deadline
        self.scratch = scratch
        self.rec = Rec(scratch)
        self.evals, self.nontrivial = 0, set()
        self.samples = []
        self.failure = None   # (case, message), the smallest one seen
        self.history = False
        self.truncated = False

    def one(self, case):
        if time.monotonic() > self.deadline and self.failure is None:
            self.truncated = True
            raise OutOfTime()
        self.evals += 1
        try:
            msg = run_case(self.sub, case, self.rec)
        except Hang:
            self.failure = (case, 'did not return within {}s of CPU time'.format(CPU_LIMIT))
            raise
        if self.rec._nt and self.failure is None:
            d = digest(case)
            if d not in self.nontrivial:
                self.nontrivial.add(d)
                k = len(self.nontrivial)
                if len(self.samples) < 3:
                    self.samples.append(case)
                elif k & (k - 1) == 0:  # 4th, 8th, 16th, ... distinct case
                    self.samples[(k.bit_length()) % 3] = case
        if msg is not None:
            size = len(codec.dumps(case))
            if self.failure is None or size <= len(codec.dumps(self.failure[0])):
                self.failure = (case, msg)
            raise Violation(msg)

    def run(self):
        if isinstance(self.sub, Enum):
            for i, case in enumerate(self.sub.cases(self.tier)):
                if i % self.total == self.index:
                    try:
                        self.one(case)
                    except (Violation, Hang):
                        return
                    except OutOfTime:
                        return
            return
        import hypothesis
        from hypothesis import settings, given, HealthCheck, Phase, Verbosity
        from hypothesis.internal.conjecture import engine
        if hasattr(engine, 'MAX_SHRINKING_SECONDS'):
            engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
        n = self.sub.n(self.tier)
        n = n // self.total + (1 if self.index < n % self.total else 0)

        def test(case):
            self.one(case)

        test = given(self.sub.strategy)(test)
        test = hypothesis.seed(seed_for(self.seed, self.prop.id, self.sub.name, self.index))(test)
        test = settings(
            max_examples=n, database=None, deadline=None, derandomize=False,
            phases=(Phase.generate,) if os.environ.get('VF_NOSHRINK') else (Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            report_multiple_bugs=False, print_blob=False, verbosity=Verbosity.quiet)(test)
        try:
            test()
        except (Violation, Hang):
            pass
        except OutOfTime:
            pass
        except BaseException as e:
            if isinstance(e, (OracleError, Inconclusive, KeyboardInterrupt)) or not self.failure:
                raise
            # Flaky: the failure depends on the history of calls in this process.
            self.history = True


@contextlib.contextmanager
def lines(shard):
    """Records the lines of csvw which are executed, if VF_LINES names a directory (for tools/mutate.py)."""
    top = os.environ.get('VF_LINES')
    if not top:
        yield
        return
    mon, seen = sys.monitoring, set()

    def line(code, lineno):
        if '/csvw/' in code.co_filename:
            seen.add((os.path.basename(code.co_filename), lineno))
        return mon.DISABLE
    mon.use_tool_id(3, 'vf')
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    try:
        yield
    finally:
        mon.set_events(3, 0)
        pathlib.Path(top, '{}-{}-{}.json'.format(shard.prop.id, shard.sub.name, shard.index)).write_text(
            json.dumps(sorted(seen)))


def child(shard, out):
    """Body of a worker process."""
    res = {'error': None}
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)  # chatter of the code under test
    tempfile.tempdir = str(shard.scratch)
    os.environ['TMPDIR'] = str(shard.scratch)
    os.chdir(str(shard.scratch))
    try:
        if shard.prop.setup:
            shard.prop.setup(shard)
        with lines(shard):
            shard.run()
        if shard.failure and not shard.history:
            # The decoded case on its own must fail, too - else it is a matter of history.
            case = codec.loads(codec.dumps(shard.failure[0]))
            try:
                msg = run_case(shard.sub, case, Rec(shard.scratch))
            except Hang:
                msg = shard.failure[1]
            if msg is None:
                shard.history = True
            else:
                shard.failure = (case, msg)
    except BaseException as e:
        res['error'] = '{}: {}\n{}'.format(
            type(e).__name__, e, ''.join(traceback.format_exception(e))[-6000:])
    res.update(
        sub=shard.sub.name, index=shard.index, evals=shard.evals,
        nontrivial=sorted(shard.nontrivial), labels=dict(shard.rec.labels),
        samples=[codec.enc(s) for s in shard.samples],
        failure=None if not shard.failure else [codec.enc(shard.failure[0]), shard.failure[1]],
        history=shard.history, truncated=shard.truncated)
    tmp = str(out) + '.tmp'
    with open(tmp, 'w') as fp:
        json.dump(res, fp)
    os.rename(tmp, out)


def fork_shard(shard, out):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 0
    try:
        os.setpgid(0, 0)
        child(shard, out)
    except BaseException:
        traceback.print_exc()
        code = 3
    finally:
        os._exit(code)


def load_prop(pid):
    return importlib.import_module('props.' + pid.lower()).PROP


def known_findings():
    p = VERIF / 'known_findings.json'
    return json.loads(p.read_text()) if p.exists() else []


def make_scratch():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and \
        shutil.disk_usage('/dev/shm').free > 200 * 2 ** 20 else None
    return pathlib.Path(tempfile.mkdtemp(prefix='vf-', dir=base))


def corpus(prop):
    d = VERIF / 'corpus' / prop.id
    for p in sorted(d.glob('*.json')) if d.exists() else []:
        for item in json.loads(p.read_text()):
            yield prop.sub(item['sub']), codec.dec(item['case'])


class CorpusSub(Enum):
    def __init__(self, sub, cases):
        self.name, self.check, self.shards = sub.name, sub.check, 1
        self.cases = lambda tier: cases


def write_replay(prop, res, tier, seed):
    d = VERIF / 'out' / 'replay'
    d.mkdir(parents=True, exist_ok=True)
    case, msg = res['failure']
    p = d / '{}-{}-{:08x}.json'.format(prop.id, res['sub'], zlib.crc32(
        json.dumps(case, sort_keys=True).encode()))
    obj = {'property': prop.id, 'sub': res['sub'], 'case': case, 'message': msg}
    if res['history']:
        obj['history'] = {
            'shard': res['index'], 'total': res['total'], 'tier': tier, 'seed': seed,
            'note': 'fails only after the calls this shard made before; replay re-runs the shard'}
    p.write_text(json.dumps(obj, indent=1))
    return p


def run(pid, tier, seed, only=None, nmax=None, jobs=None, quiet=False):
    t0 = time.monotonic()
    prop = load_prop(pid)
    jobs = jobs or min(8, os.cpu_count() or 1)
    deadline = t0 + prop.budget[1 if tier == 'thorough' else 0]
    top = make_scratch()
    try:
        return _run(prop, tier, seed, only, nmax, jobs, t0, deadline, top)
    finally:
        shutil.rmtree(str(top), ignore_errors=True)


def _run(prop, tier, seed, only, nmax, jobs, t0, deadline, top):
    scratch_no = itertools.count()

    def mk(sub, index, total):
        d = top / 's{}'.format(next(scratch_no))
        d.mkdir()
        return Shard(prop, sub, index, total, tier, seed, deadline, d)

    # known findings first: each is probed with its recorded input.
    for f in known_findings():
        if f['property'] == prop.id and f['status'] == 'known':
            s = mk(CorpusSub(prop.sub(f['probe']['sub']), [codec.dec(f['probe']['case'])]), 0, 1)
            out = top / 'known.json'
            os.waitpid(fork_shard(s, out), 0)
            res = json.loads(out.read_text())
            out.unlink()
            if res['error']:
                print('error probing known finding:', res['error'])
                return 2
            if res['failure']:
                print('KNOWN-FINDING: property={} {}'.format(prop.id, f['what']))

    tasks = []
    by_sub = collections.OrderedDict()
    for sub, case in corpus(prop):
        by_sub.setdefault(sub.name, (sub, []))[1].append(case)
    for sub, cases in by_sub.values():
        if not only or sub.name == only:
            tasks.append((CorpusSub(sub, cases), 0, 1))
    gens = []
    for sub in prop.subs:
        if only and sub.name != only:
            continue
        if isinstance(sub, Sub) and nmax:
            sub.quick = sub.thorough = nmax
        total = sub.shards or (max(1, min(jobs if tier == 'quick' else 2 * jobs,
                                          sub.n(tier) // 40)))
        gens.append([(sub, i, total) for i in range(total)])
    # Interleave the searches, so that a time limit hits all of them alike.
    tasks.extend(t for ts in itertools.zip_longest(*gens) for t in ts if t)

    running, results, failed, error = {}, [], None, None
    queue = collections.deque(tasks)
    while queue or running:
        while queue and len(running) < jobs and not (failed or error):
            sub, i, total = queue.popleft()
            shard = mk(sub, i, total)
            out = top / 'r{}.json'.format(shard.scratch.name)
            running[fork_shard(shard, out)] = (shard, out)
        if failed or error:
            for p in running:
                with contextlib.suppress(ProcessLookupError):
                    os.kill(p, signal.SIGKILL)
        if not running:
            break
        p, status = os.wait()
        if p not in running:
            continue
        shard, out = running.pop(p)
        if out.exists():
            res = json.loads(out.read_text())
            res['total'] = shard.total
            results.append(res)
            if res['error']:
                error = error or res['error']
            elif res['failure'] and not failed:
                failed = res
        elif not (failed or error):
            error = 'worker for {} #{} died with status {}'.format(
                shard.sub.name, shard.index, status)
        shutil.rmtree(str(shard.scratch), ignore_errors=True)

    if failed and failed['history'] and not error:
        # The failure did not show again for the single input: run the whole history anew.
        sub = prop.sub(failed['sub'])
        shard = mk(sub, failed['index'], failed['total'])
        out = top / 'hist.json'
        os.waitpid(fork_shard(shard, out), 0)
        again = json.loads(out.read_text()) if out.exists() else {'error': 'died', 'failure': None}
        if not again['failure']:
            error = 'a failure could not be reproduced: {} {}'.format(
                failed['failure'], again['error'])
            failed = None

    evals = sum(r['evals'] for r in results)
    distinct, labels, samples, per = set(), collections.Counter(), [], collections.OrderedDict()
    for r in results:
        distinct |= {r['sub'] + ':' + d for d in r['nontrivial']}
        for k, v in r['labels'].items():
            labels['{}/{}'.format(r['sub'], k)] += v
        s = per.setdefault(r['sub'], {'evaluations': 0, 'distinct_nontrivial': set(), 'samples': []})
        s['evaluations'] += r['evals']
        s['distinct_nontrivial'] |= set(r['nontrivial'])
        s['samples'].extend(r['samples'])
    for name, s in per.items():
        s['distinct_nontrivial'] = len(s['distinct_nontrivial'])
        for c in s.pop('samples')[:40:8][:3]:
            txt = json.dumps(c)
            samples.append({'sub': name, 'case': c if len(txt) < 1500 else txt[:1500] + '...'})
    wall = time.monotonic() - t0
    ev = {
        'property': prop.id, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(distinct), 'rule': prop.rule,
            'samples': samples, 'searches': per, 'labels': dict(sorted(labels.items())),
            'stopped_early_by_time_limit': any(r['truncated'] for r in results),
        },
        'assumptions': prop.assumptions,
        'wall_s': round(wall, 2),
        'violations': 1 if failed else 0,
    }
    (VERIF / 'evidence').mkdir(exist_ok=True)
    (VERIF / 'evidence' / (prop.id + '.json')).write_text(json.dumps(ev, indent=1))
    if failed:
        replay = write_replay(prop, failed, tier, seed)
        print('{} [{}]: {}'.format(prop.id, failed['sub'], failed['failure'][1]))
        print('VIOLATION property={} replay={}'.format(prop.id, replay))
        return 1
    if error:
        print('check {} is broken: {}'.format(prop.id, error))
        return 2
    if not only and not distinct:
        print('check {} generated no non-trivial case'.format(prop.id))
        return 2
    print('{} ok: {} cases, {} distinct non-trivial, {:.1f}s{}'.format(
        prop.id, evals, len(distinct), wall,
        ' (time limit hit)' if ev['coverage']['stopped_early_by_time_limit'] else ''))
    return 0


def replay(path):
    obj = json.loads(pathlib.Path(path).read_text())
    prop = load_prop(obj['property'])
    sub = prop.sub(obj['sub'])
    top = make_scratch()
    try:
        h = obj.get('history')
        if h:
            s = Shard(prop, sub, h['shard'], h['total'], h['tier'], h['seed'],
                      time.monotonic() + 3600, top)
        else:
            s = Shard(prop, CorpusSub(sub, [codec.dec(obj['case'])]), 0, 1, 'quick', 0,
                      time.monotonic() + 3600, top)
        out = top / 'res.json'
        os.waitpid(fork_shard(s, out), 0)
        res = json.loads(out.read_text())
    finally:
        shutil.rmtree(str(top), ignore_errors=True)
    if res['error']:
        print('check is broken:', res['error'])
        return 2
    if res['failure']:
        print('{} [{}]: {}'.format(prop.id, sub.name, res['failure'][1]))
        print('VIOLATION property={} replay={}'.format(prop.id, path))
        return 1
    print('{}: replay passes'.format(prop.id))
    return 0


def selftest():
    """setup_cmd: the machinery loads, and a failing check is found, shrunk and replayed."""
    import decimal
    import datetime
    from hypothesis import strategies as st
    obj = {'a': [1, 1.5, None, True, 'é\ud800', (1, 2), b'x', decimal.Decimal('1.50'),
                 datetime.datetime(2020, 1, 1)]}
    if codec.loads(codec.dumps(obj)) != obj:
        raise SystemExit('codec is broken')
    for p in sorted((VERIF / 'props').glob('c[0-9]*.py')):
        load_prop(p.stem.upper())
    from .core import Prop

    def check(case, rec):
        rec.nt()
        if sum(case) > 100:
            raise Violation('too big')
    prop = Prop('SELF', [Sub('s', st.lists(st.integers(0, 1000)), check, quick=400)], rule='')
    top = make_scratch()
    try:
        shard = Shard(prop, prop.subs[0], 0, 1, 'quick', 1, time.monotonic() + 60, top)
        shard.run()
        if not shard.failure or shard.failure[0] != [101]:
            raise SystemExit('search is broken: {}'.format(shard.failure))
    finally:
        shutil.rmtree(str(top), ignore_errors=True)
