"""Check runner: generation, sharding, shrinking, replay, evidence.

A property module defines `PROPERTY` (its id) and `CHECKS`, a list of `Check`s.
A check is a strategy producing a JSON-able *case*, and a plain function
`run(case) -> Info` which raises `Violation` when the case contradicts the
property.  Nothing else decides: Hypothesis only searches and shrinks.  A replay
file holds one case and is judged by calling `run(case)` directly.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

from . import env


SLOW = float(os.environ.get('VH_SLOW', '0'))


class Violation(Exception):
    "The case contradicts the property."


class Inconclusive(Exception):
    "The oracle cannot judge this case (bounds of the reference exceeded, ...)."


class CaseTimeout(BaseException):
    "The case ran past its wall-clock limit: inconclusive, never a violation."


class Info:
    def __init__(self, nontrivial=False, labels=()):
        self.nontrivial = bool(nontrivial)
        self.labels = [str(x) for x in labels]


class Check:
    def __init__(self, name, strategy, run, quick, thorough=None, shards=8,
                 case_timeout=20, work_limit=None):
        self.name = name
        self.strategy = strategy        # a Hypothesis strategy, or a function returning one
        self.run = run
        self.quick = quick              # examples per run (summed over the shards)
        self.thorough = thorough if thorough is not None else quick * 12
        self.shards = shards
        self.case_timeout = case_timeout
        self.work_limit = work_limit


def dumps(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=False)


def digest(x):
    return hashlib.sha1(dumps(x).encode()).hexdigest()[:16]


def require(cond, msg='', *args):
    if not cond:
        raise Violation(msg % args if args else (msg() if callable(msg) else msg))


# ---------------------------------------------------------------------------
# judging one case

def _alarm(signum, frame):
    raise CaseTimeout()


def _in_repo(tb):
    "Does the traceback pass through the code under test?"
    root = os.path.join(env.REPO, 'dyna') + os.sep
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def judge(check, case):
    """Run one case.  Returns (verdict, payload): 'ok' Info, 'violation' message,
    'inconclusive' reason, or 'error' traceback (a defect of the harness)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, check.case_timeout, 0.5)   # again, should a finaliser swallow it
    try:
        try:
            info = check.run(case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return 'ok', (info or Info())
    except Violation as e:
        return 'violation', str(e)
    except Inconclusive as e:
        return 'inconclusive', str(e) or 'inconclusive'
    except CaseTimeout:
        return _count_work(check, case)
    except MemoryError:
        return 'inconclusive', 'memory'
    except RecursionError as e:
        if _in_repo(e.__traceback__):    # inputs are tiny: the code under test recurses forever
            return 'violation', 'RecursionError: unbounded recursion in the code under test'
        return 'inconclusive', 'recursion limit'
    except Exception as e:                           # noqa: BLE001
        tb = traceback.format_exc(limit=-8)
        if _in_repo(e.__traceback__):
            # a valid input made the code under test raise
            return 'violation', f'unexpected {type(e).__name__}: {e}\n{tb}'
        return 'error', tb
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class WorkExceeded(BaseException):
    pass


def _count_work(check, case):
    """The case ran past its wall-clock limit.  Wall-clock time is no oracle, so
    where the property includes termination (`check.work_limit`) run it again
    counting the Python calls made, which does not depend on the machine."""
    if not check.work_limit:
        return 'inconclusive', 'case timeout'
    count = 0
    limit = check.work_limit

    def prof(frame, event, arg):
        nonlocal count
        if event == 'call':
            count += 1
            if count > limit:
                sys.setprofile(None)
                raise WorkExceeded()
    signal.setitimer(signal.ITIMER_REAL, 120, 0.5)
    sys.setprofile(prof)
    try:
        check.run(case)
    except WorkExceeded:
        return 'violation', f'no answer within {limit} calls (this input needs a few thousand)'
    except BaseException:                            # noqa: BLE001
        pass
    finally:
        sys.setprofile(None)
        signal.setitimer(signal.ITIMER_REAL, 0)
    return 'inconclusive', 'case timeout'


# ---------------------------------------------------------------------------
# one shard

class _Found(Exception):
    pass


class _HarnessError(Exception):
    pass


def run_shard(args):
    modname, check_name, shard, n, seed, deadline, max_shrink = args
    try:
        return _run_shard(modname, check_name, shard, n, seed, deadline, max_shrink)
    except BaseException:                            # noqa: BLE001
        return {'check': check_name, 'shard': shard, 'error': traceback.format_exc(),
                'evaluations': 0, 'digests': [], 'samples': [], 'labels': {},
                'inconclusive': {}, 'skipped': 0, 'failures': []}


def load(modname):
    import importlib
    env.setup()
    m = importlib.import_module(f'vh.props.{modname}')
    return m, {c.name: c for c in m.CHECKS}


def _run_shard(modname, check_name, shard, n, seed, deadline, max_shrink):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    _, checks = load(modname)
    check = checks[check_name]
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = max_shrink

    out = {'check': check_name, 'shard': shard, 'error': None, 'evaluations': 0,
           'digests': set(), 'samples': [], 'labels': {}, 'inconclusive': {},
           'skipped': 0, 'failures': []}
    strat = check.strategy() if callable(check.strategy) else check.strategy
    state = {'first_fail': None}

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False,
              suppress_health_check=list(HealthCheck), print_blob=False,
              phases=[Phase.generate, Phase.shrink],
              verbosity=hypothesis.Verbosity.quiet, report_multiple_bugs=False)
    @given(strat)
    def test(case):
        now = time.time()
        if state['first_fail'] is None:
            if now > deadline:
                out['skipped'] += 1
                return
        elif now > state['first_fail'] + max_shrink:
            return
        verdict, payload = judge(check, case)
        if SLOW and time.time() - now > SLOW:
            print(f'SLOW {time.time() - now:.1f}s {check_name} {verdict}: {dumps(case)}', file=sys.stderr, flush=True)
        if verdict == 'violation':
            if state['first_fail'] is None:
                state['first_fail'] = time.time()
            out['failures'].append((len(dumps(case)), json.loads(dumps(case)), payload))
            raise _Found()
        if verdict == 'error':
            raise _HarnessError(dumps(case) + '\n' + payload)
        if state['first_fail'] is not None:
            return
        out['evaluations'] += 1
        if verdict == 'inconclusive':
            key = payload.split('\n')[0][:80]
            out['inconclusive'][key] = out['inconclusive'].get(key, 0) + 1
            return
        for l in payload.labels:
            out['labels'][l] = out['labels'].get(l, 0) + 1
        if payload.nontrivial:
            d = digest(case)
            if d not in out['digests']:
                out['digests'].add(d)
                k = len(out['digests'])
                if k in (1, 7, 40):
                    out['samples'].append(json.loads(dumps(case)))

    try:
        test()
    except _HarnessError as e:
        out['error'] = str(e)
    except BaseException as e:                       # noqa: BLE001
        if isinstance(e, KeyboardInterrupt):
            raise
        if not out['failures']:
            out['error'] = traceback.format_exc()
    out['failures'].sort(key=lambda x: x[0])
    out['failures'] = out['failures'][:6]
    out['digests'] = sorted(out['digests'])
    return out


# ---------------------------------------------------------------------------
# confirming a failure: judge the bare case in a fresh process

def confirm(modname, check_name, case, tries=3):
    import subprocess
    import tempfile
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        f.write(dumps({'check': check_name, 'case': case}))
    try:
        for _ in range(tries):
            r = subprocess.run([sys.executable, '-m', 'vh.main', 'judge', modname, f.name],
                               cwd=env.VERIF, capture_output=True, text=True, timeout=300)
            last = r.stdout.strip().split('\n')[-1] if r.stdout.strip() else ''
            if last.startswith('{'):
                v = json.loads(last)
                if v['verdict'] == 'violation':
                    return v['payload']
    except subprocess.TimeoutExpired:
        return None
    finally:
        os.unlink(f.name)
    return None
