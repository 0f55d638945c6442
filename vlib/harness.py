"""Search harness: seeded Hypothesis generation, sharding, shrinking, replay.

A property module (checks/cNN.py) registers sub-checks.  A sub-check is a
Hypothesis strategy producing a JSON-able *case* and a function `run(case)`
which executes the case against the real code and raises `Violation` (through
`fail`/`same`/...) when the oracle disagrees.  `run` returns an optional dict:
    {'nontrivial': bool, 'labels': [..]}
Every case passes through JSON before it runs, so that a saved replay file is
exactly what the search executed.
"""

import concurrent.futures
import hashlib
import json
import math
import multiprocessing
import os
import signal
import sys
import time
import traceback

from vlib import py2load

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.realpath(py2load.SRC)
N_SHARDS = 8


class Violation(Exception):
    """The oracle disagrees with the code under test."""


class CaseTimeout(Exception):
    """The code under test did not finish."""


class StopSearch(BaseException):
    """Ends a Hypothesis run at once (used for cases which hang)."""


class HarnessError(Exception):
    pass


# --------------------------------------------------------------------------
# Oracle helpers.

def fail(fmt, *args):
    raise Violation(fmt % args if args else fmt)


def isclose(a, b, rtol=1e-7, atol=1e-8):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def same(what, got, want, rtol=1e-7, atol=1e-8):
    try:
        ok = isclose(got, want, rtol, atol)
    except (TypeError, ValueError):
        ok = False
    if not ok:
        fail('%s: got %r, expected %r', what, got, want)


def equal(what, got, want):
    try:
        ok = bool(got == want)
    except ValueError:
        import numpy as np
        ok = bool(np.array_equal(got, want))
    if not ok:
        fail('%s: got %r, expected %r', what, got, want)


def check(cond, fmt, *args):
    if not cond:
        fail(fmt, *args)


def raises(what, exceptions, f):
    """f must raise one of the exceptions."""
    try:
        r = f()
    except exceptions:
        return
    except Exception as e:
        fail('%s: raised %s(%s) instead of being rejected with %s',
            what, type(e).__name__, e, exceptions)
    fail('%s: was accepted (returned %r)', what, r)


def _hypothesis():
    path = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    if path not in sys.path:
        sys.path.append(path)
    import hypothesis
    return hypothesis


_hypothesis()
from hypothesis import strategies as hs  # noqa: E402,F401


# --------------------------------------------------------------------------
# Registration.

class Sub(object):
    def __init__(self, name, strategy, run, quick, thorough, timeout,
            wall=False, shards=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough
        self.timeout, self.wall = timeout, wall
        self.shards = shards


class Property(object):
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule = pid, rule
        self.assumptions = list(assumptions)
        self.subs = []
        self.probes = []

    def sub(self, name, strategy, quick, thorough=None, timeout=60.,
            wall=False, shards=None):
        """Register a generated check.  quick/thorough: number of cases."""
        def decorate(run):
            self.subs.append(Sub(name, strategy, run, quick,
                thorough or 20 * quick, timeout, wall, shards))
            return run
        return decorate

    def probe(self, key):
        """Register a reproduction of one specific finding."""
        def decorate(run):
            self.probes.append((key, run))
            return run
        return decorate


# --------------------------------------------------------------------------
# Running one case.

def _through_json(case):
    return json.loads(json.dumps(case))


def _alarm(_signum, _frame):
    raise CaseTimeout('case exceeded its time limit')


class _limit(object):
    """CPU-time (or wall-clock) limit around one case."""
    def __init__(self, seconds, wall):
        self.seconds = seconds
        self.timer, self.signal = (signal.ITIMER_REAL, signal.SIGALRM) \
            if wall else (signal.ITIMER_VIRTUAL, signal.SIGVTALRM)

    def __enter__(self):
        self.old = signal.signal(self.signal, _alarm)
        signal.setitimer(self.timer, self.seconds)

    def __exit__(self, *args):
        signal.setitimer(self.timer, 0)
        signal.signal(self.signal, self.old)


def _frames(e):
    return [f.filename for f in traceback.extract_tb(e.__traceback__)]


def blame(e):
    """Is this exception a violation by the code under test?

    Violations and anything that escapes from a frame of the code under test
    are.  An import or attribute error raised in the harness itself means the
    harness no longer fits the code, which is no verdict.
    """
    if isinstance(e, (Violation, CaseTimeout)):
        return True
    if isinstance(e, (HarnessError, MemoryError)):
        return False
    frames = [os.path.realpath(f) for f in _frames(e)]
    if any(f.startswith(SRC + os.sep) for f in frames):
        return True
    if isinstance(e, (ImportError, NameError)):
        return False
    if isinstance(e, AttributeError):
        # An attribute of a *result* is the code's doing; one of a cgpm module
        # or object that the harness expected is not.
        obj = getattr(e, 'obj', None)
        mod = getattr(type(obj), '__module__', '') or ''
        if mod.startswith('cgpm') or type(obj).__name__ == 'module' \
                or (isinstance(obj, type) and obj.__module__.startswith(
                    'cgpm')):
            return False
        return True
    return isinstance(e, (TypeError, ValueError, KeyError, IndexError,
        AssertionError, ArithmeticError, AttributeError))


def run_case(sub, case):
    """Returns (info, error): error is None or an exception."""
    import io
    import contextlib
    case = _through_json(case)
    sink = io.StringIO()
    try:
        with _limit(sub.timeout, sub.wall), contextlib.redirect_stdout(sink):
            info = sub.run(case)
        return info or {}, None
    except Exception as e:
        return {}, e


def describe(e):
    text = '%s: %s' % (type(e).__name__, e)
    if not isinstance(e, Violation):
        tb = traceback.extract_tb(e.__traceback__)[-3:]
        text += ' [' + ' < '.join('%s:%s %s' % (
            os.path.basename(f.filename), f.lineno, f.name)
            for f in reversed(tb)) + ']'
    return text[:2000]


# --------------------------------------------------------------------------
# Searching.

# Development: stop at the first failure, without shrinking it.
FAIL_FAST = bool(os.environ.get('VERIF_FAIL_FAST'))
_STOP = multiprocessing.Value('b', 0) if FAIL_FAST else None

# When the first failure was found; the other searches go on for a minute.
_FIRST = multiprocessing.Value('d', 0.)
GRACE = 60.


def _over(deadline):
    now = time.time()
    return now > deadline or 0 < _FIRST.value < now - GRACE


def _shard(args):
    prop, index, shard, n, seed, deadline, shrink_s = args
    sub = prop.subs[index]
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import hypothesis
    from hypothesis import Phase, HealthCheck, Verbosity
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = shrink_s

    stats = {'sub': sub.name, 'shard': shard, 'evaluations': 0, 'keys': set(),
        'labels': {}, 'samples': [], 'failure': None, 'error': None,
        'skipped': 0}
    found = {}

    def body(case):
        if not found and (_over(deadline) or FAIL_FAST and _STOP.value):
            stats['skipped'] += 1
            return
        text = json.dumps(case, sort_keys=True)
        info, e = run_case(sub, case)
        if not found:
            stats['evaluations'] += 1
            if info.get('nontrivial', True) and e is None:
                key = hashlib.blake2b(
                    (sub.name + text).encode(), digest_size=12).digest()
                stats['keys'].add(key)
                if len(stats['samples']) < 1 and len(text) < 1500:
                    stats['samples'].append(json.loads(text))
            for label in info.get('labels', ()):
                stats['labels'][label] = stats['labels'].get(label, 0) + 1
        if e is None:
            return
        found['case'], found['error'] = json.loads(text), e
        if blame(e) and not _FIRST.value:
            _FIRST.value = time.time()
        if FAIL_FAST:
            _STOP.value = 1
            raise StopSearch()
        if isinstance(e, CaseTimeout) or not blame(e):
            raise StopSearch()
        raise e

    seed = (seed * 1000003 + shard * 7919 + index * 104729) % (2**63)
    test = hypothesis.given(sub.strategy)(body)
    test = hypothesis.settings(
        max_examples=n, database=None, deadline=None, print_blob=False,
        verbosity=Verbosity.quiet, report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck))(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except StopSearch:
        pass
    except BaseException as e:
        if not found:
            if isinstance(e, KeyboardInterrupt):
                raise
            stats['error'] = 'search failed: ' + describe(e) + '\n' + \
                traceback.format_exc()[-3000:]
    if found:
        e = found['error']
        # A failure counts when it reproduces from its saved case.
        if isinstance(e, CaseTimeout):
            again = e
        else:
            _info, again = run_case(sub, found['case'])
        if again is None:
            stats['error'] = 'not reproducible: %s on %s' % (
                describe(e), json.dumps(found['case'])[:2000])
        elif not blame(again):
            stats['error'] = describe(again) + '\n' + ''.join(
                traceback.format_exception(again))[-3000:]
        else:
            stats['failure'] = {
                'case': found['case'], 'message': describe(again)}
    return stats


def _known(pid):
    """Findings recorded in the committed known-findings file."""
    path = os.path.join(ROOT, 'known_findings.json')
    with open(path) as f:
        entries = json.load(f)
    return {e['key']: e for e in entries['findings'] if e['property'] == pid}


def _write_replay(prop, name, failure, seed, tier):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop.pid, name))
    with open(path, 'w') as f:
        json.dump({'property': prop.pid, 'sub': name, 'seed': seed,
            'tier': tier, 'message': failure['message'],
            'case': failure['case']}, f, indent=1)
    return path


def run_property(prop, tier, seed, jobs=None, budget=None, only=None):
    t0 = time.time()
    _hypothesis()
    import hypothesis  # noqa: load before forking
    jobs = jobs or min(N_SHARDS, os.cpu_count() or 1)
    if budget is None:
        budget = 420. if tier == 'quick' else 3000.
    deadline = t0 + budget
    shrink_s = 25 if tier == 'quick' else 120
    tasks = []
    for index, sub in enumerate(prop.subs):
        if only and sub.name not in only:
            continue
        n = sub.quick if tier == 'quick' else sub.thorough
        shards = min(sub.shards or N_SHARDS, n)
        for s in range(shards):
            per = n // shards + (1 if s < n % shards else 0)
            tasks.append((prop, index, s, per, seed, deadline, shrink_s))
    results, failures, errors, findings = [], [], [], []

    # Probes of recorded findings.
    known = _known(prop.pid)
    for key, probe in prop.probes:
        if only:
            continue
        sub = Sub('probe:' + key, None, lambda case: probe(), 1, 1, 60.)
        _info, e = run_case(sub, None)
        if e is None:
            continue
        if not blame(e):
            errors.append('probe %s: %s' % (key, describe(e)))
        elif key in known:
            findings.append((key, known[key]['what']))
        else:
            failures.append(('probe-' + key, {'case': None,
                'message': describe(e)}))

    global _TASKS
    _TASKS = tasks
    ctx = multiprocessing.get_context('fork')
    with concurrent.futures.ProcessPoolExecutor(
            jobs, mp_context=ctx) as pool:
        futures = [pool.submit(_run_task, i) for i in range(len(tasks))]
        for future in futures:
            try:
                results.append(future.result())
            except Exception as e:
                errors.append('worker died: %r' % (e,))

    per_sub, keys, samples = {}, set(), []
    for r in results:
        d = per_sub.setdefault(r['sub'], {'evaluations': 0,
            'distinct_nontrivial': 0, 'skipped_out_of_time': 0,
            'labels': {}, '_keys': set()})
        d['evaluations'] += r['evaluations']
        d['skipped_out_of_time'] += r['skipped']
        d['_keys'] |= r['keys']
        for k, v in r['labels'].items():
            d['labels'][k] = d['labels'].get(k, 0) + v
        keys |= r['keys']
        if r['shard'] == 0:
            samples.extend({'sub': r['sub'], 'case': c}
                for c in r['samples'])
        if r['error']:
            errors.append('%s: %s' % (r['sub'], r['error']))
        if r['failure']:
            failures.append((r['sub'], r['failure']))
    for d in per_sub.values():
        d['distinct_nontrivial'] = len(d.pop('_keys'))

    # One violation per sub-check, the smallest case.
    smallest = {}
    for name, failure in failures:
        size = len(json.dumps(failure['case']))
        if name not in smallest or size < smallest[name][0]:
            smallest[name] = (size, failure)

    evidence = {
        'property': prop.pid, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(d['evaluations'] for d in per_sub.values()),
            'distinct_nontrivial': len(keys),
            'rule': prop.rule,
            'samples': samples[:40],
            'by_check': per_sub,
            'known_findings_reproduced': [k for k, _w in findings],
        },
        'assumptions': prop.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(smallest),
    }
    if not only:
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, prop.pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)

    for key, what in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop.pid, what))
    for name, d in sorted(per_sub.items()):
        print('%s %-34s cases=%d nontrivial=%d%s' % (prop.pid, name,
            d['evaluations'], d['distinct_nontrivial'],
            ' skipped=%d' % d['skipped_out_of_time']
            if d['skipped_out_of_time'] else ''))
    for name, (_size, failure) in sorted(smallest.items()):
        path = _write_replay(prop, name.replace(':', '-'), failure, seed, tier)
        print('  %s' % failure['message'])
        print('VIOLATION property=%s replay=%s' % (prop.pid, path))
    print('%s %s wall=%.1fs' % (prop.pid, tier, time.time() - t0))
    if smallest:
        for e in errors:
            print('note: %s' % e, file=sys.stderr)
        return 1
    if errors:
        for e in sorted(set(errors))[:4]:
            print('ERROR: %s' % e, file=sys.stderr)
        return 2
    return 0


_TASKS = []


def _run_task(i):
    return _shard(_TASKS[i])


def replay(prop, path):
    with open(path) as f:
        saved = json.load(f)
    name = saved['sub']
    if name.startswith('probe-'):
        run = dict(prop.probes)[name[len('probe-'):]]
        sub = Sub(name, None, lambda case: run(), 1, 1, 60.)
    else:
        sub = {s.name: s for s in prop.subs}[name]
    _info, e = run_case(sub, saved['case'])
    if e is None:
        print('%s: the saved case passes' % name)
        return 0
    print(describe(e))
    traceback.print_exception(e)
    if not blame(e):
        return 2
    print('VIOLATION property=%s replay=%s' % (prop.pid, path))
    return 1
