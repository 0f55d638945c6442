"""C19: parallel_map returns what the serial map returns."""

import gc
import multiprocessing
import os
import shutil
import tempfile
import time

import numpy as np

from vlib.harness import Property, check, equal, hs, fail

TECHNIQUE = ('property-based testing with injected faults and delays: '
    'generated lists, worker counts, per-item delays, result sizes and '
    'failures against the serial map, with a process and descriptor census')
NOTE = ('Random search with shrinking; the schedule of the workers is '
    'perturbed by generated delays. Every item reports its execution through '
    'an append-only file in a scratch directory.')
PROP = Property('C19',
    'Cases are lists of items (0-30) with delays, result kinds and failures, '
    'and a number of workers. Non-trivial: at least two workers and two '
    'items.',
    ['workers are not killed from outside'])

from cgpm.utils.parallel_map import parallel_map

KINDS = ['int', 'none', 'float', 'list', 'array', 'big', 'exception', 'dict',
    'nan', 'tuple', 'state']
FAULTS = ['ValueError', 'KeyError', 'Custom', 'Unpicklable', 'SystemExit',
    'generator', 'lambda', 'assert', 'unicode', 'long', 'StopIteration',
    'nested']


class Custom(Exception):
    def __init__(self, a, b):
        super(Custom, self).__init__('%s-%s' % (a, b))


class Unpicklable(Exception):
    def __init__(self, x):
        super(Unpicklable, self).__init__(x)
        self.f = lambda: None


def result(kind, i):
    if kind == 'int':
        return i * 7 - 3
    if kind == 'none':
        return None
    if kind == 'float':
        return i / 3.
    if kind == 'list':
        return [i, [i + 1, {'a': i}]]
    if kind == 'array':
        return np.arange(i + 1) * .5
    if kind == 'big':
        return bytes(bytearray([i % 251])) * 200000
    if kind == 'exception':
        return ValueError('a value, not a failure %d' % i)
    if kind == 'dict':
        return {i: 'x' * i, 'rng': i}
    if kind == 'nan':
        return float('nan')
    if kind == 'tuple':
        return (i, False, 'text')
    return np.random.RandomState(i)


def key(x):
    if isinstance(x, np.random.RandomState):
        return ('rng', x.get_state()[1].tobytes())
    return (type(x).__name__, repr(x))


def misbehave(fault, i):
    if fault == 'ValueError':
        raise ValueError('item-%d went wrong' % i)
    if fault == 'KeyError':
        return {}['item-%d went wrong' % i]
    if fault == 'Custom':
        raise Custom('item', '%d went wrong' % i)
    if fault == 'Unpicklable':
        raise Unpicklable('item-%d went wrong' % i)
    if fault == 'SystemExit':
        raise SystemExit('item-%d went wrong' % i)
    if fault == 'assert':
        assert False, 'item-%d went wrong' % i
    if fault == 'unicode':
        raise ValueError(u'item-%d went wrong \u2603' % i)
    if fault == 'long':
        raise ValueError('item-%d went wrong ' % i + 'x' * 100000)
    if fault == 'StopIteration':
        raise StopIteration('item-%d went wrong' % i)
    if fault == 'nested':
        return parallel_map(lambda j: misbehave('ValueError', i), [0, 1], 2)
    # Results which cannot be sent.
    if fault == 'generator':
        return (j for j in range(3))
    return lambda: None


@hs.composite
def case(draw, faulty):
    n = draw(hs.one_of(hs.integers(0, 8), hs.integers(0, 30)))
    if faulty:
        n = max(n, 1)
    items = [[draw(hs.sampled_from(KINDS)), draw(hs.sampled_from(
        [0, 0, 0, 0, 1, 5, 12]))] for _ in range(n)]
    faults = {}
    if faulty:
        for i in draw(hs.lists(hs.integers(0, n - 1), min_size=1, max_size=3,
                unique=True)):
            faults[str(i)] = draw(hs.sampled_from(FAULTS))
    return {'items': items, 'faults': faults,
        'workers': draw(hs.sampled_from([1, 2, 3, 4, 8, 13, None])),
        'as': draw(hs.sampled_from(['list', 'tuple', 'range'])),
        'again': draw(hs.booleans())}


def descriptors():
    gc.collect()
    return sorted(os.listdir('/proc/self/fd'))


def children():
    """Live children of this process, reaping finished ones."""
    multiprocessing.active_children()
    out, me = [], os.getpid()
    for p in os.listdir('/proc'):
        if not p.isdigit():
            continue
        try:
            with open('/proc/%s/stat' % p) as f:
                s = f.read().rsplit(')', 1)[1].split()
        except (OSError, IOError, IndexError):
            continue
        if int(s[1]) == me and s[0] != 'Z':
            out.append(int(p))
    return set(out)


def settle(what, fds, kids):
    end = time.time() + 10
    while time.time() < end:
        left = children() - kids
        if not left and len(descriptors()) <= fds:
            return
        time.sleep(.02)
    left = children() - kids
    check(not left, '%s left the worker processes %r behind', what, left)
    fail('%s: %d open descriptors, %d before', what, len(descriptors()), fds)


def call(c, scratch):
    """(result, error text, log)."""
    log = os.path.join(scratch, 'log')
    open(log, 'w').close()
    n = len(c['items'])

    def f(x):
        i = x if isinstance(x, int) else x[0]
        fd = os.open(log, os.O_WRONLY | os.O_APPEND)
        os.write(fd, ('%d %d\n' % (i, os.getpid())).encode())
        os.close(fd)
        kind, delay = c['items'][i]
        if delay:
            time.sleep(delay / 1000.)
        if isinstance(x, list):
            x[1] = 'changed'
        if str(i) in c['faults']:
            return misbehave(c['faults'][str(i)], i)
        return result(kind, i)
    items = {'list': [[i, 'kept'] for i in range(n)],
        'tuple': tuple((i, 'kept') for i in range(n)),
        'range': range(n)}[c['as']]
    kw = {} if c['workers'] is None else {'parallelism': c['workers']}
    got, error = None, None
    try:
        got = parallel_map(f, items, **kw)
    except Exception as e:
        error = '%s: %s' % (type(e).__name__, e)
    if c['as'] == 'list':
        check(items == [[i, 'kept'] for i in range(n)], 'items given to '
            'parallel_map changed')
    with open(log) as g:
        lines = [tuple(map(int, l.split())) for l in g]
    return got, error, lines


def run(c):
    scratch = tempfile.mkdtemp(prefix='c19-')
    try:
        kids, fds = children(), len(descriptors())
        n = len(c['items'])
        what = 'parallel_map over %d items with %s workers' % (n,
            c['workers'])
        for round_ in range(2 if c['again'] else 1):
            got, error, log = call(c, scratch)
            ran = [i for i, _ in log]
            check(len(set(ran)) == len(ran), '%s ran items more than once: '
                '%r', what, sorted(ran))
            workers = c['workers'] or multiprocessing.cpu_count()
            check(len(set(p for _, p in log)) <= workers, '%s used %d '
                'processes', what, len(set(p for _, p in log)))
            if not c['faults']:
                check(error is None, '%s raised %s', what, error)
                check(isinstance(got, list) and len(got) == n,
                    '%s returned %r', what, type(got))
                equal('results of ' + what, [key(x) for x in got],
                    [key(result(k, i)) for i, (k, _) in
                        enumerate(c['items'])])
                equal('items run by ' + what, sorted(ran), list(range(n)))
            else:
                check(error is not None, '%s did not raise although items %r '
                    'failed', what, c['faults'])
                check(error.startswith('RuntimeError') and 'Traceback' in
                    error, '%s raised %s', what, error[:300])
                good = any(('item-%s went wrong' % i in error) if f not in (
                    'generator', 'lambda') else 'Error' in error
                    for i, f in c['faults'].items())
                check(good, '%s raised %s, failing items were %r', what,
                    error[-400:], c['faults'])
            settle(what, fds, kids)
        # The next call is unaffected.
        equal('a following parallel_map', parallel_map(lambda x: x + 1,
            [1, 2, 3], 2), [2, 3, 4])
        settle('a following parallel_map', fds, kids)
    finally:
        shutil.rmtree(scratch)
    return {'nontrivial': n >= 2 and c['workers'] != 1,
        'labels': sorted(set(c['faults'].values()))}


PROP.sub('results', case(False), quick=700, wall=True, timeout=60.)(run)
PROP.sub('failures', case(True), quick=700, wall=True, timeout=60.)(run)


@hs.composite
def bulk(draw):
    return {'n': draw(hs.integers(0, 600)), 'workers': draw(hs.sampled_from(
        [1, 2, 5, 8, None])), 'a': draw(hs.integers(-5, 5)),
        'b': draw(hs.integers(-5, 5))}


@PROP.sub('long-lists', bulk(), quick=120, wall=True, timeout=60.)
def long_lists(c):
    f = lambda x: [x, x * c['a'] + c['b']]
    xs = list(range(c['n']))
    kids, fds = children(), len(descriptors())
    kw = {} if c['workers'] is None else {'parallelism': c['workers']}
    equal('parallel_map over %d items' % c['n'], parallel_map(f, xs, **kw),
        [f(x) for x in xs])
    settle('parallel_map over %d items' % c['n'], fds, kids)
    return {'nontrivial': c['n'] > 20}
