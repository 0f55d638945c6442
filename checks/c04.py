"""C04: samplers of the univariate models agree with their densities."""

import copy
import math

import numpy as np
import scipy.stats as st

from vlib import models, prims, stats
from checks import c01, c03
from vlib.harness import Property, check, equal, same, hs, fail

TECHNIQUE = ('property-based testing: generated models, sampled values '
    'against the reference predictive by two-stage goodness of fit')
NOTE = ('Random search with shrinking. A sampler is reported when a first '
    'sample is suspicious (p<2e-3) and a larger fresh one is wildly '
    'improbable (p<1e-8), so biases of less than a few percent in one '
    'outcome escape. Sample counts, observed rows and purity are exact.')
PROP = Property('C04',
    'Cases are (model, hyperparameters, data, seed, calling style). '
    'Non-trivial: at least one observation, or explicit parameters.',
    ['beta parameters with both shapes at least 0.4, so that samples do not '
     'round to 0 or 1', 'geometric hyperparameter a at least 0.5 (the '
     'smallest in its grids): below, samples exceed the integer range, which '
     'is a known finding', 'lognormal samples may round to 0 or infinity'])


@hs.composite
def case(draw, max_data=8, min_data=0):
    m = draw(prims.model(prims.ALL, max_data, min_data))
    if m['dist'] == 'beta':
        s, b = m['params']['strength'], m['params']['balance']
        m['params']['strength'] = max(s, .4 / min(b, 1 - b))
    if m['dist'] == 'geometric':
        m['hypers']['a'] = max(.5, m['hypers']['a'])
    m['output'] = draw(hs.integers(0, 9))
    m['seed'] = draw(hs.integers(0, 2**31 - 1))
    m['style'] = draw(hs.sampled_from(['keyword', 'positional', 'single']))
    m['rowid'] = draw(hs.sampled_from([-1, None, 1000]))
    return m


def sampler(g, m):
    """draw(n) in the calling style of the case."""
    out, r = m['output'], m['rowid']

    def draw(n):
        if m['style'] == 'keyword':
            rows = g.simulate(r, [out], N=n)
        elif m['style'] == 'positional':
            rows = g.simulate(r, [out], None, None, n)
        else:
            rows = [g.simulate(r, [out]) for _ in range(n)]
        check(type(rows) is list and len(rows) == n,
            '%s: %d samples requested, got %r', m['dist'], n,
            rows if not isinstance(rows, list) else len(rows))
        for row in rows:
            check(isinstance(row, dict) and list(row) == [out],
                '%s: sampled %r for target %d', m['dist'], row, out)
        return [row[out] for row in rows]
    return draw


def rounds(m, x):
    """The lognormal tails are wider than the range of floats."""
    return m['dist'] == 'lognormal' and (x == 0 or math.isinf(x) or x < 1e-300
        or x > 1e150)


def in_range(m, data=None):
    """Whether practically all samples are representable."""
    if m['dist'] != 'lognormal':
        return True
    F = prims.cdf('lognormal', m['hypers'], m['data'] if data is None else
        data)
    return F(1e300) - F(1e-300) > 1 - 1e-6


def table(m):
    """Outcome -> probability, without a tail of small mass."""
    d, data = m['dist'], m['data']
    p = lambda x: math.exp(prims.predictive(d, x, data, m['hypers'],
        m['distargs']))
    finite = prims.support_grid(d, m['hypers'], data, m['distargs'])
    if finite is not None:
        return {x: p(x) for x in finite}, False
    probs, total, x = {}, 0., 0
    while total < .9995 and x < 300:
        probs[x] = p(x)
        total += probs[x]
        x += 1
    return probs, True


@PROP.sub('distribution', case(), quick=1600)
def distribution(m):
    if not in_range(m):
        return {'nontrivial': False}
    g = prims.build(m, seed=m['seed'], outputs=[m['output']])
    draw = sampler(g, m)
    before = copy.deepcopy((dict(g.data), models.suffstats(g),
        g.get_hypers(), g.get_params()))
    what = '%s with %r given %r (%s)' % (m['dist'], m['hypers'] or
        m['params'], m['data'], m['style'])
    if m['dist'] in prims.DISCRETE:
        probs, tail = table(m)
        stats.discrete(what, draw, probs, 400, 8000, tail)
    else:
        stats.continuous(what, draw, prims.cdf(m['dist'], m['hypers'],
            m['data'], m['distargs'], m['params']), 400, 8000)
    for x in draw(100):
        check(rounds(m, x) or g.logpdf(-1, {m['output']: x}) > -float('inf'),
            '%s: sampled %r of zero density', m['dist'], x)
    equal('%s: state after sampling' % m['dist'], (dict(g.data),
        models.suffstats(g), g.get_hypers(), g.get_params()), before)
    return {'nontrivial': bool(m['data'] or m['params']),
        'labels': [m['dist'], m['style']]}


@PROP.sub('independence', case(5), quick=500)
def independence(m):
    """Consecutive samples, and a sample and its position, are independent."""
    if not in_range(m):
        return {'nontrivial': False}
    g = prims.build(m, seed=m['seed'], outputs=[m['output']])
    draw = sampler(g, m)

    def pairs(n):
        xs = draw(2 * n)
        return list(zip(xs[::2], xs[1::2]))
    stats.correlation('%s: consecutive samples' % m['dist'], pairs)
    stats.correlation('%s: sample and position' % m['dist'],
        lambda n: list(enumerate(draw(n))))

    if m['dist'] not in prims.DISCRETE:
        xs = draw(200)
        check(len(set(xs)) > 190, '%s: %d distinct values in 200 samples',
            m['dist'], len(set(xs)))
    return {'nontrivial': bool(m['data'] or m['params']),
        'labels': [m['dist'], m['style']]}


@hs.composite
def counts_case(draw):
    m = draw(case(6, 1))
    m['N'] = draw(hs.integers(0, 6))
    m['rowids'] = draw(hs.lists(hs.integers(0, 60), min_size=len(m['data']),
        max_size=len(m['data']), unique=True))
    return m


@PROP.sub('counts-and-observed-rows', counts_case(), quick=4000)
def counts(m):
    g = prims.build(m, seed=m['seed'], outputs=[m['output']],
        rowids=m['rowids'])
    out, d, N = m['output'], m['dist'], m['N']
    before = copy.deepcopy((dict(g.data), models.suffstats(g)))
    for r, x in zip(m['rowids'], m['data']):
        want = g.data[r]
        if d != 'beta':
            equal('%s: stored value of row %d' % (d, r), want, x)
        equal('%s: simulating observed row %d' % (d, r),
            g.simulate(r, [out]), {out: want})
        equal('%s: simulating observed row %d, N=%d' % (d, r, N),
            g.simulate(r, [out], N=N), [{out: want}] * N)
        equal('%s: simulating observed row %d, N=None' % (d, r),
            g.simulate(r, [out], None, None, None), {out: want})
    one = g.simulate(m['rowid'], [out])
    check(isinstance(one, dict) and list(one) == [out],
        '%s: single sample %r', d, one)
    one = g.simulate(m['rowid'], [out], N=None)
    check(isinstance(one, dict) and list(one) == [out],
        '%s: single sample with N=None %r', d, one)
    many = g.simulate(m['rowid'], [out], N=N)
    check(isinstance(many, list) and len(many) == N and
        all(list(s) == [out] for s in many), '%s: N=%d gave %r', d, N, many)
    many = g.simulate(m['rowid'], [out], None, None, N)
    check(isinstance(many, list) and len(many) == N and
        all(list(s) == [out] for s in many),
        '%s: N=%d (positional) gave %r', d, N, many)
    # The samples are separate dictionaries.
    if N > 1:
        many[0][out] = 'changed'
        check(many[1][out] != 'changed', '%s: samples share a dictionary', d)
    # A sample is in the support: it can be incorporated.
    x = one[out]
    if rounds(m, x):
        return {'nontrivial': False}
    check(g.logpdf(-1, {out: x}) > -float('inf'),
        '%s: sampled %r of zero density', d, x)
    g.incorporate(777, {out: x})
    equal('%s: simulating the row just added' % d, g.simulate(777, [out]),
        {out: g.data[777]})
    g.unincorporate(777)
    equal('%s: rows' % d, dict(g.data), before[0])
    return {'nontrivial': True, 'labels': [d, 'N=%d' % N]}


@hs.composite
def dim_case(draw):
    """Clusters of one column, sampled by cluster."""
    m = draw(case(10, 2))
    m['clusters'] = draw(hs.lists(hs.integers(0, 2),
        min_size=len(m['data']), max_size=len(m['data'])))
    m['query'] = draw(hs.integers(0, 3))
    return m


@PROP.sub('cluster-samplers', dim_case(), quick=600)
def dims(m):
    """A column samples from the cluster it is asked for."""
    from cgpm.mixtures.dim import Dim
    if m['dist'] in prims.UNCOLLAPSED:
        return {'nontrivial': False}
    out, k = m['output'], m['query']
    d = Dim([out], [-1], cctype=m['dist'], hypers=dict(m['hypers']),
        distargs=dict(m['distargs']), rng=np.random.RandomState(m['seed']))
    for r, (x, z) in enumerate(zip(m['data'], m['clusters'])):
        d.incorporate(r, {out: x}, {-1: z})
    mine = [x for x, z in zip(m['data'], m['clusters']) if z == k]
    sub = dict(m, data=mine)
    if not in_range(sub):
        return {'nontrivial': False}

    def draw(n):
        rows = d.simulate(m['rowid'], [out], None, {-1: k}, n)
        check(len(rows) == n and all(list(r) == [out] for r in rows),
            '%s: %d samples from a cluster: %r', m['dist'], n, rows[:3])
        return [r[out] for r in rows]
    what = '%s cluster %d of %r' % (m['dist'], k, m['clusters'])
    if m['dist'] in prims.DISCRETE:
        probs, tail = table(sub)
        stats.discrete(what, draw, probs, 300, 6000, tail)
    else:
        stats.continuous(what, draw, prims.cdf(m['dist'], m['hypers'],
            mine, m['distargs'], m['params']), 300, 6000)
    return {'nontrivial': len(set(m['clusters'])) > 1,
        'labels': [m['dist'], 'new' if k not in m['clusters'] else 'old']}


# --------------------------------------------------------------------------
# Large data and wide ranges; the draws of one call.

def binned(m, n_bins=10):
    """(outcome function, bin -> probability) for counts, by quantiles."""
    d, h, data, n = m['dist'], m['hypers'], m['data'], len(m['data'])
    if d == 'poisson':
        ref = st.nbinom(h['a'] + sum(data), (h['b'] + n) / (h['b'] + n + 1.))
        sf = lambda x: float(ref.sf(x - 1))     # P(X >= x)
    else:
        a, b = h['a'] + n, h['b'] + sum(data)
        sf = lambda x: math.exp(c03.betaln(a, b + x) - c03.betaln(a, b))
    edges = [0]
    for k in range(1, n_bins):
        lo, hi = edges[-1], 1
        while sf(hi) > 1 - k / float(n_bins):
            hi *= 2
        while hi - lo > 1:
            mid = (lo + hi) // 2
            lo, hi = (mid, hi) if sf(mid) > 1 - k / float(n_bins) else (lo,
                mid)
        if hi > edges[-1]:
            edges.append(hi)
    at = [sf(x) for x in edges] + [0.]
    return (lambda x: int(np.searchsorted(edges, x, side='right') - 1),
        {i: at[i] - at[i + 1] for i in range(len(edges))})


@hs.composite
def bulk_case(draw):
    m = draw(c03.bulk_case())
    if m['dist'] == 'geometric':
        m['hypers']['a'] = max(.5, m['hypers']['a'])
    return dict(m, output=draw(hs.integers(0, 9)), rowid=-1,
        style=draw(hs.sampled_from(['keyword', 'single'])))


@PROP.sub('bulk', bulk_case(), quick=250)
def bulk(m):
    m = dict(m, data=c01.bulk_data(m))
    d = m['dist']
    if d in ('poisson', 'geometric') and m['n'] % 3 == 0:
        m['data'] = m['data'][:1 + m['n'] % 2]
    if d == 'vonmises' and m['hypers']['k'] > 5:
        m['data'] = [(m['data'][0] + .02 * (x - m['data'][0])) % (2 *
            math.pi) for x in m['data']]
    if not in_range(m):
        return {'nontrivial': False}
    draw = sampler(prims.build(m, seed=m['seed'], outputs=[m['output']]), m)
    what = '%s with %r given %d values of mean %.4g' % (d, m['hypers'],
        len(m['data']), np.mean(m['data']))
    if d in ('poisson', 'geometric'):
        to_bin, probs = binned(m)
        stats.discrete(what, lambda n: [to_bin(x) for x in draw(n)], probs,
            500, 8000)
    elif d in prims.DISCRETE:
        probs, tail = table(m)
        stats.discrete(what, draw, probs, 500, 8000, tail)
    else:
        stats.continuous(what, draw, prims.cdf(d, m['hypers'], m['data']),
            500, 8000)
    return {'nontrivial': m['n'] > 8, 'labels': [d]}


@hs.composite
def far_case(draw):
    """A few large counts."""
    d = draw(hs.sampled_from(['poisson', 'geometric']))
    data = draw(hs.lists(hs.integers(20, 3000), min_size=1, max_size=3))
    return {'dist': d, 'distargs': {}, 'params': {}, 'data': data,
        'hypers': {'a': draw(prims.positive(.5, 10.)),
            'b': draw(prims.positive(.05, 3.))},
        'output': draw(hs.integers(0, 9)), 'rowid': -1, 'style': 'keyword',
        'seed': draw(hs.integers(0, 2**31 - 1))}


@PROP.sub('large-counts', far_case(), quick=60)
def large_counts(m):
    draw = sampler(prims.build(m, seed=m['seed'], outputs=[m['output']]), m)
    to_bin, probs = binned(m, 16)
    stats.discrete('%s with %r given %r' % (m['dist'], m['hypers'],
        m['data']), lambda n: [to_bin(x) for x in draw(n)], probs, 600, 8000)
    return {'nontrivial': True, 'labels': [m['dist']]}


@hs.composite
def batch_case(draw):
    m = draw(case(6))
    m['style'] = 'keyword'
    m['N'] = draw(hs.sampled_from([2, 3, 8, 20, 50, 110]))
    return m


@PROP.sub('batches', batch_case(), quick=200)
def batches(m):
    """The draws of one call are as independent as those of many."""
    if not in_range(m):
        return {'nontrivial': False}
    g = prims.build(m, seed=m['seed'], outputs=[m['output']])
    draw = sampler(g, m)
    d, N = m['dist'], m['N']
    if d in prims.DISCRETE:
        probs, _ = table(m)
        mode = max(sorted(probs), key=lambda x: probs[x])
        prob, event = probs[mode], lambda x: x == mode
    else:
        F = prims.cdf(d, m['hypers'], m['data'], m['distargs'], m['params'])
        med = sorted(draw(41))[20]
        prob, event = float(F(med)), lambda x: x <= med
    if not .02 < prob < .98:
        return {'nontrivial': False}
    stats.dispersion('%s with %r given %r' % (d, m['hypers'] or m['params'],
        m['data']), lambda: sum(map(event, draw(N))), prob, N)
    return {'nontrivial': N >= 8, 'labels': [d, 'N=%d' % N]}


@PROP.probe('geometric-overflow')
def geometric_overflow():
    """With a tiny success probability the draw wraps around."""
    from cgpm.primitives.geometric import Geometric
    g = Geometric([0], [], hypers={'a': .05, 'b': .05},
        rng=np.random.RandomState(0))
    for s in g.simulate(-1, [0], N=200):
        check(g.logpdf(-1, s) > -float('inf'),
            'geometric(a=.05, b=.05): sampled %r of zero density', s[0])
