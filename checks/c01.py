"""C01: chain rule and conjugate reference for the collapsed models."""

import numpy as np

from vlib import prims
from vlib.harness import Property, check, same, hs, fail

TECHNIQUE = ('property-based testing: generated models and datasets against '
    'an independent conjugate-prior reference and the chain rule')
NOTE = ('Random search with shrinking; every case compares score, predictive '
    'and hyperparameter updates with closed forms coded separately '
    '(vlib/prims.py). Trusts that reference and the Python 2 loader.')

PROP = Property('C01',
    'Cases are (model, hyperparameters, in-support data up to 8-25 values, '
    'a permutation, row identifiers, query values). A case is non-trivial '
    'when at least two observations are incorporated.',
    ['hyperparameters in [0.05, 30], data of moderate magnitude (<= 100): '
     'the closed-form update of the normal model loses precision beyond'])


@hs.composite
def case(draw, max_data=8, min_data=0):
    m = draw(prims.model(prims.COLLAPSED, max_data, min_data))
    n = len(m['data'])
    m['perm'] = draw(hs.permutations(list(range(n))))
    m['rowids'] = draw(hs.lists(hs.integers(0, 60), min_size=n, max_size=n,
        unique=True))
    m['queries'] = draw(hs.lists(prims.value_of(m['dist'], m['distargs']),
        min_size=1, max_size=4))
    m['output'] = draw(hs.integers(0, 9))
    return m


def _tol(m):
    return dict(rtol=1e-7, atol=1e-7)


@PROP.sub('chain-rule', case(), quick=6000)
def chain_rule(m):
    out = m['output']
    g = prims.build(m, outputs=[out], fill=False)
    total = 0.
    same('%s score of no data' % m['dist'], g.logpdf_score(), 0, atol=1e-9)
    for i, x in enumerate(m['data']):
        lp = g.logpdf(-1 - i, {out: x})
        ref = prims.predictive(m['dist'], x, m['data'][:i], m['hypers'],
            m['distargs'])
        same('%s predictive of x=%r after %r' % (m['dist'], x,
            m['data'][:i]), lp, ref, **_tol(m))
        total += lp
        g.incorporate(m['rowids'][i], {out: x})
        same('%s score after %r vs accumulated predictives' % (m['dist'],
            m['data'][:i+1]), g.logpdf_score(), total, **_tol(m))
    same('%s score' % m['dist'], g.logpdf_score(), prims.marginal(
        m['dist'], m['data'], m['hypers'], m['distargs']), **_tol(m))
    for x in m['queries']:
        same('%s predictive at %r' % (m['dist'], x), g.logpdf(-1, {out: x}),
            prims.predictive(m['dist'], x, m['data'], m['hypers'],
                m['distargs']), **_tol(m))
    return {'nontrivial': len(m['data']) >= 2, 'labels': [m['dist']]}


@PROP.sub('order-and-rowids', case(), quick=4000)
def order(m):
    """Neither the order nor the identifiers of the rows matter."""
    g = prims.build(m)
    m2 = dict(m, data=[m['data'][i] for i in m['perm']])
    h = prims.build(m2, rowids=m['rowids'])
    same('%s score under permutation' % m['dist'], g.logpdf_score(),
        h.logpdf_score(), **_tol(m))
    for x in m['queries']:
        same('%s predictive under permutation' % m['dist'],
            g.logpdf(-1, {0: x}), h.logpdf(-1, {0: x}), **_tol(m))
    return {'nontrivial': len(set(m['data'])) >= 2, 'labels': [m['dist']]}


@hs.composite
def tight_case(draw):
    """Normal data which lie close together, under matching scales."""
    n = draw(hs.integers(1, 8))
    centre = draw(hs.sampled_from([0., 1., -2., 3.5]))
    scale = draw(hs.sampled_from([1e-3, 1e-2, .03]))
    step = hs.integers(-30, 30).map(lambda k: centre + scale * k / 10.)
    return {'dist': 'normal', 'distargs': {}, 'params': {}, 'hypers': {
        'm': centre + scale * draw(hs.integers(-2, 2)),
        'r': draw(hs.sampled_from([.1, 1., 4.])),
        's': draw(hs.sampled_from([.05, 1., 4.])) * scale**2,
        'nu': draw(hs.sampled_from([1., 3., 8.]))},
        'data': draw(hs.lists(step, min_size=n, max_size=n)),
        'queries': draw(hs.lists(step, min_size=1, max_size=3)),
        'rowids': list(range(n)), 'output': 0}


@PROP.sub('close-data', tight_case(), quick=600)
def close_data(m):
    g = prims.build(m, fill=False)
    total = 0.
    for i, x in enumerate(m['data']):
        lp = g.logpdf(-1 - i, {0: x})
        same('predictive of %r after %r' % (x, m['data'][:i]), lp,
            prims.predictive('normal', x, m['data'][:i], m['hypers'], {}),
            1e-5, 1e-5)
        total += lp
        g.incorporate(i, {0: x})
        same('score of %r' % (m['data'][:i + 1],), g.logpdf_score(), total,
            1e-5, 1e-5)
    for x in m['queries']:
        same('predictive of %r after %r' % (x, m['data']), g.logpdf(-1, {
            0: x}), prims.predictive('normal', x, m['data'], m['hypers'],
            {}), 1e-5, 1e-5)
    return {'nontrivial': len(set(m['data'])) >= 2}


@PROP.sub('long-histories', case(25, 10), quick=1500)
def long_histories(m):
    """Larger data, and scores are not disturbed by queries in between."""
    g = prims.build(m, fill=False)
    for i, x in enumerate(m['data']):
        g.incorporate(m['rowids'][i], {0: x})
        for q in m['queries']:
            g.logpdf(-1, {0: q})
    same('%s score' % m['dist'], g.logpdf_score(), prims.marginal(
        m['dist'], m['data'], m['hypers'], m['distargs']), **_tol(m))
    return {'nontrivial': len(m['data']) >= 10, 'labels': [m['dist']]}


@hs.composite
def hyper_case(draw):
    m = draw(case())
    m['hypers2'] = draw(prims.hypers_of(m['dist']))
    return m


@PROP.sub('set-hypers', hyper_case(), quick=2000)
def set_hypers(m):
    """After set_hypers the model answers as one built with those hypers."""
    g = prims.build(m)
    g.set_hypers(dict(m['hypers2']))
    got = g.get_hypers()
    check(all(got[h] == m['hypers2'][h] for h in m['hypers2']),
        '%s get_hypers after set_hypers: %r', m['dist'], got)
    same('%s score after set_hypers' % m['dist'], g.logpdf_score(),
        prims.marginal(m['dist'], m['data'], m['hypers2'], m['distargs']),
        **_tol(m))
    for x in m['queries']:
        same('%s predictive after set_hypers' % m['dist'],
            g.logpdf(-1, {0: x}), prims.predictive(m['dist'], x, m['data'],
                m['hypers2'], m['distargs']), **_tol(m))
    return {'nontrivial': len(m['data']) >= 1 and m['hypers'] != m['hypers2'],
        'labels': [m['dist']]}


# --------------------------------------------------------------------------
# Beyond the sizes above.

@hs.composite
def bulk_case(draw, min_n=30, max_n=400):
    dist = draw(hs.sampled_from(prims.COLLAPSED))
    return {'dist': dist, 'distargs': {'k': draw(hs.integers(2, 90))} if dist
        == 'categorical' else draw(prims.distargs_of(dist)),
        'hypers': draw(prims.hypers_of(dist)), 'params': {},
        'n': draw(hs.integers(min_n, max_n)),
        'spread': draw(hs.sampled_from([1, 1, 10, 50])),
        'seed': draw(hs.integers(0, 2**31 - 1))}


def bulk_data(m):
    rng = np.random.RandomState(m['seed'])
    n, w = m['n'], m['spread']
    d = m['dist']
    if d == 'bernoulli':
        return [int(x) for x in rng.uniform(size=n) < rng.uniform()]
    if d == 'categorical':
        return [int(x) for x in rng.randint(m['distargs']['k'], size=n)]
    if d == 'crp':
        out = []
        for _ in range(n):
            new = (max(out) if out else -1) + 1 + rng.randint(3)
            out.append(int(new if not out or rng.uniform() < w / 100. else
                out[rng.randint(len(out))]))
        return out
    if d == 'poisson':
        return [int(x) for x in rng.poisson(4 * w, size=n)]
    if d == 'geometric':
        return [int(x) - 1 for x in rng.geometric(.3 / w, size=n)]
    if d == 'exponential':
        return [float(x) for x in rng.exponential(2. * w, size=n)]
    if d == 'lognormal':
        return [float(x) for x in rng.lognormal(.1 * w, 1., size=n)]
    if d == 'normal':
        return [float(x) for x in rng.normal(w, 3. * w, size=n)]
    return [float(x) for x in rng.vonmises(rng.uniform(0, 6), 2. / w, size=n)
        % (2 * np.pi)]


@PROP.sub('bulk', bulk_case(), quick=300)
def bulk(m):
    """Hundreds of values, many categories and tables, wide ranges."""
    data = bulk_data(m)
    rng = np.random.RandomState(m['seed'] + 1)
    g = prims.build(dict(m, data=data))
    # The Bessel function is replaced by its asymptote where it overflows.
    tol = dict(rtol=1e-6, atol=4e-4 if m['dist'] == 'vonmises' else 1e-5)
    what = '%s of %d values' % (m['dist'], len(data))
    same(what + ': score', g.logpdf_score(), prims.marginal(m['dist'], data,
        m['hypers'], m['distargs']), **tol)
    gone = set(int(i) for i in rng.permutation(len(data))[:rng.randint(1,
        len(data))])
    for i in sorted(gone, reverse=bool(rng.randint(2))):
        g.unincorporate(i)
    left = [x for i, x in enumerate(data) if i not in gone]
    what += ' after removing %d' % len(gone)
    same(what + ': score', g.logpdf_score(), prims.marginal(m['dist'], left,
        m['hypers'], m['distargs']), **tol)
    for x in [data[i] for i in rng.randint(len(data), size=3)]:
        if m['dist'] == 'crp' and x not in left:
            continue
        same('%s: predictive at %r' % (what, x), g.logpdf(-1, {0: x}),
            prims.predictive(m['dist'], x, left, m['hypers'], m['distargs']),
            **tol)
    return {'nontrivial': len(left) > 10, 'labels': [m['dist']]}
