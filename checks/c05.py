"""C05: inference of hyperparameters and explicit parameters."""

import copy
import itertools
import math

import numpy as np

from vlib import models, prims, stats
from vlib.harness import Property, check, equal, same, hs, fail

TECHNIQUE = ('property-based testing: generated columns with clusters, '
    'resampled values against the exact grid posterior from reference '
    'marginal likelihoods')
NOTE = ('Random search with shrinking. Single hyperparameters are compared '
    'with the exact conditional over the grid; joint transitions, and the '
    'Metropolis transitions of explicit parameters, are tested for leaving '
    'the exact posterior invariant, by two-stage goodness of fit. Grid '
    'membership, purity and validity of grids are exact.')
PROP = Property('C05',
    'Cases are (column type, data, clusters, hyperparameters, grids, seed). '
    'Non-trivial: at least two observations.',
    ['data of moderate magnitude',
     'the Bessel function of the vonmises model is approximated above 700, '
     'with an error below 2e-3',
     'strength within (0.02, 60) and balance within (0.01, 0.99) carry the '
     'posterior of the beta parameters for the generated data'])


def score(m, hypers, clusters=None):
    """Log marginal likelihood of the clustered data."""
    groups = {}
    for x, z in zip(m['data'], clusters or [0] * len(m['data'])):
        groups.setdefault(z, []).append(x)
    return sum(prims.marginal(m['dist'], g, hypers, m['distargs'])
        for g in groups.values())


def normalised(logps):
    a = np.asarray(logps, float)
    a = np.exp(a - a.max())
    return a / a.sum()


@hs.composite
def clustered(draw, dists=prims.COLLAPSED, max_data=8, min_data=1):
    m = draw(prims.model(dists, max_data, min_data))
    m['clusters'] = draw(hs.lists(hs.integers(0, 2),
        min_size=len(m['data']), max_size=len(m['data'])))
    m['nan'] = draw(hs.lists(hs.integers(0, 2), max_size=2))
    m['seed'] = draw(hs.integers(0, 2**31 - 1))
    m['output'] = draw(hs.integers(0, 9))
    return m


def build_dim(m, seed=None):
    from cgpm.mixtures.dim import Dim
    d = Dim([m['output']], [-1], cctype=m['dist'], hypers=dict(m['hypers']),
        distargs=dict(m['distargs']), rng=np.random.RandomState(
            m['seed'] if seed is None else seed))
    for r, (x, z) in enumerate(zip(m['data'], m['clusters'])):
        d.incorporate(r, {m['output']: x}, {-1: z})
    for j, z in enumerate(m.get('nan', ())):
        d.incorporate(100 + j, {m['output']: float('nan')}, {-1: z})
    return d


def dim_data(d):
    return ({k: dict(c.data) for k, c in d.clusters.items()}, dict(d.Zr),
        dict(d.Zi), {k: c.get_suffstats() for k, c in d.clusters.items()})


def consistent(what, d, names):
    """Clusters, including the one for new data, share the column's hypers."""
    for k, c in list(d.clusters.items()) + [('new', d.aux_model)]:
        h = c.get_hypers()
        for n in names:
            equal('%s: hyper %s of cluster %r' % (what, n, k), h[n],
                d.hypers[n])


@hs.composite
def single_case(draw):
    m = draw(clustered())
    names = sorted(m['hypers'])
    m['free'] = draw(hs.sampled_from(names))
    size = draw(hs.integers(1, 5))
    m['grid'] = draw(hs.lists(prims.hypers_of(m['dist']).map(
        lambda h: h[m['free']]), min_size=size, max_size=size, unique=True))
    return m


@PROP.sub('one-hyper', single_case(), quick=1200)
def one_hyper(m):
    """One free hyperparameter: its exact conditional, others untouched."""
    d = build_dim(m)
    d.hyper_grids = {m['free']: list(m['grid'])}
    before = copy.deepcopy(dim_data(d))
    logps = [score(m, dict(m['hypers'], **{m['free']: g}), m['clusters'])
        for g in m['grid']]
    probs = dict(zip(m['grid'], normalised(logps)))
    what = '%s %s on grid %r' % (m['dist'], m['free'], m['grid'])

    def draw(n):
        out = []
        for _ in range(n):
            d.transition_hypers()
            out.append(d.hypers[m['free']])
            for h in m['hypers']:
                if h != m['free']:
                    equal('%s: hyper %s' % (what, h), d.hypers[h],
                        m['hypers'][h])
        return out
    stats.discrete(what, draw, probs, 150, 2500)
    consistent(what, d, m['hypers'])
    equal(what + ': data', dim_data(d), before)
    equal(what + ': grid', d.hyper_grids, {m['free']: m['grid']})
    return {'nontrivial': len(m['data']) >= 2 and len(m['grid']) >= 2,
        'labels': [m['dist'], m['free']]}


@hs.composite
def joint_case(draw):
    m = draw(clustered([d for d in prims.COLLAPSED if d not in
        ('categorical', 'crp')], 6, 1))
    size = 3 if len(m['hypers']) < 4 else 2
    m['grids'] = {h: draw(hs.lists(prims.hypers_of(m['dist']).map(
        lambda v, h=h: v[h]), min_size=2, max_size=size, unique=True))
        for h in sorted(m['hypers'])}
    return m


@PROP.sub('joint-invariance', joint_case(), quick=400)
def joint(m):
    """A full sweep leaves the joint grid posterior invariant."""
    names = sorted(m['grids'])
    combos = list(itertools.product(*[m['grids'][h] for h in names]))
    p = normalised([score(m, dict(zip(names, c)), m['clusters'])
        for c in combos])
    d = build_dim(m)
    d.hyper_grids = {h: list(g) for h, g in m['grids'].items()}
    rng = np.random.RandomState(m['seed'] % 1000 + 7)
    before = copy.deepcopy(dim_data(d))

    def draw(n):
        out = []
        for i in rng.choice(len(combos), size=n, p=p):
            d.set_hypers(dict(zip(names, combos[i])))
            d.transition_hypers()
            out.append(tuple(d.hypers[h] for h in names))
        return out
    what = '%s hypers on grids %r' % (m['dist'], m['grids'])
    stats.discrete(what, draw, dict(zip(combos, p)), 250, 4000)
    # From one fixed start, far from the posterior, many sweeps reach it.
    consistent(what, d, names)
    equal(what + ': data', dim_data(d), before)
    return {'nontrivial': len(m['data']) >= 2, 'labels': [m['dist']]}


@hs.composite
def own_grid_case(draw):
    m = draw(clustered(max_data=10))
    m['n_grid'] = draw(hs.integers(2, 12))
    return m


@PROP.sub('own-grids', own_grid_case(), quick=1500)
def own_grids(m):
    """Values come from the grids the column builds from its data."""
    d = build_dim(m)
    X = list(m['data']) + [float('nan')] * len(m['nan'])
    keep = list(X)
    d.transition_hyper_grids(X, n_grid=m['n_grid'])
    check(repr(X) == repr(keep), '%s: data changed to %r', m['dist'], X)
    what = '%s grids for %r' % (m['dist'], m['data'])
    equal(what + ': hypers kept by a new grid', d.hypers, m['hypers'])
    valid_grids(what, m, d.hyper_grids, m['n_grid'])
    before = copy.deepcopy(dim_data(d))
    for _ in range(3):
        d.transition_hypers()
        for h in m['hypers']:
            check(any(d.hypers[h] == g for g in d.hyper_grids[h]),
                '%s: %s=%r is not in its grid', what, h, d.hypers[h])
        consistent(what, d, m['hypers'])
        equal(what + ': data', dim_data(d), before)
    # A column without hypers takes them from its grids.
    e = build_dim(dict(m, hypers={}, data=[], clusters=[], nan=[]))
    e.transition_hyper_grids(X, n_grid=m['n_grid'])
    equal(what + ': hypers of a fresh column', sorted(e.hypers),
        sorted(m['hypers']))
    for h in e.hypers:
        check(any(e.hypers[h] == g for g in e.hyper_grids[h]),
            '%s: fresh %s=%r is not in its grid', what, h, e.hypers[h])
    consistent(what + ' (fresh)', e, e.hypers)
    # The univariate model does the same on its own.
    g = prims.build(m, seed=m['seed'])
    data, ss = copy.deepcopy((dict(g.data), models.suffstats(g)))
    g.transition_hypers(N=2)
    grids = type(g).construct_hyper_grids(m['data'])
    for h, v in g.get_hypers().items():
        # The model may build its grids with the column default.
        d30 = type(g).construct_hyper_grids(m['data'], n_grid=30)
        check(any(v == x for x in list(grids[h]) + list(d30[h])),
            '%s: %s=%r is not in its grid', what, h, v)
    equal(what + ': data of the model', dict(g.data), data)
    equal(what + ': statistics of the model', models.suffstats(g), ss)
    same(what + ': score with the new hypers', g.logpdf_score(),
        prims.marginal(m['dist'], m['data'], g.get_hypers(), m['distargs']),
        1e-6, 2e-3 * len(m['data']) if m['dist'] == 'vonmises' else 1e-6)
    return {'nontrivial': len(m['data']) >= 2, 'labels': [m['dist']]}


POSITIVE = {'bernoulli': ['alpha', 'beta'], 'categorical': ['alpha'],
    'crp': ['alpha'], 'exponential': ['a', 'b'], 'geometric': ['a', 'b'],
    'lognormal': ['r', 's', 'nu'], 'normal': ['r', 's', 'nu'],
    'poisson': ['a', 'b'], 'vonmises': ['a', 'k']}


def valid_grids(what, m, grids, n):
    d = m['dist']
    equal(what + ': names', sorted(grids), sorted(m['hypers']))
    for h, g in grids.items():
        g = list(g)
        check(1 <= len(g) <= n, '%s: %d points for %s', what, len(g), h)
        for v in g:
            check(math.isfinite(v), '%s: %s=%r', what, h, v)
            check(v > 0 or h not in POSITIVE[d], '%s: %s=%r', what, h, v)
            if d == 'vonmises' and h == 'b':
                check(0 < v <= 2 * math.pi, '%s: b=%r', what, v)


@hs.composite
def grid_case(draw):
    m = draw(prims.model(prims.COLLAPSED, 12, 1))
    n = len(m['data'])
    shape = draw(hs.sampled_from(['as is', 'constant', 'repeat', 'single']))
    if shape == 'constant':
        m['data'] = [m['data'][0]] * n
    elif shape == 'repeat':
        m['data'] = m['data'] * 3
    elif shape == 'single':
        m['data'] = m['data'][:1]
    m['shape'] = shape
    m['n_grid'] = draw(hs.integers(2, 40))
    m['pick'] = draw(hs.lists(hs.floats(0, .999), min_size=4, max_size=4))
    m['seed'] = draw(hs.integers(0, 2**31 - 1))
    return m


@PROP.sub('valid-grids', grid_case(), quick=4000)
def grids(m):
    g = prims.build(m, seed=m['seed'])
    what = '%s grids for %r' % (m['dist'], m['data'])
    data = list(m['data'])
    gr = type(g).construct_hyper_grids(data, n_grid=m['n_grid'])
    equal(what + ': data', data, m['data'])
    valid_grids(what, m, gr, m['n_grid'])
    # Any combination of grid values is accepted and gives finite scores.
    h = {k: list(gr[k])[int(p * len(gr[k]))]
        for k, p in zip(sorted(gr), m['pick'])}
    g.set_hypers(h)
    s = g.logpdf_score()
    check(math.isfinite(s), '%s: score %r with %r', what, s, h)
    lp = g.logpdf(-1, {0: m['data'][0]})
    check(math.isfinite(lp), '%s: predictive %r with %r', what, lp, h)
    return {'nontrivial': len(m['data']) >= 2,
        'labels': [m['dist'], m['shape']]}


@PROP.sub('model-transition', clustered(['categorical', 'crp', 'bernoulli',
    'exponential', 'geometric', 'poisson'], 7, 2), quick=200)
def model_transition(m):
    """transition_hypers of the univariate model on its own grids."""
    g = prims.build(m, seed=m['seed'])
    gr = type(g).construct_hyper_grids(m['data'], n_grid=30)
    names = sorted(gr)
    combos = list(itertools.product(*[list(gr[h]) for h in names]))
    p = normalised([fast_score(m, dict(zip(names, c))) for c in combos])
    rng = np.random.RandomState(m['seed'] % 1000 + 3)
    n = {len(c) for c in [gr[h] for h in names]}
    if len(m['data']) == 0 or not n:
        return {'nontrivial': False}
    for j, h in enumerate(names):
        values = list(gr[h])
        probs = {}
        for c, q in zip(combos, p):
            probs[c[j]] = probs.get(c[j], 0.) + q

        def draw(n):
            out = []
            for i in rng.choice(len(combos), size=n, p=p):
                g.set_hypers(dict(zip(names, combos[i])))
                g.transition_hypers()
                v = g.get_hypers()[h]
                # Identify the grid point despite a regenerated grid.
                out.append(min(values, key=lambda t: abs(t - v)))
            return out
        stats.discrete('%s %s on its own grid' % (m['dist'], h), draw, probs,
            120, 1500)
    return {'nontrivial': True, 'labels': [m['dist']]}


def fast_score(m, h):
    return prims.marginal(m['dist'], m['data'], h, m['distargs'])


@hs.composite
def params_case(draw):
    m = draw(prims.model(prims.UNCOLLAPSED, 8, 0))
    m['seed'] = draw(hs.integers(0, 2**31 - 1))
    m['start'] = draw(hs.booleans())
    return m


def valid_params(what, m, p):
    if m['dist'] == 'beta':
        check(0 < p['strength'] < float('inf') and 0 < p['balance'] < 1,
            '%s: %r', what, p)
    else:
        check(m['distargs']['l'] <= p['mu'] <= m['distargs']['h'] and
            0 < p['sigma'] < float('inf'), '%s: %r', what, p)


@PROP.sub('params-valid', params_case(), quick=160)
def params_valid(m):
    what = '%s parameters given %r' % (m['dist'], m['data'])
    if m['start']:
        m = dict(m, params={})
    g = prims.build(m, seed=m['seed'])
    valid_params(what + ' (initial)', m, g.get_params())
    if m['params']:
        equal(what + ' (initial)', g.get_params(), m['params'])
    before = copy.deepcopy((dict(g.data), models.suffstats(g),
        g.get_hypers()))
    moved = set()
    for _ in range(4):
        g.transition_params()
        p = g.get_params()
        valid_params(what, m, p)
        moved.add(tuple(sorted(p.items())))
        s = g.logpdf_score()
        check(math.isfinite(s), '%s: score %r at %r', what, s, p)
        same(what + ': score', s, prims.marginal(m['dist'], m['data'],
            None, m['distargs'], p), 1e-6, 1e-6)
    check(len(moved) > 1, '%s: never moved from %r', what, p)
    equal(what + ': data', (dict(g.data), models.suffstats(g),
        g.get_hypers()), before)
    return {'nontrivial': len(m['data']) >= 2, 'labels': [m['dist']]}


def param_grid(m):
    """Cells over the parameter space with their posterior probabilities."""
    mid = lambda e: (e[1:] + e[:-1]) / 2.
    logs = np.linspace(math.log(.02), math.log(60.), 201)
    if m['dist'] == 'beta':
        from scipy.special import betaln
        names, ea, eb = ['strength', 'balance'], np.exp(logs), np.linspace(
            0, 1, 151)
        A, B = np.meshgrid(np.exp(mid(logs)), mid(eb), indexing='ij')
        s1 = sum(math.log(x) for x in m['data'])
        s0 = sum(math.log1p(-x) for x in m['data'])
        lp = -A / 5. + np.log(A) + (A * B - 1) * s1 + (A * (1 - B) - 1) * s0 \
            - len(m['data']) * betaln(A * B, A * (1 - B))
    else:
        import scipy.stats as st
        l, h = m['distargs']['l'], m['distargs']['h']
        names, ea, eb = ['mu', 'sigma'], np.linspace(l, h, 151), np.exp(logs)
        A, B = np.meshgrid(mid(ea), np.exp(mid(logs)), indexing='ij')
        lp = st.gamma.logpdf(B, 2., scale=2.) + np.log(B)
        norm = np.log(st.norm.cdf((h - A) / B) - st.norm.cdf((l - A) / B))
        for x in m['data']:
            lp = lp - .5 * ((x - A) / B)**2 - np.log(B) - norm
    p = np.exp(lp - lp.max())
    return names, [ea, eb], p / p.sum()


class Fixed(object):
    """One batch of samples serves the tests of both parameters."""
    def __init__(self, draw):
        self.draw, self.batches = draw, {}

    def column(self, j):
        def draw(n):
            if n not in self.batches:
                self.batches[n] = self.draw(n)
            return [r[j] for r in self.batches[n]]
        return draw


@hs.composite
def posterior_case(draw):
    m = draw(prims.model(prims.UNCOLLAPSED, 6, 2))
    m['seed'] = draw(hs.integers(0, 2**31 - 1))
    return m


@PROP.sub('params-posterior', posterior_case(), quick=24, thorough=480,
    timeout=240.)
def params_posterior(m):
    """Metropolis transitions leave the posterior invariant."""
    if m['dist'] == 'normal_trunc' and max(m['data']) - min(m['data']) < .3:
        # The density of sigma is unbounded when all values coincide.
        return {'nontrivial': False}
    names, edges, p = param_grid(m)
    g = prims.build(m, seed=m['seed'])
    rng = np.random.RandomState(m['seed'] % 1000 + 11)

    def sweep(n):
        out = []
        for i in rng.choice(p.size, size=n, p=p.ravel()):
            for name, e, k in zip(names, edges, np.unravel_index(i, p.shape)):
                setattr(g, name, float(e[k] + (e[k+1] - e[k]) *
                    rng.uniform()))
            g.transition_params()
            out.append([g.get_params()[name] for name in names])
        return out
    batch = Fixed(sweep)
    for j, name in enumerate(names):
        c = np.concatenate([[0.], np.cumsum(p.sum(axis=1 - j))])
        stats.continuous('%s %s given %r' % (m['dist'], name, m['data']),
            batch.column(j), lambda x, e=edges[j], c=c: np.interp(x, e, c),
            90, 600)
    return {'nontrivial': True, 'labels': [m['dist']]}
