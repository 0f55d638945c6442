"""C03: predictive distributions are proper and confined to the support."""

import copy
import math

import numpy as np
import scipy.stats as st
from scipy.special import betaln

from vlib import models, prims
from checks import c01
from vlib.harness import Property, check, equal, same, hs, fail, raises

TECHNIQUE = ('property-based testing: generated models and data; sums and '
    'quadrature of the density against one, and rejection of generated '
    'out-of-support values')
NOTE = ('Random search with shrinking. Infinite supports are summed or '
    'integrated over a window carrying at least 1-1e-3 of the mass and the '
    'remainder is taken from closed-form distribution functions.')
PROP = Property('C03',
    'Cases are (model, hyperparameters, up to 8 data values), a window of '
    'the support, and values outside the support. Non-trivial: at least one '
    'observation is incorporated.',
    ['finite values only; nan is not a value of any support'])

NODES, WEIGHTS = np.polynomial.legendre.leggauss(40)
INF = float('inf')


def integrate(f, lo, hi, panels):
    total, edges = 0., np.linspace(lo, hi, panels + 1)
    for a, b in zip(edges[:-1], edges[1:]):
        xs = (a + b) / 2. + (b - a) / 2. * NODES
        total += (b - a) / 2. * sum(w * f(x) for x, w in zip(xs, WEIGHTS))
    return total


@PROP.sub('discrete-sum', prims.model(prims.DISCRETE, 8), quick=1500)
def discrete(m):
    g = prims.build(m)
    p = lambda x: math.exp(g.logpdf(-1, {0: x}))
    d, h, data, n = m['dist'], m['hypers'], m['data'], len(m['data'])
    if d in ('geometric', 'poisson'):
        K = 250
        total = sum(p(x) for x in range(K + 1))
        if d == 'geometric':
            a, b = h['a'] + n, h['b'] + sum(data)
            tail = math.exp(betaln(a, b + K + 1) - betaln(a, b))
        else:
            a, b = h['a'] + sum(data), h['b'] + n
            tail = st.nbinom.sf(K, a, b / (b + 1.))
        same('%s: sum over 0..%d plus the tail' % (d, K), total + tail, 1.,
            1e-6)
    else:
        total = sum(p(x) for x in prims.support_grid(d, h, data,
            m['distargs']))
        same('%s: sum over the support' % d, total, 1., 1e-9)
    return {'nontrivial': n >= 1, 'labels': [d]}


CONTINUOUS = ['exponential', 'lognormal', 'normal', 'vonmises', 'beta',
    'normal_trunc']


@PROP.sub('continuous-integral', prims.model(CONTINUOUS, 8), quick=1500)
def continuous(m, points=600, rtol=1e-6):
    g = prims.build(m)
    d, h, data = m['dist'], m['hypers'], m['data']

    def p(x):
        v = math.exp(g.logpdf(-1, {0: float(x)}))
        check(v >= 0, '%s: density %r at %r', d, v, x)
        return v
    F = prims.cdf(d, h, data, m['distargs'], m['params'])
    if d == 'vonmises':
        total = np.mean([p(x) for x in
            np.linspace(0, 2 * math.pi, points + 1)[:-1]]) * 2 * math.pi
        same('vonmises: integral over the circle', total, 1., rtol)
        return {'nontrivial': len(data) >= 1, 'labels': [d]}
    if d == 'beta':
        lo, hi = .002, .998
        total = integrate(p, lo, hi, 8)
    elif d == 'normal_trunc':
        lo, hi = m['distargs']['l'], m['distargs']['h']
        total = integrate(p, lo, hi, 8)
        same('normal_trunc: integral over the window', total, 1., 1e-6)
        return {'nontrivial': len(data) >= 1, 'labels': [d]}
    elif d == 'normal':
        mm, r, s, nu = prims.normal_posterior(data, h)
        sc = math.sqrt(s * (r + 1) / (r * nu))
        lo, hi = mm - sc * math.exp(8.), mm + sc * math.exp(8.)
        total = integrate(lambda t: sc * math.exp(t) * (
            p(mm + sc * math.exp(t)) + p(mm - sc * math.exp(t))), -12., 8.,
            10)
        lo2, hi2 = mm - sc * math.exp(-12), mm + sc * math.exp(-12)
        same('normal: integral over the window', total,
            F(hi) - F(hi2) + F(lo2) - F(lo), 1e-5)
        return {'nontrivial': len(data) >= 1, 'labels': [d]}
    elif d == 'lognormal':
        logs = [math.log(x) for x in data]
        mm, r, s, nu = prims.normal_posterior(logs, h)
        sc = math.sqrt(s * (r + 1) / (r * nu))
        w = min(20. * sc, 200.)
        lo, hi = math.exp(mm - w), math.exp(mm + w)
        total = integrate(lambda t: math.exp(t) * p(math.exp(t)), mm - w,
            mm + w, 16)
    else:
        lo, hi = 1e-9, 1e9
        total = integrate(lambda t: math.exp(t) * p(math.exp(t)),
            math.log(lo), math.log(hi), 16)
    same('%s: integral over the window [%g, %g]' % (d, lo, hi), total,
        float(F(hi) - F(lo)), 1e-4, 1e-6)
    return {'nontrivial': len(data) >= 1, 'labels': [d]}


def state(g):
    return (dict(g.data), models.suffstats(g), g.logpdf_score(),
        dict(g.get_hypers()), dict(g.get_params()))


@hs.composite
def outside_case(draw):
    m = draw(prims.model([d for d in prims.ALL if d != 'crp'
        and d != 'normal'], 5))
    m['bad'] = draw(hs.lists(prims.outside(m['dist'], m['distargs']),
        min_size=1, max_size=3))
    m['good'] = draw(prims.value_of(m['dist'], m['distargs']))
    m['output'] = draw(hs.integers(0, 5))
    return m


@PROP.sub('outside-support', outside_case(), quick=4000)
def outside(m):
    out = m['output']
    g = prims.build(m, outputs=[out])
    d = m['dist']
    before = copy.deepcopy(state(g))
    for x in m['bad']:
        equal('%s: log density of %r' % (d, x), g.logpdf(-1, {out: x}), -INF)
        raises('%s: incorporating %r' % (d, x), ValueError,
            lambda: g.incorporate(50, {out: x}))
        equal('%s: state after rejecting %r' % (d, x), state(g), before)
    # The row identifier was not consumed.
    g.incorporate(50, {out: m['good']})
    fresh = prims.build(m, outputs=[out])
    fresh.incorporate(50, {out: m['good']})
    same('%s: score after a rejection' % d, g.logpdf_score(),
        fresh.logpdf_score())
    check(g.logpdf(-1, {out: m['good']}) > -INF,
        '%s: zero density at an observed value %r', d, m['good'])
    return {'nontrivial': len(m['data']) >= 1, 'labels': [d]}


@hs.composite
def tail_case(draw):
    m = draw(prims.model(prims.ALL, 6))
    m['far'] = draw(hs.sampled_from({
        'geometric': [100, 5000, 10**6], 'poisson': [100, 3000, 10**5],
        'exponential': [1e3, 1e-12, 1e8], 'lognormal': [1e-9, 1e12, 1e5],
        'normal': [1e4, -1e6, 123.5], 'crp': [7, 100],
        'beta': [.011, .989, .5], 'vonmises': [0., 2 * math.pi, 1e-9]}.get(
            m['dist'], [0, 1])))
    return m


@PROP.sub('tails', tail_case(), quick=2500)
def tails(m):
    """Far into the tail the density is still that of the reference."""
    g = prims.build(m)
    x = m['far']
    if m['dist'] == 'normal_trunc':
        x = m['distargs']['l'] if x else m['distargs']['h']
    want = prims.predictive(m['dist'], x, m['data'], m['hypers'],
        m['distargs'], m['params'])
    same('%s: log density at %r' % (m['dist'], x), g.logpdf(-1, {0: x}),
        want, 1e-6, 1e-6)
    return {'nontrivial': len(m['data']) >= 1, 'labels': [m['dist']]}


@hs.composite
def bulk_case(draw):
    """Few or many values, wide ranges, concentrated clusters."""
    m = draw(c01.bulk_case(1, 120))
    if m['dist'] == 'vonmises':
        m['hypers'] = dict(m['hypers'], k=draw(hs.sampled_from([.5, 5., 20.,
            60., 150.])), a=draw(hs.sampled_from([.1, 2., 80.])))
    return m


@PROP.sub('bulk', bulk_case(), quick=250)
def bulk(m):
    m = dict(m, data=c01.bulk_data(m))
    d, h, data, n = m['dist'], m['hypers'], m['data'], m['n']
    if d == 'vonmises' and m['hypers']['k'] > 5:
        # A tight cluster.
        data = m['data'] = [(data[0] + .02 * (x - data[0])) % (2 * math.pi)
            for x in data]
    if d in CONTINUOUS:
        # Where the Bessel function overflows its asymptote takes over.
        return continuous(m, 8000, 2e-3)
    g = prims.build(m)
    p = lambda x: math.exp(g.logpdf(-1, {0: x}))
    if d == 'poisson':
        r, q = h['a'] + sum(data), (h['b'] + n) / (h['b'] + n + 1.)
        ref = st.nbinom(r, q)
        lo, hi = int(ref.ppf(1e-4)), int(ref.ppf(1 - 1e-4))
        hi = min(hi, lo + 4000)
        same('poisson: sum over %d..%d' % (lo, hi), sum(p(x) for x in
            range(lo, hi + 1)), ref.cdf(hi) - (ref.cdf(lo - 1) if lo else 0),
            1e-5)
    elif d == 'geometric':
        a, b = h['a'] + n, h['b'] + sum(data)
        tail = lambda x: math.exp(betaln(a, b + x) - betaln(a, b))
        lo = int(b / a / 3.)
        same('geometric: sum over %d..%d' % (lo, lo + 1500), sum(p(x) for x
            in range(lo, lo + 1501)), tail(lo) - tail(lo + 1501), 1e-5)
    else:
        same('%s: sum over the support' % d, sum(p(x) for x in
            prims.support_grid(d, h, data, m['distargs'])), 1., 1e-8)
    return {'nontrivial': n > 8, 'labels': [d]}
