"""Independent references for the univariate models, and their generators.

Nothing here imports cgpm: predictive densities are written from the textbook
posterior predictive of each conjugate pair, over the raw list of data.
"""

import math

import numpy as np
import scipy.stats as st

from math import log, pi, lgamma
from scipy.special import ive, betaln

from vlib import harness
harness._hypothesis()
from hypothesis import strategies as hs  # noqa: E402

COLLAPSED = ['bernoulli', 'categorical', 'crp', 'exponential', 'geometric',
    'lognormal', 'normal', 'poisson', 'vonmises']
UNCOLLAPSED = ['beta', 'normal_trunc']
ALL = COLLAPSED + UNCOLLAPSED
DISCRETE = ['bernoulli', 'categorical', 'crp', 'geometric', 'poisson']
INF = float('inf')


# --------------------------------------------------------------------------
# References: log predictive density of x given data.

def _log_i0(x):
    return log(ive(0, x)) + x


def normal_posterior(data, h):
    """Posterior NIG parameters by sequential one-point updates."""
    m, r, s, nu = h['m'], h['r'], h['s'], h['nu']
    n = len(data)
    if n:
        xbar = sum(data) / float(n)
        ss = sum((x - xbar)**2 for x in data)
        s = s + ss + (r * n / (r + n)) * (xbar - m)**2
        m = (r * m + n * xbar) / (r + n)
        r, nu = r + n, nu + n
    return m, r, s, nu


def _normal(x, data, h):
    m, r, s, nu = normal_posterior(data, h)
    scale = math.sqrt(s * (r + 1.) / (r * nu))
    z = (x - m) / scale
    return (lgamma((nu + 1) / 2.) - lgamma(nu / 2.) - .5 * log(nu * pi)
        - log(scale) - (nu + 1) / 2. * math.log1p(z * z / nu))


def predictive(dist, x, data, hypers, distargs=None, params=None):
    """log p(x | data, hypers); -inf outside the support."""
    h, n = hypers, len(data)
    if dist == 'bernoulli':
        if x not in (0, 1):
            return -INF
        match = sum(1 for d in data if d == x)
        return log(match + (h['alpha'] if x == 1 else h['beta'])) \
            - log(n + h['alpha'] + h['beta'])
    if dist == 'categorical':
        k = distargs['k']
        if x not in range(k):
            return -INF
        return log(sum(1 for d in data if d == x) + h['alpha']) \
            - log(n + k * h['alpha'])
    if dist == 'crp':
        match = sum(1 for d in data if d == x)
        return log(match if match else h['alpha']) - log(n + h['alpha'])
    if dist == 'exponential':
        if x < 0:
            return -INF
        a, b = h['a'] + n, h['b'] + sum(data)
        return log(a) - log(b) - (a + 1.) * math.log1p(x / b)
    if dist == 'geometric':
        if x < 0 or x % 1:
            return -INF
        a, b = h['a'] + n, h['b'] + sum(data)
        return betaln(a + 1, b + x) - betaln(a, b)
    if dist == 'lognormal':
        if x <= 0:
            return -INF
        return _normal(log(x), [log(d) for d in data], h) - log(x)
    if dist == 'normal':
        return _normal(x, data, h)
    if dist == 'poisson':
        if x < 0 or x % 1:
            return -INF
        a, b = h['a'] + sum(data), h['b'] + n
        return (lgamma(a + x) - lgamma(a) - lgamma(x + 1)
            + a * (log(b) - log(b + 1.)) - x * log(b + 1.))
    if dist == 'vonmises':
        if not 0 <= x <= 2 * pi:
            return -INF
        z = h['a'] * np.exp(1j * h['b']) + h['k'] * sum(
            np.exp(1j * d) for d in data)
        return _log_i0(abs(z + h['k'] * np.exp(1j * x))) - _log_i0(abs(z)) \
            - log(2 * pi) - _log_i0(h['k'])
    if dist == 'beta':
        if not 0 < x < 1:
            return -INF
        s, b = params['strength'], params['balance']
        al, be = s * b, s * (1 - b)
        return (al - 1) * log(x) + (be - 1) * math.log1p(-x) - betaln(al, be)
    if dist == 'normal_trunc':
        l, u = distargs['l'], distargs['h']
        if not l <= x <= u:
            return -INF
        mu, sg = params['mu'], params['sigma']
        mass = st.norm.cdf((u - mu) / sg) - st.norm.cdf((l - mu) / sg)
        return -.5 * ((x - mu) / sg)**2 - log(sg) - .5 * log(2 * pi) \
            - log(mass)
    raise ValueError(dist)


def marginal(dist, data, hypers, distargs=None, params=None):
    """log p(data | hypers) by the chain rule over the reference predictive;
    for explicit-parameter models, log likelihood plus log prior."""
    if dist == 'beta':
        s, b = params['strength'], params['balance']
        return sum(predictive(dist, x, [], hypers, distargs, params)
            for x in data) + st.expon.logpdf(s, scale=5.)
    if dist == 'normal_trunc':
        l, u = distargs['l'], distargs['h']
        return sum(predictive(dist, x, [], hypers, distargs, params)
            for x in data) - log(u - l) \
            + st.gamma.logpdf(params['sigma'], 2., scale=2.)
    return sum(predictive(dist, x, data[:i], hypers, distargs)
        for i, x in enumerate(data))


def cdf(dist, hypers, data, distargs=None, params=None):
    """Reference predictive CDF as a vectorised function (continuous)."""
    if dist == 'normal' or dist == 'lognormal':
        d = [log(x) for x in data] if dist == 'lognormal' else data
        m, r, s, nu = normal_posterior(d, hypers)
        scale = math.sqrt(s * (r + 1.) / (r * nu))
        if dist == 'lognormal':
            return lambda x: st.t.cdf((np.log(x) - m) / scale, nu)
        return lambda x: st.t.cdf((np.asarray(x) - m) / scale, nu)
    if dist == 'exponential':
        a, b = hypers['a'] + len(data), hypers['b'] + sum(data)
        return lambda x: 1. - np.power(b / (b + np.asarray(x)), a)
    if dist == 'vonmises':
        grid = np.linspace(0, 2 * pi, 4001)
        pdf = np.exp([predictive(dist, float(x), data, hypers) for x in grid])
        c = np.concatenate([[0.], np.cumsum((pdf[1:] + pdf[:-1]) / 2.)
            * (grid[1] - grid[0])])
        return lambda x: np.interp(x, grid, c)
    if dist == 'beta':
        s, b = params['strength'], params['balance']
        return lambda x: st.beta.cdf(x, s * b, s * (1 - b))
    if dist == 'normal_trunc':
        mu, sg = params['mu'], params['sigma']
        lo = st.norm.cdf((distargs['l'] - mu) / sg)
        hi = st.norm.cdf((distargs['h'] - mu) / sg)
        return lambda x: (st.norm.cdf((np.asarray(x) - mu) / sg) - lo) \
            / (hi - lo)
    raise ValueError(dist)


# --------------------------------------------------------------------------
# Generators.

def floats(lo, hi):
    """Floats in [lo, hi] with a short decimal form (shrinks well)."""
    return hs.one_of(
        hs.integers(math.ceil(lo * 4), math.floor(hi * 4)).map(
            lambda i: i / 4.),
        hs.floats(lo, hi, allow_nan=False).map(lambda x: float('%.6g' % x)
            ).filter(lambda x: lo <= x <= hi))


def positive(lo=.05, hi=30.):
    return hs.one_of(
        hs.sampled_from([x for x in
            [.05, .1, .25, .5, 1., 1.5, 2., 3., 5., 10., 25.]
            if lo <= x <= hi]),
        hs.floats(math.log(lo), math.log(hi), allow_nan=False).map(
            lambda x: min(hi, max(lo, float('%.4g' % math.exp(x))))))


def hypers_of(dist):
    fd = hs.fixed_dictionaries
    if dist == 'bernoulli':
        return fd({'alpha': positive(), 'beta': positive()})
    if dist in ('categorical', 'crp'):
        return fd({'alpha': positive()})
    if dist in ('exponential', 'geometric', 'poisson'):
        return fd({'a': positive(), 'b': positive()})
    if dist == 'normal':
        return fd({'m': floats(-20, 20), 'r': positive(), 's': positive(),
            'nu': positive(.3)})
    if dist == 'lognormal':
        return fd({'m': floats(-3, 3), 'r': positive(), 's': positive(),
            'nu': positive(.3)})
    if dist == 'vonmises':
        return fd({'a': positive(.05, 15.), 'b': hs.one_of(
            hs.just(pi), floats(.05, 6.2)), 'k': positive(.1, 10.)})
    return hs.just({})


def distargs_of(dist):
    if dist == 'categorical':
        return hs.fixed_dictionaries({'k': hs.integers(2, 6)})
    if dist == 'normal_trunc':
        return hs.tuples(floats(-8, 8), floats(1, 10)).map(
            lambda t: {'l': t[0], 'h': t[0] + t[1]})
    return hs.just({})


def params_of(dist, distargs=None):
    if dist == 'beta':
        return hs.fixed_dictionaries({'strength': positive(.5, 20.),
            'balance': hs.sampled_from([.1, .25, .4, .5, .6, .8, .9])})
    if dist == 'normal_trunc':
        # Keep the truncation window within reach of the rejection sampler.
        l, u = distargs['l'], distargs['h']
        return hs.fixed_dictionaries({
            'mu': hs.sampled_from([.1, .25, .5, .7, .95]).map(
                lambda f: l + f * (u - l)),
            'sigma': positive(.25, 5.)})
    return hs.just({})


def value_of(dist, distargs=None):
    """Values inside the support."""
    if dist == 'bernoulli':
        return hs.sampled_from([0, 1, 0., 1.])
    if dist == 'categorical':
        k = distargs['k']
        return hs.one_of(hs.integers(0, k - 1),
            hs.integers(0, k - 1).map(float))
    if dist == 'crp':
        return hs.integers(0, 5)
    if dist == 'exponential':
        return hs.one_of(hs.just(0.), hs.just(0), positive(.01, 60.))
    if dist == 'geometric':
        return hs.one_of(hs.integers(0, 25), hs.integers(0, 25).map(float))
    if dist == 'poisson':
        return hs.one_of(hs.integers(0, 40), hs.integers(0, 40).map(float))
    if dist == 'lognormal':
        return positive(.01, 100.)
    if dist == 'normal':
        return hs.one_of(hs.integers(-30, 30), floats(-50, 50))
    if dist == 'vonmises':
        return hs.one_of(hs.sampled_from([0., 2 * pi, pi, pi / 2]),
            floats(0, 6.25))
    if dist == 'beta':
        return hs.sampled_from([.02, .1, .25, .3, .5, .66, .75, .9, .97])
    if dist == 'normal_trunc':
        l, u = distargs['l'], distargs['h']
        return hs.one_of(hs.sampled_from([l, u]),
            hs.sampled_from([.01, .2, .4, .5, .61, .8, .99]).map(
                lambda f: l + f * (u - l)))
    raise ValueError(dist)


def outside(dist, distargs=None):
    """Finite values outside the support (None: the support is everything)."""
    if dist == 'bernoulli':
        return hs.sampled_from([-1, 2, .5, 3, -.25, 1.5])
    if dist == 'categorical':
        k = distargs['k']
        return hs.sampled_from([-1, k, k + 3, .5, k - .5, -2., 1.25])
    if dist in ('geometric', 'poisson'):
        return hs.sampled_from([-1, -5, .5, 2.25, -.5, 7.75])
    if dist == 'exponential':
        return hs.sampled_from([-1, -.01, -40.])
    if dist == 'lognormal':
        return hs.sampled_from([0, 0., -1, -.01])
    if dist == 'vonmises':
        return hs.sampled_from([-.01, 6.3, 7, -3.])
    if dist == 'beta':
        return hs.sampled_from([-.5, 1.5, 2, -3.])
    if dist == 'normal_trunc':
        l, u = distargs['l'], distargs['h']
        return hs.sampled_from([l - .01, u + .01, l - 5, u + 5])
    return None


def data_of(dist, distargs, min_data, max_data):
    return hs.integers(min_data, max_data).flatmap(lambda n: hs.lists(
        value_of(dist, distargs), min_size=n, max_size=n))


@hs.composite
def model(draw, dists=ALL, max_data=8, min_data=0):
    """A univariate model with data: JSON-able dictionary."""
    dist = draw(hs.sampled_from(dists))
    distargs = draw(distargs_of(dist))
    return {'dist': dist, 'distargs': distargs,
        'hypers': draw(hypers_of(dist)),
        'params': draw(params_of(dist, distargs)),
        'data': draw(data_of(dist, distargs, min_data, max_data))}


def support_grid(dist, hypers, data, distargs=None, params=None):
    """For discrete models: list of support values carrying all but a
    negligible mass is not available in closed form for heavy tails, so this
    returns the finite support only."""
    if dist == 'bernoulli':
        return [0, 1]
    if dist == 'categorical':
        return list(range(distargs['k']))
    if dist == 'crp':
        return sorted(set(data)) + [max(data) + 1 if data else 0]
    return None


# --------------------------------------------------------------------------
# Building the real thing.

def build(m, seed=0, outputs=(0,), fill=True, rowids=None):
    from cgpm.utils import config as cu
    cls = cu.cctype_class(m['dist'])
    g = cls(outputs=list(outputs), inputs=[], hypers=dict(m['hypers']) or None,
        params=dict(m['params']) or None, distargs=dict(m['distargs']),
        rng=np.random.RandomState(seed))
    if fill:
        rowids = range(len(m['data'])) if rowids is None else rowids
        for r, x in zip(rowids, m['data']):
            g.incorporate(r, {outputs[0]: x})
    return g
