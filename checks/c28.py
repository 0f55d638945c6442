"""C28: Metropolis, slice and rejection samplers."""

import math

import numpy as np
import scipy.stats as st

from vlib import stats
from vlib.harness import Property, check, equal, same, hs, fail, raises

from cgpm.utils import sampling as su

TECHNIQUE = ('property-based testing: generated targets, domains and tunings; '
    'domain invariants on every draw and two-stage goodness of fit')
NOTE = ('Random search with shrinking over target families known up to a '
    'constant. Long-run frequencies are judged by Kolmogorov-Smirnov tests '
    'on thinned chains (false alarm below 1e-8 per case).')
PROP = Property('C28',
    'Cases are a target family with parameters and an arbitrary additive '
    'constant, a domain, sampler tunings and a seed. Non-trivial: the target '
    'is not flat over the domain.',
    ['chains are thinned by 25 steps and started inside the support'])

INF = float('inf')


@hs.composite
def target(draw, holes=False):
    kind = draw(hs.sampled_from(['normal', 'expon', 'gamma', 'beta', 'tnorm',
        'tnorm-left', 'uniform', 'triangle', 'expon-trunc'] + (
        ['holes', 'half'] * 3 if holes else [])))
    return {'kind': kind, 'a': draw(hs.sampled_from([1., 1.5, 2., 3., 5.])),
        'b': draw(hs.sampled_from([.5, 1., 2., 3.])),
        'loc': draw(hs.sampled_from([0., -3., 1.5, 10.])),
        'const': draw(hs.sampled_from([0., -500., 250., 3.])),
        'seed': draw(hs.integers(0, 2**31 - 1)),
        'scale': draw(hs.sampled_from([.3, 1., 2.]))}


def realise(c):
    """(logpdf up to a constant, domain, frozen reference, start)."""
    k, a, b, loc = c['kind'], c['a'], c['b'], c['loc']
    if k == 'normal':
        d, D = st.norm(loc, b), (-INF, INF)
    elif k == 'expon':
        d, D = st.expon(scale=b), (0, INF)
    elif k == 'gamma':
        d, D = st.gamma(a, scale=b), (0, INF)
    elif k == 'beta':
        d, D = st.beta(a, b + 1), (0, 1)
    elif k == 'tnorm':
        lo, hi = loc - a, loc + b
        d, D = st.truncnorm(-a, b, loc, 1.), (lo, hi)
    elif k == 'tnorm-left':
        d, D = st.truncnorm(-b, INF, loc, 1.), (loc - b, INF)
    elif k == 'uniform':
        d, D = st.uniform(loc, b), (loc, loc + b)
    elif k == 'triangle':
        d, D = st.triang(.3, loc, 4.), (loc, loc + 4.)
    elif k == 'expon-trunc':
        d, D = st.truncexpon(a, loc, 1.), (loc, loc + a)
    elif k == 'holes':
        # Uniform pieces separated by gaps of zero density.
        f = lambda x: 0. if 0 <= x <= 1 or 1.2 <= x <= 2 else -INF
        return f, (-1., 3.), None, .5
    elif k == 'half':
        # Positive only on the right half of its domain.
        f = lambda x: -x if x > loc else -INF
        return f, (loc - 2., loc + 5.), None, loc + .5
    return fast(c), D, d, float(d.median())


def fast(c):
    """The target up to a constant, in plain arithmetic."""
    k, a, b, loc = c['kind'], c['a'], c['b'], c['loc']
    log = lambda x: math.log(x) if x > 0 else -INF
    if k == 'normal':
        return lambda x: -.5 * ((x - loc) / b) ** 2
    if k == 'expon':
        return lambda x: -x / b if x >= 0 else -INF
    if k == 'gamma':
        return lambda x: (a - 1) * log(x) - x / b if x > 0 else (
            0. if a == 1. and x == 0 else -INF)
    if k == 'beta':
        return lambda x: (-INF if not 0 < x < 1 else
            (a - 1) * log(x) + b * log(1 - x))
    if k in ('tnorm', 'tnorm-left'):
        return lambda x: -.5 * (x - loc) ** 2
    if k == 'uniform':
        return lambda x: 0.
    if k == 'triangle':
        return lambda x: log(x - loc) - log(1.2) if x <= loc + 1.2 \
            else log(loc + 4. - x) - log(2.8)
    if k == 'expon-trunc':
        return lambda x: -(x - loc)
    raise ValueError(k)


def guarded(c):
    f, D, d, x0 = realise(c)

    def g(x):
        if not D[0] <= x <= D[1]:
            fail('target evaluated at %r outside the domain %r', x, D)
        return float(f(x)) + c['const']
    return g, D, d, x0


def samplers(c, f, D, x0, rng):
    s = c['scale']
    width = D[1] - D[0]
    if math.isinf(width):
        width = 4.
    return {
        'mh': lambda n, burn, lag: su.mh_sample(x0, f, s * width / 3., D,
            num_samples=n, burn=burn, lag=lag, rng=rng),
        'slice': lambda n, burn, lag: su.slice_sample(lambda: x0, f, D,
            num_samples=n, burn=burn, lag=lag, w=s, rng=rng)}


@PROP.sub('domain', hs.fixed_dictionaries({'t': target(True),
    'n': hs.integers(0, 12), 'burn': hs.integers(0, 10),
    'lag': hs.integers(1, 5)}), quick=1500)
def domain(c):
    f, D, d, x0 = guarded(c['t'])
    rng = np.random.RandomState(c['t']['seed'])
    for name, sample in samplers(c['t'], f, D, x0, rng).items():
        xs = sample(c['n'], c['burn'], c['lag'])
        if c['n'] == 1:
            check(np.isscalar(xs), '%s: one sample is %r', name, xs)
            xs = [xs]
        equal('%s: number of samples' % name, len(xs), c['n'])
        for x in xs:
            check(D[0] <= x <= D[1], '%s: %r outside %r', name, x, D)
            check(f(x) > -INF, '%s: %r has zero density', name, x)
    return {'nontrivial': c['t']['kind'] != 'uniform',
        'labels': [c['t']['kind']]}


@PROP.sub('defaults', target(True), quick=200)
def defaults(c):
    f, D, d, x0 = guarded(c)
    rng = np.random.RandomState(c['seed'])
    for x in (su.mh_sample(x0, f, c['scale'], D, rng=rng),
            su.slice_sample(lambda: x0, f, D, rng=rng)):
        check(np.isscalar(x) and D[0] <= x <= D[1] and f(x) > -INF,
            'sample %r', x)
    r = np.random.RandomState(c['seed'])
    for bad in (D[0] - 1., D[1] + 1.):
        if not math.isinf(bad):
            raises('start %r outside %r' % (bad, D), AssertionError,
                lambda: su.mh_sample(bad, f, c['scale'], D, rng=r))


def long_run(name, quick):
    @PROP.sub(name + '-long-run', target(), quick=quick, timeout=120)
    def run(c):
        f, D, d, x0 = guarded(c)
        rng = np.random.RandomState(c['seed'])
        if name == 'slice' and math.isinf(D[1] - D[0]) is False \
                and c['scale'] > D[1] - D[0]:
            pass
        lag = 25 if name == 'mh' else 6
        sample = samplers(c, f, D, x0, rng)[name]
        stats.continuous('%s over %r' % (name, c),
            lambda n: sample(n, 50, lag), d.cdf, n1=250, n2=4000)
        return {'nontrivial': c['kind'] != 'uniform', 'labels': [c['kind']]}
    return run


long_run('mh', 160)
long_run('slice', 160)


@PROP.sub('thinning', hs.fixed_dictionaries({'t': target(),
    'n': hs.integers(2, 8), 'burn': hs.integers(1, 30),
    'more': hs.integers(0, 12), 'lag': hs.integers(1, 6)}), quick=1000)
def thinning(c):
    """A lag keeps every lag-th sample of the same walk, and burning longer
    drops samples from its start."""
    f, D, d, x0 = guarded(c['t'])
    n, burn, lag, more = c['n'], c['burn'], c['lag'], c['more']
    for name in ('mh', 'slice'):
        def sample(n, burn, lag):
            return samplers(c['t'], f, D, x0, np.random.RandomState(
                c['t']['seed']))[name](n, burn, lag)
        every = sample(n * lag, burn, 1)
        kept = sample(n, burn, lag)
        check(any(every[o::lag][:n] == kept for o in range(lag)), '%s, burn '
            '%d: with a lag of %d samples are %r, and without %r', name,
            burn, lag, kept, every)
        every, kept = sample(n + more, burn, 1), sample(n, burn + more, 1)
        check(every[more:] == kept, '%s: after burning %d samples are %r, '
            'and after %d: %r', name, burn + more, kept, burn, every)
    return {'nontrivial': lag > 1}


@PROP.sub('first-samples', hs.fixed_dictionaries({'t': target(),
    'how': hs.sampled_from(['mh', 'slice']), 'burn': hs.booleans(),
    'tail': hs.sampled_from([.004, .02, .98])}), quick=32, timeout=120)
def first_samples(c):
    """The first sample comes after the requested number of iterations."""
    f, D, d, _x0 = guarded(c['t'])
    x0 = float(d.ppf(c['tail']))
    sd = float(d.std())
    rng = np.random.RandomState(c['t']['seed'])
    steps = 80 if c['how'] == 'mh' else 30
    kw = {'burn': steps, 'lag': 1} if c['burn'] else {'burn': 0, 'lag': steps}

    def draw(n):
        if c['how'] == 'mh':
            return [su.mh_sample(x0, f, 2.4 * sd, D, rng=rng, **kw)
                for _ in range(n)]
        return [su.slice_sample(lambda: x0, f, D, w=2. * sd, rng=rng, **kw)
            for _ in range(n)]
    stats.continuous('first sample of %r' % c, draw, d.cdf, n1=200, n2=3000)
    return {'nontrivial': c['t']['kind'] != 'uniform', 'labels': [c['how']]}


@PROP.sub('slice-holes', hs.fixed_dictionaries({'seed': hs.integers(0,
    2**31 - 1), 'w': hs.sampled_from([.5, 1., 1.5, 3.])}), quick=40,
    timeout=120)
def slice_bimodal(c):
    """A multimodal target whose modes are connected."""
    f = lambda x: float(np.logaddexp(st.norm.logpdf(x, -1.2, .6),
        st.norm.logpdf(x, 1.2, .9) + .5))
    w = math.exp(.5)
    cdf = lambda x: (st.norm.cdf(x, -1.2, .6) + w * st.norm.cdf(x, 1.2, .9)
        ) / (1 + w)
    rng = np.random.RandomState(c['seed'])
    stats.continuous('slice over two modes, w=%r' % c['w'],
        lambda n: su.slice_sample(lambda: 0., f, (-INF, INF), num_samples=n,
            burn=20, lag=12, w=c['w'], rng=rng), cdf, n1=200, n2=3000)


@PROP.sub('rejection', hs.fixed_dictionaries({'t': target(),
    'c': hs.sampled_from([1.2, 2., 4.]), 'n': hs.integers(0, 5),
    'low': hs.booleans()}), quick=300, timeout=120)
def rejection(c):
    _f, D, d, _x0 = realise(c['t'])
    rng = np.random.RandomState(c['t']['seed'])
    lo, hi = d.ppf(1e-9), d.ppf(1 - 1e-9)
    lo, hi = max(lo, D[0]), min(hi, D[1])
    top = max(float(d.pdf(x)) for x in np.linspace(lo + 1e-9, hi - 1e-9,
        400)) * 1.2 * c['c']
    box = (lo, hi)
    tgt = lambda x: float(d.pdf(x))
    q = lambda x: top
    draw = lambda: rng.uniform(*box)
    xs = su.rejection_sample(tgt, q, draw, N=c['n'], rng=rng)
    if c['n'] == 1:
        check(np.isscalar(xs), 'one sample is %r', xs)
    else:
        equal('number of samples', len(xs), c['n'])
    if c['low']:
        bad = min(tgt(float(d.median())), 1e9) / 50.
        raises('proposal below the target', AssertionError,
            lambda: su.rejection_sample(tgt, lambda x: bad, draw, N=50,
                rng=rng))
    stats.continuous('rejection over %r' % c['t'],
        lambda n: su.rejection_sample(tgt, q, draw, N=n, rng=rng), d.cdf,
        n1=120, n2=2000)
    return {'nontrivial': c['t']['kind'] != 'uniform'}
