"""Two-stage goodness-of-fit tests.

A sampler is only reported when a first sample looks wrong (p < P1) *and* a
larger independent second sample is wildly improbable (p < P2), so a correct
sampler is reported about once in 1/P2 suspicious cases.  Outcomes of zero
probability are reported at once.
"""

import collections
import math

import numpy as np
import scipy.stats as st

from vlib.harness import fail

P1 = 2e-3
P2 = 1e-8


def chi2_p(counts, probs):
    """p-value of observed counts (dict) against probabilities (dict)."""
    n = sum(counts.values())
    items = sorted(probs, key=lambda k: -probs[k])
    cells, rest_o, rest_e = [], 0, 0.
    for k in items:
        e = n * probs[k]
        if e >= 5:
            cells.append((counts.get(k, 0), e))
        else:
            rest_o += counts.get(k, 0)
            rest_e += e
    rest_o += sum(c for k, c in counts.items() if k not in probs)
    # Mass not listed in probs is an unlisted tail.
    rest_e += max(0., n - n * sum(probs.values()))
    p_rest = 1.
    if rest_e >= 5:
        cells.append((rest_o, rest_e))
    elif rest_o > rest_e:
        p_rest = st.poisson.sf(rest_o - 1, rest_e + 1e-12)
    if len(cells) < 2:
        return min(1., 2 * p_rest)
    # Binomial bound for each cell guards the chi-square approximation.
    x2 = sum((o - e) ** 2 / e for o, e in cells)
    p = st.chi2.sf(x2, len(cells) - 1)
    return min(1., 2 * min(p, p_rest))


def discrete(what, draw, probs, n1=400, n2=6000, tail=False):
    """draw(n) -> n outcomes; probs: outcome -> probability.

    tail: probs does not list every outcome of positive probability.
    """
    total = sum(probs.values())
    if not tail and abs(total - 1.) > 1e-6:
        fail('%s: reference probabilities sum to %r', what, total)

    def once(n):
        xs = draw(n)
        if len(xs) != n:
            fail('%s: %d samples instead of %d', what, len(xs), n)
        counts = collections.Counter(xs)
        for x in counts:
            if (x not in probs and not tail) or probs.get(x, 1.) <= 0:
                fail('%s: sampled %r which has probability zero', what, x)
        return chi2_p(counts, probs), counts
    p, counts = once(n1)
    if p < P1:
        p, counts = once(n2)
        if p < P2:
            top = sorted(probs, key=lambda k: -probs[k])[:8]
            fail('%s: frequencies %s do not follow probabilities %s (p=%.2g)',
                what, {k: round(counts.get(k, 0) / float(n2), 4)
                    for k in top},
                {k: round(probs[k], 4) for k in top}, p)


def continuous(what, draw, cdf, n1=300, n2=5000):
    """draw(n) -> n floats; cdf: vectorised reference CDF."""
    def once(n):
        xs = np.asarray(draw(n), dtype=float)
        if xs.shape != (n,):
            fail('%s: samples of shape %r instead of %d', what, xs.shape, n)
        if np.any(np.isnan(xs)):
            fail('%s: sampled nan', what)
        return st.kstest(xs, cdf).pvalue, xs
    p, xs = once(n1)
    if p < P1:
        p, xs = once(n2)
        if p < P2:
            fail('%s: samples do not follow the density (KS p=%.2g; quantiles '
                '%s have CDF %s)', what, p,
                np.round(np.quantile(xs, [.1, .5, .9]), 4).tolist(),
                np.round(cdf(np.quantile(xs, [.1, .5, .9])), 4).tolist())


def two_sample(what, draw_a, draw_b, n1=300, n2=5000):
    """Two continuous samplers follow the same distribution."""
    def once(n):
        a, b = np.asarray(draw_a(n), float), np.asarray(draw_b(n), float)
        return st.ks_2samp(a, b).pvalue, a, b
    p, a, b = once(n1)
    if p < P1:
        p, a, b = once(n2)
        if p < P2:
            fail('%s: two samplers disagree (KS p=%.2g; quantiles %s and %s)',
                what, p, np.quantile(a, [.1, .5, .9]).tolist(),
                np.quantile(b, [.1, .5, .9]).tolist())


def mean(what, draw, expected, n1=400, n2=8000):
    """The sampler's mean is `expected` (finite variance assumed)."""
    def once(n):
        xs = np.asarray(draw(n), dtype=float)
        s = xs.std(ddof=1)
        if s <= 1e-9 * abs(expected):
            return (1. if abs(xs[0] - expected) <= 1e-9 + 1e-6 * abs(
                expected) else 0.), xs
        t = (xs.mean() - expected) / (s / math.sqrt(n))
        return 2 * st.norm.sf(abs(t)), xs
    p, xs = once(n1)
    if p < P1:
        p, xs = once(n2)
        if p < P2:
            fail('%s: mean %r instead of %r (p=%.2g)', what, xs.mean(),
                expected, p)


def correlation(what, draw, n1=400, n2=6000):
    """draw(n) -> pairs of independent variables."""
    def once(n):
        xy = np.asarray(draw(n), dtype=float)
        if xy[:, 0].std() == 0 or xy[:, 1].std() == 0:
            return 1., 0.
        r = st.spearmanr(xy[:, 0], xy[:, 1])
        return r.pvalue, r.statistic
    p, r = once(n1)
    if p < P1:
        p, r = once(n2)
        if p < P2:
            fail('%s: correlation %.4f between independent draws (p=%.2g)',
                what, r, p)


def dispersion(what, batch, prob, N, b1=40, b2=400):
    """batch() -> how many of N draws of one call show an event.

    The N draws of a call are independent, so that the count is binomial:
    neither its mean nor its spread over calls may differ.
    """
    sd2 = N * prob * (1 - prob)

    def once(b):
        xs = np.array([batch() for _ in range(b)], dtype=float)
        q = ((xs - N * prob) ** 2).sum() / sd2
        return 2 * min(st.chi2.cdf(q, b), st.chi2.sf(q, b)), xs
    p, xs = once(b1)
    if p < P1:
        p, xs = once(b2)
        if p < P2:
            fail('%s: an event of probability %.4f happens %.2f times in %d '
                'draws of one call with variance %.3f instead of %.2f times '
                'with variance %.3f (p=%.2g)', what, prob, xs.mean(), N,
                xs.var(), N * prob, sd2, p)


def independent(what, batch, b1=40, b2=400):
    """batch() -> outcomes of N draws of one call, each True or False.

    Whatever the probability of the event (estimated from all calls), its
    number over the calls has the spread of independent draws.
    """
    def once(b):
        xs = [batch() for _ in range(b)]
        N = len(xs[0])
        xs = np.array([sum(x) for x in xs], dtype=float)
        prob = xs.mean() / N
        if not .1 < prob < .9:
            return 1., xs, prob, N
        q = ((xs - xs.mean()) ** 2).sum() / (N * prob * (1 - prob))
        return 2 * min(st.chi2.cdf(q, b - 1), st.chi2.sf(q, b - 1)), xs, \
            prob, N
    p, xs, prob, N = once(b1)
    if p < P1:
        p, xs, prob, N = once(b2)
        if p < P2:
            fail('%s: an event of estimated probability %.4f has variance '
                '%.3f among %d draws of one call where independent draws '
                'have %.3f (p=%.2g)', what, prob, xs.var(), N,
                N * prob * (1 - prob), p)
    return .1 < prob < .9
