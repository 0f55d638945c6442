"""C15: mutual information and entropy estimates."""

import itertools
import math

import numpy as np
import scipy.stats as st_

from vlib import mix, stats
from vlib.harness import Property, check, equal, same, hs, fail, raises

TECHNIQUE = ('property-based testing: generated discrete crosscat states and '
    'queries; Monte Carlo estimates against enumeration of the joint, with '
    'exactly known estimator variance (two-stage chi-square test)')
NOTE = ('Statistical, second-stage threshold 1e-9. The variance of the '
    'estimator is enumerated, so that ignored sample counts show as well.')
PROP = Property('C15',
    'Cases are states of 2-4 bernoulli and categorical columns in up to 3 '
    'views, disjoint or equal target sets, and fixed or marginalised '
    'conditioning columns. Non-trivial: the exact value exceeds 0.01.',
    ['MI(X:Y|Z,W=w) is the average over Z given W=w'])


def structured(seed, D):
    """A mixture of clusters with pure and mixed columns: strong dependence,
    of different strength in different regions."""
    rng = np.random.RandomState(seed)
    K, n = rng.randint(2, 4), rng.randint(10, 19)
    cols = [{'col': int(i), 'dist': 'categorical', 'distargs': {'k':
        int(rng.randint(2, 4))}, 'hypers': {'alpha': .1}}
        for i in rng.permutation(12)[:D]]
    pure = rng.uniform(size=(K, D)) < .6
    mode = [[int(rng.randint(c['distargs']['k'])) for c in cols]
        for _ in range(K)]
    z = [int(rng.randint(K)) for _ in range(n)]
    rows = [[float(mode[k][j] if pure[k, j] else rng.randint(
        cols[j]['distargs']['k'])) for j in range(D)] for k in z]
    return {'cols': cols, 'rows': rows, 'Zv': [[c['col'], 0] for c in cols],
        'Zr': [[0, z]], 'alpha': 1., 'view_alphas': [[0, .3]]}


@hs.composite
def case(draw, marginal=False):
    s = draw(mix.spec(min_cols=3 if marginal else 2, max_cols=4, min_rows=2,
        max_rows=8, max_views=2, dists=['bernoulli', 'categorical']))
    for c in s['cols']:
        if c['dist'] == 'categorical':
            c['distargs'] = {'k': min(3, c['distargs']['k'])}
            j = s['cols'].index(c)
            for r in s['rows']:
                if r[j] is not None:
                    r[j] = r[j] % c['distargs']['k']
        strong = draw(hs.booleans())
        c['hypers'] = {k: .2 if strong else min(3., max(.3, x))
            for k, x in c['hypers'].items()}
    if draw(hs.booleans()) or marginal and draw(hs.booleans()):
        s = structured(draw(hs.integers(0, 2**31 - 1)), len(s['cols']))
    elif draw(hs.booleans()):
        # All columns together.
        v = s['Zr'][0][0]
        s['Zv'] = [[c, v] for c, _ in s['Zv']]
        s['Zr'], s['view_alphas'] = s['Zr'][:1], s['view_alphas'][:1]
    order = draw(hs.permutations(mix.ids(s)))
    entropy = draw(hs.booleans())
    n = len(order)
    if entropy:
        t = draw(hs.integers(1, max(1, n - 2 if marginal else n - 1)))
        a, b, rest = order[:t], draw(hs.permutations(order[:t])), order[t:]
    else:
        t = draw(hs.integers(1, n - 1))
        u = draw(hs.integers(1, n - t))
        a, b, rest = order[:t], order[t:t + u], order[t + u:]
    cons = []
    for x in rest:
        kind = draw(hs.sampled_from(['fix', 'fix', 'out'] if not marginal
            else ['marginal', 'fix', 'out']))
        if kind == 'fix':
            d = mix.by_col(s)[x]
            cons.append([x, draw(hs.integers(0, levels(d) - 1))])
        elif kind == 'marginal':
            cons.append([x, None])
    if marginal and len(rest) > 1 and draw(hs.booleans()):
        # One of each kind.
        d = mix.by_col(s)[rest[0]]
        cons = [[rest[0], draw(hs.integers(0, levels(d) - 1))],
            [rest[1], None]]
    return {'spec': s, 'a': list(a), 'b': list(b), 'cons': cons,
        'seed': draw(hs.integers(0, 2**31 - 1))}


def levels(d):
    return 2 if d['dist'] == 'bernoulli' else d['distargs']['k']


def assignments(s, cols):
    d = mix.by_col(s)
    for x in itertools.product(*[range(levels(d[c])) for c in cols]):
        yield dict(zip(cols, x))


def moments(s, v, a, b, fixed):
    """(mean, variance) of one inner term, in view v."""
    merged = dict
    lp = lambda T: mix.view_logpdf(s, v, T, fixed)
    ent = set(a) == set(b)
    cols = list(a) if ent else list(a) + list(b)
    m = m2 = 0.
    for x in assignments(s, cols):
        l = lp(x)
        if l == -mix.INF:
            continue
        t = -l if ent else l - lp({c: x[c] for c in a}) - lp(
            {c: x[c] for c in b})
        p = math.exp(l)
        m += p * t
        m2 += p * t * t
    return m, max(0., m2 - m * m)


def exact(c, N, T):
    """(value, variance of the estimate with N inner and T outer samples)"""
    s = c['spec']
    z = mix.zv(s)
    value = variance = 0.
    for v in mix.zr(s):
        a = [x for x in c['a'] if z[x] == v]
        b = [x for x in c['b'] if z[x] == v]
        if not a or not b:
            continue
        cons = {x: y for x, y in c['cons'] if z[x] == v}
        fixed = {x: y for x, y in cons.items() if y is not None}
        free = [x for x in cons if cons[x] is None]
        if not free:
            m, w = moments(s, v, a, b, fixed)
            value += m
            variance += w / N
            continue
        e = e2 = inner = 0.
        for y in assignments(s, free):
            p = math.exp(mix.view_logpdf(s, v, y, fixed))
            m, w = moments(s, v, a, b, dict(fixed, **{}) | y)
            e += p * m
            e2 += p * m * m
            inner += p * w
        value += e
        variance += (max(0., e2 - e * e) + inner / N) / T
    return value, variance


def estimates(c, st, R, N, T):
    cons = mix.dic(c['cons'])
    out = []
    for _ in range(R):
        a, b, k = list(c['a']), list(c['b']), dict(cons)
        x = st.mutual_information(a, b, k if k or c['seed'] % 2 else None,
            T=T, N=N)
        check((a, b, k) == (c['a'], c['b'], cons), 'arguments changed: %r',
            (a, b, k))
        out.append(float(x))
    return np.asarray(out)


def compare(c, N, T, R, scale):
    s = c['spec']
    st = mix.build(s, c['seed'])
    before = mix.fingerprint(st)
    what = 'mutual_information(%r, %r, %r)' % (c['a'], c['b'],
        mix.dic(c['cons']))

    def once(R, N, T):
        value, variance = exact(c, N, T)
        got = estimates(c, st, R, N, T)
        if variance < 1e-14:
            for x in got:
                same(what, x, value, 1e-6, 1e-6)
            return 1., value, got, 0.
        z = (got - value) / math.sqrt(variance)
        return st_.chi2.sf((z ** 2).sum(), R), value, got, math.sqrt(variance)
    p, value, got, sd = once(R, N, T)
    if p < 1e-3:
        # Larger samples are closer to normal.
        p, value, got, sd = once(2 * R, scale * N, scale * T)
        if p < 1e-9:
            fail('%s: estimates %r (N=%d, T=%d), exact value %.6f with '
                'standard error %.2g (p=%.2g)', what, got.round(5).tolist(),
                scale * N, scale * T, value, sd, p)
    mix.unchanged(what, st, before)
    z = mix.zv(s)
    if not set(z[x] for x in c['a']) & set(z[x] for x in c['b']):
        check(all(x == 0 for x in got), '%s between columns of different '
            'views: %r', what, got.tolist())
    return {'nontrivial': value > .01, 'labels': ['entropy' if
        set(c['a']) == set(c['b']) else 'mi']}


@PROP.sub('fixed-conditions', case(), quick=240, thorough=5000)
def fixed(c):
    return compare(c, 200, 1, 4, 12)


@PROP.sub('marginal-conditions', case(True), quick=160, thorough=3000)
def marginal(c):
    return compare(c, 2, 300, 3, 6)


@hs.composite
def wide_case(draw):
    """Many conditioning columns in one view, most of them marginalised."""
    n = draw(hs.integers(5, 7))
    s = structured(draw(hs.integers(0, 2**31 - 1)), n)
    order = draw(hs.permutations(mix.ids(s)))
    ent = draw(hs.booleans())
    a, b = order[:1], order[:1] if ent else order[1:2]
    rest = [x for x in order if x not in a + b]
    cons = [[x, None] for x in rest]
    for i in range(draw(hs.integers(0, len(rest) - 3))):
        d = mix.by_col(s)[rest[i]]
        cons[i] = [rest[i], draw(hs.integers(0, levels(d) - 1))]
    return {'spec': s, 'a': list(a), 'b': list(b), 'cons': cons,
        'seed': draw(hs.integers(0, 2**31 - 1))}


@PROP.sub('many-marginal-conditions', wide_case(), quick=40, thorough=800)
def wide(c):
    return compare(c, 2, 300, 2, 6)


@PROP.sub('convergence', case(), quick=16, thorough=400)
def convergence(c):
    return compare(c, 4000, 1, 3, 2)


# --------------------------------------------------------------------------

@hs.composite
def bad_case(draw):
    s = draw(mix.spec(min_cols=3, max_cols=5, max_rows=3))
    order = draw(hs.permutations(mix.ids(s)))
    return {'spec': s, 'order': order, 'kind': draw(hs.sampled_from([
        'target constrained', 'second constrained', 'partial', 'partial2',
        'subset', 'marginal target'])), 'seed': draw(hs.integers(0, 99)),
        'swap': draw(hs.booleans())}


@PROP.sub('rejections', bad_case(), quick=2000)
def rejections(c):
    s = c['spec']
    st = mix.build(s, c['seed'])
    before = mix.fingerprint(st)
    x, y, z = c['order'][:3]
    dist = mix.by_col(s)
    one = 1.
    a, b, k = {
        'target constrained': ([x], [y], {x: one}),
        'second constrained': ([x], [y, z], {z: one}),
        'marginal target': ([x], [y], {y: None}),
        'partial': ([x, y], [y, z], {}),
        'partial2': ([x, y], [z, x], {}),
        'subset': ([x, y], [y], {}),
    }[c['kind']]
    if c['swap']:
        a, b = b, a
    raises('mutual_information(%r, %r, %r)' % (a, b, k), ValueError,
        lambda: st.mutual_information(a, b, dict(k), N=2, T=2))
    mix.unchanged('refused mutual_information', st, before)
    return {'nontrivial': True, 'labels': [c['kind']]}


@hs.composite
def apart_case(draw):
    s = draw(mix.spec(min_cols=2, max_cols=4, max_rows=4))
    return {'spec': s, 'seed': draw(hs.integers(0, 99)),
        'x': draw(hs.sampled_from(mix.ids(s))),
        'y': draw(hs.sampled_from(mix.ids(s)))}


@PROP.sub('independent-columns', apart_case(), quick=600)
def apart(c):
    """Exactly zero, whatever the types and the conditions."""
    s = c['spec']
    st = mix.build(s, c['seed'])
    z = mix.zv(s)
    if z[c['x']] == z[c['y']]:
        return {'nontrivial': False}
    rest = [i for i in mix.ids(s) if i not in (c['x'], c['y'])]
    for cons in [None] + [{i: None} for i in rest]:
        x = st.mutual_information([c['x']], [c['y']], cons, N=3, T=2)
        check(x == 0, 'mutual information %r of columns in different views '
            'given %r', x, cons)
    return {'nontrivial': True}
