"""C31: synthetic data generators and example models."""

import math

import numpy as np
import scipy.stats as st

from vlib import prims, stats
from vlib.harness import Property, check, equal, fail, hs, isclose, raises, \
    same

TECHNIQUE = ('property-based testing: generated settings of every generator '
    'and query of every example model against the support of the column '
    'types, the requested structure, closed forms '
    'and goodness of fit of the samples')
NOTE = ('Random search with shrinking. Densities are compared with '
    'closed forms written from the documentation, whose distribution functions '
    'are the reference of the samples.')
PROP = Property('C31',
    'Cases are generator settings (1-8 columns of any type, 1-4 views, 1-4 '
    'clusters) and queries of the bundled example models with generated '
    'noise, names and inputs. Non-trivial: more than one column and cluster '
    '(generators), any query (models).',
    ['separation strictly between 0 and 1; truncation intervals of length '
     'at least 2'])

INF = float('inf')
PI = math.pi

# --------------------------------------------------------------------------
# Generators.

KINDS = ['normal', 'lognormal', 'poisson', 'exponential', 'geometric',
    'beta', 'bernoulli', 'categorical', 'vonmises', 'normal_trunc']


@hs.composite
def simplex(draw, n):
    w = draw(hs.lists(hs.integers(1, 9), min_size=n, max_size=n))
    return [x / float(sum(w)) for x in w]


@hs.composite
def column(draw):
    kind = draw(hs.sampled_from(KINDS))
    args = None
    if kind == 'categorical':
        args = {'k': draw(hs.integers(2, 6))}
    elif kind == 'normal_trunc':
        l = draw(hs.integers(-8, 8))
        args = {'l': l, 'h': l + draw(hs.integers(2, 12))}
    return [kind, args, draw(hs.integers(5, 99)) / 100.]


@hs.composite
def table_case(draw):
    cols = draw(hs.lists(column(), min_size=1, max_size=8))
    V = draw(hs.integers(1, min(4, len(cols))))
    clusters = [draw(hs.integers(1, 4)) for _ in range(V)]
    part = None
    if draw(hs.booleans()):
        part = draw(hs.permutations(list(range(V)) + [draw(hs.integers(0,
            V - 1)) for _ in range(len(cols) - V)]))
    return {'cols': cols, 'vw': draw(simplex(V)),
        'cw': [draw(simplex(k)) for k in clusters], 'part': part,
        'n': draw(hs.integers(max(clusters), 40)),
        'seed': draw(hs.integers(0, 2**31 - 1))}


def generate(c, seed):
    from cgpm.utils import test as tu
    return tu.gen_data_table(c['n'], list(c['vw']), [list(w) for w in
        c['cw']], [k for k, _, _ in c['cols']], [a and dict(a) for _, a, _ in
        c['cols']], [s for _, _, s in c['cols']], view_partition=c['part'],
        rng=np.random.RandomState(seed))


def support(kind, args, x):
    if not np.isfinite(x):
        return False
    if kind == 'normal':
        return True
    if kind == 'lognormal':
        return x > 0
    if kind in ('poisson', 'geometric'):
        return x >= 0 and x == int(x)
    if kind == 'exponential':
        return x >= 0
    if kind == 'beta':
        return 0 <= x <= 1
    if kind == 'bernoulli':
        return x in (0, 1)
    if kind == 'categorical':
        return x in range(args['k'])
    if kind == 'vonmises':
        return 0 <= x <= 2 * PI + 1e-9
    return args['l'] <= x <= args['h']


def hypers_of(kind):
    from cgpm.utils import config as cu
    return cu.cctype_class(kind)


@PROP.sub('tables', table_case(), quick=700)
def tables(c):
    state = np.random.get_state()[1].copy()
    T, Zv, Zc = generate(c, c['seed'])
    check(np.array_equal(state, np.random.get_state()[1]),
        'the global random state was used')
    D, V = len(c['cols']), len(c['cw'])
    check(np.shape(T) == (D, c['n']), 'data of shape %r for %d columns and '
        '%d rows', np.shape(T), D, c['n'])
    check(len(Zv) == D and sorted(set(map(int, Zv))) == list(range(V)),
        'view partition %r for %d columns in %d views', Zv, D, V)
    if c['part']:
        equal('given view partition', list(Zv), list(c['part']))
    check(len(Zc) == V, '%d row partitions for %d views', len(Zc), V)
    for v in range(V):
        check(len(Zc[v]) == c['n'] and sorted(set(map(int, Zc[v]))) ==
            list(range(len(c['cw'][v]))), 'row partition %r for %d rows in '
            '%d clusters', Zc[v], c['n'], len(c['cw'][v]))
    for j, (kind, args, _) in enumerate(c['cols']):
        bad = [x for x in T[j] if not support(kind, args, x)]
        check(not bad, '%s column with values %r', kind, bad[:3])
        m = hypers_of(kind)([0], [], distargs=args, rng=np.random.
            RandomState(0))
        for i, x in enumerate(T[j][:5]):
            m.incorporate(i, {0: float(x)})
        check(np.isfinite(m.logpdf_score()), '%s column %r has score %r',
            kind, T[j][:5], m.logpdf_score())
    again = generate(c, c['seed'])
    check(np.array_equal(T, again[0]) and list(Zv) == list(again[1]) and
        [list(z) for z in Zc] == [list(z) for z in again[2]],
        'a second run with the same seed gives another table')
    return {'nontrivial': D > 1 and max(map(len, c['cw'])) > 1,
        'labels': sorted(set(k for k, _, _ in c['cols']))}


@PROP.sub('partitions', hs.tuples(hs.integers(1, 4).flatmap(simplex),
    hs.integers(0, 6), hs.integers(0, 2**31 - 1)), quick=150, thorough=1500)
def partitions(c):
    """Every block occurs, positions are exchangeable, the rest follows."""
    from cgpm.utils import test as tu
    w, extra, seed = c
    K = len(w)
    N = K + extra
    rng = np.random.RandomState(seed)
    for pos in sorted({0, N - 1}):
        def draw(n):
            out = []
            for _ in range(n):
                Z = tu.gen_partition(N, list(w), rng)
                check(len(Z) == N and sorted(set(Z)) == list(range(K)),
                    'partition %r of %d items with weights %r', Z, N, w)
                out.append(int(Z[pos]))
            return out
        stats.discrete('block of item %d of %d' % (pos, N), draw,
            {k: (1 + extra * w[k]) / N for k in range(K)}, 200, 4000)
    return {'nontrivial': K > 1 and extra > 0}


@PROP.sub('separation', hs.tuples(hs.sampled_from([k for k in KINDS
    if k != 'categorical']), hs.integers(0, 2**31 - 1)), quick=60,
    thorough=600)
def separation(c):
    """Clusters are further apart when more separation is requested."""
    from cgpm.utils import test as tu
    kind, seed = c
    args = {'l': -10, 'h': 10} if kind == 'normal_trunc' else None

    def gap(sep, n, seed):
        T, _, Zc = tu.gen_data_table(2 * n, [1.], [[.5, .5]], [kind], [args],
            [sep], rng=np.random.RandomState(seed))
        x, z = np.array(T[0], float), np.array(Zc[0])
        if kind == 'lognormal':
            x = np.log(x)
        a, b = x[z == 0], x[z == 1]
        if kind == 'vonmises':
            a, b = [np.exp(1j * u) for u in (a, b)]
        return abs(a.mean() - b.mean()) / math.sqrt(
            (np.var(a) + np.var(b)) / 2. + 1e-12)
    if gap(.95, 300, seed) <= gap(.15, 300, seed):
        g = gap(.95, 3000, seed + 1), gap(.15, 3000, seed + 1)
        check(g[0] > g[1], 'standardised distance between clusters of %s '
            'columns: %r with separation .95, %r with .15', kind, *g)
    return {'nontrivial': True, 'labels': [kind]}


@PROP.sub('weights', hs.tuples(hs.integers(2, 4).flatmap(simplex),
    hs.integers(2, 3).flatmap(simplex), hs.integers(0, 2**31 - 1)),
    quick=60, thorough=600)
def weights(c):
    """Views and clusters have the requested proportions."""
    from cgpm.utils import test as tu
    cw, vw, seed = c
    rng = np.random.RandomState(seed)

    def once(n):
        kinds = ['bernoulli'] * n
        _, Zv, Zc = tu.gen_data_table(n, list(vw), [list(cw)] * len(vw),
            kinds, [None] * n, [.5] * n, rng=rng)
        return Zv, Zc
    for name, w, pick in (('columns', vw, lambda r: r[0]),
            ('rows', cw, lambda r: r[1][-1])):
        K = len(w)

        def draw(n):
            out = []
            while len(out) < n:
                Z = list(map(int, pick(once(12))))
                # One item at random, so that items are independent.
                out.append(Z[rng.randint(12)])
            return out
        stats.discrete('proportions of ' + name, draw, {k: (1 + (12 - K) *
            w[k]) / 12. for k in range(K)}, 100, 2000)
    return {'nontrivial': True}


# --------------------------------------------------------------------------
# Example models.

@hs.composite
def model_case(draw, kinds):
    outs = draw(hs.lists(hs.integers(0, 20), min_size=4, max_size=4,
        unique=True))
    q = hs.integers(-12, 12).map(lambda i: i / 4.)
    return {'kind': draw(hs.sampled_from(kinds)), 'names': outs,
        'noise': draw(hs.integers(2, 18)) / 20.,
        'flip': draw(hs.integers(1, 19)) / 20.,
        'default': draw(hs.booleans()), 'y': [draw(q), draw(q)],
        'at': [draw(q), draw(q)],
        'seed': draw(hs.integers(0, 2**31 - 1))}


def build(c):
    import importlib
    rng, n = np.random.RandomState(c['seed']), c['names']
    kind = c['kind']
    cls = lambda m, k: getattr(importlib.import_module('cgpm.' + m), k)
    noise = None if c['default'] else c['noise']
    if kind == 'FourWay':
        return cls('dummy.fourway', kind)(n[:1], n[2:], rng=rng)
    if kind == 'TwoWay':
        return cls('dummy.twoway', kind)(n[:1], n[2:3], rng=rng)
    if kind == 'TrollNormal':
        return cls('dummy.trollnormal', kind)(n[:1], n[2:], rng=rng)
    if kind == 'PieceWise':
        return cls('dummy.piecewise', kind)(n[:2], n[2:3], sigma=noise,
            flip=None if c['default'] else c['flip'], rng=rng)
    if kind == 'UniformX':
        return cls('uncorrelated.uniformx', kind)(n[:1], None,
            low=c['y'][0], high=c['y'][0] + .25 + abs(c['y'][1]), rng=rng)
    return cls('uncorrelated.' + kind.lower(), kind)(n[:2], None,
        noise=noise, rng=rng)


def level(c):
    if c['default']:
        return 1. if c['kind'] == 'PieceWise' else .1
    return c['noise']


def sampler(g, targets, given, inputs, one):
    """draw(n) -> n values of `one`, checking the form of the samples."""
    kw = {'inputs': inputs} if inputs else {}
    s = g.simulate(None, list(targets), dict(given) or None, **kw)
    check(isinstance(s, dict) and sorted(s) == sorted(targets),
        'sample of %r: %r', targets, s)

    def draw(n):
        ss = g.simulate(None, list(targets), dict(given) or None, N=n, **kw)
        check(len(ss) == n and all(sorted(x) == sorted(targets)
            for x in ss), 'samples of %r: %r', targets, ss[:2])
        return [one(x) for x in ss]
    return draw


@PROP.sub('discrete', model_case(['FourWay', 'TwoWay']), quick=150,
    thorough=2000)
def discrete(c):
    g, n = build(c), c['names']
    k = 4 if c['kind'] == 'FourWay' else 2
    out = n[0]
    for regime in range(k):
        if k == 4:
            a, b = abs(c['y'][0]) + .25, abs(c['y'][1]) + .25
            ins = {n[2]: a if regime in (0, 2) else -a,
                n[3]: b if regime in (0, 1) else -b}
            back = g.lookup_quadrant(*g.retrieve_y_for_x(regime))
            equal('quadrant of the inputs retrieved for it', back, regime)
            equal('quadrant of %r' % ins, g.lookup_quadrant(ins[n[2]],
                ins[n[3]]), regime)
        else:
            ins = {n[2]: regime}
            equal('input retrieved', g.retrieve_y_for_x(regime), regime)
        p = [math.exp(g.logpdf(None, {out: x}, None, dict(ins)))
            for x in range(k)]
        same('sum of the probabilities of %s at %r' % (c['kind'], ins),
            sum(p), 1., 1e-9, 0)
        check(max(range(k), key=lambda i: p[i]) == regime, 'the most likely '
            'output in regime %d has index %r', regime, p)
        for bad in (k, -1, k + 1):
            equal('log density of %d' % bad, g.logpdf(None, {out: bad}, None,
                dict(ins)), -INF)
        stats.discrete('samples of %s at %r' % (c['kind'], ins), sampler(g,
            [out], {}, ins, lambda s: int(s[out])), dict(enumerate(p)), 150,
            3000)
    if k == 4:
        raises('inputs retrieved for 4', ValueError,
            lambda: g.retrieve_y_for_x(4))
        # Borders belong to a quadrant.
        for ins in ({n[2]: 0., n[3]: 1.}, {n[2]: -1., n[3]: 0.},
                {n[2]: 0, n[3]: 0}):
            same('sum at %r' % ins, sum(math.exp(g.logpdf(None, {out: x},
                None, dict(ins))) for x in range(4)), 1., 1e-9, 0)
    return {'nontrivial': True, 'labels': [c['kind']]}


@PROP.sub('normal', model_case(['TrollNormal']), quick=60, thorough=600)
def troll(c):
    g, n = build(c), c['names']
    out, ins = n[0], dict(zip(n[2:], c['y']))
    ref = st.norm(c['y'][0], abs(c['y'][1]) + 1)
    for x in c['at'] + [c['y'][0]]:
        same('log density of %r at %r' % (x, ins), g.logpdf(None, {out: x},
            None, dict(ins)), ref.logpdf(x), 1e-9, 1e-9)
    stats.continuous('samples at %r' % ins, sampler(g, [out], {}, ins,
        lambda s: s[out]), ref.cdf)
    g.incorporate(0, {out: 1.}, dict(ins))
    g.unincorporate(0)
    g.incorporate(0, {out: 1.}, dict(ins))
    return {'nontrivial': True}


@PROP.sub('piecewise', model_case(['PieceWise']), quick=80, thorough=800)
def piecewise(c):
    g, (x, z, y, _) = build(c), c['names']
    ins, sd = {y: c['y'][0]}, level(c)
    flip = .5 if c['default'] else c['flip']
    pz = [flip, 1 - flip]
    comp = [st.norm(c['y'][0] - 1, sd), st.norm(c['y'][0] + 1, sd)]
    lp = lambda t, e=None: g.logpdf(None, t, e, dict(ins))
    near = lambda what, got, want: same(what, float(got), want, 1e-7, 1e-7)
    for v in c['at'] + [c['y'][0] + .5]:
        px = sum(p * f.pdf(v) for p, f in zip(pz, comp))
        near('log density of x=%r' % v, lp({x: v}), math.log(px))
        for k in (0, 1):
            joint = math.log(pz[k]) + comp[k].logpdf(v)
            near('log density of z=%d' % k, lp({z: k}), math.log(pz[k]))
            near('joint log density', lp({x: v, z: k}), joint)
            near('log density of x given z', lp({x: v}, {z: k}),
                comp[k].logpdf(v))
            near('log density of z given x', lp({z: k}, {x: v}),
                joint - math.log(px))
        for bad in (2, -1, .5):
            equal('log density of z=%r' % bad, lp({z: bad}), -INF)
            equal('joint log density of z=%r' % bad, lp({x: v, z: bad}),
                -INF)
            equal('log density of z=%r given x' % bad, lp({z: bad}, {x: v}),
                -INF)
    mixed = lambda v: sum(p * f.cdf(v) for p, f in zip(pz, comp))
    stats.continuous('samples of x', sampler(g, [x], {}, ins,
        lambda s: s[x]), mixed)
    stats.discrete('samples of z', sampler(g, [z], {}, ins,
        lambda s: int(s[z])), {0: pz[0], 1: pz[1]})
    stats.continuous('residuals of x and z', sampler(g, [x, z], {}, ins,
        lambda s: comp[int(s[z])].cdf(s[x])), lambda u: np.clip(u, 0, 1))
    stats.discrete('samples of z with x', sampler(g, [z, x], {}, ins,
        lambda s: int(s[z])), {0: pz[0], 1: pz[1]})
    for k in (0, 1):
        stats.continuous('samples of x given z=%d' % k, sampler(g, [x],
            {z: k}, ins, lambda s: s[x]), comp[k].cdf)
    v = c['y'][0] + c['at'][0] / 4.
    px = [p * f.pdf(v) for p, f in zip(pz, comp)]
    stats.discrete('samples of z given x=%r' % v, sampler(g, [z], {x: v},
        ins, lambda s: int(s[z])), {k: px[k] / sum(px) for k in (0, 1)})
    raises('constraint on an unknown variable', (ValueError, AssertionError),
        lambda: g.simulate(None, [x], {77: 1.}, dict(ins)))
    return {'nontrivial': True}


@PROP.sub('undirected', model_case(['Linear', 'Dots', 'XCross']), quick=90,
    thorough=900)
def undirected(c):
    g, (x, y), s = build(c), c['names'][:2], level(c)
    kind = c['kind']
    cov = lambda r: st.multivariate_normal([0, 0], [[1, r], [r, 1]])
    if kind == 'Linear':
        joint = lambda a, b: cov(1 - s).logpdf([a, b])
    elif kind == 'XCross':
        joint = lambda a, b: np.logaddexp(cov(1 - s).logpdf([a, b]),
            cov(s - 1).logpdf([a, b])) + math.log(.5)
    else:
        joint = lambda a, b: math.log(sum(.25 * st.norm.pdf(a, u, s) *
            st.norm.pdf(b, v, s) for u in (-1, 1) for v in (-1, 1)) or 1e-320)
    marginal = (lambda a: st.norm.pdf(a)) if kind != 'Dots' else (
        lambda a: .5 * st.norm.pdf(a, -1, s) + .5 * st.norm.pdf(a, 1, s))
    cdf = st.norm.cdf if kind != 'Dots' else (
        lambda a: .5 * st.norm.cdf(a, -1, s) + .5 * st.norm.cdf(a, 1, s))
    near = lambda what, got, want: want < -600 or same(what, float(got),
        float(want), 1e-6, 1e-6)
    points = [c['at'], c['y'], [c['at'][0], c['at'][0]], [.75, -1.25]]
    for a, b in points:
        ja = joint(a, b)
        near('joint log density at %r' % ((a, b),), g.logpdf(None, {x: a,
            y: b}), ja)
        near('joint log density, in another order', g.logpdf(None, {y: b,
            x: a}), ja)
        if kind == 'XCross':
            continue
        near('log density of x', g.logpdf(None, {x: a}), math.log(marginal(
            a) or 1e-320))
        near('log density of y', g.logpdf(None, {y: b}), math.log(marginal(
            b) or 1e-320))
        if ja > -300:
            near('log density of x given y', g.logpdf(None, {x: a}, {y: b}),
                ja - math.log(marginal(b)))
            near('log density of y given x', g.logpdf(None, {y: b}, {x: a}),
                ja - math.log(marginal(a)))
    for t in (x, y):
        stats.continuous('samples of one coordinate', sampler(g, [t], {}, {},
            lambda v: v[t]), cdf)
        stats.continuous('samples of a coordinate with the other', sampler(g,
            [y, x], {}, {}, lambda v: v[t]), cdf)
    for sign in (1, -1):
        if kind == 'Dots':
            ref = lambda v: sum(.25 * st.norm.cdf(v, a + sign * b,
                s * math.sqrt(2)) for a in (-1, 1) for b in (-1, 1))
        elif kind == 'Linear':
            ref = st.norm(0, math.sqrt(2 + 2 * sign * (1 - s))).cdf
        else:
            ref = lambda v: .5 * st.norm.cdf(v, 0, math.sqrt(2 * s)) + \
                .5 * st.norm.cdf(v, 0, math.sqrt(4 - 2 * s))
        stats.continuous('x %+d*y' % sign, sampler(g, [x, y], {}, {},
            lambda v: v[x] + sign * v[y]), ref)
    if kind != 'XCross':
        for t, e in ((x, y), (y, x)):
            z = c['at'][0]
            if kind == 'Linear':
                ref = st.norm((1 - s) * z, math.sqrt(1 - (1 - s) ** 2)).cdf
            else:
                ref = cdf
            stats.continuous('samples of %d given %r' % (t, {e: z}), sampler(
                g, [t], {e: z}, {}, lambda v: v[t]), ref)
    if kind == 'Linear':
        same('mutual information', g.mutual_information(),
            -.5 * math.log(1 - (1 - s) ** 2), 1e-9, 1e-9)
    return {'nontrivial': True, 'labels': [kind]}


@PROP.sub('directed', model_case(['Sin', 'Parabola', 'UniformX']), quick=90,
    thorough=900)
def directed(c):
    g, (x, y), s = build(c), c['names'][:2], level(c)
    kind = c['kind']
    if kind == 'UniformX':
        lo, hi = c['y'][0], c['y'][0] + .25 + abs(c['y'][1])
    else:
        lo, hi = (-1.5 * PI, 1.5 * PI) if kind == 'Sin' else (-1., 1.)
    lpx = -math.log(hi - lo)
    for u in (.02, .3, .77, .99):
        same('log density of x', float(g.logpdf(None, {x: lo + u * (hi -
            lo)})), lpx, 1e-9, 1e-9)
    for v in (lo - .01, hi + .01, hi + 3):
        equal('log density of x=%r' % v, float(g.logpdf(None, {x: v})), -INF)
    stats.continuous('samples of x', sampler(g, [x], {}, {}, lambda v:
        v[x]), lambda v: np.clip((v - lo) / (hi - lo), 0, 1))
    if kind == 'UniformX':
        return {'nontrivial': True, 'labels': [kind]}

    def bounds(a):
        """Intervals of equal weight on which y is uniform."""
        if kind == 'Sin':
            m = math.cos(a)
            return [(m, m + s)] if m < 0 else [(m - s, m)]
        return [(a * a - s, a * a + s), (-a * a - s, -a * a + s)]

    def ref(a, b):
        iv = bounds(a)
        p = sum((l <= b <= h) / (h - l) / len(iv) for l, h in iv)
        return math.log(p) if p else -INF

    def cdf(a, v):
        iv = bounds(a)
        return sum(np.clip((np.asarray(v) - l) / (h - l), 0, 1) / len(iv)
            for l, h in iv)
    for a in c['at'] + [.31, -.67]:
        a = max(lo, min(hi, a)) * .99
        edges = sorted(e for i in bounds(a) for e in i)
        for b in [e + d for e in edges for d in (-.011, .013)] + c['y']:
            if min(abs(b - e) for e in edges) < 1e-6:
                continue
            want = ref(a, b)
            same('log density of y=%r given x=%r' % (b, a), float(g.logpdf(
                None, {y: b}, {x: a})), want, 1e-9, 1e-9)
            same('joint log density of %r' % ((a, b),), float(g.logpdf(None,
                {y: b, x: a})), want + lpx, 1e-9, 1e-9)
            equal('joint log density outside', float(g.logpdf(None, {x: hi +
                .5, y: b})), -INF)
    a = max(lo, min(hi, c['at'][0])) * .97
    stats.continuous('samples of y given x=%r' % a, sampler(g, [y], {x: a},
        {}, lambda v: v[y]), lambda v: cdf(a, v), 150, 2000)
    for order in ([x, y], [y, x]):
        draw = sampler(g, order, {}, {}, lambda v: (v[x], v[y]))
        for a, b in draw(60):
            check(lo <= a <= hi and min(max(l - b, b - h) for l, h in
                bounds(a)) <= 1e-9, 'sample %r outside the support', (a, b))
        stats.continuous('samples of x with y', lambda n: [a for a, _ in
            draw(n)], lambda v: np.clip((v - lo) / (hi - lo), 0, 1), 150,
            2000)
        if kind == 'Sin':
            stats.continuous('position of y', lambda n: [cdf(a, b) for a, b
                in draw(n)], lambda v: np.clip(v, 0, 1), 150, 2000)
        else:
            # |y| about x^2 when the two branches cannot overlap.

            def far(n):
                out = []
                while len(out) < n:
                    out += [abs(b) - a * a for a, b in draw(40)
                        if a * a > s + 1e-9]
                return out[:n]
            if s < .6:
                stats.continuous('|y| about x^2', far, lambda v: np.clip(
                    (v + s) / (2 * s), 0, 1), 100, 1500)
                stats.discrete('branch', lambda n: [int(b > 0) for _, b in
                    draw(n)], {0: .5, 1: .5}, 100, 2000)
    return {'nontrivial': True, 'labels': [kind]}


@PROP.sub('samplers', model_case(['Ring', 'Diamond']), quick=60,
    thorough=600)
def samplers(c):
    g, (x, y), s = build(c), c['names'][:2], level(c)
    kind = c['kind']
    draw = sampler(g, [x, y], {}, {}, lambda v: (v[x], v[y]))
    for a, b in draw(100):
        if kind == 'Ring':
            r = math.hypot(a, b)
            check(1 - s - 1e-9 <= r <= 1 + 1e-9, 'radius %r of %r with '
                'noise %r', r, (a, b), s)
        else:
            check(abs(a) + abs(b) <= 1 + 1e-9, '%r is outside', (a, b))
            edge = min(abs(b - (1 - abs(a))), abs(b + (1 - abs(a))))
            check(edge <= s + 1e-9, '%r is %r from an edge with noise %r',
                (a, b), edge, s)
    if kind == 'Ring':
        stats.continuous('angle', lambda n: [math.atan2(b, a) for a, b in
            draw(n)], lambda v: np.clip((v + PI) / (2 * PI), 0, 1))
        stats.continuous('radius', lambda n: [math.hypot(a, b) for a, b in
            draw(n)], lambda v: np.clip((v - 1 + s) / s, 0, 1))
    else:
        stats.continuous('x', lambda n: [a for a, _ in draw(n)],
            lambda v: np.clip((v + 1) / 2., 0, 1))
        stats.two_sample('y and -y', lambda n: [b for _, b in draw(n)],
            lambda n: [-b for _, b in draw(n)], 200, 3000)
        # Distance to the edge, where noise cannot cross the diamond.

        def depth(n):
            out = []
            while len(out) < n:
                out += [1 - abs(a) - abs(b) for a, b in draw(40)
                    if 1 - abs(a) > s + 1e-9]
            return out[:n]
        if s < .6:
            stats.continuous('distance to the edge', depth, lambda v:
                np.clip(v / s, 0, 1), 100, 1500)
    return {'nontrivial': True, 'labels': [kind]}


@PROP.sub('reload', model_case(['FourWay', 'TwoWay', 'TrollNormal',
    'PieceWise', 'BareBones']), quick=150)
def reload(c):
    import importlib
    import json
    n, kind = c['names'], c['kind']
    if kind == 'BareBones':
        from cgpm.dummy.barebones import BareBonesCGpm
        g = BareBonesCGpm(n[:2], n[2:3])
    else:
        g = build(c)
    m = json.loads(json.dumps(g.to_metadata()))
    cls = getattr(importlib.import_module(m['factory'][0]), m['factory'][1])
    h = cls.from_metadata(m, rng=np.random.RandomState(4))
    equal('outputs', list(h.outputs), list(g.outputs))
    equal('inputs', list(h.inputs), list(g.inputs))
    ins = {n[2]: 1} if kind in ('TwoWay', 'BareBones', 'PieceWise') else \
        dict(zip(n[2:], c['y']))
    x = 1 if kind in ('TwoWay', 'FourWay') else c['at'][0]
    same('density after reloading', h.logpdf(None, {n[0]: x}, None,
        dict(ins)), g.logpdf(None, {n[0]: x}, None, dict(ins)), 1e-12, 1e-12)
    if kind != 'BareBones':
        g.rng = np.random.RandomState(4)
    outs = list(g.outputs)
    equal('samples after reloading', h.simulate(None, list(outs), None,
        dict(ins), N=5), g.simulate(None, list(outs), None, dict(ins), N=5))
    if kind == 'BareBones':
        equal('sample', g.simulate(None, list(outs), None, dict(ins)),
            {o: 1 for o in outs})
    return {'nontrivial': True, 'labels': [kind]}
