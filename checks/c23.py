"""C23: random forest and least squares conditionals."""

import math
import warnings

import numpy as np
import scipy.stats as st

from checks.c22 import covariate, value
from vlib import models, prims, reg, stats
from vlib.harness import Property, check, equal, fail, hs, isclose, raises, \
    same

TECHNIQUE = ('property-based testing: generated datasets and histories '
    'against the documented mixture (over generated classifiers and over '
    'fitted forests read tree by tree) and an independent least-squares '
    'solution, with goodness of fit of samples and of the noise parameter')
NOTE = ('Random search with shrinking. Classifiers with arbitrary generated '
    'probability tables, including zeros and unseen labels, are passed as '
    'the fitted forest to reach corners which fitting never produces.')
PROP = Property('C23',
    'Cases are forests over 2-5 labels with 1-3 covariates and histories of '
    'up to 15 operations, and least squares fits of up to 10 rows. '
    'Non-trivial: the classifier was fitted (forests), at least three rows '
    '(least squares).',
    ['a perfect least-squares fit has no density (zero noise)',
     'OLS samples equal to the predicted mean are the listed finding '
     'ols-no-noise'])

warnings.filterwarnings('ignore')
INF = float('inf')
NAN = float('nan')


class Table(object):
    """A fitted classifier with a generated table of probabilities."""

    def __init__(self, classes, rows):
        self.classes_ = np.array(classes)
        self.rows = np.array(rows, float)
        self.n_classes_ = len(classes)
        self.fits = []

    def at(self, y):
        return self.rows[int(abs(sum((i + 1) * 4 * v for i, v in
            enumerate(y)))) % len(self.rows)]

    def predict_proba(self, Y):
        return np.array([self.at(y) for y in Y])

    def predict_log_proba(self, Y):
        with np.errstate(divide='ignore'):
            return np.log(self.predict_proba(Y))

    def fit(self, Y, x):
        self.fits.append([[list(y) for y in Y], list(x)])
        return self


@hs.composite
def forest_model(draw, max_rows=8):
    k = draw(hs.integers(2, 5))
    types = draw(hs.lists(hs.one_of(hs.just(['numerical', None]),
        hs.integers(2, 4).map(lambda j: ['categorical', j])), min_size=1,
        max_size=3))
    names = draw(hs.lists(hs.integers(0, 12), min_size=len(types) + 1,
        max_size=len(types) + 1, unique=True))
    return {'k': k, 'types': types, 'out': names[0],
        'ins': sorted(names[1:]), 'top': draw(hs.booleans())}


def xs_of(m):
    def one(t):
        return models.quarter if t[1] is None else hs.integers(0, t[1] - 1)
    return hs.tuples(*[one(t) for t in m['types']]).map(list)


@hs.composite
def weights(draw, n):
    w = draw(hs.lists(hs.integers(0, 6), min_size=n, max_size=n))
    if not sum(w):
        w[0] = 1
    return [x / float(sum(w)) for x in w]


@hs.composite
def table_case(draw, max_ops=8):
    m = draw(forest_model())
    classes = sorted(draw(hs.sets(hs.integers(0, m['k'] - 1), min_size=1)))
    c = {'m': m, 'classes': classes, 'rows': draw(hs.lists(weights(len(
        classes)), min_size=1, max_size=4)),
        'fitted': draw(hs.integers(0, 4)) > 0,
        'alpha': draw(hs.one_of(hs.none(), hs.sampled_from([.01, .5, .99]),
            prims.positive(.02, .9))),
        'seed': draw(hs.integers(0, 2**31 - 1))}
    ops, live, n = [], [], 0
    for _ in range(draw(hs.integers(0, max_ops))):
        if live and draw(hs.integers(0, 3)) == 0:
            ops.append(['del', live.pop(draw(hs.integers(0,
                len(live) - 1)))])
        else:
            ops.append(['add', n, draw(hs.integers(0, m['k'] - 1)),
                draw(xs_of(m))])
            live.append(n)
            n += 1
    c['ops'] = ops
    c['queries'] = draw(hs.lists(xs_of(m), min_size=1, max_size=3))
    return c


def make_forest(m, seed, **params):
    from cgpm.regressions.forest import RandomForest
    args = {'inputs': models.input_distargs(m['types'])}
    if m.get('top'):
        return RandomForest([m['out']], list(m['ins']), k=m['k'],
            distargs=args, params=params, rng=np.random.RandomState(seed))
    return RandomForest([m['out']], list(m['ins']), distargs=dict(args,
        k=m['k']), params=params, rng=np.random.RandomState(seed))


class Rows(object):
    def __init__(self, g, m):
        self.g, self.m, self.live = g, m, {}

    def ins(self, x):
        # The order in which inputs are listed carries no meaning.
        self.calls = getattr(self, 'calls', 0) + 1
        pairs = list(zip(self.m['ins'], x))
        return dict(pairs if self.calls % 3 else reversed(pairs))

    def play(self, ops):
        for op in ops:
            if op[0] == 'add':
                self.g.incorporate(op[1], {self.m['out']: op[2]},
                    self.ins(op[3]))
                self.live[op[1]] = [op[2], op[3]]
            else:
                self.g.unincorporate(op[1])
                del self.live[op[1]]
        equal('number of rows', self.g.N, len(self.live))

    def lp(self, v, x, rowid=-3):
        return self.g.logpdf(rowid, {self.m['out']: v}, None, self.ins(x))

    def sim(self, x, N=None, rowid=None):
        return self.g.simulate(rowid, [self.m['out']], None, self.ins(x),
            N=N)


def mixture(alpha, k, p):
    return [alpha / k + (1 - alpha) * q for q in p]


def log(p):
    return math.log(p) if p > 0 else -INF


def near(what, got, want):
    same(what, got, want, 1e-7, 1e-7)


def forest_checks(r, m, prob, queries, sampled):
    """prob(x) -> probability of each label."""
    k, out = m['k'], m['out']
    for x in queries:
        want = prob(x)
        got = [r.lp(v, x) for v in range(k)]
        for v in range(k):
            near('log probability of %d at %r' % (v, x), got[v],
                log(want[v]))
            near('log probability of %r at %r' % (float(v), x),
                r.lp(float(v), x), log(want[v]))
        near('sum over labels at %r' % (x,), sum(math.exp(g) for g in got),
            1.)
        for v in (k, -1, k + 3, .5, -.25):
            equal('log probability of %r' % v, r.lp(v, x), -INF)
        if sampled:
            sims = r.sim(x, 1)
            check(isinstance(sims, list) and len(sims) == 1 and
                isinstance(r.sim(x), dict), 'forms of samples %r', sims)

            def draw(n):
                ss = r.sim(x, n)
                check(all(list(s) == [out] for s in ss), 'samples %r', ss[:3])
                return [int(s[out]) for s in ss]
            stats.discrete('simulate at %r' % (x,), draw, {v: want[v]
                for v in range(k)}, 100, 1500)
    near('score', r.g.logpdf_score(), sum(log(prob(x)[v])
        for v, x in r.live.values()))
    for i, (v, x) in r.live.items():
        equal('simulate of observed row', r.sim(x, None, i), {out: v})
        equal('simulate of observed row with N', r.sim(x, 2, i),
            [{out: v}] * 2)


@PROP.sub('mixture', table_case(), quick=1500)
def documented(c):
    m = c['m']
    params = {} if c['alpha'] is None else {'alpha': c['alpha']}
    if c['fitted']:
        params['forest'] = Table(c['classes'], c['rows'])
    r = Rows(make_forest(m, c['seed'], **params), m)
    r.play(c['ops'])
    alpha = c['alpha'] or .1

    def prob(x):
        if not c['fitted']:
            return [1. / m['k']] * m['k']
        p = dict(zip(c['classes'], params['forest'].at(x)))
        return mixture(alpha, m['k'], [p.get(v, 0.) for v in range(m['k'])])
    forest_checks(r, m, prob, c['queries'], False)
    return {'nontrivial': c['fitted'],
        'labels': ['unseen-labels'] if len(c['classes']) < m['k'] else []}


@PROP.sub('samples', table_case(max_ops=3), quick=100, thorough=1000)
def samples(c):
    m = c['m']
    params = {} if c['alpha'] is None else {'alpha': c['alpha']}
    if c['fitted']:
        params['forest'] = Table(c['classes'], c['rows'])
    r = Rows(make_forest(m, c['seed'], **params), m)
    r.play(c['ops'])

    def prob(x):
        return [math.exp(r.lp(v, x)) for v in range(m['k'])]
    forest_checks(r, m, prob, c['queries'][:1], True)
    return {'nontrivial': c['fitted']}


@PROP.sub('noise-parameter', table_case(), quick=150, thorough=2000)
def noise(c):
    """The label noise is drawn from its posterior over the grid."""
    m = c['m']
    tab = Table(c['classes'], c['rows']) if c['fitted'] else None
    r = Rows(make_forest(m, c['seed'], **({'forest': tab} if tab else {})), m)
    if not c['fitted']:
        c = dict(c, ops=[])
    r.play(c['ops'])
    grid = np.linspace(.01, .99, 30)
    lps = np.zeros(30)
    if tab:
        for v, x in r.live.values():
            p = dict(zip(c['classes'], tab.at(x))).get(v, 0.)
            lps += np.log(grid / m['k'] + (1 - grid) * p)
    w = np.exp(lps - lps.max())
    w /= w.sum()
    cell = np.minimum((np.cumsum(w) * 8).astype(int), 7)

    def draw(n):
        out = []
        for _ in range(n):
            r.g.transition(N=1)
            a = r.g.get_params()['alpha']
            j = int(np.argmin(abs(grid - a)))
            check(isclose(grid[j], a, 1e-9, 0), 'noise parameter %r', a)
            out.append(int(cell[j]))
        return out
    stats.discrete('label noise given %r' % (sorted(r.live.values()),), draw,
        {int(k): float(w[cell == k].sum()) for k in set(cell)}, 80, 1200)
    if tab:
        rows = sorted([list(map(float, x)), v] for v, x in r.live.values())
        check(bool(tab.fits) == bool(rows), 'classifier fitted %d times for '
            '%d rows', len(tab.fits), len(rows))
        for Y, x in tab.fits[:2]:
            equal('data to which the classifier is fitted', sorted(
                [list(map(float, y)), int(v)] for y, v in zip(Y, x)), rows)
        n = len(tab.fits)
        r.g.transition(N=3)
        check(len(tab.fits) == n + (3 if rows else 0),
            'transition(N=3) fitted %d times', len(tab.fits) - n)
    equal('number of rows after learning', r.g.N, len(r.live))
    return {'nontrivial': bool(tab and r.live)}


# --------------------------------------------------------------------------
# Fitted forests.

@hs.composite
def fit_case(draw):
    m = draw(forest_model())
    n = draw(hs.integers(1, 4))
    pts = draw(hs.lists(xs_of(m), min_size=n, max_size=n, unique_by=tuple))
    labels = [draw(hs.integers(0, m['k'] - 1)) for _ in pts]
    return {'m': m, 'points': pts, 'labels': labels,
        'copies': draw(hs.integers(7, 10)),
        'mess': [[draw(hs.integers(0, m['k'] - 1)), draw(xs_of(m))]
            for _ in range(draw(hs.integers(0, 4)))],
        'early': draw(hs.booleans()),
        'queries': draw(hs.lists(xs_of(m), max_size=2)),
        'seed': draw(hs.integers(0, 2**31 - 1))}


@PROP.sub('fitted', fit_case(), quick=70, thorough=800)
def fitted(c):
    m = c['m']
    r = Rows(make_forest(m, c['seed']), m)
    ops = [['add', 500 + i, v, x] for i, (v, x) in enumerate(c['mess'])]
    n = 0
    for i in range(c['copies']):
        for v, x in zip(c['labels'], c['points']):
            ops.append(['add', n, v, x])
            n += 1
    r.play(ops[:len(c['mess']) + 2])
    if c['early']:
        r.g.transition(N=1)
    r.play(ops[len(c['mess']) + 2:])
    r.play([['del', 500 + i] for i in range(len(c['mess']))])
    r.g.transition(N=1)
    rf = r.g.get_params()['forest']
    alpha = r.g.get_params()['alpha']
    equal('labels of the fitted classifier', sorted(int(v) for v in
        rf.classes_), sorted(set(c['labels'])))

    def prob(x):
        # The forest's own definition: the average over its trees.
        p = np.mean([t.predict_proba([x])[0] for t in rf.estimators_],
            axis=0)
        p = dict(zip([int(v) for v in rf.classes_], p))
        return mixture(alpha, m['k'], [p.get(v, 0.) for v in range(m['k'])])
    forest_checks(r, m, prob, c['points'][:1] + c['queries'], False)
    # Each point carries one label only and is in nearly every bootstrap.
    for x, v in zip(c['points'], c['labels']):
        p = (math.exp(r.lp(v, x)) - alpha / m['k']) / (1 - alpha)
        check(p > .9, 'classifier predicts %r with probability %.3f at %r, '
            'where all rows have it (data %r)', v, p, x,
            list(zip(c['points'], c['labels'])))
    return {'nontrivial': True}


@hs.composite
def broken_forest(draw):
    c = draw(table_case(max_ops=4))
    return dict(c, kind=draw(hs.sampled_from(['nan input', 'missing input',
        'extra input', 'output as input', 'nan label', 'no label',
        'large label', 'negative label', 'unknown row'])),
        at=draw(hs.integers(0, len(c['m']['ins']) - 1)))


@PROP.sub('forest-rejects', broken_forest(), quick=700)
def forest_rejects(c):
    m, kind, x = c['m'], c['kind'], c['queries'][0]
    tab = Table(c['classes'], c['rows'])
    r = Rows(make_forest(m, c['seed'], forest=tab), m)
    r.play(c['ops'])
    score = r.g.logpdf_score()
    bad = (ValueError, IndexError, TypeError, KeyError)
    if kind == 'unknown row':
        raises('unincorporate of an unknown row', ValueError,
            lambda: r.g.unincorporate(99))
    else:
        t, ins, i = {m['out']: 0}, r.ins(x), m['ins'][c['at']]
        if kind == 'nan input':
            ins[i] = NAN
        elif kind == 'missing input':
            del ins[i]
        elif kind == 'extra input':
            ins[77] = 1
        elif kind == 'output as input':
            ins[m['out']] = 0
        else:
            t[m['out']] = {'nan label': NAN, 'no label': None,
                'large label': m['k'], 'negative label': -1}[kind]
        raises('incorporate with %s' % kind, bad,
            lambda: r.g.incorporate(90, t, ins))
        if 'input' in kind:
            raises('logpdf with %s' % kind, bad,
                lambda: r.g.logpdf(-1, t, None, ins))
            raises('simulate with %s' % kind, bad,
                lambda: r.g.simulate(None, [m['out']], None, ins))
    equal('number of rows', r.g.N, len(r.live))
    near('score afterwards', r.g.logpdf_score(), score)
    r.play([['add', 90, 0, x]])
    near('score with another row', r.g.logpdf_score(), score + r.lp(0, x))
    return {'nontrivial': bool(r.live), 'labels': [kind]}


# --------------------------------------------------------------------------
# Least squares.

@hs.composite
def ols_case(draw, max_rows=12):
    types = draw(hs.lists(hs.one_of(
        hs.sampled_from(['numerical', 'normal', 'poisson']).map(
            lambda s: [s, None]),
        hs.sampled_from([2, 2, 3, 4]).map(lambda k: ['categorical', k]),
        hs.just(['bernoulli', 2])), min_size=1, max_size=3))
    names = draw(hs.lists(hs.integers(0, 12), min_size=len(types) + 1,
        max_size=len(types) + 1, unique=True))
    m = {'types': types, 'out': names[0], 'ins': names[1:]}
    ops, live, n = [], [], 0
    for _ in range(draw(hs.one_of(hs.integers(0, max_rows + 3), hs.integers(
            max_rows - 2, max_rows + 3)))):
        if live and draw(hs.integers(0, 5)) == 0:
            ops.append(['del', live.pop(draw(hs.integers(0,
                len(live) - 1)))])
        else:
            ops.append(['add', n, draw(value), draw(xs_of(m))])
            live.append(n)
            n += 1
    return {'m': m, 'ops': ops, 'late': draw(hs.integers(0, 2)),
        'queries': [[draw(value), draw(xs_of(m))] for _ in range(2)],
        'noise': draw(hs.one_of(hs.none(), prims.positive(.1, 3.))),
        'seed': draw(hs.integers(0, 2**31 - 1))}


def make_ols(c):
    from cgpm.regressions.ols import OrdinaryLeastSquares
    m = c['m']
    params = None if c['noise'] is None else {'noise': c['noise']}
    return OrdinaryLeastSquares([m['out']], list(m['ins']), params=params,
        distargs={'inputs': models.input_distargs(m['types'])},
        rng=np.random.RandomState(c['seed']))


def least_squares(m, rows):
    """-> (predict, rms residual); None if the solution is not unique.

    In singular designs the library's own solution is not even optimal.
    """
    X = np.array([reg.code(m['types'], x, False)[1:] for _, x in rows])
    sv = np.linalg.svd(X - X.mean(axis=0), compute_uv=False)
    if len(X) <= X.shape[1] or sv[-1] < 1e-6 * (1 + sv[0]):
        return None, 0.
    y = np.array([v for v, _ in rows], float)
    xm, ym = X.mean(axis=0), y.mean()
    w = np.linalg.pinv(X - xm, rcond=1e-9).dot(y - ym)

    def predict(x):
        return ym + (np.array(reg.code(m['types'], x, False)[1:]) - xm
            ).dot(w)
    res = np.array([v - predict(x) for v, x in rows])
    return predict, math.sqrt(np.mean(res ** 2))


@PROP.sub('least-squares', ols_case(), quick=700, thorough=10000)
def ols(c):
    m, out = c['m'], c['m']['out']
    r = Rows(make_ols(c), m)
    cut = max(0, len(c['ops']) - c['late'])
    r.play(c['ops'][:cut])
    if not r.live:
        r.g.transition(N=1)                 # Nothing to learn.
        raises('prediction without a fit', ValueError,
            lambda: r.lp(0., c['queries'][0][1]))
        return {'nontrivial': False}
    r.g.transition(N=1)
    predict, noise = least_squares(m, list(r.live.values()))
    # Later rows do not change the fit.
    r.play(c['ops'][cut:])
    for v, x in c['queries'] if predict else ():
        mu = predict(x)
        ss = r.sim(x, 40)
        check(len(ss) == 40 and all(list(s) == [out] for s in ss),
            'samples %r', ss[:3])
        one = r.sim(x)
        check(isinstance(one, dict) and list(one) == [out], 'sample %r', one)
        if noise < 1e-4:
            same('prediction at %r' % (x,), ss[0][out], mu, 1e-6, 1e-4)
            continue
        same('log density of %r at %r' % (v, x), r.lp(v, x), st.norm.logpdf(
            v, mu, noise), 1e-6, 1e-6)
        for u in (mu, mu + noise):
            same('log density of %r at %r' % (u, x), r.lp(float(u), x),
                st.norm.logpdf(u, mu, noise), 1e-6, 1e-6)
        xs = np.array([s[out] for s in ss + [one]])
        if np.all(abs(xs - mu) < 1e-7 * (1 + abs(mu))):
            continue                        # Finding ols-no-noise.
        stats.continuous('simulate at %r' % (x,), lambda n: [s[out] for s in
            r.sim(x, n)], st.norm(mu, noise).cdf)
    for i, (v, x) in r.live.items():
        equal('simulate of observed row', r.sim(x, None, i), {out: v})
        equal('simulate of observed row with N', r.sim(x, 3, i),
            [{out: v}] * 3)
    if r.live:
        r.g.transition()
        predict, noise = least_squares(m, list(r.live.values()))
        v, x = c['queries'][0]
        if predict and noise >= 1e-4:
            same('log density after learning again', r.lp(v, x),
                st.norm.logpdf(v, predict(x), noise), 1e-6, 1e-6)
    return {'nontrivial': len(r.live) >= 3 and noise >= 1e-4}


@hs.composite
def broken_ols(draw):
    c = draw(ols_case(max_rows=4))
    cat = [i for i, t in enumerate(c['m']['types']) if t[1] is not None]
    kinds = ['nan input', 'missing input', 'extra input', 'output as input',
        'nan target', 'none target', 'unknown row', 'no target']
    if cat:
        kinds += ['too large', 'negative', 'fraction'] * 2
    kind = draw(hs.sampled_from(kinds))
    at = draw(hs.integers(0, len(c['m']['ins']) - 1))
    if kind in ('too large', 'negative', 'fraction'):
        at = draw(hs.sampled_from(cat))
    return dict(c, kind=kind, at=at)


@PROP.sub('ols-rejects', broken_ols(), quick=500)
def ols_rejects(c):
    m, kind, (v, x) = c['m'], c['kind'], c['queries'][0]
    r = Rows(make_ols(c), m)
    r.play(c['ops'])
    r.play([['add', 70, v, x], ['add', 71, v + 1., x]])
    r.g.transition(N=1)
    lp = r.lp(v, x)
    bad = (ValueError, IndexError, TypeError, KeyError)
    if kind == 'unknown row':
        raises('unincorporate of an unknown row', ValueError,
            lambda: r.g.unincorporate(99))
    else:
        t, ins, i = {m['out']: v}, r.ins(x), m['ins'][c['at']]
        if kind == 'nan input':
            ins[i] = NAN
        elif kind == 'missing input':
            del ins[i]
        elif kind == 'extra input':
            ins[77] = 1
        elif kind == 'output as input':
            ins[m['out']] = 0
        elif kind == 'nan target':
            t = {m['out']: NAN}
        elif kind == 'none target':
            t = {m['out']: None}
        elif kind == 'no target':
            t = {78: 1.}
        elif kind == 'too large':
            ins[i] = m['types'][c['at']][1]
        elif kind == 'negative':
            ins[i] = -1
        elif kind == 'fraction':
            ins[i] = .5
        raises('incorporate with %s' % kind, bad,
            lambda: r.g.incorporate(90, t, ins))
        raises('logpdf with %s' % kind, bad,
            lambda: r.g.logpdf(-1, t, None, ins))
        if 'target' not in kind:
            raises('simulate with %s' % kind, bad,
                lambda: r.g.simulate(None, [m['out']], None, ins))
    equal('number of rows', r.g.N, len(r.live))
    near('density afterwards', r.lp(v, x), lp)
    r.play([['add', 90, v, x], ['del', 90]])
    return {'nontrivial': True, 'labels': [kind]}


@PROP.probe('ols-no-noise')
def no_noise():
    m = {'types': [['numerical', None]], 'out': 0, 'ins': [1]}
    r = Rows(make_ols({'m': m, 'noise': None, 'seed': 1}), m)
    r.play([['add', i, float(i % 3), [float(i)]] for i in range(6)])
    r.g.transition(N=1)
    xs = [s[0] for s in r.sim([2.5], 50)]
    check(np.std(xs) > 0, '50 samples at noise %r are all %r',
        r.g.get_params()['noise'], xs[0])


# --------------------------------------------------------------------------

@PROP.sub('batches', models.batch(('ols', 'forest',)), quick=60, timeout=120.)
def batches(c):
    """The samples of one call are independent of each other."""
    return models.check_batch(c)
