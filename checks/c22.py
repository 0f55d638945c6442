"""C22: Bayesian linear regression against its closed form."""

import math

import numpy as np

from vlib import models, prims, reg, stats
from vlib.harness import Property, check, equal, fail, hs, isclose, raises, \
    same

TECHNIQUE = ('property-based testing: generated designs, hyperparameters and '
    'incorporate/unincorporate histories against an independent multivariate '
    'Student reference (own dummy code, marginalised instead of updated), and '
    'goodness of fit of samples')
NOTE = ('Random search with shrinking. The reference integrates the '
    'coefficients out through the n x n covariance of the responses and '
    'shares no formula with the implementation.')
PROP = Property('C22',
    'Cases are regressions on 1-4 numerical or categorical covariates (k 1-4 '
    'and the unknown category), with histories of up to 12 operations. '
    'Non-trivial: at least two rows are incorporated.',
    ['moderate magnitudes (|x| <= 40), so that both sides are well '
     'conditioned'])

from cgpm.regressions.linreg import LinearRegression
from cgpm.utils import data as du

NAN = float('nan')
STATS = ['numerical', 'numerical', 'normal', 'poisson', 'lognormal']
value = hs.one_of(models.quarter, models.quarter, models.quarter,
    hs.integers(-40, 40))


@hs.composite
def model(draw, max_k=4, max_inputs=4):
    types = draw(hs.lists(hs.one_of(
        hs.sampled_from(STATS).map(lambda s: [s, None]),
        hs.integers(1, max_k).map(lambda k: ['categorical', k]),
        hs.just(['bernoulli', 2])), min_size=1, max_size=max_inputs))
    names = draw(hs.lists(hs.integers(0, 12), min_size=len(types) + 1,
        max_size=len(types) + 1, unique=True))
    p = 1 + sum(1 if t[1] is None else t[1] for t in types)
    m = {'types': types, 'out': names[0], 'ins': names[1:], 'p': p,
        'hypers': {}}
    if draw(hs.booleans()):
        m['hypers']['a'] = draw(prims.positive(.2, 12.))
    if draw(hs.booleans()):
        m['hypers']['b'] = draw(prims.positive(.05, 20.))
    coef = hs.integers(-8, 8).map(lambda i: i / 4.)
    if draw(hs.integers(0, 3)) == 0:
        m['hypers']['mu'] = [draw(coef) for _ in range(p)]
    if draw(hs.integers(0, 3)) == 0:
        A = np.array([[draw(coef) for _ in range(p)] for _ in range(p)])
        m['hypers']['V'] = (A.dot(A.T) / p + .5 * np.eye(p)).tolist()
    return m


@hs.composite
def covariate(draw, t):
    if t[1] is None:
        return draw(value)
    v = draw(hs.integers(0, t[1]))          # t[1] is the unknown category.
    return float(v) if draw(hs.integers(0, 4)) == 0 else v


def row(m):
    return hs.tuples(value, *[covariate(t) for t in m['types']]).map(list)


@hs.composite
def history(draw, max_ops=12, queries=3, **kw):
    m = draw(model(**kw))
    ops, live, n = [], [], 0
    for _ in range(draw(hs.one_of(hs.integers(0, max_ops), hs.integers(
            max_ops // 2, max_ops)))):
        if live and draw(hs.integers(0, 3)) == 0:
            ops.append(['del', live.pop(draw(hs.integers(0,
                len(live) - 1)))])
        elif draw(hs.integers(0, 12)) == 0:
            ops.append(['hypers', draw(prims.positive(.2, 12.)),
                draw(prims.positive(.05, 20.))])
        else:
            live.append(n)
            ops.append(['add', n, draw(row(m))])
            n += 1
    return {'m': m, 'ops': ops, 'queries': draw(hs.lists(row(m), min_size=1,
        max_size=queries)), 'seed': draw(hs.integers(0, 2**31 - 1)),
        'order': draw(hs.permutations(live))}


class Pair(object):
    """The real model and what it should hold."""

    def __init__(self, m, seed):
        self.m = m
        h = dict(m['hypers'])
        for k in ('mu', 'V'):
            if k in h:
                h[k] = np.array(h[k], float)
        self.a, self.b = h.get('a', 1.), h.get('b', 1.)
        self.mu = h.get('mu', np.zeros(m['p']))
        self.V = h.get('V', np.eye(m['p']))
        self.g = LinearRegression([m['out']], list(m['ins']), hypers=h or
            None, distargs={'inputs': {
                'stattypes': [t[0] for t in m['types']],
                'statargs': [{} if t[1] is None else {'k': t[1]}
                    for t in m['types']]}},
            rng=np.random.RandomState(seed))
        self.rows = {}

    def ins(self, r):
        # The order in which inputs are listed carries no meaning.
        self.calls = getattr(self, 'calls', 0) + 1
        pairs = list(zip(self.m['ins'], r[1:]))
        return dict(pairs if self.calls % 3 else reversed(pairs))

    def add(self, i, r):
        self.g.incorporate(i, {self.m['out']: r[0]}, self.ins(r))
        self.rows[i] = r

    def play(self, ops):
        for op in ops:
            if op[0] == 'add':
                self.add(op[1], op[2])
            elif op[0] == 'del':
                self.g.unincorporate(op[1])
                del self.rows[op[1]]
            else:
                self.g.set_hypers({'a': op[1], 'b': op[2]})
                self.a, self.b = op[1], op[2]

    def code(self, r):
        return reg.code(self.m['types'], r[1:], True)

    def hyp(self):
        return self.a, self.b, self.mu, self.V

    def data(self):
        ks = sorted(self.rows)
        return [self.code(self.rows[k]) for k in ks], [
            self.rows[k][0] for k in ks]

    def score(self):
        return reg.nig_score(*self.hyp() + self.data())

    def predictive(self, r):
        return reg.nig_predictive(*self.hyp() + self.data() + (self.code(r),))

    def logpdf(self, r, rowid=-5):
        return self.g.logpdf(rowid, {self.m['out']: r[0]}, None, self.ins(r))


def near(what, got, want):
    same(what, got, want, 1e-6, 1e-6)


@PROP.sub('closed-form', history(), quick=1500)
def closed_form(c):
    p = Pair(c['m'], c['seed'])
    p.play(c['ops'])
    equal('number of rows', p.g.N, len(p.rows))
    near('score', p.g.logpdf_score(), p.score())
    for q in c['queries']:
        near('predictive density at %r' % (q,), p.logpdf(q),
            p.predictive(q).logpdf(q[0]))
        near('predictive density without row id', p.logpdf(q, None),
            p.predictive(q).logpdf(q[0]))
    near('score after queries', p.g.logpdf_score(), p.score())
    # Sequential predictives in another order.
    s = Pair(c['m'], c['seed'] + 1)
    s.g.set_hypers({'a': p.a, 'b': p.b})
    s.a, s.b = p.a, p.b
    total = 0.
    for i in c['order']:
        total += s.logpdf(p.rows[i])
        s.add(i, p.rows[i])
    near('sum of sequential predictives', total, p.score())
    near('score in another order', s.g.logpdf_score(), p.score())
    kinds = set('cat' if t[1] else 'num' for t in c['m']['types'])
    return {'nontrivial': len(p.rows) >= 2,
        'labels': sorted(kinds) + ['rows=%d' % min(len(p.rows), 6)] +
            (['mu/V'] if set(c['m']['hypers']) & {'mu', 'V'} else [])}


@PROP.sub('large-tables', history(max_ops=90, queries=1), quick=200)
def large_tables(c):
    return closed_form(c)


@PROP.sub('many-categories', history(max_ops=30, queries=3, max_k=24,
    max_inputs=9), quick=300)
def many_categories(c):
    return closed_form(c)


@PROP.sub('samples', history(max_ops=8, queries=1), quick=160, thorough=1500)
def samples(c):
    p = Pair(c['m'], c['seed'])
    p.play(c['ops'])
    q, out = c['queries'][0], c['m']['out']
    sim = lambda n: p.g.simulate(None, [out], None, p.ins(q), N=n)
    one = sim(None)
    check(isinstance(one, dict) and list(one) == [out],
        'simulate without N: %r', one)
    check(isinstance(sim(1), list) and len(sim(1)) == 1,
        'simulate N=1: %r', sim(1))

    def draw(n):
        xs = sim(n)
        check(all(list(x) == [out] for x in xs), 'samples %r', xs[:3])
        return [x[out] for x in xs]
    stats.continuous('simulate at %r' % (q,), draw, p.predictive(q).cdf)
    for i, r in p.rows.items():
        equal('simulate of observed row', p.g.simulate(i, [out], None,
            p.ins(q)), {out: r[0]})
        equal('simulate of observed row with N', p.g.simulate(i, [out], None,
            p.ins(q), 2), [{out: r[0]}] * 2)
    # Posterior of the parameters.
    a, b, mu, V = reg.nig_posterior(*p.hyp() + p.data())
    import scipy.stats as st
    stats.continuous('noise variance', lambda n: [
        float(p.g.simulate_params()[0]) for _ in range(n)],
        st.invgamma(a, scale=b).cdf)
    w = np.array(p.code(q))
    scale = math.sqrt(b / a * w.dot(V).dot(w))
    stats.continuous('coefficients', lambda n: [
        w.dot(p.g.simulate_params()[1]) for _ in range(n)],
        st.t(2 * a, w.dot(mu), scale).cdf)
    near('score after samples', p.g.logpdf_score(), p.score())
    return {'nontrivial': len(p.rows) >= 2}


@hs.composite
def broken(draw):
    c = draw(history(max_ops=5, queries=1))
    r, m = c['queries'][0], c['m']
    cat = [i for i, t in enumerate(m['types']) if t[1] is not None]
    kinds = ['missing input', 'extra input', 'output as input', 'nan input',
        'no target', 'nan target', 'none target', 'unknown row']
    if cat:
        kinds += ['too large', 'negative', 'fraction', 'nan category']
    kind = draw(hs.sampled_from(kinds))
    i = draw(hs.integers(0, len(m['ins']) - 1))
    if kind in ('too large', 'negative', 'fraction', 'nan category'):
        i = draw(hs.sampled_from(cat))
    return dict(c, kind=kind, at=i, by=draw(hs.integers(1, 3)))


@PROP.sub('rejects', broken(), quick=1200)
def rejects(c):
    p = Pair(c['m'], c['seed'])
    p.play(c['ops'])
    m, r, kind = c['m'], c['queries'][0], c['kind']
    near('score', p.g.logpdf_score(), p.score())
    if kind == 'unknown row':
        raises('unincorporate of an unknown row', ValueError,
            lambda: p.g.unincorporate(99))
    else:
        t, ins, i = {m['out']: r[0]}, p.ins(r), m['ins'][c['at']]
        if kind == 'missing input':
            del ins[i]
        elif kind == 'extra input':
            ins[77] = 1
        elif kind == 'output as input':
            ins[m['out']] = 1
        elif kind in ('nan input', 'nan category'):
            ins[i] = NAN
        elif kind == 'no target':
            t = {78: r[0]}
        elif kind == 'nan target':
            t = {m['out']: NAN}
        elif kind == 'none target':
            t = {m['out']: None}
        elif kind == 'too large':
            ins[i] = m['types'][c['at']][1] + c['by']
        elif kind == 'negative':
            ins[i] = -c['by']
        elif kind == 'fraction':
            ins[i] = .5
        raises('logpdf with %s' % kind, (ValueError, TypeError),
            lambda: p.g.logpdf(-1, t, None, ins))
        raises('incorporate with %s' % kind, (ValueError, TypeError),
            lambda: p.g.incorporate(90, t, ins))
        if 'target' not in kind:
            raises('simulate with %s' % kind, (ValueError, TypeError),
                lambda: p.g.simulate(None, [m['out']], None, ins))
    equal('number of rows', p.g.N, len(p.rows))
    near('score afterwards', p.g.logpdf_score(), p.score())
    near('predictive afterwards', p.logpdf(r), p.predictive(r).logpdf(r[0]))
    # The row id which was refused is still free.
    p.add(90, r)
    near('score with a new row', p.g.logpdf_score(), p.score())
    return {'nontrivial': bool(p.rows), 'labels': [kind]}


# --------------------------------------------------------------------------
# The dummy code itself.

@hs.composite
def code_case(draw):
    types = draw(hs.lists(hs.one_of(hs.just(None), hs.integers(1, 6),
        hs.integers(1, 6), hs.integers(7, 60)), max_size=5))
    vals = [draw(value) if k is None else draw(hs.integers(0, k - 1))
        for k in types]
    return {'types': types, 'vals': vals}


@PROP.sub('dummy-code', code_case(), quick=1500)
def dummy(c):
    types, vals = c['types'], list(c['vals'])
    ks = {i: k for i, k in enumerate(types) if k is not None}
    got = du.dummy_code(vals, dict(ks))
    want = reg.code([['', k] for k in types], vals, False)[1:]
    equal('dummy code of %r with %r' % (vals, ks), list(got), want)
    equal('values', vals, c['vals'])
    if ks:
        i = sorted(ks)[-1]
        for bad in (ks[i], -1, .5):
            x = list(vals)
            x[i] = bad
            raises('dummy code of %r with %r' % (x, ks),
                (ValueError, TypeError), lambda: du.dummy_code(x, dict(ks)))
    return {'nontrivial': len(ks) >= 2}


# --------------------------------------------------------------------------
# Hyperparameters: a sweep of Gibbs over the documented grids.

@PROP.sub('hyper-inference', history(max_ops=6, queries=1), quick=40,
    thorough=200)
def hyper_inference(c):
    p = Pair(c['m'], c['seed'])
    p.play(c['ops'])
    X, y = p.data()
    ks = list(p.g.data.x)
    vals = [p.rows[k][0] for k in ks]
    if not vals:
        return {'nontrivial': False}
    grids = LinearRegression.construct_hyper_grids(vals, n_grid=30)
    A, B = np.asarray(grids['a']), np.asarray(grids['b'])
    check(np.all(A > 0) and np.all(B > 0) and np.all(np.isfinite(A)) and
        np.all(np.isfinite(B)) and len(A) == len(B) == 30,
        'grids of %r', vals)
    n = len(y)
    Xm = np.array(X)
    S = np.eye(n) + Xm.dot(p.V).dot(Xm.T)
    r = np.array(y, float) - Xm.dot(p.mu)
    quad = r.dot(np.linalg.solve(S, r))
    from scipy.special import gammaln

    def lp(a, b):
        return gammaln(a + n / 2.) - gammaln(a) + a * np.log(b) - (
            a + n / 2.) * np.log(b + quad / 2.)

    def cond(x):
        x = np.exp(x - x.max(axis=-1, keepdims=True))
        return x / x.sum(axis=-1, keepdims=True)
    pa_b0 = cond(lp(A, p.b))
    pb_a0 = cond(lp(p.a, B))
    pa_b = cond(lp(A[None, :], B[:, None]))          # [b, a]
    pb_a = cond(lp(A[:, None], B[None, :]))          # [a, b]
    want_a = .5 * pa_b0 + .5 * pb_a0.dot(pa_b)
    want_b = .5 * pb_a0 + .5 * pa_b0.dot(pb_a)

    def sweep(n, which, grid):
        out = []
        for _ in range(n):
            p.g.set_hypers({'a': p.a, 'b': p.b})
            p.g.transition_hypers(N=1)
            h = p.g.get_hypers()
            j = int(np.argmin(abs(grid - h[which])))
            check(isclose(grid[j], h[which], 1e-9, 0), 'hyperparameter %s = '
                '%r is not on the grid', which, h[which])
            out.append(j)
        return out
    for which, grid, want in (('a', A, want_a), ('b', B, want_b)):
        # Coarse cells so that few sweeps suffice.
        cum = np.cumsum(want)
        cell = np.minimum((cum * 6).astype(int), 5)
        probs = {int(k): float(want[cell == k].sum()) for k in set(cell)}
        stats.discrete('Gibbs sweep of %s' % which, lambda m: [
            int(cell[j]) for j in sweep(m, which, grid)], probs, 40, 500)
    p.g.set_hypers({'a': p.a, 'b': p.b})
    near('score after sweeps', p.g.logpdf_score(), p.score())
    return {'nontrivial': n >= 2}


# --------------------------------------------------------------------------

@PROP.sub('batches', models.batch(('linreg',)), quick=60, timeout=120.)
def batches(c):
    """The samples of one call are independent of each other."""
    return models.check_batch(c)
