"""C24: Gaussian algebra and factor analysis."""

import copy
import math

import numpy as np
import scipy.stats as st

from vlib import models, stats
from vlib.harness import Property, check, equal, same, hs, fail, raises

from cgpm.factor.factor import FactorAnalysis
from cgpm.utils import mvnormal

TECHNIQUE = ('property-based testing: generated covariances, subsets of '
    'targets and constraints against a dense reference in information form')
NOTE = ('Random search with shrinking. Conditionals are recomputed from the '
    'precision matrix, densities by eigendecomposition, derivatives by '
    'central differences; samplers by two-stage goodness of fit of random '
    'projections.')
PROP = Property('C24',
    'Cases are covariance structures (dimension 1-5), means, values and '
    'partitions into targets, constraints and marginalised variables, and '
    'factor models with up to 3 latent and 5 observed variables. '
    'Non-trivial: at least one target and one constraint (or two targets).',
    ['covariances are well conditioned (condition number below 1e6)'])

coef = hs.integers(-8, 8).map(lambda i: i / 4.)
var = hs.sampled_from([.1, .25, .5, 1., 1.5, 2., 4., 9.])


@hs.composite
def gaussian(draw, max_n=5, min_n=1):
    n = draw(hs.integers(min_n, max_n))
    A = [[draw(coef) for _ in range(n)] for _ in range(n)]
    d = [draw(var) for _ in range(n)]
    return {'A': A, 'd': d, 'mu': [draw(coef) for _ in range(n)],
        'x': [draw(coef) for _ in range(n)],
        'perm': draw(hs.permutations(list(range(n)))),
        'cut': draw(hs.integers(0, n)), 'cut2': draw(hs.integers(0, n)),
        'seed': draw(hs.integers(0, 2**31 - 1))}


def sigma(c):
    A = np.asarray(c['A'])
    return A.dot(A.T) + np.diag(c['d'])


def ref_logpdf(x, mu, S):
    w, V = np.linalg.eigh(np.asarray(S))
    z = V.T.dot(np.asarray(x) - mu)
    return float(-.5 * np.sum(z * z / w) - .5 * np.sum(np.log(w))
        - .5 * len(w) * math.log(2 * math.pi))


def ref_condition(mu, S, Q, E, e):
    """p(Q | E=e), all else marginalised, through the precision matrix."""
    mu, S = np.asarray(mu, float), np.asarray(S, float)
    J = list(Q) + list(E)
    L = np.linalg.inv(S[np.ix_(J, J)])
    q = len(Q)
    cov = np.linalg.inv(L[:q, :q])
    if not E:
        return mu[list(Q)], cov
    m = mu[list(Q)] - cov.dot(L[:q, q:]).dot(np.asarray(e, float)
        - mu[list(E)])
    return m, cov


def arrays(what, got, want, tol=1e-7):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        fail('%s: shape %r, expected %r', what, got.shape, want.shape)
    if got.size and not np.allclose(got, want, rtol=tol, atol=tol):
        fail('%s: got %s, expected %s', what, got.tolist(), want.tolist())


@PROP.sub('density', gaussian(), quick=3000)
def density(c):
    S, mu, x = sigma(c), np.asarray(c['mu']), np.asarray(c['x'])
    S0, mu0, x0 = S.copy(), mu.copy(), x.copy()
    same('mvnormal.logpdf', mvnormal.logpdf(x, mu, S), ref_logpdf(x, mu, S))
    check(isinstance(mvnormal.logpdf(x, mu, S), float), 'not a float')
    arrays('Sigma after', S, S0)
    arrays('mu after', mu, mu0)
    arrays('x after', x, x0)
    return {'nontrivial': len(x) >= 2}


@PROP.sub('large-density', gaussian(14, 6), quick=500)
def large_density(c):
    return density(c)


@PROP.sub('conditional', gaussian(), quick=4000)
def conditional(c):
    S, mu, x = sigma(c), np.asarray(c['mu']), np.asarray(c['x'])
    Q, E = c['perm'][:c['cut']], c['perm'][c['cut']:]
    if not Q or not E:
        return {'nontrivial': False}
    B = lambda a, b: S[np.ix_(a, b)]
    S0 = S.copy()
    m, v = mvnormal.conditional(x[E], mu[Q], mu[E], B(Q, Q), B(Q, E),
        B(E, Q), B(E, E))
    rm, rv = ref_condition(mu, S, Q, E, x[E])
    arrays('conditional mean', m, rm)
    arrays('conditional covariance', v, rv)
    # Chain rule through the library's own density.
    same('chain rule', mvnormal.logpdf(x[Q], m, v)
        + mvnormal.logpdf(x[E], mu[E], B(E, E)), mvnormal.logpdf(
        x[Q + E], mu[Q + E], B(Q + E, Q + E)))
    arrays('Sigma after', S, S0)
    return {'nontrivial': True}


@PROP.sub('large-conditional', gaussian(14, 6), quick=600)
def large_conditional(c):
    return conditional(c)


@PROP.sub('conditional-degenerate', gaussian(3), quick=400)
def degenerate(c):
    """Conditioning twice on the same variable is conditioning once."""
    n = len(c['x'])
    if n < 2:
        return {'nontrivial': False}
    A = np.round(np.asarray(c['A']) * 4)
    S = A.dot(A.T)
    S[0, 0] += 16.
    for i in range(n):
        S[i, i] += 4
    # Make the duplicated variable's variance a square: exact factorisation.
    k = math.ceil(math.sqrt(S[-1, -1]))
    S[-1, -1] = k * k
    mu, x = np.asarray(c['mu']), np.asarray(c['x'])
    Q, E = list(range(n - 1)), [n - 1]
    EE = [n - 1, n - 1]
    B = lambda a, b: S[np.ix_(a, b)]
    m, v = mvnormal.conditional(x[EE], mu[Q], mu[EE], B(Q, Q), B(Q, EE),
        B(EE, Q), B(EE, EE))
    rm, rv = ref_condition(mu, S, Q, E, x[E])
    arrays('mean given a duplicated variable', m, rm, 1e-6)
    arrays('covariance given a duplicated variable', v, rv, 1e-6)


@PROP.sub('derivatives', hs.tuples(gaussian(4), hs.integers(0, 3),
    hs.integers(0, 3), hs.integers(0, 3)), quick=1500)
def derivatives(t):
    c, ni, nj, nk = t
    S, mu, x = sigma(c), np.asarray(c['mu']), np.asarray(c['x'])
    n = len(x)
    r = np.random.RandomState(c['seed'])
    dX = [np.round(r.normal(size=n), 2) for _ in range(ni)]
    dM = [np.round(r.normal(size=n), 2) for _ in range(nj)]
    dS = []
    for _ in range(nk):
        D = np.round(r.normal(size=(n, n)), 2)
        dS.append(D + D.T)
    gx, gm, gs = mvnormal.dlogpdf(x, dX, mu, dM, S, dS)
    h = 1e-5
    num = lambda f: (f(h) - f(-h)) / (2 * h)
    arrays('derivative in X', gx, [num(lambda e: ref_logpdf(x + e * d, mu, S))
        for d in dX], 1e-4)
    arrays('derivative in Mu', gm, [num(lambda e: ref_logpdf(x, mu + e * d,
        S)) for d in dM], 1e-4)
    # Steps within the positive definite cone.
    want = []
    for d in dS:
        want.append(num(lambda e: ref_logpdf(x, mu, S + e * d)))
    arrays('derivative in Sigma', gs, want, 2e-3)
    return {'nontrivial': n >= 2 and ni + nj + nk >= 2}


# --------------------------------------------------------------------------
# Factor analysis.

@hs.composite
def factor(draw):
    L = draw(hs.integers(1, 3))
    D = draw(hs.integers(max(L, 1), 5))
    outputs = draw(hs.lists(hs.integers(0, 40), min_size=L + D,
        max_size=L + D, unique=True))
    order = draw(hs.permutations(list(range(L + D))))
    nt = draw(hs.integers(1, L + D))
    ne = draw(hs.integers(0, L + D - nt))
    return {'L': L, 'D': D, 'outputs': outputs,
        'mux': [draw(coef) for _ in range(D)],
        'psi': [draw(var) for _ in range(D)],
        'W': [[draw(coef) for _ in range(L)] for _ in range(D)],
        'targets': order[:nt], 'given': order[nt:nt + ne],
        'x': [draw(coef) for _ in range(L + D)],
        'seed': draw(hs.integers(0, 2**31 - 1))}


def build(c, seed=None):
    return FactorAnalysis(outputs=list(c['outputs']), inputs=None, L=c['L'],
        params={'mux': list(c['mux']), 'Psi': np.diag(c['psi']).tolist(),
            'W': [list(w) for w in c['W']]},
        rng=np.random.RandomState(c['seed'] if seed is None else seed))


def joint(c):
    """Mean and covariance over [x, z] in output order."""
    W = np.asarray(c['W'], float).reshape(c['D'], c['L'])
    S = np.zeros((c['D'] + c['L'],) * 2)
    D = c['D']
    S[:D, :D] = W.dot(W.T) + np.diag(c['psi'])
    S[:D, D:] = W
    S[D:, :D] = W.T
    S[D:, D:] = np.eye(c['L'])
    return np.concatenate([c['mux'], np.zeros(c['L'])]), S


def query(c, which):
    return {c['outputs'][i]: c['x'][i] for i in which}


@PROP.sub('factor-queries', factor(), quick=4000)
def factor_queries(c):
    fa = build(c)
    mu, S = joint(c)
    T, G = c['targets'], c['given']
    x = np.asarray(c['x'])
    m, v = ref_condition(mu, S, T, G, x[G])
    want = ref_logpdf(x[T], m, v)
    t, g = query(c, T), query(c, G)
    got = fa.logpdf(None, t, g)
    same('logpdf(%r | %r)' % (t, g), got, want)
    if not G:
        same('without constraints', fa.logpdf(-1, t), want)
    equal('targets after', t, query(c, T))
    equal('constraints after', g, query(c, G))
    arrays('marginal mean', fa.mu[:c['L']], np.zeros(c['L']))
    return {'nontrivial': len(T) + len(G) >= 2}


@hs.composite
def factor_data(draw):
    c = draw(factor())
    n = draw(hs.integers(1, 6))
    rows = []
    for _ in range(n):
        row = [draw(hs.one_of(coef, hs.none())) for _ in range(c['D'])]
        if all(v is None for v in row):
            row[0] = .25
        rows.append(row)
    c['rows'] = rows
    c['rowids'] = draw(hs.lists(hs.integers(0, 50), min_size=n, max_size=n,
        unique=True))
    c['row'] = draw(hs.integers(0, n - 1))
    c['nan'] = draw(hs.booleans())
    return c


def fill(fa, c):
    for r, row in zip(c['rowids'], c['rows']):
        obs = {o: v for o, v in zip(c['outputs'], row) if v is not None}
        if c['nan']:
            obs = {o: float('nan') if v is None else v
                for o, v in zip(c['outputs'], row)}
        fa.incorporate(r, obs)


@PROP.sub('factor-rows', factor_data(), quick=2500)
def factor_rows(c):
    """Observed rows condition the query; the score is the row marginals."""
    fa = build(c)
    fill(fa, c)
    mu, S = joint(c)
    want = 0.
    for row in c['rows']:
        Q = [i for i, v in enumerate(row) if v is not None]
        want += ref_logpdf([row[i] for i in Q], mu[Q], S[np.ix_(Q, Q)])
    same('score of the rows', fa.logpdf_score(), want)
    row = c['rows'][c['row']]
    T, G = c['targets'], list(c['given'])
    x = list(c['x'])
    for i, v in enumerate(row):
        if v is not None and i not in T and i not in G:
            G.append(i)
            x[i] = v
    x = np.asarray(x)
    m, v = ref_condition(mu, S, T, G, x[G])
    same('logpdf for an observed row', fa.logpdf(c['rowids'][c['row']],
        query(c, T), query(c, c['given'])), ref_logpdf(x[T], m, v))
    s = fa.simulate(c['rowids'][c['row']], [c['outputs'][i] for i in T],
        query(c, c['given']))
    equal('simulated variables', sorted(s), sorted(c['outputs'][i]
        for i in T))
    return {'nontrivial': len(c['rows']) >= 2 and len(G) >= 1}


@PROP.sub('factor-sampler', factor_data(), quick=250)
def factor_sampler(c):
    fa = build(c)
    fill(fa, c)
    mu, S = joint(c)
    T, G = c['targets'], list(c['given'])
    x, rowid = list(c['x']), None
    if c['nan']:
        rowid = c['rowids'][c['row']]
        for i, v in enumerate(c['rows'][c['row']]):
            if v is not None and i not in T and i not in G:
                G.append(i)
                x[i] = v
    x = np.asarray(x)
    m, v = ref_condition(mu, S, T, G, x[G])
    r = np.random.RandomState(c['seed'])
    a = r.normal(size=len(T))
    targets = [c['outputs'][i] for i in T]
    constraints = query(c, c['given'])
    for mode in ('many', 'one'):
        def draw(n):
            if mode == 'one':
                ss = [fa.simulate(rowid, targets, constraints)
                    for _ in range(n)]
            else:
                ss = fa.simulate(rowid, targets, constraints, N=n)
            if len(ss) != n:
                fail('%d samples instead of %d', len(ss), n)
            for s in ss:
                if set(s) != set(targets):
                    fail('simulated %r instead of %r', s, targets)
            return [sum(w * s[t] for w, t in zip(a, targets)) for s in ss]
        stats.continuous('projection of simulate (%s)' % mode, draw,
            st.norm(a.dot(m), math.sqrt(a.dot(v).dot(a))).cdf,
            n1=200, n2=3000)
    return {'nontrivial': len(T) + len(G) >= 2}


@PROP.sub('factor-learning', hs.fixed_dictionaries({
    'D': hs.integers(2, 4), 'n': hs.integers(12, 40),
    'seed': hs.integers(0, 2**31 - 1), 'missing': hs.integers(0, 4)}),
    quick=120)
def learning(c):
    """Fitting uses the complete rows: their mean, and no worse than an
    independent Gaussian."""
    r = np.random.RandomState(c['seed'])
    D, n = c['D'], c['n']
    X = np.round(r.normal(size=(n, 1)).dot(r.normal(size=(1, D)))
        + .5 * r.normal(size=(n, D)) + r.normal(size=D), 4)
    for i in range(c['missing']):
        X[i, r.randint(D)] = np.nan
    fa = FactorAnalysis(outputs=list(range(D + 1)), inputs=None, L=1,
        rng=np.random.RandomState(1))
    for i in range(n):
        fa.incorporate(i, {j: X[i, j] for j in range(D)
            if not np.isnan(X[i, j])})
    fa.transition(N=1)
    ok = X[~np.any(np.isnan(X), axis=1)]
    arrays('fitted mean', fa.mux, ok.mean(axis=0))
    arrays('marginal covariance', fa.cov[1:, 1:], fa.W.dot(fa.W.T) + fa.Psi)
    arrays('cross covariance', fa.cov[1:, :1], fa.W)
    arrays('mean of the joint', fa.mu, np.r_[0., fa.mux])
    arrays('diagonal noise', fa.Psi, np.diag(np.diag(fa.Psi)))
    fitted = sum(fa.logpdf(None, dict(enumerate(map(float, x)))) for x in ok)
    indep = st.norm(ok.mean(0), ok.std(0)).logpdf(ok).sum()
    check(fitted >= indep - .5, 'fitted likelihood %r is below that of '
        'independent columns %r', fitted, indep)
    # Data are untouched.
    for i in range(n):
        got = np.asarray(fa.data[i], float)
        check(np.array_equal(got, X[i], equal_nan=True), 'row %d changed', i)


@PROP.sub('factor-rejection', factor_data(), quick=800)
def rejection(c):
    fa = build(c)
    fill(fa, c)
    o, D = c['outputs'], c['D']
    before = (copy.deepcopy(dict(fa.data)), fa.N, fa.logpdf_score())
    obs = {o[0]: 0.}
    rid = max(c['rowids']) + 1
    raises('duplicate row', ValueError,
        lambda: fa.incorporate(c['rowids'][0], obs))
    raises('latent observed', ValueError,
        lambda: fa.incorporate(rid, {o[0]: 0., o[-1]: 0.}))
    raises('unknown column', ValueError,
        lambda: fa.incorporate(rid, {o[0]: 0., 99: 0.}))
    raises('empty row', ValueError, lambda: fa.incorporate(rid, {}))
    raises('inputs', ValueError,
        lambda: fa.incorporate(rid, obs, {99: 1}))
    raises('absent row', ValueError, lambda: fa.unincorporate(rid))
    for f in (fa.logpdf, lambda r, t, e=None, i=None: fa.simulate(
            r, list(t), e, i)):
        raises('no targets', ValueError, lambda: f(None, {}))
        raises('unknown target', ValueError, lambda: f(None, {99: 0.}))
        raises('overlap', ValueError, lambda: f(None, obs, {o[0]: 1.}))
        raises('inputs', ValueError, lambda: f(None, obs, None, {99: 1}))
    after = (dict(fa.data), fa.N, fa.logpdf_score())
    equal('rows', sorted(before[0]), sorted(after[0]))
    equal('N', before[1], after[1])
    same('score', after[2], before[2])
    kw = lambda **k: dict(dict(outputs=list(o), inputs=None, L=c['L']), **k)
    for what, k in (('inputs', kw(inputs=[77])), ('one output',
            kw(outputs=[1])), ('duplicates', kw(outputs=[1, 1, 2], L=1)),
            ('no L', kw(L=None)), ('L=0', kw(L=0)),
            ('L too large', kw(outputs=[1, 2, 3], L=2))):
        raises(what, ValueError, lambda: FactorAnalysis(**k))
    # Any output which is not numerical, wherever it is.
    for i in (0, len(o) // 2, len(o) - 1):
        types = ['numerical'] * len(o)
        types[i] = 'categorical'
        raises('output %d of %d not numerical' % (i, len(o)), ValueError,
            lambda: FactorAnalysis(**kw(distargs={'outputs':
                {'stattypes': types}})))
    FactorAnalysis(**kw(distargs={'outputs':
        {'stattypes': ['numerical'] * len(o)}}))
    return {'nontrivial': True}


# --------------------------------------------------------------------------

@PROP.sub('batches', models.batch(('factor',)), quick=60, timeout=120.)
def batches(c):
    """The samples of one call are independent of each other."""
    return models.check_batch(c)
