"""Generated models of every kind behind one interface.

A case is a JSON-able dictionary:
    kind      primitive | linreg | ols | forest | factor | kde | knn | dim
    spec      what is needed to build it
    pool      rows: [observation pairs, input pairs]
    queries   [target pairs, constraint pairs, input pairs]
NaN is written as None.
"""

import math

import numpy as np

from vlib import prims
from vlib.harness import hs

KINDS = ['primitive', 'linreg', 'ols', 'forest', 'factor', 'kde', 'knn',
    'dim']
NAN = float('nan')
quarter = hs.integers(-20, 20).map(lambda i: i / 4.)


def dic(pairs):
    return {k: NAN if v is None else v for k, v in pairs}


# --------------------------------------------------------------------------
# Generators of each kind.

@hs.composite
def primitive(draw, n, nq, dists=prims.ALL):
    m = draw(prims.model(dists, 0))
    out = draw(hs.integers(0, 9))
    val = prims.value_of(m['dist'], m['distargs'])
    return {'kind': 'primitive', 'spec': dict(m, output=out),
        'pool': [[[[out, draw(val)]], []] for _ in range(n)],
        'queries': [[[[out, draw(val)]], [], []] for _ in range(nq)]}


@hs.composite
def covariate_types(draw, max_inputs=3):
    """[cctype, k]: numerical or categorical."""
    return draw(hs.lists(hs.one_of(
        hs.just(['numerical', None]),
        hs.integers(2, 4).map(lambda k: ['categorical', k])),
        min_size=1, max_size=max_inputs))


def covariates(types, cols):
    def one(t):
        return quarter if t[1] is None else hs.integers(0, t[1] - 1)
    return hs.tuples(*[one(t) for t in types]).map(
        lambda vs: [[c, v] for c, v in zip(cols, vs)])


@hs.composite
def regression(draw, n, nq, kind):
    types = draw(covariate_types())
    cols = draw(hs.lists(hs.integers(0, 9), min_size=len(types) + 1,
        max_size=len(types) + 1, unique=True))
    out, ins = cols[0], cols[1:]
    if kind == 'forest':
        # Covariates are given to the forest in the order of their columns.
        ins = sorted(ins)
    spec = {'types': types, 'output': out, 'inputs': ins}
    if kind == 'linreg':
        spec['hypers'] = {'a': draw(prims.positive(.5, 10.)),
            'b': draw(prims.positive(.1, 10.))}
        y = quarter
    elif kind == 'forest':
        spec['k'] = draw(hs.integers(2, 4))
        y = hs.integers(0, spec['k'] - 1)
    else:
        y = quarter
    x = covariates(types, ins)
    return {'kind': kind, 'spec': spec,
        'pool': [[[[out, draw(y)]], draw(x)] for _ in range(n)],
        'queries': [[[[out, draw(y)]], [], draw(x)] for _ in range(nq)]}


@hs.composite
def factor(draw, n, nq):
    L = draw(hs.integers(1, 2))
    D = draw(hs.integers(max(L, 2), 3))
    outs = draw(hs.lists(hs.integers(0, 20), min_size=L + D,
        max_size=L + D, unique=True))
    coef = hs.integers(-6, 6).map(lambda i: i / 4.)
    spec = {'outputs': outs, 'L': L, 'mux': [draw(coef) for _ in range(D)],
        'psi': [draw(prims.positive(.2, 3.)) for _ in range(D)],
        'W': [[draw(coef) for _ in range(L)] for _ in range(D)]}
    rows = []
    for _ in range(n):
        row = [[o, draw(hs.one_of(quarter, quarter, hs.none()))]
            for o in outs[:D]]
        if all(v is None for _, v in row):
            row[0][1] = .5
        rows.append([row, []])
    return {'kind': 'factor', 'spec': spec, 'pool': rows,
        'queries': [draw(subset_query(outs, lambda o: quarter))
            for _ in range(nq)]}


@hs.composite
def subset_query(draw, outs, value, need_constraint=False):
    order = draw(hs.permutations(outs))
    low = 1
    high = len(outs) - (1 if need_constraint else 0)
    t = draw(hs.integers(low, high))
    c = draw(hs.integers(1 if need_constraint else 0, len(outs) - t))
    pick = lambda vs: [[o, draw(value(o))] for o in vs]
    return [pick(order[:t]), pick(order[t:t + c]), []]


@hs.composite
def multivariate(draw, n, nq, kind):
    D = draw(hs.integers(2, 4))
    outs = draw(hs.lists(hs.integers(0, 20), min_size=D, max_size=D,
        unique=True))
    types = [draw(hs.one_of(hs.just(['numerical', None]), hs.integers(2, 4
        ).map(lambda k: ['categorical', k]))) for _ in outs]
    k_of = {o: t[1] for o, t in zip(outs, types)}
    value = lambda o: quarter if k_of[o] is None else hs.integers(
        0, k_of[o] - 1)
    rows = []
    for _ in range(n):
        row = [[o, draw(hs.one_of(value(o), value(o), value(o), hs.none()))]
            for o in outs]
        if all(v is None for _, v in row):
            row[0][1] = 0
        rows.append([row, []])
    spec = {'outputs': outs, 'types': types}
    if kind == 'kde':
        spec['bw'] = [draw(prims.positive(.2, 2.)) if t[1] is None
            else draw(hs.sampled_from([.05, .1, .3])) for t in types]
    else:
        spec['K'] = draw(hs.integers(1, 4))
        spec['M'] = draw(hs.one_of(hs.none(), hs.integers(1, spec['K'])))
    return {'kind': kind, 'spec': spec, 'pool': rows,
        'queries': [draw(subset_query(outs, value, kind == 'knn'))
            for _ in range(nq)]}


@hs.composite
def dim(draw, n, nq, dists=prims.COLLAPSED):
    m = draw(prims.model(dists, 0))
    out = draw(hs.integers(0, 9))
    val = prims.value_of(m['dist'], m['distargs'])
    rows = [[[[out, draw(hs.one_of(val, val, hs.none()))]],
        [[-1, draw(hs.integers(0, 3))]]] for _ in range(n)]
    return {'kind': 'dim', 'spec': dict(m, output=out), 'pool': rows,
        'queries': [[[[out, draw(val)]], [], [[-1, k]]] for k in range(5)]}


def model(n=6, nq=3, kinds=tuple(KINDS)):
    table = {
        'primitive': primitive(n, nq),
        'linreg': regression(n, nq, 'linreg'),
        'ols': regression(n, nq, 'ols'),
        'forest': regression(n, nq, 'forest'),
        'factor': factor(n, nq),
        'kde': multivariate(n, nq, 'kde'),
        'knn': multivariate(n, nq, 'knn'),
        'dim': dim(n, nq)}
    return hs.one_of(*[table[k] for k in kinds])


# --------------------------------------------------------------------------
# The real thing.

def input_distargs(types):
    return {'stattypes': [t[0] for t in types],
        'statargs': [{} if t[1] is None else {'k': t[1]} for t in types]}


def build(c, seed=0):
    s, kind = c['spec'], c['kind']
    rng = np.random.RandomState(seed)
    if kind == 'primitive':
        from cgpm.utils import config as cu
        return cu.cctype_class(s['dist'])(outputs=[s['output']], inputs=[],
            hypers=dict(s['hypers']) or None, params=dict(s['params']) or
            None, distargs=dict(s['distargs']), rng=rng)
    if kind == 'dim':
        from cgpm.mixtures.dim import Dim
        return Dim([s['output']], [-1], cctype=s['dist'],
            hypers=dict(s['hypers']), distargs=dict(s['distargs']), rng=rng)
    if kind == 'linreg':
        from cgpm.regressions.linreg import LinearRegression
        return LinearRegression([s['output']], list(s['inputs']),
            hypers=dict(s['hypers']), distargs={
                'inputs': input_distargs(s['types'])}, rng=rng)
    if kind == 'ols':
        from cgpm.regressions.ols import OrdinaryLeastSquares
        return OrdinaryLeastSquares([s['output']], list(s['inputs']),
            distargs={'inputs': input_distargs(s['types'])}, rng=rng)
    if kind == 'forest':
        from cgpm.regressions.forest import RandomForest
        return RandomForest([s['output']], list(s['inputs']), distargs={
            'inputs': input_distargs(s['types']), 'k': s['k']}, rng=rng)
    if kind == 'factor':
        from cgpm.factor.factor import FactorAnalysis
        return FactorAnalysis(list(s['outputs']), None, L=s['L'], params={
            'mux': list(s['mux']), 'Psi': np.diag(s['psi']),
            'W': np.asarray(s['W'], float)}, rng=rng)
    distargs = {'outputs': input_distargs(s['types'])}
    if kind == 'kde':
        from cgpm.kde.mvkde import MultivariateKde
        return MultivariateKde(list(s['outputs']), None, distargs=distargs,
            params={'bw': list(s['bw'])}, rng=rng)
    if kind == 'knn':
        from cgpm.knn.mvknn import MultivariateKnn
        return MultivariateKnn(list(s['outputs']), None, K=s['K'], M=s['M'],
            distargs=distargs, rng=rng)
    raise ValueError(kind)


def add(g, c, rowid, i):
    obs, ins = c['pool'][i % len(c['pool'])]
    if ins:
        g.incorporate(rowid, dic(obs), dic(ins))
    else:
        g.incorporate(rowid, dic(obs))


FIT = ('forest', 'ols', 'factor')


def can_fit(c, g):
    """Whether learning is defined for the data which g holds."""
    if c['kind'] == 'factor':
        X = np.asarray(list(g.data.values()), float).reshape(-1, g.D)
        X = X[~np.any(np.isnan(X), axis=1)]
        # Fewer distinct rows leave a singular covariance.
        return len(X) >= 2 and np.all(X.std(axis=0) > 0)
    if c['kind'] == 'ols':
        return g.N > 0
    return c['kind'] == 'forest' and g.N > 0


def answers(g, c, score=True):
    """Densities of the queries and the score; None where undefined."""
    kind, out = c['kind'], []
    if score and kind not in ('ols', 'knn') and not (
            kind == 'kde' and g.N == 0):
        out.append(try_(lambda: g.logpdf_score()))
    for t, e, i in c['queries']:
        kw = {'inputs': dic(i)} if i else {}
        if kind in ('kde', 'knn') and g.N == 0:
            out.append(None)
            continue
        out.append(try_(lambda: g.logpdf(-7, dic(t), dic(e) if e else None,
            **kw)))
    return out


def try_(f):
    """Undefined densities (too few complete rows, ...) raise ValueError."""
    try:
        return float(np.squeeze(f()))
    except (ValueError, IndexError, ZeroDivisionError):
        return None


def compare(what, got, want, rtol=1e-6, atol=1e-6):
    from vlib.harness import fail, isclose
    if len(got) != len(want):
        fail('%s: %r, expected %r', what, got, want)
    for a, b in zip(got, want):
        if a is None or b is None:
            if a is not b:
                fail('%s: %r, expected %r', what, got, want)
        elif not isclose(a, b, rtol, atol):
            fail('%s: %r, expected %r', what, got, want)


def stored(g, c):
    """What the model holds, in a comparable form."""
    kind = c['kind']
    if kind == 'dim':
        return [sorted(g.Zr.items()), sorted(g.Zi.items())]
    d = g.data
    clean = lambda v: [None if isinstance(x, float) and math.isnan(x)
        else x for x in (v if isinstance(v, (list, tuple)) else [v])]
    if kind in ('linreg', 'ols', 'forest'):
        return [[r, clean(d.x[r]), clean(list(d.Y[r]))] for r in sorted(d.x)]
    return [[r, clean(d[r])] for r in sorted(d)]


def count(g, c):
    if c['kind'] == 'dim':
        return len(g.Zr) + len(g.Zi)
    return g.N


def suffstats(g):
    """Flattened sufficient statistics without empty entries."""
    if not hasattr(g, 'get_suffstats'):
        return []
    out = []

    def walk(x, path):
        if isinstance(x, dict):
            for k in sorted(x, key=str):
                walk(x[k], path + (str(k),))
        elif isinstance(x, (list, tuple, np.ndarray)):
            x = list(x)
            if x and all(isinstance(t, tuple) and len(t) == 2 for t in x):
                for k, v in sorted(x):
                    walk(v, path + (str(k),))
            else:
                for i, v in enumerate(x):
                    walk(v, path + (str(i),))
        else:
            try:
                out.append((path, float(np.real(x)), float(np.imag(x))))
            except (TypeError, ValueError):
                out.append((path, repr(x), 0))
    walk(g.get_suffstats(), ())
    return out


def compare_stats(what, got, want):
    from vlib.harness import fail, isclose
    ok = len(got) == len(want) and all(
        a[0] == b[0] and (a[1] == b[1] or isclose(a[1], b[1], 1e-6, 1e-6)
            and isclose(a[2], b[2], 1e-6, 1e-6))
        for a, b in zip(got, want))
    if not ok:
        fail('%s: sufficient statistics %r, expected %r', what, got, want)


# --------------------------------------------------------------------------
# Independence of the draws of one call.

@hs.composite
def batch(draw, kinds):
    c = draw(model(8, 2, kinds))
    return {'model': c, 'N': draw(hs.sampled_from([3, 12, 40])),
        'rows': draw(hs.integers(2, 8)), 'query': draw(hs.integers(0, 1)),
        'given': draw(hs.booleans()), 'fit': draw(hs.booleans()),
        'seed': draw(hs.integers(0, 2**31 - 1))}


def check_batch(b):
    """Samples of one call are neither alike nor spread too evenly."""
    from vlib import stats
    c = b['model']
    g = build(c, b['seed'])
    for r in range(b['rows']):
        add(g, c, r, r)
    if b['fit'] and c['kind'] in FIT and can_fit(c, g):
        g.transition(N=1)
    t, e, i = c['queries'][b['query']]
    # A model which keeps no response for a covariate-free query has inputs.
    targets, given = [v for v, _ in t], dic(e) if e and b['given'] else None
    kw = {'inputs': dic(i)} if i else {}
    try:
        pilot = g.simulate(-7, list(targets), given, N=60, **kw)
    except ValueError:
        return {'nontrivial': False}
    first = targets[0]
    xs = sorted(float(x[first]) for x in pilot)
    # An event close to an even chance: at most a middle value.
    cut = xs[len(xs) // 2]
    if xs[-1] <= cut:
        below = [x for x in xs if x < cut]
        if not below:
            return {'nontrivial': False}
        cut = below[-1]
    useful = stats.independent('%s.simulate of %r given %r, N=%d' % (
        c['kind'], targets, given, b['N']), lambda: [float(x[first]) <= cut
        for x in g.simulate(-7, list(targets), given, N=b['N'], **kw)], 24,
        240)
    return {'nontrivial': useful and b['N'] > 3,
        'labels': [c['kind'], 'N=%d' % b['N']]}
