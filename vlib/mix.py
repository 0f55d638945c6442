"""Generated crosscat states and their exact reference.

A *spec* is a JSON-able description of a crosscat state:
  cols:  [{'col', 'dist', 'distargs', 'hypers'}]
  rows:  list of lists, one cell per column, None for a missing one
  Zv:    [[col, view]]
  Zr:    [[view, [cluster of each row]]]
  alpha, view_alphas: [[view, alpha]]
The reference functions work on the spec alone with vlib.prims.
"""

import math

import numpy as np

from scipy.special import gammaln

from vlib import prims
from vlib.harness import hs, fail, isclose, check

INF = float('inf')
NAN = float('nan')
DISTS = ['bernoulli', 'categorical', 'exponential', 'geometric', 'lognormal',
    'normal', 'poisson', 'vonmises']


# --------------------------------------------------------------------------
# Generators.

@hs.composite
def column(draw, dists=DISTS):
    dist = draw(hs.sampled_from(dists))
    distargs = draw(prims.distargs_of(dist))
    h = draw(prims.hypers_of(dist))
    # Keep samples within the range of machine numbers (see C04).
    if dist == 'geometric':
        h['a'] = max(.5, h['a'])
    elif dist == 'lognormal':
        h.update(nu=max(3., h['nu']), s=min(2., h['s']), r=max(.5, h['r']))
    return {'dist': dist, 'distargs': distargs, 'hypers': h}


@hs.composite
def spec(draw, max_cols=4, max_rows=6, min_cols=1, min_rows=1, dists=DISTS,
        missing=True, one_view=False, zero_based=False, max_views=3):
    D = draw(hs.integers(min_cols, max_cols))
    N = draw(hs.integers(min_rows, max_rows))
    ids = list(range(D)) if zero_based else draw(hs.lists(
        hs.integers(0, 30), min_size=D, max_size=D, unique=True))
    cols = []
    for i in ids:
        c = draw(column(dists))
        c['col'] = i
        cols.append(c)
    rows = [[None] * D for _ in range(N)]
    for j, c in enumerate(cols):
        val = prims.value_of(c['dist'], c['distargs'])
        cell = hs.one_of(val, val, val, hs.none()) if missing else val
        for i in range(N):
            rows[i][j] = draw(cell)
        if all(r[j] is None for r in rows):
            rows[draw(hs.integers(0, N - 1))][j] = draw(val)
    views = draw(hs.lists(hs.integers(0, 6), min_size=1,
        max_size=1 if one_view else max_views, unique=True))
    Zv = [[i, draw(hs.sampled_from(views))] for i in ids]
    used = sorted(set(v for _, v in Zv), key=views.index)
    Zr = []
    for v in used:
        labels = draw(hs.lists(hs.integers(0, 5), min_size=2, max_size=3,
            unique=True))
        Zr.append([v, [draw(hs.sampled_from(labels)) for _ in range(N)]])
    alpha = hs.sampled_from([.2, .5, 1., 1.7, 4., .5, 1., .004, 25.])
    return {'cols': cols, 'rows': rows, 'Zv': Zv, 'Zr': Zr,
        'alpha': draw(alpha), 'view_alphas': [[v, draw(alpha)] for v in used]}


def sample_value(rng, dist, distargs):
    """A value of the support from a plain generator."""
    u = rng.uniform()
    if dist == 'bernoulli':
        return int(u < .4)
    if dist == 'categorical':
        return int(u * distargs['k'])
    if dist in ('geometric', 'poisson'):
        return int(rng.poisson(3 if u < .8 else 30))
    if dist == 'normal':
        return round(float(rng.normal(0, 3 if u < .8 else 40)), 2)
    if dist == 'exponential':
        return round(float(rng.exponential(2 if u < .8 else 25)), 2)
    if dist == 'lognormal':
        return round(float(rng.lognormal(0, 1)), 2) + .01
    if dist == 'vonmises':
        return round(float(rng.uniform(0, 6.28)), 2)
    raise ValueError(dist)


@hs.composite
def big(draw, max_cols=12, max_rows=60, min_cols=1, min_rows=8, dists=DISTS,
        missing=True, one_view=False, zero_based=False, max_views=6,
        max_clusters=20):
    """A spec beyond the sizes of spec(): its cells come from a generator."""
    D = draw(hs.integers(min_cols, max_cols))
    N = draw(hs.integers(min_rows, max_rows))
    views = draw(hs.integers(1, 1 if one_view else max_views))
    K = draw(hs.integers(1, max_clusters))
    rate = draw(hs.sampled_from([0., .1, .4])) if missing else 0.
    rng = np.random.RandomState(draw(hs.integers(0, 2**31 - 1)))
    kinds = [draw(column(dists)) for _ in range(min(D, 4))]
    far = 40 if draw(hs.booleans()) else 700
    ids_ = list(range(D)) if zero_based else [int(x) for x in
        rng.permutation(far)[:D]]
    cols = []
    for j, i in enumerate(ids_):
        k = kinds[j] if j < len(kinds) else kinds[rng.randint(len(kinds))]
        cols.append(dict(k, col=i, hypers=dict(k['hypers']),
            distargs=dict(k['distargs'])))
    rows = [[None if rng.uniform() < rate else sample_value(rng, c['dist'],
        c['distargs']) for c in cols] for _ in range(N)]
    for j, c in enumerate(cols):
        if all(r[j] is None for r in rows):
            rows[rng.randint(N)][j] = sample_value(rng, c['dist'],
                c['distargs'])
    labels = [int(x) for x in rng.permutation(30)[:views]]
    Zv = [[i, labels[rng.randint(views)]] for i in ids_]
    used = []
    for _, v in Zv:
        if v not in used:
            used.append(v)
    Zr = []
    for v in used:
        ks = [int(x) for x in rng.permutation(60)[:K]]
        Zr.append([v, [ks[min(rng.geometric(1.5 / (K + .5)) - 1, K - 1) if
            rng.uniform() < .5 else rng.randint(K)] for _ in range(N)]])
    alpha = hs.sampled_from([.2, 1., 4., 12., .002, 60.])
    return {'cols': cols, 'rows': rows, 'Zv': Zv, 'Zr': Zr,
        'alpha': draw(alpha), 'view_alphas': [[v, draw(alpha)] for v in used]}


def value(s, col):
    c = by_col(s)[col]
    return prims.value_of(c['dist'], c['distargs'])


@hs.composite
def query(draw, s, cols=None, allow_empty_targets=False):
    """Disjoint targets and constraints over the columns: two pair lists."""
    cols = list(cols if cols is not None else ids(s))
    order = draw(hs.permutations(cols))
    lo = 0 if allow_empty_targets else 1
    t = draw(hs.integers(lo, len(order)))
    c = draw(hs.integers(0, len(order) - t))
    pick = lambda xs: [[i, draw(value(s, i))] for i in xs]
    return [pick(order[:t]), pick(order[t:t + c])]


# --------------------------------------------------------------------------
# Accessors of a spec.

def by_col(s):
    return {c['col']: c for c in s['cols']}


def ids(s):
    return [c['col'] for c in s['cols']]


def position(s):
    return {c['col']: j for j, c in enumerate(s['cols'])}


def zv(s):
    return dict((c, v) for c, v in s['Zv'])


def zr(s):
    return dict((v, z) for v, z in s['Zr'])


def view_alpha(s):
    return dict((v, a) for v, a in s['view_alphas'])


def cell(s, i, col):
    return s['rows'][i][position(s)[col]]


def cols_in(s, v):
    z = zv(s)
    return [c for c in ids(s) if z[c] == v]


def n_rows(s):
    return len(s['rows'])


def dic(pairs):
    return dict((k, v) for k, v in pairs)


# --------------------------------------------------------------------------
# Reference.

def cluster_data(s, v, k, col, without=()):
    z = zr(s)[v]
    return [cell(s, i, col) for i in range(n_rows(s))
        if z[i] == k and i not in without and cell(s, i, col) is not None]


def cell_lp(s, v, k, col, x, without=()):
    """log p(x | cluster k of view v, its data)."""
    if x is None or (isinstance(x, float) and math.isnan(x)):
        return 0.
    c = by_col(s)[col]
    return prims.predictive(c['dist'], x, cluster_data(s, v, k, col, without),
        c['hypers'], c['distargs'])


def tables(s, v, without=()):
    """[(cluster, log prior)] of a new row, the last one being fresh."""
    z = [k for i, k in enumerate(zr(s)[v]) if i not in without]
    a = view_alpha(s)[v]
    ks = sorted(set(z))
    new = max(zr(s)[v]) + 1
    return [(k, math.log(z.count(k) / (len(z) + a))) for k in ks] + [
        (new, math.log(a / (len(z) + a)))]


def lse(xs):
    xs = [x for x in xs if x != -INF]
    if not xs:
        return -INF
    m = max(xs)
    return m + math.log(sum(math.exp(x - m) for x in xs))


def row_lp(s, v, k, values, without=()):
    return sum(cell_lp(s, v, k, c, x, without) for c, x in values.items())


def view_joint(s, v, values, k=None):
    """log p(values [, cluster k]) of a fresh row in view v."""
    terms = {t: lp + row_lp(s, v, t, values) for t, lp in tables(s, v)}
    return terms[k] if k is not None else lse(list(terms.values()))


def view_logpdf(s, v, targets, constraints, kt=None, kc=None):
    """Fresh row; kt / kc: cluster queried / conditioned on."""
    if kc is not None:
        return row_lp(s, v, kc, targets)
    both = dict(constraints, **{})
    both.update(targets)
    num = view_joint(s, v, both, kt)
    den = view_joint(s, v, constraints) if constraints else 0.
    return num - den if num != -INF else -INF


def split(s, values):
    out = {}
    z = zv(s)
    for c, x in values.items():
        out.setdefault(z[c], {})[c] = x
    return out


def logpdf(s, targets, constraints=None):
    """Fresh row of the whole state."""
    T, C = split(s, targets), split(s, constraints or {})
    return sum(view_logpdf(s, v, T[v], C.get(v, {})) for v in T)


def logpdf_row(s, i, targets):
    """A hypothetical copy of row i: its clusters are given."""
    T = split(s, targets)
    return sum(row_lp(s, v, zr(s)[v][i], T[v]) for v in T)


def crp_score(z, alpha):
    counts = [z.count(k) for k in set(z)]
    return len(counts) * math.log(alpha) + sum(gammaln(c) for c in counts) \
        + gammaln(alpha) - gammaln(len(z) + alpha)


def view_score(s, v, prior=True):
    z = zr(s)[v]
    total = crp_score(z, view_alpha(s)[v]) if prior else 0.
    for c in cols_in(s, v):
        d = by_col(s)[c]
        for k in set(z):
            total += prims.marginal(d['dist'], cluster_data(s, v, k, c),
                d['hypers'], d['distargs'])
    return total


def score(s):
    return crp_score([v for _, v in s['Zv']], s['alpha']) + sum(
        view_score(s, v) for v in zr(s))


def posterior_cluster(s, v, values, i=None):
    """{cluster: probability} of a fresh row with the given values, or of
    row i given all other rows."""
    without = () if i is None else (i,)
    t = [(k, lp + row_lp(s, v, k, values, without))
        for k, lp in tables(s, v, without)]
    norm = lse([x for _, x in t])
    return {k: math.exp(x - norm) for k, x in t}


# --------------------------------------------------------------------------
# The real thing.

def array(s):
    return np.asarray([[NAN if x is None else float(x) for x in r]
        for r in s['rows']], dtype=float)


def build(s, seed=0, **kw):
    from cgpm.crosscat.state import State
    args = dict(outputs=ids(s), cctypes=[c['dist'] for c in s['cols']],
        distargs=[dict(c['distargs']) for c in s['cols']],
        hypers=[dict(c['hypers']) for c in s['cols']],
        Zv=dic(s['Zv']), Zrv=dic(s['Zr']), alpha=s['alpha'],
        view_alphas=dic(s['view_alphas']), rng=np.random.RandomState(seed))
    args.update(kw)
    return State(array(s), **args)


def build_view(s, v, seed=0, token=None):
    """A mixture on its own, over the columns of view v."""
    from cgpm.mixtures.view import View
    cols = cols_in(s, v)
    X = {c: [NAN if cell(s, i, c) is None else float(cell(s, i, c))
        for i in range(n_rows(s))] for c in cols}
    d = by_col(s)
    return View(X, outputs=[1000 if token is None else token] + cols,
        alpha=view_alpha(s)[v], cctypes=[d[c]['dist'] for c in cols],
        distargs=[dict(d[c]['distargs']) for c in cols],
        hypers=[dict(d[c]['hypers']) for c in cols],
        Zr=list(zr(s)[v]), rng=np.random.RandomState(seed))


def read(state):
    """Spec of a live state."""
    def clean(x):
        return None if math.isnan(x) else x
    dims = [state.dim_for(c) for c in state.outputs]
    n = state.n_rows()
    return {
        'cols': [{'col': c, 'dist': d.cctype, 'distargs': dict(d.distargs),
            'hypers': dict(d.hypers)} for c, d in zip(state.outputs, dims)],
        'rows': [[clean(state.X[c][i]) for c in state.outputs]
            for i in range(n)],
        'Zv': [[c, state.Zv(c)] for c in state.outputs],
        'Zr': [[v, [view.Zr(i) for i in range(n)]]
            for v, view in state.views.items()],
        'alpha': state.alpha(),
        'view_alphas': [[v, view.alpha()]
            for v, view in state.views.items()]}


def fingerprint(state):
    """Everything observable of a state's model, in comparable form."""
    s = read(state)
    out = {'cols': [[c['col'], c['dist'], sorted(c['hypers'].items()),
            repr(sorted(c['distargs'].items()))]
            for c in s['cols']],
        'rows': s['rows'], 'Zv': sorted(s['Zv']),
        'lengths': sorted((c, len(x)) for c, x in state.X.items()),
        'Zr': sorted(s['Zr']), 'alpha': s['alpha'],
        'view_alphas': sorted(s['view_alphas']),
        'diagnostics': repr(sorted(
            (k, sorted(v.items()) if isinstance(v, dict) else v)
            for k, v in state.diagnostics.items() if v)),
        'hooked': sorted(state.hooked_cgpms),
        'composite': bool(state.is_composite()),
        'Ci': repr(state.Ci), 'Cd': repr(state.Cd)}
    for v, view in state.views.items():
        for c, d in view.dims.items():
            out['dim %d in %d' % (c, v)] = [sorted(
                (k, sorted(m.data.items())) for k, m in d.clusters.items()
                if hasattr(m, 'data') and isinstance(m.data, dict)),
                sorted(d.Zr.items()), sorted(d.Zi.items())]
    return out


def differences(a, b):
    return ['%s: %r -> %r' % (k, a.get(k), b.get(k))
        for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


def unchanged(what, state, before, ignore=()):
    d = [x for x in differences(before, fingerprint(state))
        if not any(x.startswith(i) for i in ignore)]
    if d:
        fail('%s changed the state: %s', what, '; '.join(d)[:800])


def compare_stats(what, got, want):
    """Sufficient statistics up to rounding, whatever their containers."""
    from vlib import models

    class Box(object):
        def __init__(self, x):
            self.x = x

        def get_suffstats(self):
            return self.x
    models.compare_stats(what, models.suffstats(Box(got)),
        models.suffstats(Box(want)))


def invariants(what, state, s=None):
    """Structural consistency of a live state.

    s: spec whose rows (and columns) the state must hold, if given.
    """
    from cgpm.utils import config as cu
    r = read(state)
    n = state.n_rows()
    cols = list(state.outputs)
    check(len(set(cols)) == len(cols) == state.n_cols(), '%s: outputs %r',
        what, cols)
    check(sorted(state.X) == sorted(cols), '%s: data for columns %r, outputs '
        '%r', what, sorted(state.X), cols)
    for c in cols:
        check(len(state.X[c]) == n, '%s: column %d has %d rows, not %d', what,
            c, len(state.X[c]), n)
        check(state.has_output(c), '%s: has_output(%d) is False', what, c)
    if s is not None:
        check(sorted(cols) == sorted(ids(s)), '%s: columns %r, expected %r',
            what, cols, ids(s))
        pos = {c: j for j, c in enumerate(cols)}
        want = [[cell(s, i, c) for c in cols] for i in range(len(s['rows']))]
        got = [[row[pos[c]] for c in cols] for row in r['rows']]
        check(got == want, '%s: data %r, expected %r', what, got, want)
        types = {c['col']: c['dist'] for c in s['cols']}
        for c in r['cols']:
            check(c['dist'] == types[c['col']], '%s: column %d has type %r, '
                'not %r', what, c['col'], c['dist'], types[c['col']])
    # Column partition.
    Zv = state.Zv()
    check(sorted(Zv) == sorted(cols), '%s: partition over %r, columns %r',
        what, sorted(Zv), sorted(cols))
    check(set(Zv.values()) == set(state.views), '%s: views %r, partition %r',
        what, sorted(state.views), Zv)
    counts = {v: list(Zv.values()).count(v) for v in set(Zv.values())}
    check(dict(state.Nv()) == counts, '%s: view counts %r, expected %r', what,
        dict(state.Nv()), counts)
    for v, view in state.views.items():
        mine = sorted(c for c in cols if Zv[c] == v)
        check(sorted(view.dims) == mine, '%s: view %r has columns %r, '
            'expected %r', what, v, sorted(view.dims), mine)
        check(sorted(view.outputs[1:]) == mine and view.outputs[0] ==
            state.crp_id_view + v, '%s: view %r has outputs %r', what, v,
            view.outputs)
        Zr = dict(view.Zr())
        check(sorted(Zr) == list(range(n)), '%s: view %r has rows %r of %d',
            what, v, sorted(Zr), n)
        rc = {k: list(Zr.values()).count(k) for k in set(Zr.values())}
        check(dict(view.Nk()) == rc, '%s: cluster counts %r of view %r, '
            'expected %r', what, dict(view.Nk()), v, rc)
        check(view.n_rows() == n, '%s: n_rows of view %r', what, v)
        for c, d in view.dims.items():
            at = '%s: column %d' % (what, c)
            check(d.index == c and list(d.outputs) == [c] and
                d.inputs[0] == view.outputs[0], '%s: identifiers %r %r %r',
                at, d.index, d.outputs, d.inputs)
            observed = {i: Zr[i] for i in range(n)
                if not math.isnan(state.X[c][i])
                and not any(math.isnan(state.X[p][i])
                    for p in d.inputs[1:])}
            missing = {i: Zr[i] for i in range(n) if i not in observed}
            check(dict(d.Zr) == observed, '%s: observed rows %r, expected %r',
                at, dict(d.Zr), observed)
            check(dict(d.Zi) == missing, '%s: missing rows %r, expected %r',
                at, dict(d.Zi), missing)
            check(set(d.clusters) == set(rc), '%s: clusters %r, expected %r',
                at, sorted(d.clusters), sorted(rc))
            if d.is_conditional():
                continue
            for k, m in d.clusters.items():
                want = {i: state.X[c][i] for i in observed if Zr[i] == k}
                if d.cctype == 'beta':
                    check(sorted(m.data) == sorted(want), '%s: rows of '
                        'cluster %r', at, k)
                else:
                    check(dict(m.data) == want, '%s: cluster %r holds %r, '
                        'expected %r', at, k, dict(m.data), want)
                fresh = cu.cctype_class(d.cctype)(outputs=[c], inputs=[],
                    hypers=dict(d.hypers) or None, params=m.get_params() or
                    None, distargs=dict(d.distargs),
                    rng=np.random.RandomState(1))
                for i, x in want.items():
                    fresh.incorporate(i, {c: x})
                compare_stats('%s cluster %r' % (at, k), m.get_suffstats(),
                    fresh.get_suffstats())
                for h in d.hypers:
                    check(m.get_hypers()[h] == d.hypers[h], '%s: hyper %s of '
                        'cluster %r is %r, not %r', at, h, k,
                        m.get_hypers()[h], d.hypers[h])
            stats = d.get_suffstats()
            check(len(stats) == len(rc) + 1 and set(rc) < set(stats) and
                repr({k: stats[k] for k in rc}) == repr({k:
                d.clusters[k].get_suffstats() for k in rc}),
                '%s: get_suffstats() gives %r', at, stats)
            check([stats[k]['N'] for k in set(stats) - set(rc)] == [0],
                '%s: get_suffstats() for a new cluster in %r', at, stats)
            for h in d.hypers:
                check(d.aux_model.get_hypers()[h] == d.hypers[h],
                    '%s: hyper %s for new clusters', at, h)
            N = [m.N for m in [d.aux_model]]
            check(N == [0], '%s: the model for new clusters has %r rows', at,
                N)


# --------------------------------------------------------------------------
# Probabilities of bins, for goodness of fit of joint samples.

def bins(s, col, threshold):
    """(function value -> bin, {bin: function of the model's data}).

    Finite columns have a bin per value, the others are cut at threshold.
    """
    c = by_col(s)[col]
    d, h, a = c['dist'], c['hypers'], c['distargs']
    finite = prims.support_grid(d, h, [], a) if d in (
        'bernoulli', 'categorical') else None
    if finite is not None:
        return (lambda x: int(x)), lambda data: {
            k: math.exp(prims.predictive(d, k, data, h, a)) for k in finite}
    if d in ('geometric', 'poisson'):
        t = int(threshold)

        def pmf(data):
            low = sum(math.exp(prims.predictive(d, x, data, h, a))
                for x in range(t + 1))
            return {0: low, 1: max(0., 1. - low)}
        return (lambda x: int(x > t)), pmf

    def cut(data):
        p = float(prims.cdf(d, h, data, a)(threshold))
        return {0: p, 1: 1. - p}
    return (lambda x: int(x > threshold)), cut


def joint_bins(s, targets, thresholds, weights):
    """Outcome tuple (in the order of targets) -> probability.

    weights: {view: {cluster: probability}}.
    """
    z = zv(s)
    make = {t: bins(s, t, thresholds[t]) for t in targets}
    total = {(): 1.}
    order = []
    for v in sorted(set(z[t] for t in targets)):
        mine = [t for t in targets if z[t] == v]
        part = {}
        for k, w in weights[v].items():
            if w <= 0:
                continue
            tables_ = [make[t][1](cluster_data(s, v, k, t)) for t in mine]
            cells = {(): w}
            for tab in tables_:
                cells = {o + (b,): p * q for o, p in cells.items()
                    for b, q in tab.items()}
            for o, p in cells.items():
                part[o] = part.get(o, 0.) + p
        total = {o + o2: p * q for o, p in total.items()
            for o2, q in part.items()}
        order.extend(mine)
    perm = [order.index(t) for t in targets]
    out = {tuple(o[i] for i in perm): p for o, p in total.items()}
    return out, lambda row: tuple(make[t][0](row[t]) for t in targets)


def weights_given(s, constraints, views):
    C = split(s, constraints)
    return {v: posterior_cluster(s, v, C.get(v, {})) for v in views}
