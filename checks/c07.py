"""C07: mixture queries against explicit enumeration of the clusters."""

import itertools
import math

import numpy as np

from vlib import mix, prims, stats
from vlib.harness import Property, check, equal, same, hs, fail, isclose

TECHNIQUE = ('property-based testing: generated mixtures and queries against '
    'an independent enumeration of cluster assignments, plus chain-rule and '
    'Bayes-rule relations and sampled row reassignments')
NOTE = ('Random search with shrinking. The reference enumerates clusters with '
    'the textbook predictives of vlib/prims.py; row reassignment is compared '
    'with the exact conditional by two-stage goodness of fit.')
PROP = Property('C07',
    'Cases are mixtures of 1-4 columns of mixed types, up to 7 rows (12 '
    'columns, 60 rows, 20 clusters in the large ones) with missing cells, any row partition, and queries with the cluster latent, '
    'given or queried. Non-trivial: at least two clusters.',
    ['collapsed column types are compared with the exact reference; columns '
     'with explicit parameters with their own per-cluster densities'])


@hs.composite
def case(draw, big=False, **kw):
    kw.setdefault('one_view', True)
    if big:
        s = draw(mix.big(**kw))
    else:
        kw.setdefault('max_rows', 7)
        s = draw(mix.spec(**kw))
    c = {'spec': s, 'seed': draw(hs.integers(0, 2**31 - 1))}
    c['queries'] = draw(hs.lists(mix.query(s, allow_empty_targets=True),
        min_size=1, max_size=4))
    c['cluster'] = draw(hs.integers(0, 3))
    c['rowid'] = draw(hs.sampled_from([-1, None, 500]))
    c['token'] = draw(hs.sampled_from([1000, 77, 10**7]))
    c['standalone'] = draw(hs.booleans())
    return c


def view_of(c):
    s = c['spec']
    v = s['Zr'][0][0]
    if c['standalone']:
        return mix.build_view(s, v, c['seed'], c['token']), v, c['token']
    st = mix.build(s, c['seed'])
    return st.views[v], v, st.views[v].outputs[0]


def nontrivial(s):
    return any(len(set(z)) > 1 for _, z in s['Zr'])


def absent(x, allowed):
    return x if x in allowed else None


@PROP.sub('fresh-rows', case(), quick=3000)
def fresh(c):
    s = c['spec']
    view, v, token = view_of(c)
    ks = [k for k, _ in mix.tables(s, v)]
    k = ks[c['cluster'] % len(ks)]
    r = c['rowid']
    for t, e in c['queries']:
        T, E = mix.dic(t), mix.dic(e)
        what = 'logpdf %r given %r' % (T, E)
        if T:
            same(what, view.logpdf(r, dict(T), dict(E) if E else None),
                mix.view_logpdf(s, v, T, E), 1e-6, 1e-6)
            same(what + ' and cluster %d' % k, view.logpdf(r, dict(T),
                dict(E, **{}) if False else {**E, token: k}),
                mix.view_logpdf(s, v, T, E, kc=k), 1e-6, 1e-6)
        same(what + ', querying cluster %d' % k,
            view.logpdf(r, {**T, token: k}, dict(E) if E else None),
            mix.view_logpdf(s, v, T, E, kt=k), 1e-6, 1e-6)
    # The queried cluster is a proper distribution.
    t, e = c['queries'][0]
    E = mix.dic(e)
    same('sum over clusters given %r' % E, sum(math.exp(view.logpdf(r,
        {token: j}, dict(E))) for j in ks), 1., 1e-6)
    same('score', view.logpdf_score(), mix.view_score(s, v), 1e-6, 1e-6)
    return {'nontrivial': nontrivial(s), 'labels': ['columns=%d' % len(
        s['cols']), 'standalone' if c['standalone'] else 'in state']}


@PROP.sub('dataset-rows', case(), quick=2000)
def dataset_rows(c):
    """A row of the dataset: its cluster is given, its data are not removed."""
    s = c['spec']
    view, v, token = view_of(c)
    done = 0
    for i in range(mix.n_rows(s)):
        for t, e in c['queries']:
            T = mix.dic(t)
            if not T:
                continue
            # Constraints: missing cells, or agreeing with observed ones.
            E = {x: y if mix.cell(s, i, x) is None else mix.cell(s, i, x)
                for x, y in e}
            k = mix.zr(s)[v][i]
            same('row %d: logpdf %r given %r' % (i, T, E),
                view.logpdf(i, dict(T), dict(E) if E else None),
                mix.row_lp(s, v, k, T), 1e-6, 1e-6)
            done += 1
    return {'nontrivial': nontrivial(s) and done > 0}


PROP.sub('large-fresh-rows', case(big=True), quick=160)(fresh)
PROP.sub('large-dataset-rows', case(big=True), quick=80)(dataset_rows)


@PROP.sub('chain-and-bayes', case(min_cols=2), quick=1200)
def chain(c):
    """p(a, b | c) = p(a | b, c) p(b | c), and p(z, x) both ways."""
    s = c['spec']
    view, v, token = view_of(c)
    ks = [k for k, _ in mix.tables(s, v)]
    k = ks[c['cluster'] % len(ks)]
    r = c['rowid']
    for t, e in c['queries']:
        T, E = mix.dic(t), mix.dic(e)
        lp = view.logpdf
        if len(T) >= 2:
            items = list(T.items())
            A, B = dict(items[:1]), dict(items[1:])
            lhs = lp(r, dict(T), dict(E))
            rhs = lp(r, A, {**B, **E}) + lp(r, B, dict(E))
            same('p(%r, %r | %r)' % (A, B, E), lhs, rhs, 1e-6, 1e-6)
        if T:
            same('p(z, %r | %r) by conditioning on z' % (T, E),
                lp(r, {**T, token: k}, dict(E)),
                lp(r, dict(T), {**E, token: k}) + lp(r, {token: k}, dict(E)),
                1e-6, 1e-6)
            same('p(z, %r | %r) by conditioning on x' % (T, E),
                lp(r, {**T, token: k}, dict(E)),
                lp(r, {token: k}, {**E, **T}) + lp(r, dict(T), dict(E)),
                1e-6, 1e-6)
    return {'nontrivial': nontrivial(s)}


@hs.composite
def explicit_case(draw):
    c = draw(case(dists=['beta', 'normal_trunc', 'normal', 'categorical'],
        max_cols=3, max_rows=4))
    return c


@PROP.sub('explicit-parameters', explicit_case(), quick=96, thorough=2000,
    timeout=120.)
def explicit(c):
    """Columns with explicit parameters: clusters carry their own."""
    s = c['spec']
    view, v, token = view_of(c)
    ks = [k for k, _ in mix.tables(s, v)]

    def lp_cell(col, k, x):
        d = view.dims[col]
        m = d.clusters.get(k, d.aux_model)
        spec = mix.by_col(s)[col]
        if spec['dist'] in prims.UNCOLLAPSED:
            return prims.predictive(spec['dist'], x, [], {},
                spec['distargs'], m.get_params())
        return mix.cell_lp(s, v, k, col, x)

    def joint(values):
        return mix.lse([lp + sum(lp_cell(a, k, b) for a, b in values.items())
            for k, lp in mix.tables(s, v)])
    for t, e in c['queries']:
        T, E = mix.dic(t), mix.dic(e)
        if not T:
            continue
        want = joint({**T, **E}) - (joint(E) if E else 0)
        if not math.isfinite(want):
            continue
        same('logpdf %r given %r' % (T, E), view.logpdf(c['rowid'], dict(T),
            dict(E)), want, 1e-6, 1e-6)
    kinds = {x['dist'] for x in s['cols']}
    return {'nontrivial': nontrivial(s) and bool(
        kinds & set(prims.UNCOLLAPSED))}


@hs.composite
def gibbs_case(draw):
    c = draw(case(min_rows=2, max_cols=3, max_rows=6))
    c['row'] = draw(hs.integers(0, 5))
    return c


@PROP.sub('row-reassignment', gibbs_case(), quick=320)
def gibbs(c):
    """Reassigning one row draws from its exact conditional."""
    s = c['spec']
    view, v, _token = view_of(c)
    n = mix.n_rows(s)
    i = c['row'] % n
    others = {}
    z = mix.zr(s)[v]
    for j in range(n):
        if j != i:
            others.setdefault(z[j], set()).add(j)
    values = {x: mix.cell(s, i, x) for x in mix.ids(s)
        if mix.cell(s, i, x) is not None}
    post = mix.posterior_cluster(s, v, values, i)
    probs = {tuple(sorted(others.get(k, ()))): p for k, p in post.items()}

    def draw(m):
        out = []
        for _ in range(m):
            view.transition_rows(rows=[i])
            now = dict(view.Zr())
            out.append(tuple(sorted(j for j in range(n)
                if j != i and now[j] == now[i])))
            for j in range(n):
                if j != i and now[j] != z[j]:
                    fail('reassigning row %d moved row %d', i, j)
        return out
    stats.discrete('cluster companions of row %d' % i, draw, probs, 250, 4000)
    return {'nontrivial': len(probs) > 1 and max(probs.values()) < .999}


@PROP.sub('new-row-assignment', gibbs_case(), quick=200)
def new_row(c):
    """A row added without a cluster is assigned by its exact conditional."""
    s = c['spec']
    view, v, token = view_of(c)
    n = mix.n_rows(s)
    i = n - 1
    # Remove the last row, then add it repeatedly.
    view.unincorporate(i)
    values = {x: mix.cell(s, i, x) for x in mix.ids(s)}
    known = {a: b for a, b in values.items() if b is not None}
    z = mix.zr(s)[v]
    post = mix.posterior_cluster(s, v, known, i)
    probs = {tuple(j for j in range(n - 1) if z[j] == k): p
        for k, p in post.items()}
    obs = {a: mix.NAN if b is None else float(b) for a, b in values.items()}

    def draw(m):
        out = []
        for _ in range(m):
            view.incorporate(i, dict(obs))
            now = dict(view.Zr())
            out.append(tuple(j for j in range(n - 1) if now[j] == now[i]))
            view.unincorporate(i)
        return out
    stats.discrete('cluster companions of new row %d' % i, draw, probs, 200,
        3000)
    # With the cluster given, it is used.
    for k in [q for q, _ in mix.tables(s, v, (i,))]:
        view.incorporate(i, {**obs, token: k})
        equal('given cluster of row %d' % i, view.Zr(i), k)
        view.unincorporate(i)
    return {'nontrivial': len(probs) > 1 and max(probs.values()) < .999}


# --------------------------------------------------------------------------
# After inference.

@PROP.sub('after-inference', hs.tuples(case(max_rows=6, dists=[
    d for d in mix.DISTS if d != 'vonmises']), hs.lists(hs.integers(0, 4),
    min_size=1, max_size=5)), quick=700)
def evolved(x):
    c, ops = x
    view, v, token = view_of(c)
    for o in ops:
        if o == 0:
            view.transition_dim_hypers()
        elif o == 1:
            view.transition_crp_alpha()
        elif o == 2:
            view.transition_rows()
        elif o == 3:
            view.transition(1)
        else:
            col = mix.ids(c['spec'])[0]
            d = view.dims[col]
            h = dict(d.hypers)
            # As when the user sets them.
            d.set_hypers({k: y * 1.5 if k != 'm' else y + .5
                for k, y in h.items()})
    s = dict(c['spec'])
    s['cols'] = [dict(x, hypers=dict(view.dims[x['col']].hypers))
        for x in s['cols']]
    s['Zr'] = [[v, [view.Zr(i) for i in range(mix.n_rows(s))]]]
    s['view_alphas'] = [[v, view.alpha()]]
    ks = [k for k, _ in mix.tables(s, v)]
    k = ks[c['cluster'] % len(ks)]
    for t, e in c['queries']:
        T, E = mix.dic(t), mix.dic(e)
        what = 'after %r: logpdf %r given %r' % (ops, T, E)
        want = mix.view_logpdf(s, v, T, E) if T else None
        if T and want != -mix.INF:
            same(what, view.logpdf(-1, dict(T), dict(E)), want, 1e-6, 1e-5)
        same(what + ', querying cluster %d' % k,
            view.logpdf(-1, {**T, token: k}, dict(E)),
            mix.view_logpdf(s, v, T, E, kt=k), 1e-6, 1e-5)
    same('score after %r' % (ops,), view.logpdf_score(),
        mix.view_score(s, v), 1e-6, 1e-5)
    return {'nontrivial': nontrivial(s)}
