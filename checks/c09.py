"""C09: crosscat densities against an explicit reference."""

import math

import numpy as np

from checks import c10
from vlib import mix, stats
from vlib.harness import Property, check, equal, same, hs, fail, raises

TECHNIQUE = ('property-based testing: generated crosscat states and queries '
    'against an independently coded crosscat density, with purity checks')
NOTE = ('Random search with shrinking. The reference (vlib/mix.py) shares no '
    'code with the repository.')
PROP = Property('C09',
    'Cases are crosscat states of 1-5 mixed columns in up to 3 views, up to 6 '
    'rows with missing cells, and lists of queries. Non-trivial: more than '
    'one view, or more than one cluster in the view queried.',
    ['column types with collapsed parameters'])


@hs.composite
def case(draw, big=False, **kw):
    if big:
        s = draw(mix.big(**kw))
    else:
        kw.setdefault('max_cols', 5)
        s = draw(mix.spec(**kw))
    return {'spec': s, 'seed': draw(hs.integers(0, 2**31 - 1)),
        'queries': draw(hs.lists(mix.query(s), min_size=1, max_size=4)),
        'rowid': draw(hs.sampled_from([-1, None, 500])),
        'rows': draw(hs.lists(hs.integers(0, 5 if not big else 59),
            min_size=4, max_size=4))}


def nontrivial(s):
    return len(s['Zr']) > 1 or any(len(set(z)) > 1 for _, z in s['Zr'])


@PROP.sub('fresh-rows', case(), quick=3500)
def fresh(c):
    s = c['spec']
    st = mix.build(s, c['seed'])
    before = mix.fingerprint(st)
    singles = []
    for t, e in c['queries']:
        T, E = mix.dic(t), mix.dic(e)
        lp = st.logpdf(c['rowid'], T, E or None)
        singles.append(lp)
        same('logpdf %r given %r' % (T, E), lp, mix.logpdf(s, T, E), 1e-6,
            1e-6)
        equal('targets after the query', T, mix.dic(t))
        equal('constraints after the query', E, mix.dic(e))
        # Views multiply.
        parts = mix.split(s, T)
        if len(parts) > 1:
            same('logpdf %r given %r as a sum over views' % (T, E), sum(
                st.logpdf(c['rowid'], dict(p), E or None)
                for p in parts.values()), lp, 1e-6, 1e-6)
    rows = [c['rowid']] * len(singles)
    targets = [mix.dic(t) for t, _ in c['queries']]
    cons = [mix.dic(e) for _, e in c['queries']]
    got = st.logpdf_bulk(rows, targets, cons)
    check(len(got) == len(singles), 'logpdf_bulk: %d results for %d queries',
        len(got), len(singles))
    for q, a, b in zip(c['queries'], got, singles):
        same('logpdf_bulk %r' % (q,), a, b, 1e-12, 1e-12)
    for t, a in zip(targets, st.logpdf_bulk(rows, targets)):
        same('logpdf_bulk %r without constraints' % (t,), a,
            mix.logpdf(s, t), 1e-6, 1e-6)
    mix.unchanged('logpdf', st, before)
    return {'nontrivial': nontrivial(s), 'labels': ['views=%d' % len(
        s['Zr'])]}


@PROP.sub('dataset-rows', case(min_rows=2), quick=2500)
def dataset_rows(c):
    s = c['spec']
    st = mix.build(s, c['seed'])
    before = mix.fingerprint(st)
    bulk, done = [], 0
    for (t, e), i in zip(c['queries'], c['rows']):
        i = i % mix.n_rows(s)
        T = {x: y for x, y in t if mix.cell(s, i, x) is None}
        E = {x: y if mix.cell(s, i, x) is None else mix.cell(s, i, x)
            for x, y in e}
        # All missing cells of the row.
        M = {x: y for x, y in t + e if mix.cell(s, i, x) is None}
        for targets, cons in ((T, E), (M, {})):
            if not targets:
                continue
            lp = st.logpdf(i, dict(targets), dict(cons) if cons else None)
            same('row %d: logpdf %r given %r' % (i, targets, cons), lp,
                mix.logpdf_row(s, i, targets), 1e-6, 1e-6)
            bulk.append((i, targets, cons, lp))
            done += 1
    if bulk:
        got = st.logpdf_bulk([b[0] for b in bulk], [dict(b[1]) for b in
            bulk], [dict(b[2]) for b in bulk])
        for b, g in zip(bulk, got):
            same('logpdf_bulk of row %d' % b[0], g, b[3], 1e-12, 1e-12)
    mix.unchanged('logpdf', st, before)
    return {'nontrivial': nontrivial(s) and done > 0}


@hs.composite
def score_case(draw):
    s = draw(mix.spec(max_cols=5, zero_based=True))
    z = mix.zv(s)
    # Dependence constraints which the partition satisfies.
    groups = {}
    for col in mix.ids(s):
        groups.setdefault(z[col], []).append(col)
    Cd = []
    for g in groups.values():
        if len(g) >= 2 and draw(hs.booleans()):
            Cd.append(g[:draw(hs.integers(2, len(g)))])
    pairs = [(a, b) for a in mix.ids(s) for b in mix.ids(s)
        if a < b and z[a] != z[b]]
    Ci = draw(hs.lists(hs.sampled_from(pairs), max_size=2, unique=True)) \
        if pairs else []
    return {'spec': s, 'Cd': Cd, 'Ci': [list(p) for p in Ci],
        'seed': draw(hs.integers(0, 2**31 - 1))}


PROP.sub('large-fresh-rows', case(big=True), quick=160)(fresh)
PROP.sub('large-dataset-rows', case(big=True), quick=120)(dataset_rows)


@PROP.sub('score', score_case(), quick=2000)
def score(c):
    s = c['spec']
    st = mix.build(s, c['seed'])
    before = mix.fingerprint(st)
    same('score', st.logpdf_score(), mix.score(s), 1e-6, 1e-6)
    same('column partition score', st.logpdf_score_crp(),
        mix.crp_score([v for _, v in s['Zv']], s['alpha']), 1e-7, 1e-7)
    same('likelihood', st.logpdf_likelihood(), sum(mix.view_score(s, v, False)
        for v in mix.zr(s)), 1e-6, 1e-6)
    for v in mix.zr(s):
        same('score of view %d' % v, st.views[v].logpdf_score(),
            mix.view_score(s, v), 1e-6, 1e-6)
        same('prior of view %d' % v, st.views[v].logpdf_prior(),
            mix.crp_score(mix.zr(s)[v], mix.view_alpha(s)[v]), 1e-7, 1e-7)
        same('likelihood of view %d' % v, st.views[v].logpdf_likelihood(),
            mix.view_score(s, v, False), 1e-6, 1e-6)
    mix.unchanged('logpdf_score', st, before)
    if c['Cd']:
        # Columns tied together move as one, in an ordinary restaurant.
        cd = mix.build(s, c['seed'], Cd=[list(g) for g in c['Cd']])
        likelihood = sum(mix.view_score(s, v) for v in mix.zr(s))
        same('score under dependence', cd.logpdf_score() -
            cd.logpdf_score_crp(), likelihood, 1e-6, 1e-6)
    if c['Ci']:
        ci = mix.build(s, c['seed'], Ci=[tuple(p) for p in c['Ci']])
        raises('score under independence', ValueError, ci.logpdf_score)
        raises('column partition score under independence', ValueError,
            ci.logpdf_score_crp)
        same('likelihood under independence', ci.logpdf_likelihood(),
            st.logpdf_likelihood(), 1e-9, 1e-9)
    return {'nontrivial': nontrivial(s)}


@PROP.sub('accessors', case(), quick=800)
def accessors(c):
    """Describing a state reads what it was built from, and changes nothing."""
    s = c['spec']
    st = mix.build(s, c['seed'])
    before = mix.fingerprint(st)
    equal('n_rows', st.n_rows(), mix.n_rows(s))
    equal('n_cols', st.n_cols(), len(s['cols']))
    equal('outputs', list(st.outputs), mix.ids(s))
    equal('cctypes', st.cctypes(), [x['dist'] for x in s['cols']])
    for a, x in zip(st.distargs(), s['cols']):
        if x['distargs']:
            equal('distargs', {k: a[k] for k in x['distargs']},
                x['distargs'])
    check(np.array_equal(st.data_array(), mix.array(s), equal_nan=True),
        'data_array %r, expected %r', st.data_array().tolist(),
        mix.array(s).tolist())
    equal('Zv', dict(st.Zv()), mix.zv(s))
    equal('alpha', st.alpha(), s['alpha'])
    for col, v in s['Zv']:
        equal('Zv(%d)' % col, st.Zv(col), v)
        check(st.view_for(col) is st.views[v], 'view_for(%d)', col)
        equal('dim_for(%d)' % col, st.dim_for(col).index, col)
        equal('hypers of %d' % col, dict(st.dim_for(col).hypers),
            mix.by_col(s)[col]['hypers'])
        equal('Nv(%d)' % v, st.Nv(v), len(mix.cols_in(s, v)))
    for v, z in s['Zr']:
        view = st.views[v]
        equal('Zr of view %d' % v, [view.Zr(i) for i in range(len(z))], z)
        equal('alpha of view %d' % v, view.alpha(), mix.view_alpha(s)[v])
        for k in set(z):
            equal('Nk(%d) of view %d' % (k, v), view.Nk(k), z.count(k))
    # Returned copies of the partition are the caller's.
    st.Zv()[s['cols'][0]['col']] = 999
    st.Nv()[999] = 1
    for i in (-1, mix.n_rows(s), mix.n_rows(s) + 5):
        check(st.hypothetical(i), 'row %d is not hypothetical', i)
    for i in range(mix.n_rows(s)):
        check(not st.hypothetical(i), 'row %d is hypothetical', i)
    mix.unchanged('reading', st, before)
    return {'nontrivial': nontrivial(s)}


@hs.composite
def purity_case(draw):
    c = draw(case(max_cols=3, min_cols=2, max_rows=4, min_rows=2))
    return c


@PROP.sub('queries-are-pure', purity_case(), quick=240)
def purity(c):
    """No query of any kind leaves a trace in the state."""
    s = c['spec']
    st = mix.build(s, c['seed'])
    before = mix.fingerprint(st)
    cols, n = mix.ids(s), mix.n_rows(s)
    t, e = c['queries'][0]
    T, E = mix.dic(t), mix.dic(e)
    i = c['rows'][0] % n
    j = c['rows'][1] % n
    calls = {
        'logpdf': lambda: st.logpdf(-1, dict(T), dict(E)),
        'simulate': lambda: st.simulate(-1, list(T), dict(E), None, 3),
        'simulate of a row': lambda: st.simulate(i, list(T), None, None, 3),
        'simulate_bulk': lambda: st.simulate_bulk([-1, i], [list(T)] * 2),
        'logpdf_score': st.logpdf_score,
        'dependence_probability': lambda: st.dependence_probability(cols[0],
            cols[1]),
        'dependence_probability_pairwise': st.dependence_probability_pairwise,
        'row_similarity': lambda: st.row_similarity(i, j),
        'row_similarity_pairwise': st.row_similarity_pairwise,
        'relevance_probability': lambda: st.relevance_probability(i, [j],
            cols[0], [{x: y for x, y in t + e}]),
        'view relevance': lambda: st.view_for(cols[0]).relevance_probability(
            i, [j], cols[0]),
        'mutual_information': lambda: st.mutual_information([cols[0]],
            [cols[1]], N=3),
        'conditional mutual_information': lambda: st.mutual_information(
            [cols[0]], [cols[0]], {cols[1]: None}, N=2, T=2),
        'view logpdf': lambda: st.view_for(cols[0]).logpdf(-1,
            {cols[0]: (T.get(cols[0], E.get(cols[0], 0)) or 1)}),
        'view simulate': lambda: st.view_for(cols[0]).simulate(-1,
            [cols[0]], None, None, 2),
        'to_metadata': st.to_metadata,
    }
    for name, call in calls.items():
        call()
        ignore = []
        if name == 'view relevance':
            # Rows may be relabelled but not regrouped.
            same('score after %s' % name, st.logpdf_score(), mix.score(s),
                1e-6, 1e-6)
            now = mix.zr(mix.read(st))
            for v, z in s['Zr']:
                equal('clusters of view %d after %s' % (v, name),
                    [[a == b for b in now[v]] for a in now[v]],
                    [[a == b for b in z] for a in z])
        mix.unchanged(name, st, before, ignore)
    return {'nontrivial': nontrivial(s)}


# --------------------------------------------------------------------------
# After histories of updates and inference the reference still applies, to
# the data, partitions and hyperparameters which the state then reports.

def tolerance(s):
    """Large concentrations are approximated (see C05)."""
    return 5e-3 if any(x['dist'] == 'vonmises' for x in s['cols']) else 1e-6


@hs.composite
def evolved_case(draw):
    c = draw(c10.case(max_cols=3, max_rows=4))
    c['queries'] = draw(hs.lists(hs.tuples(hs.integers(0, 10**6),
        hs.integers(0, 10**6)), min_size=1, max_size=3))
    return c


def random_query(rng, s):
    cols = [x for x in s['cols']]
    order = [cols[i] for i in rng.permutation(len(cols))]
    t = rng.randint(1, len(order) + 1)
    e = rng.randint(0, len(order) - t + 1)
    pick = lambda xs: {x['col']: c10.value_for(rng, x['dist'],
        x['distargs']) for x in xs}
    return pick(order[:t]), pick(order[t:t+e])


@PROP.sub('after-histories', evolved_case(), quick=900)
def evolved(c):
    m = c10.Machine(c)
    for o in c['ops']:
        getattr(m, 'do_' + o[0])(*o[1:])
    s = mix.read(m.st)
    tol = tolerance(s)
    before = mix.fingerprint(m.st)
    for a, b in c['queries']:
        T, E = random_query(np.random.RandomState(a), s)
        want = mix.logpdf(s, T, E)
        if want == -mix.INF:
            continue
        same('logpdf %r given %r after %r' % (T, E, c['ops']),
            m.st.logpdf(-1, dict(T), dict(E)), want, tol, tol * 10)
        for v, part in mix.split(s, T).items():
            view = m.st.views[v]
            k = [x for x, _ in mix.tables(s, v)][b % len(mix.tables(s, v))]
            Ev = mix.split(s, E).get(v, {})
            same('view %d: logpdf %r and cluster %r given %r after %r' % (v,
                part, k, Ev, c['ops']), view.logpdf(-1, {**part,
                view.outputs[0]: k}, dict(Ev)), mix.view_logpdf(s, v, part,
                Ev, kt=k), tol, tol * 10)
    same('score after %r' % (c['ops'],), m.st.logpdf_score(), mix.score(s),
        tol, tol * 10 * (1 + len(s['rows'])))
    mix.unchanged('queries', m.st, before)
    return {'nontrivial': nontrivial(s) and len(c['ops']) > 3,
        'labels': sorted(set(o[0] for o in c['ops']))}
