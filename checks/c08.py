"""C08: simulated rows follow the joint density and are independent."""

import numpy as np

from vlib import mix, stats
from vlib.harness import Property, check, equal, hs, fail

TECHNIQUE = ('property-based testing: generated states and queries, joint '
    'frequencies of simulated rows against exact cell probabilities')
NOTE = ('Random search with shrinking. Columns with infinite support are cut '
    'at a generated threshold; joint cells over all targets are compared with '
    'the enumerated mixture by two-stage goodness of fit (p<2e-3 then '
    'p<1e-8), so small biases escape. Shapes and keys are exact.')
PROP = Property('C08',
    'Cases are crosscat states of 1-4 mixed columns in up to 3 views, up to 6 '
    'rows, and queries for fresh or dataset rows. Non-trivial: some target '
    'cell probability differs between clusters or targets span views.',
    [])


@hs.composite
def case(draw, **kw):
    s = draw(mix.spec(**kw))
    t, e = draw(mix.query(s))
    c = {'spec': s, 'targets': [x for x, _ in t], 'constraints': e,
        'thresholds': [[x, draw(mix.value(s, x))] for x, _ in t],
        'seed': draw(hs.integers(0, 2**31 - 1)),
        'rowid': draw(hs.sampled_from([-1, None, 500])),
        'row': draw(hs.integers(0, 5)),
        'single': draw(hs.sampled_from([False, False, True]))}
    return c


def checked(what, rows, n, keys):
    check(type(rows) is list and len(rows) == n, '%s: %d rows requested, got '
        '%r', what, n, len(rows) if isinstance(rows, list) else rows)
    for r in rows:
        check(isinstance(r, dict) and sorted(r) == sorted(keys),
            '%s: sampled %r for targets %r', what, r, keys)
    return rows


def run_query(what, simulate, c, weights, n1=300, n2=5000):
    s = c['spec']
    T = c['targets']
    probs, outcome = mix.joint_bins(s, T, mix.dic(c['thresholds']), weights)
    single = c['single']

    def draw(n):
        if single:
            rows = [simulate(None) for _ in range(n)]
        else:
            rows = simulate(n)
        return [outcome(r) for r in checked(what, rows, n, T)]
    stats.discrete(what, draw, probs, n1, n2)
    return len(probs) > 1


def spans(s, T):
    z = mix.zv(s)
    return len({z[t] for t in T}) > 1 or any(
        len(set(x)) > 1 for _, x in s['Zr'])


@PROP.sub('fresh-rows', case(), quick=900)
def fresh(c):
    s, E = c['spec'], mix.dic(c['constraints'])
    st = mix.build(s, c['seed'])
    weights = mix.weights_given(s, E, mix.zr(s))
    what = 'State.simulate %r given %r' % (c['targets'], E)
    before = mix.fingerprint(st)
    run_query(what, lambda n: st.simulate(c['rowid'], list(c['targets']),
        dict(E) if E else None, None, n), c, weights)
    mix.unchanged(what, st, before)
    return {'nontrivial': spans(s, c['targets']),
        'labels': ['constrained' if E else 'free']}


@PROP.sub('view-rows', case(one_view=True), quick=500)
def view_rows(c):
    """A mixture on its own, with its cluster exposed."""
    s, E = c['spec'], mix.dic(c['constraints'])
    v = s['Zr'][0][0]
    view = mix.build_view(s, v, c['seed'])
    token = view.outputs[0]
    post = mix.posterior_cluster(s, v, E)
    T = list(c['targets'])
    run_query('View.simulate %r given %r' % (T, E), lambda n: view.simulate(
        c['rowid'], list(T), dict(E) if E else None, None, n), c, {v: post},
        200, 3000)
    # The cluster alone, and jointly with the first target.
    stats.discrete('View.simulate of the cluster given %r' % E, lambda n: [
        int(r[token]) for r in checked('cluster', view.simulate(c['rowid'],
            [token], dict(E) if E else None, None, n), n, [token])], post,
        200, 3000)
    t = T[0]
    thr = mix.dic(c['thresholds'])
    to_bin, table = mix.bins(s, t, thr[t])
    joint = {(k, b): p * q for k, p in post.items()
        for b, q in table(mix.cluster_data(s, v, k, t)).items()}
    stats.discrete('View.simulate of the cluster and %d given %r' % (t, E),
        lambda n: [(int(r[token]), to_bin(r[t])) for r in checked(
            'cluster and target', view.simulate(c['rowid'], [t, token],
                dict(E) if E else None, None, n), n, [t, token])], joint, 200,
        3000)
    # Conditioned on a cluster.
    ks = [k for k, _ in mix.tables(s, v)]
    k = ks[c['row'] % len(ks)]
    run_query('View.simulate %r given %r in cluster %d' % (T, E, k),
        lambda n: view.simulate(c['rowid'], list(T), {**E, token: k}, None,
            n), c, {v: {k: 1.}}, 200, 3000)
    return {'nontrivial': spans(s, T)}


@PROP.sub('dataset-rows', case(), quick=500)
def dataset_rows(c):
    s = c['spec']
    st = mix.build(s, c['seed'])
    i = c['row'] % mix.n_rows(s)
    E = {x: y if mix.cell(s, i, x) is None else mix.cell(s, i, x)
        for x, y in c['constraints']}
    weights = {v: {z[i]: 1.} for v, z in mix.zr(s).items()}
    run_query('State.simulate row %d %r given %r' % (i, c['targets'], E),
        lambda n: st.simulate(i, list(c['targets']), dict(E) if E else None,
            None, n), c, weights, 250, 4000)
    # The same for the view of one target.
    v = mix.zv(s)[c['targets'][0]]
    mine = [t for t in c['targets'] if mix.zv(s)[t] == v]
    Ev = {x: y for x, y in E.items() if mix.zv(s)[x] == v}
    run_query('View.simulate row %d %r given %r' % (i, mine, Ev),
        lambda n: st.views[v].simulate(i, list(mine), dict(Ev) if Ev else
            None, None, n), dict(c, targets=mine), weights, 200, 3000)
    return {'nontrivial': any(len(set(z)) > 1 for _, z in s['Zr'])}


@PROP.sub('independence', case(min_rows=3, min_cols=2), quick=300)
def independence(c):
    """Position, neighbours and other views carry no information."""
    s, E = c['spec'], mix.dic(c['constraints'])
    st = mix.build(s, c['seed'])
    z = mix.zv(s)
    T = c['targets']

    def sample(n):
        return checked('simulate', st.simulate(c['rowid'], list(T),
            dict(E) if E else None, None, n), n, T)
    for t in T:
        stats.correlation('column %d and position' % t,
            lambda n: [(i, r[t]) for i, r in enumerate(sample(n))])

    def neighbours(n):
        rows = sample(2 * n)
        return [(a[T[0]], b[T[-1]]) for a, b in zip(rows[::2], rows[1::2])]
    stats.correlation('columns %d and %d of consecutive rows' % (T[0],
        T[-1]), neighbours)
    for a in T:
        for b in T:
            if a < b and z[a] != z[b]:
                stats.correlation('columns %d and %d of different views' % (a,
                    b), lambda n: [(r[a], r[b]) for r in sample(n)])
    view = st.views[z[T[0]]]
    mine = [t for t in T if z[t] == z[T[0]]]
    stats.correlation('view: column %d and position' % T[0],
        lambda n: [(i, r[T[0]]) for i, r in enumerate(view.simulate(
            c['rowid'], list(mine), None, None, n))])
    return {'nontrivial': any(len(set(x)) > 1 for _, x in s['Zr'])}


@hs.composite
def shape_case(draw):
    c = draw(case())
    c['N'] = draw(hs.integers(1, 5))
    c['bulk'] = draw(hs.lists(mix.query(c['spec']), min_size=1, max_size=3))
    c['Ns'] = draw(hs.lists(hs.integers(1, 4), min_size=3, max_size=3))
    return c


@PROP.sub('shapes', shape_case(), quick=1500)
def shapes(c):
    s, E, T, N = c['spec'], mix.dic(c['constraints']), c['targets'], c['N']
    st = mix.build(s, c['seed'])
    r = c['rowid']
    cols = mix.by_col(s)

    def valid(row):
        for t, x in row.items():
            lp = st.logpdf(-1, {t: x})
            if cols[t]['dist'] in ('lognormal', 'geometric'):
                continue
            check(lp > -float('inf'), 'sampled %r of zero density for column '
                '%d (%s)', x, t, cols[t]['dist'])
    keep = list(T)
    one = st.simulate(r, T, E or None)
    check(isinstance(one, dict) and sorted(one) == sorted(T),
        'single sample %r for targets %r', one, T)
    valid(one)
    many = checked('simulate', st.simulate(r, tuple(T), E or None, N=N), N, T)
    for row in many:
        valid(row)
    equal('targets after the query', T, keep)
    equal('constraints after the query', E, mix.dic(c['constraints']))
    # Bulk queries.
    rows = [r] * len(c['bulk'])
    targets = [[x for x, _ in t] for t, _ in c['bulk']]
    cons = [mix.dic(e) for _, e in c['bulk']]
    Ns = c['Ns'][:len(rows)]
    got = st.simulate_bulk(rows, targets, cons, None, Ns)
    check(len(got) == len(rows), 'simulate_bulk: %d results for %d queries',
        len(got), len(rows))
    for g, t, n in zip(got, targets, Ns):
        for row in checked('simulate_bulk', g, n, t):
            valid(row)
    got = st.simulate_bulk(rows, targets)
    for g, t in zip(got, targets):
        checked('simulate_bulk without N', g, 1, t)
    return {'nontrivial': spans(s, T)}


@hs.composite
def batch_case(draw):
    c = draw(case())
    c['N'] = draw(hs.sampled_from([2, 5, 12, 40, 40, 70, 130]))
    return c


def event_of(s, targets, thresholds, weights):
    """(event of a row, its probability) nearest to one half."""
    probs, outcome = mix.joint_bins(s, targets, thresholds, weights)
    items = sorted(probs.items(), key=lambda kv: (-kv[1], repr(kv[0])))
    chosen, total = set(), 0.
    for k, p in items:
        if total + p <= .7:
            chosen.add(k)
            total += p
    return (lambda r: outcome(r) in chosen), total


@PROP.sub('batches', batch_case(), quick=150)
def batches(c):
    """The rows of one call are as independent as those of many."""
    s, E, N, T = c['spec'], mix.dic(c['constraints']), c['N'], c['targets']
    st = mix.build(s, c['seed'])
    thr = mix.dic(c['thresholds'])
    event, p = event_of(s, T, thr, mix.weights_given(s, E, mix.zr(s)))
    tested = 0
    if .05 < p < .95:
        tested += 1
        stats.dispersion('State.simulate %r given %r, N=%d' % (T, E, N),
            lambda: sum(event(r) for r in checked('simulate', st.simulate(
                c['rowid'], list(T), dict(E) if E else None, None, N), N, T)),
            p, N, 30, 300)
    v = mix.zv(s)[T[0]]
    mine = [t for t in T if mix.zv(s)[t] == v]
    Ev = {x: y for x, y in E.items() if mix.zv(s)[x] == v}
    post = mix.posterior_cluster(s, v, Ev)
    view = st.views[v]
    event_v, p = event_of(s, mine, thr, {v: post})
    if .05 < p < .95:
        tested += 1
        stats.dispersion('View.simulate %r given %r, N=%d' % (mine, Ev, N),
            lambda: sum(event_v(r) for r in view.simulate(c['rowid'],
                list(mine), dict(Ev) if Ev else None, None, N)), p, N, 30,
            300)
    k = max(sorted(post), key=lambda j: post[j])
    if .05 < post[k] < .95:
        tested += 1
        token = view.outputs[0]
        stats.dispersion('View.simulate of the cluster given %r, N=%d' % (Ev,
            N), lambda: sum(r[token] == k for r in view.simulate(c['rowid'],
                [token], dict(Ev) if Ev else None, None, N)), post[k], N, 30,
            300)
    return {'nontrivial': tested > 0 and N > 10, 'labels': ['N=%d' % N]}
