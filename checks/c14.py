"""C14: dependence, row similarity and relevance."""

import itertools
import math

import numpy as np

from checks import c10
from vlib import mix, prims, stats
from vlib.harness import Property, check, equal, same, hs, fail

TECHNIQUE = ('property-based testing: generated states, composed model graphs '
    'and row sets against independent recomputation from the partitions '
    '(graph closure for dependence, cluster enumeration for relevance)')
NOTE = ('Random search with shrinking. Relevance to hypothetical rows is '
    'random by design and compared with its exact probability by two-stage '
    'goodness of fit.')
PROP = Property('C14',
    'Cases are crosscat states of 1-5 columns in up to 3 views and up to 6 '
    'rows, random acyclic graphs of composed models, and sets of query rows. '
    'Non-trivial: the answer is not the same for all pairs, or is strictly '
    'between 0 and 1.',
    ['columns with collapsed parameters for relevance',
     'the dependence between an output of a composed root model and the '
     'children of its sibling outputs is left open'])


@hs.composite
def case(draw, big=False, **kw):
    if big:
        s = draw(mix.big(**kw))
    else:
        kw.setdefault('max_cols', 5)
        s = draw(mix.spec(**kw))
    return {'spec': s, 'seed': draw(hs.integers(0, 2**31 - 1)),
        'cols': draw(hs.one_of(hs.none(), hs.lists(hs.sampled_from(
            mix.ids(s)), min_size=1, unique=True)))}


def matrix(what, M, names, f):
    M = np.asarray(M)
    check(M.shape == (len(names), len(names)), '%s: shape %r for %d items',
        what, M.shape, len(names))
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            want = 1. if i == j else f(a, b)
            same('%s[%r, %r]' % (what, a, b), M[i, j], want, 1e-12, 1e-12)


@PROP.sub('partitions', case(), quick=3000)
def by_partition(c):
    s = c['spec']
    st = mix.build(s, c['seed'])
    before = mix.fingerprint(st)
    z, zr = mix.zv(s), mix.zr(s)
    cols = mix.ids(s)
    dep = lambda a, b: 1. if z[a] == z[b] else 0.
    values = set()
    for a in cols:
        for b in cols:
            same('dependence of %d and %d' % (a, b),
                st.dependence_probability(a, b), dep(a, b), 0, 0)
            values.add(dep(a, b))
    given = list(c['cols']) if c['cols'] else None
    matrix('dependence_probability_pairwise(%r)' % (given,),
        st.dependence_probability_pairwise(given), c['cols'] or cols, dep)
    equal('columns given', given, c['cols'])

    def similarity(i, j):
        views = set(z[x] for x in (c['cols'] or cols))
        return sum(zr[v][i] == zr[v][j] for v in views) / float(len(views))
    rows = range(mix.n_rows(s))
    for i in rows:
        for j in rows:
            want = similarity(i, j)
            same('similarity of rows %d and %d over %r' % (i, j, given),
                st.row_similarity(i, j, given), want, 1e-12, 1e-12)
            values.add(want)
    matrix('row_similarity_pairwise(%r)' % (given,),
        st.row_similarity_pairwise(given), list(rows), similarity)
    mix.unchanged('dependence and similarity', st, before)
    return {'nontrivial': len(values) > 1 and len(cols) > 1,
        'labels': ['views=%d' % len(s['Zr'])]}


PROP.sub('large-partitions', case(big=True, max_rows=30, max_cols=16),
    quick=100)(by_partition)


# --------------------------------------------------------------------------
# Composed models.

class Node(object):
    def __init__(self, outputs, inputs):
        self.outputs, self.inputs = list(outputs), list(inputs)


@hs.composite
def graph_case(draw):
    s = draw(mix.spec(max_cols=3, max_rows=2, max_views=3))
    name, known, ms = 900, mix.ids(s), []
    for _ in range(draw(hs.integers(1, 5))):
        k = draw(hs.integers(1, 2))
        outs = list(range(name, name + k))
        name += k
        # Some inputs belong to no model.
        ins = draw(hs.lists(hs.sampled_from(known + [700, 701]), max_size=2,
            unique=True))
        ms.append([outs, ins])
        known = known + outs
    return {'spec': s, 'models': draw(hs.permutations(ms)),
        'seed': draw(hs.integers(0, 10**6)),
        'order': draw(hs.permutations(list(range(900, name)) + mix.ids(s)))}


@PROP.sub('compositions', graph_case(), quick=2500)
def composed(c):
    s = c['spec']
    st = mix.build(s, c['seed'])
    owner = {}
    for n, (outs, ins) in enumerate(c['models']):
        for o in outs:
            owner[o] = n
    for outs, ins in c['models']:
        st.compose_cgpm(Node(outs, ins))
    before = mix.fingerprint(st)
    z = mix.zv(s)

    def ancestors(x):
        out, todo = set(), [x]
        while todo:
            y = todo.pop()
            for p in (c['models'][owner[y]][1] if y in owner else ()):
                if p not in out:
                    out.add(p)
                    todo.append(p)
        return out

    def sources(x):
        return ancestors(x) | {x}

    def siblings(x):
        """Variables drawn together with x: its model's outputs."""
        return set(c['models'][owner[x]][0]) if x in owner else set(
            y for y in z if z[y] == z[x])

    def dependent(a, b):
        if a in siblings(b):
            return 1.
        A, B = sources(a), sources(b)
        if A & B:
            return 1.
        if set(z[x] for x in A if x in z) & set(z[x] for x in B if x in z):
            return 1.
        # Through two outputs of one model: left open.
        if set(owner[x] for x in A if x in owner) & set(
                owner[x] for x in B if x in owner):
            return None
        return 0.
    seen = set()
    for a, b in itertools.product(c['order'], repeat=2):
        want = dependent(a, b)
        if want is None:
            continue
        seen.add(want)
        same('dependence of %d and %d in %r over views %r' % (a, b,
            c['models'], s['Zv']), st.dependence_probability(a, b), want, 0,
            0)
    if all(dependent(a, b) is not None for a in c['order']
            for b in c['order']):
        matrix('dependence_probability_pairwise', st.
            dependence_probability_pairwise(list(c['order'])), c['order'],
            dependent)
    mix.unchanged('dependence', st, before)
    return {'nontrivial': len(seen) > 1}


# --------------------------------------------------------------------------
# Relevance.

@hs.composite
def relevance_case(draw, big=False):
    s = draw(mix.big(one_view=True, max_rows=30, max_cols=3, max_clusters=8)
        if big else
        mix.spec(one_view=True, min_rows=2, max_rows=6, max_cols=3))
    n = len(s['rows'])
    order = draw(hs.permutations(range(n)))
    k = draw(hs.integers(1, n - 1))
    return {'spec': s, 'seed': draw(hs.integers(0, 2**31 - 1)),
        'target': order[0], 'query': list(order[1:1 + k]),
        'debug': draw(hs.booleans())}


def relevance(s, v, target, query):
    """Pr[target in the cluster of the query rows | they share one]."""
    out = [target] + list(query)
    z = zr = mix.zr(s)[v]
    rest = [i for i in range(len(z)) if i not in out]
    counts = {}
    for i in rest:
        counts[zr[i]] = counts.get(zr[i], 0) + 1
    a = mix.view_alpha(s)[v]
    cols = mix.cols_in(s, v)
    fresh = max(zr) + 1

    def data(k, col):
        return [mix.cell(s, i, col) for i in rest if zr[i] == k
            and mix.cell(s, i, col) is not None]

    def lik(k, rows):
        """log p(rows' cells | cluster k holds the remaining rows)."""
        total = 0.
        for col in cols:
            d = mix.by_col(s)[col]
            base = data(k, col)
            new = [mix.cell(s, i, col) for i in rows
                if mix.cell(s, i, col) is not None]
            if new:
                total += prims.marginal(d['dist'], base + new, d['hypers'],
                    d['distargs']) - prims.marginal(d['dist'], base,
                    d['hypers'], d['distargs'])
        return total

    def seat(assign):
        """log probability of seating rows one after another."""
        n, now, total = len(rest), dict(counts), 0.
        for k in assign:
            total += math.log(now.get(k, 0) or a) - math.log(n + a)
            now[k] = now.get(k, 0) + 1
            n += 1
        return total
    same_, all_ = [], []
    for kq in sorted(counts) + [fresh]:
        for kt in sorted(counts) + [fresh, fresh + 1]:
            if kt == fresh and kq != fresh:
                pass
            if kt == fresh + 1 and kq != fresh:
                continue
            lp = seat([kq] * len(query) + [kt])
            if kt == kq:
                lp += lik(kq, out)
                same_.append(lp)
            else:
                lp += lik(kq, query) + lik(kt, [target])
            all_.append(lp)
    return math.exp(mix.lse(same_) - mix.lse(all_))


@PROP.sub('relevance', relevance_case(), quick=2500)
def exact_relevance(c):
    import os
    s = c['spec']
    v = s['Zr'][0][0]
    st = mix.build(s, c['seed'])
    view = st.views[v]
    before = mix.fingerprint(st)
    query = list(c['query'])
    col = mix.ids(s)[0]
    tol = 5e-3 if any(x['dist'] == 'vonmises' for x in s['cols']) else 1e-6
    want = relevance(s, v, c['target'], c['query'])
    got = view.relevance_probability(c['target'], query, col)
    same('relevance of rows %r to row %d' % (c['query'], c['target']), got,
        want, tol, tol)
    equal('query rows', query, c['query'])
    same('relevance of a set containing the target', view.
        relevance_probability(c['target'], query + [c['target']], col), 1.,
        0, 1e-12)
    # Rows may be relabelled but not regrouped.
    now = mix.zr(mix.read(st))[v]
    z = mix.zr(s)[v]
    equal('clusters after relevance', [[a == b for b in now] for a in now],
        [[a == b for b in z] for a in z])
    mix.unchanged('relevance_probability', st, before)
    same('score after relevance', st.logpdf_score(), mix.score(s), 1e-6,
        1e-6 if tol == 1e-6 else 5e-2)
    return {'nontrivial': .01 < want < .99, 'labels': ['query=%d' %
        len(query)]}


PROP.sub('large-relevance', relevance_case(True), quick=80, timeout=60.)(
    exact_relevance)


@hs.composite
def hypothetical_case(draw):
    s = draw(mix.spec(max_rows=5, max_cols=3, dists=[d for d in mix.DISTS
        if d != 'vonmises']))
    n = len(s['rows'])
    hyp = []
    for _ in range(draw(hs.integers(0, 2))):
        t, e = draw(mix.query(s))
        hyp.append(t + e)
    return {'spec': s, 'seed': draw(hs.integers(0, 2**31 - 1)),
        'target': draw(hs.integers(0, n - 1)),
        'query': draw(hs.lists(hs.integers(0, n - 1), max_size=2,
            unique=True)),
        'hyp': hyp, 'col': draw(hs.sampled_from(mix.ids(s)))}


@PROP.sub('hypotheticals', hypothetical_case(), quick=500)
def hypotheticals(c):
    s = c['spec']
    st = mix.build(s, c['seed'])
    before = mix.fingerprint(st)
    v = mix.zv(s)[c['col']]
    z = mix.zr(s)[v]
    k = z[c['target']]
    hyp = [mix.dic(h) for h in c['hyp']]
    mine = [{x: h[x] for x in mix.cols_in(s, v) if x in h} for h in hyp]
    mine = [h for h in mine if h]
    same_cluster = all(z[q] == k for q in c['query'])
    # All hypothetical rows join the target's cluster, one by one.
    p, t = 1., dict(s)
    for h in mine:
        p *= mix.posterior_cluster(t, v, h)[k]
        t['rows'] = [list(r) for r in t['rows']] + [
            [h.get(x) for x in mix.ids(s)]]
        t['Zr'] = [[w, list(y) + [k if w == v else y[0]]]
            for w, y in t['Zr']]
    if not c['query'] and not mine:
        p = 0.
    elif not same_cluster:
        p = 0.

    def call():
        q, h = list(c['query']), [dict(x) for x in hyp]
        r = st.relevance_probability(c['target'], q, c['col'], h if h or
            c['seed'] % 2 else None)
        equal('query rows', q, c['query'])
        equal('hypothetical rows', h, hyp)
        check(r in (0, 1), 'relevance %r', r)
        return int(r)
    probs = {1: p, 0: 1 - p}
    if p in (0., 1.):
        equal('relevance of rows %r and %r to row %d' % (c['query'], hyp,
            c['target']), call(), int(p))
    else:
        stats.discrete('relevance of rows %r and %r to row %d' % (c['query'],
            hyp, c['target']), lambda n: [call() for _ in range(n)], {
            k: x for k, x in probs.items()}, 120, 3000)
    mix.unchanged('relevance_probability', st, before)
    return {'nontrivial': .01 < p < .99}
