"""C25: kernel density and nearest neighbour models."""

import itertools
import math

import numpy as np
import scipy.stats as st

from vlib import models, prims, reg, stats
from vlib.harness import Property, check, equal, fail, hs, isclose, raises, \
    same

TECHNIQUE = ('property-based testing: generated tables, statistical types and '
    'query patterns against independently coded mixtures of product kernels '
    'and a brute-force neighbour search (all choices among ties enumerated), '
    'with goodness of fit of joint samples')
NOTE = ('Random search with shrinking. Both models are mixtures of product '
    'distributions, so one independent mixture type serves as the oracle of '
    'densities and of samples.')
PROP = Property('C25',
    'Cases are tables of 1-4 numerical or categorical columns with up to 9 '
    'rows, missing cells and removed rows, and queries with and without '
    'constraints and row ids. Non-trivial: the query has a constraint, or '
    'several targets.',
    ['no query whose constraints have (numerically) zero density',
     'neighbour counts M <= K'])

INF = float('inf')
NAN = float('nan')


# --------------------------------------------------------------------------
# Mixtures of products: [(weight, {variable: ('n', mu, sd) | ('c', probs)})].

def comp_lp(comp, values):
    lp = 0.
    for q, x in values.items():
        f = comp[q]
        if f[0] == 'n':
            lp += st.norm.logpdf(x, f[1], f[2])
        else:
            p = f[1][int(x)] if float(x).is_integer() and \
                0 <= x < len(f[1]) else 0.
            lp += math.log(p) if p > 0 else -INF
    return lp


def mix_lp(mixture, values):
    ls = [math.log(w) + comp_lp(c, values) for w, c in mixture if w > 0]
    m = max(ls)
    return m if m == -INF else m + math.log(sum(math.exp(l - m)
        for l in ls))


def check_samples(what, mixture, targets, draw, n1=200, n2=4000):
    """draw(n) -> n samples."""
    for q in targets:
        if mixture[0][1][q][0] == 'n':
            stats.continuous('%s, %r' % (what, q), lambda n: [s[q] for s in
                draw(n)], lambda xs: sum(w * st.norm.cdf(xs, c[q][1],
                c[q][2]) for w, c in mixture), n1, n2)
    # Joint cells: category, or side of a threshold.
    cut = {q: mixture[0][1][q][1] + .05 for q in targets
        if mixture[0][1][q][0] == 'n'}

    def cells(f, q):
        if f[0] == 'n':
            p = st.norm.cdf(cut[q], f[1], f[2])
            return [p, 1 - p]
        return f[1]

    def cell(s):
        return tuple(int(s[q] > cut[q]) if q in cut else int(s[q])
            for q in targets)
    probs = {}
    for w, c in mixture:
        for key in itertools.product(*[range(len(cells(c[q], q)))
                for q in targets]):
            probs[key] = probs.get(key, 0.) + w * np.prod([
                cells(c[q], q)[i] for q, i in zip(targets, key)])
    stats.discrete(what + ', jointly', lambda n: [cell(s) for s in draw(n)],
        probs, n1, n2)


# --------------------------------------------------------------------------
# Generated tables and queries.

fine = hs.integers(-400, 400).map(lambda i: i / 97.)
coarse = hs.integers(-6, 6).map(lambda i: i / 2.)


@hs.composite
def table(draw, min_cols=1, max_cols=4, max_rows=9, numeric=fine,
        min_rows=1, missing=True):
    D = draw(hs.integers(min_cols, max_cols))
    outs = draw(hs.lists(hs.integers(0, 20), min_size=D, max_size=D,
        unique=True))
    types = [draw(hs.one_of(hs.just(['numerical', None]), hs.tuples(
        hs.sampled_from(['categorical', 'nominal']), hs.integers(2, 4)).map(
        list))) for _ in outs]

    def cell(t):
        return numeric if t[1] is None else hs.integers(0, t[1] - 1)
    rows, n = [], draw(hs.integers(min_rows, max_rows))
    for i in range(n):
        r = [draw(cell(t)) for t in types]
        if missing and D > 1 and draw(hs.integers(0, 4)) == 0:
            for j in draw(hs.sets(hs.integers(0, D - 1), min_size=1,
                    max_size=D - 1)):
                r[j] = None
        rows.append(r)
    return {'outs': outs, 'types': types, 'rows': rows,
        'gone': [[draw(cell(t)) for t in types] for _ in range(
            draw(hs.integers(0, 2)))],
        'nans': draw(hs.booleans()), 'seed': draw(hs.integers(0,
            2**31 - 1))}


@hs.composite
def query(draw, t, numeric=fine, need=False, observed=True):
    outs = t['outs']
    order = draw(hs.permutations(outs))
    n = draw(hs.integers(1, len(outs) - (1 if need else 0)))
    k = draw(hs.integers(1 if need else 0, len(outs) - n))

    def val(q):
        ty = t['types'][outs.index(q)]
        return draw(numeric if ty[1] is None else hs.integers(0, ty[1] - 1))
    q = {'targets': [[o, val(o)] for o in order[:n]],
        'given': [[o, val(o)] for o in order[n:n + k]], 'row': None}
    if observed and draw(hs.integers(0, 3)) == 0:
        q['row'] = draw(hs.integers(0, len(t['rows']) - 1))
    return q


def fill(g, t):
    """Incorporate the rows; some others come and go."""
    outs = t['outs']
    obs = lambda r: {o: (NAN if v is None else v) for o, v in zip(outs, r)
        if v is not None or t['nans']}
    for i, r in enumerate(t['gone']):
        g.incorporate(300 + i, obs(r))
    for i, r in enumerate(t['rows']):
        g.incorporate(i, obs(r))
        if i == 0:
            for j in range(len(t['gone'])):
                g.unincorporate(300 + j)
    equal('number of rows', g.N, len(t['rows']))
    return g


def distargs(t):
    return {'outputs': models.input_distargs(t['types'])}


def given(t, q):
    """All constraints: those given, and the observed cells of the row."""
    out = dict(map(tuple, q['given']))
    if q['row'] is not None:
        for o, v in zip(t['outs'], t['rows'][q['row']]):
            if v is not None and o not in out and o not in dict(map(tuple,
                    q['targets'])):
                out[o] = v
    return out


def complete(t, names):
    ix = [t['outs'].index(o) for o in names]
    return [[r[i] for i in ix] for r in t['rows']
        if all(r[i] is not None for i in ix)]


def call(f, q, what, N=0):
    """logpdf or simulate with the arguments spelled in several ways."""
    given = dict(map(tuple, q['given'])) or None
    return f(q['row'], what, given) if not N else f(q['row'], what, given,
        None, N)


# --------------------------------------------------------------------------
# Kernel densities.

@hs.composite
def kde_case(draw, **kw):
    t = draw(table(**kw))
    t['bw'] = draw(hs.one_of(hs.none(), hs.just([
        draw(prims.positive(.2, 2.)) if ty[1] is None else
        draw(hs.sampled_from([.02, .1, .3, .45])) for ty in t['types']])))
    return dict(t, queries=[draw(query(t)) for _ in range(3)])


def kde(t):
    from cgpm.kde.mvkde import MultivariateKde
    return fill(MultivariateKde(list(t['outs']), None, distargs=distargs(t),
        params=None if t['bw'] is None else {'bw': list(t['bw'])},
        rng=np.random.RandomState(t['seed'])), t)


def kde_mixture(t, targets, given):
    """Conditional mixture over the complete rows; None if undefined."""
    names = list(targets) + list(given)
    ty = {o: k for o, (_, k) in zip(t['outs'], t['types'])}
    bw = {o: (1. if ty[o] is None else .1) if t['bw'] is None else
        t['bw'][i] for i, o in enumerate(t['outs'])}

    def kernel(o, x):
        if ty[o] is None:
            return ('n', x, bw[o])
        p = [bw[o] / (ty[o] - 1)] * ty[o]
        p[int(x)] = 1 - bw[o]
        return ('c', p)
    comps = [{o: kernel(o, x) for o, x in zip(names, r)}
        for r in complete(t, names)]
    if not comps:
        return None
    ls = np.array([comp_lp(c, given) for c in comps])
    if ls.max() < -500:
        return None
    w = np.exp(ls - ls.max())
    return list(zip(w / w.sum(), comps))


def near(what, got, want):
    check(np.ndim(got) == 0, '%s: %r is not a number', what, got)
    same(what, float(got), want, 1e-8, 1e-8)


@PROP.sub('kde-density', kde_case(), quick=1500)
def kde_density(t):
    g = kde(t)
    seen = False
    for q in t['queries']:
        ts, cs = dict(map(tuple, q['targets'])), given(t, q)
        mixture = kde_mixture(t, ts, cs)
        if mixture is None:
            continue
        seen = seen or bool(cs) or len(ts) > 1
        what = 'log density of %r given %r (row %r)' % (ts, cs, q['row'])
        lp = mix_lp(mixture, ts)
        if lp > -600:
            near(what, call(g.logpdf, q, ts), lp)
        # Proper over the last target.
        o = q['targets'][-1][0]
        k = dict(zip(t['outs'], t['types']))[o][1]
        rest = {u: x for u, x in ts.items() if u != o}
        want = math.exp(mix_lp(mixture, rest)) if rest else 1.
        if k is not None:
            got = sum(math.exp(call(g.logpdf, q, dict(ts) | {o: j}))
                for j in range(k))
            same('sum over %r: %s' % (o, what), got, want, 1e-7, 1e-9)
            for bad in (k, -1, .5):
                equal('log density of category %r' % bad, float(call(
                    g.logpdf, q, dict(ts) | {o: bad})), -INF)
        elif len(t['rows']) <= 4:
            xs = [c[o][1] for _, c in mixture]
            h = mixture[0][1][o][2]
            grid = np.arange(min(xs) - 8 * h, max(xs) + 8 * h, h / 2.)
            if len(grid) <= 250:
                got = h / 2. * sum(math.exp(call(g.logpdf, q, dict(ts) | {
                    o: float(x)})) for x in grid)
                same('integral over %r: %s' % (o, what), got, want, 1e-5,
                    1e-9)
    # The score sums the densities of the observed cells of each row.
    score = 0.
    for r in t['rows']:
        ts = {o: v for o, v in zip(t['outs'], r) if v is not None}
        score += mix_lp(kde_mixture(t, ts, {}), ts)
    near('score', g.logpdf_score(), score)
    return {'nontrivial': seen, 'labels': ['row'] if any(
        q['row'] is not None for q in t['queries']) else []}


@PROP.sub('kde-large', kde_case(min_cols=4, max_cols=9, min_rows=15,
    max_rows=60), quick=120)
def kde_large(t):
    return kde_density(t)


@PROP.sub('kde-samples', kde_case(), quick=150, thorough=1500)
def kde_samples(t):
    g = kde(t)
    q = t['queries'][0]
    ts = [o for o, _ in q['targets']]
    cs = given(t, q)
    mixture = kde_mixture(t, ts, cs)
    if mixture is None:
        return {'nontrivial': False}
    one = call(g.simulate, q, list(ts))
    check(isinstance(one, dict) and sorted(one) == sorted(ts),
        'sample of %r: %r', ts, one)

    def draw(n):
        ss = call(g.simulate, q, list(ts), n)
        check(len(ss) == n and all(sorted(s) == sorted(ts) for s in ss),
            'samples of %r: %r', ts, ss[:3])
        return ss
    check_samples('samples of %r given %r' % (ts, cs), mixture, ts, draw)
    return {'nontrivial': bool(cs) or len(ts) > 1}


@PROP.sub('kde-learning', kde_case(max_cols=2, min_rows=6), quick=24,
    thorough=200)
def kde_learning(t):
    from statsmodels.nonparametric.kernel_density import KDEMultivariate
    g = kde(t)
    X = np.array(complete(t, t['outs']), float).reshape(-1, len(t['outs']))
    if len(X) <= len(t['outs']) or np.any(X.std(axis=0) == 0):
        return {'nontrivial': False}
    g.transition(N=1)
    want = KDEMultivariate(X, ''.join('u' if k else 'c' for _, k in
        t['types']), bw='cv_ml').bw
    bw = g.get_params()['bw']
    check(len(bw) == len(want) and np.allclose(bw, want, 1e-6, 1e-9),
        'bandwidths %r instead of %r', bw, list(want))
    t2 = dict(t, bw=[float(b) for b in bw])
    if any(k and not 0 < b < .99 for (_, k), b in zip(t['types'], t2['bw'])):
        return {'nontrivial': True, 'labels': ['extreme-bandwidth']}
    if any(b < 1e-3 for b in t2['bw']):
        return {'nontrivial': True, 'labels': ['extreme-bandwidth']}
    for q in t['queries']:
        ts, cs = dict(map(tuple, q['targets'])), given(t, q)
        mixture = kde_mixture(t2, ts, cs)
        if mixture is not None and mix_lp(mixture, ts) > -300:
            same('density after learning', float(call(g.logpdf, q, ts)),
                mix_lp(mixture, ts), 1e-6, 1e-6)
    return {'nontrivial': True}


# --------------------------------------------------------------------------
# Nearest neighbours.

@hs.composite
def knn_case(draw, numeric=fine, max_k=4, **kw):
    kw.setdefault('min_cols', 2)
    kw.setdefault('min_rows', 2)
    t = draw(table(numeric=numeric, **kw))
    K = draw(hs.integers(1, max(1, min(max_k, len(t['rows'])))))
    M = draw(hs.one_of(hs.none(), hs.integers(1, K)))
    return dict(t, K=K, M=M, queries=[draw(query(t, numeric, need=True))
        for _ in range(3)])


def knn(t):
    from cgpm.knn.mvknn import MultivariateKnn
    return fill(MultivariateKnn(list(t['outs']), None, K=t['K'], M=t['M'],
        distargs=distargs(t), rng=np.random.RandomState(t['seed'])), t)


def nearest(D, x, k):
    """(indices surely chosen, tied indices, how many of those)."""
    d = np.sqrt(((D - x) ** 2).sum(axis=1))
    edge = np.sort(d)[k - 1]
    sure = [i for i in range(len(D)) if d[i] < edge - 1e-9]
    tied = [i for i in range(len(D)) if abs(d[i] - edge) <= 1e-9]
    return sure, tied, k - len(sure)


def choices(D, x, k, limit=None):
    sure, tied, m = nearest(D, x, k)
    if limit is not None and math.comb(len(tied), m) > limit:
        return None
    return [tuple(sure) + c for c in itertools.combinations(tied, m)]


def local(t, targets, rows):
    out = {}
    for j, o in enumerate(targets):
        k = dict(zip(t['outs'], t['types']))[o][1]
        xs = np.array([r[j] for r in rows], float)
        if k is None:
            out[o] = ('n', xs.mean(), max(xs.std(), .01))
        else:
            out[o] = ('c', [float(np.mean(xs == c)) for c in range(k)])
    return out


def knn_mixtures(t, targets, given, limit=400):
    """All mixtures which choices among ties allow; None if undefined.

    'many' when there are too many of them.
    """
    names = list(targets) + list(given)
    rows = complete(t, names)
    if len(rows) < t['K']:
        return None
    types = [t['types'][t['outs'].index(o)] for o in names]
    code = lambda r, a, b: reg.code(types[a:b], r[a:b], False)[1:]
    n = len(targets)
    near_code = np.array([code(r, n, None) for r in rows], float)
    full_code = np.array([code(r, 0, None) for r in rows], float)
    x = np.array(reg.code(types[n:], list(given.values()), False)[1:], float)
    M = t['K'] if t['M'] is None else t['M']
    picks = choices(near_code, x, t['K'], limit)
    out = []
    if picks is None:
        return 'many'
    local_at = {}
    for pick in picks:
        for i in pick:
            if i not in local_at:
                cs = choices(full_code, full_code[i], M, limit)
                if cs is None:
                    return 'many'
                seen = {}
                for c in cs:
                    g = local(t, list(targets), [rows[j] for j in c])
                    seen[repr(g)] = g
                local_at[i] = list(seen.values())
        total = np.prod([len(local_at[i]) for i in pick])
        if total + len(out) > limit:
            return 'many'
        out.extend([[(1. / t['K'], c) for c in comb] for comb in
            itertools.product(*[local_at[i] for i in pick])])
    return out


def knn_density_at(t):
    g = knn(t)
    seen = ties = 0
    for q in t['queries']:
        ts, cs = dict(map(tuple, q['targets'])), given(t, q)
        what = 'log density of %r given %r (row %r)' % (ts, cs, q['row'])
        ms = knn_mixtures(t, ts, cs)
        if ms is None:
            raises(what + ' with too few complete rows', ValueError,
                lambda: call(g.logpdf, q, ts))
            continue
        if ms == 'many':
            continue
        seen += 1
        ties += len(ms) > 1
        for _ in range(3 if len(ms) > 1 else 1):
            got = float(call(g.logpdf, q, ts))
            want = [mix_lp(m, ts) for m in ms]
            if not any(w == got or isclose(got, w, 1e-7, 1e-7)
                    for w in want):
                fail('%s: got %r, expected %s', what, got, want[0]
                    if len(ms) == 1 else 'one of %r' % sorted(set(want)))
        # Proper over a categorical target.
        for o in ts:
            k = dict(zip(t['outs'], t['types']))[o][1]
            if k is None:
                continue

            def at(v):
                g.rng = np.random.RandomState(11)
                return float(call(g.logpdf, q, dict(ts) | {o: v}))
            total = sum(math.exp(at(j)) for j in range(k))
            want = []
            for m in ms:
                rest = {u: x for u, x in ts.items() if u != o}
                want.append(math.exp(mix_lp(m, rest)) if rest else 1.)
            check(any(isclose(total, w, 1e-7, 1e-9) for w in want),
                'sum over %r of the density of %r given %r: %r, expected %r',
                o, ts, cs, total, want[:3])
            for bad in (k, -1, .5):
                equal('log density of category %r' % bad, at(bad), -INF)
    return {'nontrivial': seen > 0, 'labels': ['ties'] if ties else []}


PROP.sub('knn-density', knn_case(), quick=1000)(knn_density_at)
PROP.sub('knn-large', knn_case(max_k=14, max_cols=8, min_cols=4,
    min_rows=15, max_rows=60), quick=120)(knn_density_at)
PROP.sub('knn-wide', knn_case(max_k=60, max_cols=4, min_rows=30,
    max_rows=90), quick=80)(knn_density_at)
PROP.sub('knn-ties', knn_case(numeric=coarse), quick=1000)(knn_density_at)


@PROP.sub('knn-samples', knn_case(), quick=150, thorough=1500)
def knn_samples(t):
    g = knn(t)
    q = t['queries'][0]
    ts, cs = [o for o, _ in q['targets']], given(t, q)
    ms = knn_mixtures(t, {o: None for o in ts}, cs)
    if ms is None:
        raises('samples with too few complete rows', ValueError,
            lambda: call(g.simulate, q, list(ts)))
        return {'nontrivial': False}
    one = call(g.simulate, q, list(ts))
    check(isinstance(one, dict) and sorted(one) == sorted(ts),
        'sample of %r: %r', ts, one)

    def draw(n):
        ss = call(g.simulate, q, list(ts), n)
        check(len(ss) == n and all(sorted(s) == sorted(ts) for s in ss),
            'samples of %r: %r', ts, ss[:3])
        return ss
    ss = draw(20)
    for o in ts:
        k = dict(zip(t['outs'], t['types']))[o][1]
        if k is not None:
            check(all(s[o] in range(k) for s in ss), 'samples of %r: %r', o,
                ss)
    if ms == 'many' or len(ms) > 1:
        return {'nontrivial': True, 'labels': ['ties']}
    check_samples('samples of %r given %r' % (ts, cs), ms[0], ts, draw)
    return {'nontrivial': True}


@PROP.sub('knn-ties-sampled', knn_case(numeric=coarse, max_rows=6),
    quick=100, thorough=1000)
def knn_ties(t):
    """Every row tied at the boundary is chosen equally often."""
    q = dict(t['queries'][0], row=None)
    ts, cs = dict(map(tuple, q['targets'])), dict(map(tuple, q['given']))
    t = dict(t, M=1)
    ms = knn_mixtures(t, ts, cs)
    names = list(ts) + list(cs)
    rows = complete(t, names)
    # With M = 1 the local model is the neighbour, unless it has a twin.
    if ms in (None, 'many') or len(ms) == 1 or len(set(map(tuple, rows))) < \
            len(rows):
        return {'nontrivial': False}
    g = knn(t)
    want = {}
    for m in ms:
        key = round(mix_lp(m, ts), 6)
        want[key] = want.get(key, 0.) + 1. / len(ms)
    if len(want) < 2 or min(abs(a - b) for a, b in itertools.combinations(
            want, 2) if a != b) < 1e-4 or -INF in want and len(want) == 1:
        return {'nontrivial': False}

    def draw(n):
        out = []
        for _ in range(n):
            lp = float(call(g.logpdf, q, ts))
            out.append(min(want, key=lambda w: 0 if w == lp else
                abs(w - lp) if np.isfinite(w) and np.isfinite(lp) else 1e9))
        return out
    stats.discrete('choice among tied neighbours', draw, want, 120, 1500)
    return {'nontrivial': True}


@PROP.sub('knn-unconstrained', knn_case(missing=False), quick=300)
def unconstrained(t):
    """Without constraints: samples only, from resampled rows."""
    g = knn(t)
    for q in t['queries']:
        ts = [o for o, _ in q['targets']]
        if q['row'] is not None:
            continue
        raises('density without constraints', ValueError,
            lambda: g.logpdf(None, dict(map(tuple, q['targets']))))
        for N in (None, 1, 4):
            ss = g.simulate(None, list(ts), None, None, N)
            ss = [ss] if N is None else ss
            check(len(ss) == (N or 1) and all(isinstance(s, dict) and
                sorted(s) == sorted(ts) for s in ss),
                'samples of %r: %r', ts, ss)
            for s in ss:
                for o in ts:
                    k = dict(zip(t['outs'], t['types']))[o][1]
                    xs = [r[t['outs'].index(o)] for r in t['rows']]
                    lo, hi = min(xs), max(xs)
                    w = max(hi - lo, .01)
                    check(s[o] in set(xs) if k is not None else
                        lo - 9 * w <= s[o] <= hi + 9 * w,
                        'sample %r of %r: rows have %r', s[o], o, xs)
    ts = list(t['outs'])
    ss = g.simulate(None, ts, N=5)
    check(len(ss) == 5 and all(sorted(s) == sorted(ts) for s in ss),
        'samples of all columns: %r', ss)
    o = ts[0]
    xs = [r[0] for r in t['rows']]
    check(all(s[o] in xs for s in ss), 'first target is resampled: %r', ss)
    return {'nontrivial': len(t['rows']) > 2}


@PROP.sub('rejects', hs.tuples(knn_case(), hs.sampled_from(['kde', 'knn']),
    hs.sampled_from(['target', 'given', 'both', 'nan', 'inputs', 'none',
    'duplicate row', 'empty row', 'unknown cell', 'row inputs',
    'unknown row'])), quick=700)
def rejects(case):
    t, kind, what = case
    t['bw'] = None
    g = kde(t) if kind == 'kde' else knn(t)
    q = dict(t['queries'][0], row=None)
    ts, cs = dict(map(tuple, q['targets'])), dict(map(tuple, q['given']))
    o = list(ts)[0]

    def both(name, ts, cs, inputs=None, sim=True):
        raises('logpdf with ' + name, ValueError,
            lambda: g.logpdf(None, ts, cs, inputs))
        if sim:
            raises('simulate with ' + name, ValueError,
                lambda: g.simulate(None, list(ts), cs, inputs))
    before = [list(map(repr, g.data[r])) for r in g.data]
    if what == 'target':
        both('unknown target', dict(ts) | {55: 0.}, cs)
    elif what == 'given' and kind == 'knn':
        both('unknown constraint', ts, dict(cs) | {55: 0.})
    elif what == 'both':
        both('a target which is given', ts, dict(cs) | {o: ts[o]})
    elif what == 'nan':
        both('nan target', dict(ts) | {o: NAN}, cs, sim=False)
    elif what == 'inputs':
        both('inputs', ts, cs, {77: 1.})
    elif what == 'none':
        both('no targets', {}, cs)
    elif what == 'duplicate row':
        raises('second row 0', ValueError, lambda: g.incorporate(0, {o: 0}))
    elif what == 'empty row':
        raises('empty row', ValueError, lambda: g.incorporate(80, {}))
    elif what == 'unknown cell':
        raises('unknown cell', ValueError,
            lambda: g.incorporate(80, {o: 0, 55: 1.}))
    elif what == 'row inputs':
        raises('row with inputs', ValueError,
            lambda: g.incorporate(80, {o: 0}, {77: 1.}))
    elif what == 'unknown row':
        raises('unknown row', ValueError, lambda: g.unincorporate(80))
    equal('rows afterwards', [list(map(repr, g.data[r])) for r in g.data],
        before)
    equal('number of rows', g.N, len(t['rows']))
    return {'nontrivial': True, 'labels': [kind + ' ' + what]}


# --------------------------------------------------------------------------

@PROP.sub('batches', models.batch(('kde', 'knn',)), quick=60, timeout=120.)
def batches(c):
    """The samples of one call are independent of each other."""
    return models.check_batch(c)
