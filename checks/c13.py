"""C13: the inference kernels leave the exact posterior invariant."""

import collections
import itertools
import math

import numpy as np

from vlib import mix, prims, stats
from vlib.harness import Property, check, equal, same, hs, fail

TECHNIQUE = ('property-based testing: generated small models whose posterior '
    'is enumerated exactly; states drawn from it are pushed through generated '
    'kernel combinations and must still follow it (two-stage goodness of '
    'fit), and long runs from a fixed start must reach it')
NOTE = ('Statistical, with a second-stage threshold of 1e-8 per projection. '
    'Long runs are compared by total variation distance with a margin for '
    'autocorrelation.')
PROP = Property('C13',
    'Cases are states of 1-3 columns and 2-4 rows with missing cells, with or '
    'without independence constraints, and a combination of kernels. '
    'Non-trivial: at least two configurations have probability over 5%.',
    ['hyperparameter and concentration priors are uniform on the grids of '
     'the model itself (checked under C05)'])

DISTS = ['bernoulli', 'categorical', 'poisson', 'exponential', 'geometric']


# --------------------------------------------------------------------------
# Enumeration.

def partitions(n):
    """Restricted growth strings of length n."""
    def grow(prefix):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for k in range(max(prefix) + 2 if prefix else 1):
            for p in grow(prefix + [k]):
                yield p
    return list(grow([]))


def canonical(z):
    seen = {}
    return tuple(seen.setdefault(k, len(seen)) for k in z)


def lmean(xs):
    return mix.lse(xs) - math.log(len(xs))


class Posterior(object):
    """Joint posterior over partitions, concentrations, hyperparameters.

    A configuration is (column partition, row partition of each column's
    view, in order of the columns).
    """

    def __init__(self, s, grids, Ci=(), infer_hypers=False):
        self.s, self.Ci = s, Ci
        self.alpha_grid = grids['alpha']
        self.view_grid = grids['view']
        self.hyper_grids = grids['hypers']
        self.infer_hypers = infer_hypers
        n, D = mix.n_rows(s), len(s['cols'])
        rows = partitions(n)
        self.crp_rows = {z: [mix.crp_score(list(z), a)
            for a in self.view_grid] for z in rows}
        self.data = {}
        for j, c in enumerate(s['cols']):
            for z in rows:
                self.data[j, z] = [(h, self.likelihood(j, z, h))
                    for h in self.hypers(j)]
        lp = {}
        for zc in partitions(D):
            if any(zc[a] == zc[b] for a, b in Ci):
                continue
            prior = lmean([mix.crp_score(list(zc), a)
                for a in self.alpha_grid])
            for choice in itertools.product(rows, repeat=max(zc) + 1):
                x = prior + sum(lmean(self.crp_rows[z]) for z in choice)
                for j in range(D):
                    x += lmean([l for _, l in self.data[j, choice[zc[j]]]])
                lp[zc, tuple(choice[k] for k in zc)] = x
        norm = mix.lse(list(lp.values()))
        self.configs = sorted(lp)
        self.probs = {k: math.exp(lp[k] - norm) for k in self.configs}

    def hypers(self, j):
        if not self.infer_hypers:
            return [dict(self.s['cols'][j]['hypers'])]
        g = self.hyper_grids[j]
        names = sorted(g)
        return [dict(zip(names, x)) for x in itertools.product(
            *[g[k] for k in names])]

    def likelihood(self, j, z, h):
        c = self.s['cols'][j]
        total = 0.
        for k in set(z):
            xs = [self.s['rows'][i][j] for i in range(len(z)) if z[i] == k
                and self.s['rows'][i][j] is not None]
            total += prims.marginal(c['dist'], xs, h, c['distargs'])
        return total

    @staticmethod
    def pick(rng, items, lps):
        m = max(lps)
        p = np.exp(np.asarray(lps) - m)
        return items[rng.choice(len(items), p=p / p.sum())]

    def draw(self, rng):
        """(spec of a state drawn from the posterior)"""
        k = self.configs[rng.choice(len(self.configs),
            p=[self.probs[c] for c in self.configs])]
        zc, zs = k
        cols = mix.ids(self.s)
        views = sorted(set(zc))
        labels = list(rng.permutation(6)[:len(views)])
        s = dict(self.s)
        s['Zv'] = [[c, int(labels[z])] for c, z in zip(cols, zc)]
        s['Zr'], s['view_alphas'] = [], []
        for v in views:
            z = zs[zc.index(v)]
            names = rng.permutation(5)
            s['Zr'].append([int(labels[v]), [int(names[x]) for x in z]])
            s['view_alphas'].append([int(labels[v]), float(self.pick(rng,
                self.view_grid, self.crp_rows[z]))])
        s['alpha'] = float(self.pick(rng, self.alpha_grid,
            [mix.crp_score(list(zc), a) for a in self.alpha_grid]))
        s['cols'] = [dict(c, hypers=self.pick(rng, [h for h, _ in
            self.data[j, zs[j]]], [l for _, l in self.data[j, zs[j]]]))
            for j, c in enumerate(self.s['cols'])]
        return s

    # Projections: name -> (function of a spec, exact distribution).

    def projections(self):
        out = {'partitions': (config_of, self.probs)}
        def cut(grid):
            grid = sorted(grid)
            lo, hi = grid[len(grid) // 3], grid[2 * len(grid) // 3]
            return lambda x: 0 if x < lo else (1 if x < hi else 2)
        bin_a, bin_v = cut(self.alpha_grid), cut(self.view_grid)
        pa = collections.defaultdict(float)
        pv = collections.defaultdict(float)
        ph = collections.defaultdict(float)
        binned_a, binned_v = {}, {}
        for zc, zs in self.configs:
            p = self.probs[zc, zs]
            if zc not in binned_a:
                binned_a[zc] = self.binned(self.alpha_grid, [mix.crp_score(
                    list(zc), a) for a in self.alpha_grid], bin_a)
            for b, q in binned_a[zc].items():
                pa[max(zc) + 1, b] += p * q
            if zs[0] not in binned_v:
                binned_v[zs[0]] = self.binned(self.view_grid,
                    self.crp_rows[zs[0]], bin_v)
            for b, q in binned_v[zs[0]].items():
                pv[max(zs[0]) + 1, b] += p * q
        out['column concentration'] = (lambda s: (len(s['Zr']),
            bin_a(s['alpha'])), dict(pa))
        first = mix.ids(self.s)[0]
        def of_first(s):
            v = mix.zv(s)[first]
            return len(set(mix.zr(s)[v])), bin_v(mix.view_alpha(s)[v])
        out['view concentration'] = (of_first, dict(pv))
        if self.infer_hypers:
            name = sorted(self.hyper_grids[0])[0]
            bin_h = cut(self.hyper_grids[0][name])
            cache = {}
            for zc, zs in self.configs:
                z = zs[0]
                if z not in cache:
                    hs_, ls = zip(*self.data[0, z])
                    cache[z] = self.binned([h[name] for h in hs_], ls, bin_h)
                for b, q in cache[z].items():
                    ph[max(z) + 1, b] += self.probs[zc, zs] * q
            def hyper_of_first(s):
                v = mix.zv(s)[first]
                return len(set(mix.zr(s)[v])), bin_h(
                    mix.by_col(s)[first]['hypers'][name])
            out['hyperparameters'] = (hyper_of_first, dict(ph))
        return out

    @staticmethod
    def binned(grid, lps, cut):
        m = max(lps)
        p = np.exp(np.asarray(lps) - m)
        p /= p.sum()
        out = collections.defaultdict(float)
        for x, q in zip(grid, p):
            out[cut(x)] += q
        return out


def config_of(s):
    z = mix.zv(s)
    cols = mix.ids(s)
    zr = mix.zr(s)
    return (canonical([z[c] for c in cols]),
        tuple(canonical(zr[z[c]]) for c in cols))


# --------------------------------------------------------------------------

@hs.composite
def case(draw, max_cols=3):
    n = draw(hs.integers(2, 4))
    D = draw(hs.integers(1, 3 if n < 4 else 2))
    s = draw(mix.spec(min_cols=D, max_cols=D, min_rows=n, max_rows=n,
        dists=DISTS, zero_based=True))
    for j, c in enumerate(s['cols']):
        # Moderate data keep the posterior spread out.
        for r in s['rows']:
            if r[j] is not None and c['dist'] in ('poisson', 'exponential',
                    'geometric'):
                r[j] = float(min(r[j], 6 + r[j] % 3))
        if c['dist'] != 'categorical':
            c['hypers'] = {k: min(4., max(.4, x))
                for k, x in c['hypers'].items()}
        else:
            c['hypers'] = {k: min(4., max(.4, x))
                for k, x in c['hypers'].items()}
    pairs = [[a, b] for a in range(D) for b in range(a)]
    Ci = draw(hs.one_of(hs.just([]), hs.lists(hs.sampled_from(pairs),
        max_size=2, unique_by=tuple))) if pairs else []
    kernels = draw(hs.lists(hs.sampled_from(['rows', 'columns', 'alpha',
        'view_alphas', 'column_hypers']), min_size=1, max_size=5,
        unique=True))
    return {'spec': s, 'Ci': Ci, 'kernels': kernels,
        'hypers': draw(hs.booleans()),
        'm': draw(hs.sampled_from([1, 1, 2, 3])),
        'cols': draw(hs.one_of(hs.none(), hs.none(), hs.integers(0, 2))),
        'rows': draw(hs.one_of(hs.none(), hs.none(), hs.integers(0, 3))),
        'seed': draw(hs.integers(0, 2**31 - 1))}


def grids_of(s, Ci):
    st = mix.build(s, 0, Ci=[tuple(p) for p in Ci]) if not Ci else \
        mix.build(apart(s), 0, Ci=[tuple(p) for p in Ci])
    view = list(st.views.values())[0]
    return {'alpha': [float(a) for a in st.crp.hyper_grids['alpha']],
        'view': [float(a) for a in view.crp.hyper_grids['alpha']],
        'hypers': [{h: [float(x) for x in g] for h, g in
            st.dim_for(c).hyper_grids.items()} for c in mix.ids(s)]}


def apart(s):
    """The same columns, each in a view of its own."""
    s = dict(s)
    n = mix.n_rows(s)
    s['Zv'] = [[c, i] for i, c in enumerate(mix.ids(s))]
    s['Zr'] = [[i, [0] * n] for i in range(len(s['cols']))]
    s['view_alphas'] = [[i, 1.] for i in range(len(s['cols']))]
    return s


def step(st, c, kernels, m=1):
    cols = None if c['cols'] is None else [
        st.outputs[c['cols'] % st.n_cols()]]
    rows = None if c['rows'] is None else [c['rows'] % st.n_rows()]
    for k in kernels:
        if k == 'columns' and m > 1:
            st.transition_dims(cols=cols, m=m)
        else:
            st.transition(N=1, kernels=[k], cols=cols, rowids=rows,
                progress=False)


@PROP.sub('invariance', case(), quick=72, thorough=1500, timeout=400.)
def invariance(c):
    s = c['spec']
    Ci = [tuple(p) for p in c['Ci']]
    infer = c['hypers'] or 'column_hypers' in c['kernels']
    post = Posterior(s, grids_of(s, Ci), Ci, infer)
    rng = np.random.RandomState(c['seed'])
    projections = post.projections()

    def sample(n):
        out = []
        for _ in range(n):
            start = post.draw(rng)
            st = mix.build(start, rng.randint(2**31 - 1), Ci=Ci)
            step(st, c, c['kernels'], c['m'])
            out.append(mix.read(st))
        return out

    def pvalues(xs, names):
        ps = {}
        for name in names:
            f, probs = projections[name]
            counts = collections.Counter(f(x) for x in xs)
            for k in counts:
                if probs.get(k, 0) <= 0:
                    fail('%s: kernels %r reached %r of probability zero',
                        name, c['kernels'], k)
            ps[name] = (stats.chi2_p(counts, probs), counts)
        return ps
    first = pvalues(sample(300), projections)
    suspects = [n for n in first if first[n][0] < stats.P1]
    if suspects:
        second = pvalues(sample(4000), suspects)
        for n in suspects:
            p, counts = second[n]
            if p < stats.P2:
                probs = projections[n][1]
                top = sorted(probs, key=lambda k: -abs(probs[k] -
                    counts.get(k, 0) / 4000.))[:5]
                fail('%s: after kernels %r (m=%d), frequencies %r where the '
                    'posterior has %r (p=%.2g)', n, c['kernels'], c['m'],
                    {k: counts.get(k, 0) / 4000. for k in top},
                    {k: round(probs[k], 4) for k in top}, p)
    return {'nontrivial': sum(1 for p in post.probs.values() if p > .05) > 1,
        'labels': c['kernels'] + ['Ci=%d' % bool(Ci)]}


# --------------------------------------------------------------------------
# Reaching the posterior.

@PROP.sub('long-run', case(), quick=40, thorough=800, timeout=400.)
def long_run(c):
    s = c['spec']
    Ci = [tuple(p) for p in c['Ci']]
    grids = grids_of(s, Ci)
    # From one cluster (and one view, unless that is excluded), on the grid.
    start = apart(s) if Ci else dict(s, Zv=[[x, 0] for x in mix.ids(s)],
        Zr=[[0, [0] * mix.n_rows(s)]], view_alphas=[[0, 1.]])
    pick = lambda g: g[len(g) // 2]
    start['alpha'] = pick(grids['alpha'])
    start['view_alphas'] = [[v, pick(grids['view'])]
        for v, _ in start['view_alphas']]
    post = Posterior(s, grids, Ci, False)
    st = mix.build(start, c['seed'], Ci=Ci)
    kernels = ['rows', 'columns', 'alpha', 'view_alphas']
    c = dict(c, cols=None, rows=None)

    def distance(n):
        counts = collections.Counter()
        for _ in range(n):
            step(st, c, kernels)
            counts[config_of(mix.read(st))] += 1
        return .5 * sum(abs(counts.get(k, 0) / float(n) - post.probs.get(k,
            0)) for k in set(counts) | set(post.probs)), counts
    # Sampling error of independent draws, doubled for autocorrelation.
    noise = lambda n: .8 * sum(math.sqrt(p * (1 - p) / n)
        for p in post.probs.values())
    d, _ = distance(500)
    if d > .15 + noise(500):
        d, counts = distance(6000)
        if d > .1 + noise(6000):
            top = sorted(post.probs, key=lambda k: -abs(post.probs[k] -
                counts.get(k, 0) / 6000.))[:5]
            fail('long run: frequencies %r where the posterior has %r (total '
                'variation %.3f)', {k: counts.get(k, 0) / 6000.
                for k in top}, {k: round(post.probs[k], 4) for k in top}, d)
    return {'nontrivial': sum(1 for p in post.probs.values() if p > .05) > 1}


# --------------------------------------------------------------------------
# The row kernel alone, on mixtures with the richer column types.

@hs.composite
def view_case(draw):
    n = draw(hs.integers(2, 4))
    s = draw(mix.spec(min_cols=1, max_cols=3, min_rows=n, max_rows=n,
        one_view=True, dists=['normal', 'lognormal', 'poisson', 'categorical',
            'bernoulli', 'geometric', 'exponential']))
    return {'spec': s, 'seed': draw(hs.integers(0, 2**31 - 1)),
        'row': draw(hs.one_of(hs.none(), hs.integers(0, 3)))}


@PROP.sub('row-kernel', view_case(), quick=80, thorough=1500, timeout=400.)
def row_kernel(c):
    s = c['spec']
    v = s['Zr'][0][0]
    n = mix.n_rows(s)
    lp = {}
    for z in partitions(n):
        t = dict(s, Zr=[[v, list(z)]])
        lp[z] = mix.view_score(t, v)
    norm = mix.lse(list(lp.values()))
    probs = {z: math.exp(x - norm) for z, x in lp.items()}
    zs = sorted(probs)
    rng = np.random.RandomState(c['seed'])

    def draw(m):
        out = []
        for _ in range(m):
            z = zs[rng.choice(len(zs), p=[probs[k] for k in zs])]
            names = rng.permutation(6)
            view = mix.build_view(dict(s, Zr=[[v, [int(names[k])
                for k in z]]]), v, rng.randint(2**31 - 1))
            view.transition_rows(rows=None if c['row'] is None
                else [c['row'] % n])
            out.append(canonical([view.Zr(i) for i in range(n)]))
        return out
    stats.discrete('row partitions after a sweep from the posterior', draw,
        probs, 300, 4000)
    return {'nontrivial': sum(1 for p in probs.values() if p > .05) > 1}


# --------------------------------------------------------------------------
# The column concentration when columns are constrained to share a view.

@hs.composite
def dependent_case(draw):
    D = draw(hs.integers(3, 9))
    s = draw(mix.spec(min_cols=D, max_cols=D, min_rows=2, max_rows=3,
        dists=['bernoulli'], one_view=True, zero_based=True))
    # Columns -> group of columns that stay together -> view.
    group = draw(hs.lists(hs.integers(0, D // 2), min_size=D, max_size=D))
    table = draw(hs.lists(hs.integers(0, 3), min_size=D, max_size=D))
    Ci = []
    if draw(hs.booleans()):
        apart_ = [(a, b) for a in range(D) for b in range(D)
            if a < b and table[group[a]] != table[group[b]]]
        if apart_:
            Ci = [list(draw(hs.sampled_from(apart_)))]
    return {'spec': s, 'group': group, 'table': [table[g] for g in group],
        'Ci': Ci, 'sweeps': draw(hs.integers(1, 3)),
        'with': draw(hs.sampled_from([[], ['rows'], ['view_alphas'],
            ['column_hypers']])),
        'seed': draw(hs.integers(0, 2**31 - 1))}


@PROP.sub('dependent', dependent_case(), quick=60, thorough=1200,
    timeout=400.)
def dependent(c):
    s = dict(c['spec'])
    cols, n = mix.ids(s), mix.n_rows(s)
    Cd = [[x for x, h in zip(cols, c['group']) if h == g]
        for g in sorted(set(c['group']))]
    Cd = [b for b in Cd if len(b) > 1]
    Ci = [(cols[a], cols[b]) for a, b in c['Ci']]
    s['Zv'] = [[x, t] for x, t in zip(cols, c['table'])]
    views = sorted(set(c['table']))
    s['Zr'] = [[v, [0] * n] for v in views]
    s['view_alphas'] = [[v, 1.] for v in views]
    # A group of columns that must share a view sits down once.
    seats, seen = [], set()
    for x, g, t in zip(cols, c['group'], c['table']):
        if g not in seen:
            seats.append(t)
        seen.add(g)
    st = mix.build(s, c['seed'], Cd=Cd, Ci=Ci)
    grid = [float(a) for a in st.crp.hyper_grids['alpha']]
    lps = [mix.crp_score(seats, a) for a in grid]
    lo, hi = sorted(grid)[len(grid) // 3], sorted(grid)[2 * len(grid) // 3]
    cut = lambda a: 0 if a < lo else (1 if a < hi else 2)
    kernels = ['alpha'] + c['with']

    def draw(m):
        out = []
        for _ in range(m):
            st.transition(N=c['sweeps'], kernels=kernels, progress=False)
            a = st.alpha()
            check(any(abs(a - g) <= 1e-9 * g for g in grid),
                'the concentration %r is not on its grid', a)
            out.append(cut(a))
        return out
    stats.discrete('column concentration of %d columns in groups %r with '
        'views %r' % (len(cols), Cd, c['table']), draw,
        dict(Posterior.binned(grid, lps, cut)), 400, 6000)
    if Cd and not Ci:
        # The kernel follows the score that the state itself reports.
        scores = []
        for a in grid:
            st.crp.set_hypers({'alpha': a})
            scores.append(st.logpdf_score_crp())
        for a, x, lp in zip(grid, scores, lps):
            same('score of the column partition at %r' % a, x - scores[0],
                lp - lps[0], 1e-8, 1e-8)
    equal('columns of each view', dict(mix.zv(mix.read(st))),
        dict(zip(cols, c['table'])))
    return {'nontrivial': bool(Cd), 'labels': ['Ci=%d' % bool(Ci)]}


# --------------------------------------------------------------------------
# The column kernel alone, with several auxiliary views.

@hs.composite
def column_case(draw):
    D = draw(hs.sampled_from([1, 1, 2]))
    n = draw(hs.integers(3, 4 if D == 2 else 5))
    s = draw(mix.spec(min_cols=D, max_cols=D, min_rows=n, max_rows=n,
        dists=['bernoulli', 'poisson'], zero_based=True))
    # Data that tell the row partitions apart.
    for j, c in enumerate(s['cols']):
        top = 1. if c['dist'] == 'bernoulli' else 30.
        c['hypers'] = {'alpha': .15, 'beta': .15} \
            if c['dist'] == 'bernoulli' else {'a': 1., 'b': .2}
        for r in s['rows']:
            r[j] = draw(hs.sampled_from([0., top]))
    return {'spec': s, 'm': draw(hs.sampled_from([2, 3, 3, 5])),
        'cols': draw(hs.one_of(hs.none(), hs.integers(0, 1))), 'rows': None,
        'seed': draw(hs.integers(0, 2**31 - 1))}


@PROP.sub('column-kernel', column_case(), quick=40, thorough=600,
    timeout=400.)
def column_kernel(c):
    s = c['spec']
    post = Posterior(s, grids_of(s, []), [], False)
    rng = np.random.RandomState(c['seed'])

    def draw(k):
        out = []
        for _ in range(k):
            st = mix.build(post.draw(rng), rng.randint(2**31 - 1))
            step(st, c, ['columns'], c['m'])
            out.append(config_of(mix.read(st)))
        return out
    stats.discrete('partitions after a column sweep with %d auxiliary views '
        'from the posterior' % c['m'], draw, post.probs, 500, 6000)
    return {'nontrivial': sum(1 for p in post.probs.values() if p > .05) > 1,
        'labels': ['m=%d' % c['m'], 'columns=%d' % len(s['cols'])]}


# --------------------------------------------------------------------------
# Concentrations and hyperparameters of partitions that stay put.

@hs.composite
def fixed_case(draw):
    n = draw(hs.integers(1, 9))
    D = draw(hs.integers(1, 4))
    s = draw(mix.spec(min_cols=D, max_cols=D, min_rows=n, max_rows=n,
        dists=DISTS, zero_based=True))
    shape = draw(hs.sampled_from(['free', 'one', 'apart']))
    if shape != 'free':
        s['Zr'] = [[v, [0 if shape == 'one' else i for i in range(n)]]
            for v, _ in s['Zr']]
    return {'spec': s, 'via': draw(hs.sampled_from(['state', 'view'])),
        'view': draw(hs.integers(0, 3)),
        'seed': draw(hs.integers(0, 2**31 - 1))}


@PROP.sub('fixed-partition', fixed_case(), quick=60, thorough=1200,
    timeout=400.)
def fixed_partition(c):
    s = c['spec']
    st = mix.build(s, c['seed'])
    v = sorted(st.views)[c['view'] % len(st.views)]
    view = st.views[v]
    col = sorted(view.dims)[0]
    dim = view.dims[col]
    seats = mix.zr(s)[v]
    third = lambda g: (lambda lo, hi: lambda x: 0 if x < lo else (
        1 if x < hi else 2))(sorted(g)[len(g) // 3],
        sorted(g)[2 * len(g) // 3])
    grid = [float(a) for a in view.crp.hyper_grids['alpha']]
    cut = third(grid)

    def concentrations(m):
        out = []
        for _ in range(m):
            if c['via'] == 'state':
                st.transition_view_alphas(views=[v])
            else:
                view.transition_crp_alpha()
            out.append(cut(view.alpha()))
        return out
    stats.discrete('concentration of a view with clusters %r' % seats,
        concentrations, dict(Posterior.binned(grid, [mix.crp_score(seats, a)
        for a in grid], cut)), 400, 6000)

    top = [float(a) for a in st.crp.hyper_grids['alpha']]
    cut_top = third(top)

    def column_concentration(m):
        out = []
        for _ in range(m):
            st.transition_crp_alpha()
            out.append(cut_top(st.alpha()))
        return out
    zv = [dict(mix.zv(s))[x] for x in mix.ids(s)]
    stats.discrete('column concentration with views %r' % zv,
        column_concentration, dict(Posterior.binned(top, [mix.crp_score(zv, a)
        for a in top], cut_top)), 400, 6000)

    j = mix.ids(s).index(col)
    spec_col = s['cols'][j]
    grids = {h: [float(x) for x in g] for h, g in dim.hyper_grids.items()}
    names = sorted(grids)
    cells = list(itertools.product(*[grids[h] for h in names]))
    lps = []
    for cell in cells:
        h = dict(zip(names, cell))
        lps.append(sum(prims.marginal(spec_col['dist'],
            [s['rows'][i][j] for i in range(len(seats)) if seats[i] == k and
                s['rows'][i][j] is not None], h, spec_col['distargs'])
            for k in set(seats)))
    cuts = [third(grids[h]) for h in names]
    probs = Posterior.binned(cells, lps,
        lambda cell: tuple(f(x) for f, x in zip(cuts, cell)))

    def hypers(m):
        out = []
        for _ in range(m):
            # Enough sweeps to forget the start.
            for _ in range(1 if len(names) == 1 else 6):
                if c['via'] == 'state':
                    st.transition_dim_hypers(cols=[col])
                else:
                    view.transition_dim_hypers(cols=[col])
            out.append(tuple(f(float(dim.hypers[h]))
                for f, h in zip(cuts, names)))
        return out
    stats.discrete('hyperparameters of a %s column with clusters %r' % (
        spec_col['dist'], seats), hypers, dict(probs), 200, 3000)
    return {'nontrivial': len(set(seats)) > 1,
        'labels': [spec_col['dist'], 'singletons=%d' % (
            len(set(seats)) == len(seats))]}
