"""C10: a crosscat state stays consistent with its data."""

import copy
import math

import numpy as np

from vlib import mix, prims
from vlib.harness import Property, check, equal, same, hs, fail

TECHNIQUE = ('model-based stateful testing: generated histories of data, '
    'schema and inference operations, with a structural invariant and a '
    'reference dataset checked after every step')
NOTE = ('Random search with shrinking over histories of up to 12 operations. '
    'Sufficient statistics are recomputed from the dataset, the final score '
    'and densities are compared with the reference of vlib/mix.py.')
PROP = Property('C10',
    'Cases are an initial crosscat state (1-4 columns, 1-5 rows) and a '
    'history of operations. Non-trivial: at least three operations of two '
    'kinds took effect.',
    ['columns keep at least one observed value while their type is changed; '
     'columns which are inputs of a conditional column are not removed'])

SWITCH = ['bernoulli', 'categorical', 'exponential', 'geometric', 'normal',
    'poisson', 'lognormal', 'vonmises']


def supports(dist, distargs, x):
    h = {'bernoulli': {'alpha': 1, 'beta': 1}, 'categorical': {'alpha': 1},
        'exponential': {'a': 1, 'b': 1}, 'geometric': {'a': 1, 'b': 1},
        'poisson': {'a': 1, 'b': 1}, 'vonmises': {'a': 1, 'b': 1, 'k': 1},
        'normal': {'m': 0, 'r': 1, 's': 1, 'nu': 1},
        'lognormal': {'m': 0, 'r': 1, 's': 1, 'nu': 1}}[dist]
    return prims.predictive(dist, x, [], h, distargs) > -float('inf')


int_ = hs.integers(0, 60)


def op():
    return hs.one_of(
        hs.tuples(hs.just('row'), int_, hs.sampled_from(['full', 'partial',
            'clustered'])),
        hs.tuples(hs.just('row'), int_, hs.sampled_from(['full', 'partial',
            'clustered'])),
        hs.tuples(hs.just('drop_row')),
        hs.tuples(hs.just('col'), int_, int_),
        hs.tuples(hs.just('drop_col'), int_),
        hs.tuples(hs.just('force'), int_, int_),
        hs.tuples(hs.just('retype'), int_, int_),
        hs.tuples(hs.just('infer'), int_),
        hs.tuples(hs.just('infer'), int_),
        hs.tuples(hs.just('query'), int_))


@hs.composite
def case(draw, ops=None, big=False, **kw):
    if big:
        s = draw(mix.big(**kw))
    else:
        kw.setdefault('max_rows', 5)
        s = draw(mix.spec(**kw))
    return {'spec': s, 'seed': draw(hs.integers(0, 2**31 - 1)),
        'fixed': draw(hs.booleans()),
        'ops': draw(hs.lists(ops if ops is not None else op(), min_size=3,
            max_size=12)),
        # Material for the operations.
        'new': [draw(mix.column()) for _ in range(2)],
        'seeds': draw(hs.integers(0, 10**6))}


def values_for(rng, dist, distargs, n, missing=.25):
    """n random cells of a column (a plain generator, seeded by the case)."""
    out = []
    for _ in range(n):
        if rng.uniform() < missing:
            out.append(None)
        else:
            out.append(value_for(rng, dist, distargs))
    return out


def value_for(rng, dist, distargs):
    if dist == 'bernoulli':
        return float(rng.randint(2))
    if dist == 'categorical':
        return float(rng.randint(distargs['k']))
    if dist in ('geometric', 'poisson'):
        return float(rng.randint(8))
    if dist == 'normal':
        return round(float(rng.normal(0, 3)), 2)
    if dist == 'exponential':
        return round(float(rng.exponential(2)), 2)
    if dist == 'lognormal':
        return round(float(rng.lognormal(0, 1)), 2) + .01
    if dist == 'vonmises':
        return round(float(rng.uniform(0, 6.28)), 2)
    if dist == 'beta':
        return round(float(rng.uniform(.05, .95)), 2)
    if dist == 'normal_trunc':
        return float(rng.uniform(distargs['l'], distargs['h']))
    raise ValueError(dist)


def nanned(x):
    return mix.NAN if x is None else x


class Machine(object):
    """The state under test with the dataset it should hold."""

    def __init__(self, c):
        self.c = c
        self.s = copy.deepcopy(c['spec'])
        s = self.s
        self.given = mix.array(s)
        self.kept = self.given.copy()
        from cgpm.crosscat.state import State
        args = dict(outputs=mix.ids(s), cctypes=[x['dist'] for x in
            s['cols']], distargs=[dict(x['distargs']) for x in s['cols']],
            rng=np.random.RandomState(c['seed']))
        if c['fixed']:
            args.update(Zv=mix.dic(s['Zv']), Zrv=mix.dic(s['Zr']),
                hypers=[dict(x['hypers']) for x in s['cols']])
        keep = copy.deepcopy({k: v for k, v in args.items() if k != 'rng'})
        self.st = State(self.given, **args)
        equal('arguments of State', {k: v for k, v in args.items()
            if k != 'rng'}, keep)
        self.rng = np.random.RandomState(c['seeds'])
        self.names = 40
        self.done = []

    def partitions(self):
        r = mix.read(self.st)
        return dict(map(tuple, r['Zv'])), {v: z for v, z in r['Zr']}

    def step(self, op):
        before = self.partitions()
        what = getattr(self, 'do_' + op[0])(*op[1:])
        if what is None:
            return
        self.done.append(op[0])
        label = 'after %s' % '; '.join(self.done)
        mix.invariants(label, self.st, self.s)
        self.stable(label, op[0], what, before, self.partitions())

    def stable(self, label, kind, what, before, after):
        """Operations which are no inference leave other assignments alone."""
        Zv, Zr = before
        Zv2, Zr2 = after
        if kind == 'infer':
            return
        for col in Zv2:
            if col in Zv and kind != 'infer':
                equal('%s: view of column %d' % (label, col), Zv2[col],
                    Zv[col])
        for v in Zr2:
            if v in Zr:
                n = min(len(Zr[v]), len(Zr2[v]))
                equal('%s: clusters of view %d' % (label, v), Zr2[v][:n],
                    Zr[v][:n])

    # Operations: None when not applicable.

    def do_row(self, i, style):
        s, st = self.s, self.st
        row = [values_for(self.rng, c['dist'], c['distargs'], 1,
            .4 if style == 'partial' else 0)[0] for c in s['cols']]
        if all(x is None for x in row):
            return None
        obs = {c: x for c, x in zip(mix.ids(s), row) if x is not None}
        if style == 'clustered':
            for v in list(st.views):
                ks = sorted(st.views[v].Nk())
                ks.append(max(ks) + 1 + i % 3)
                obs[st.crp_id_view + v] = ks[(i + v) % len(ks)]
        keep = dict(obs)
        n = st.n_rows()
        st.incorporate(n, obs)
        equal('observation given to incorporate', obs, keep)
        s['rows'].append(row)
        if style == 'clustered':
            for v in st.views:
                equal('cluster given for the new row', st.views[v].Zr(n),
                    keep[st.crp_id_view + v])
        return 'row'

    def do_drop_row(self):
        if len(self.s['rows']) == 1:
            return None
        self.st.unincorporate(self.st.n_rows() - 1)
        self.s['rows'].pop()
        return 'drop_row'

    def do_col(self, i, j):
        s, st = self.s, self.st
        new = self.c['new'][i % len(self.c['new'])]
        n = len(s['rows'])
        T = values_for(self.rng, new['dist'], new['distargs'], n)
        if all(x is None for x in T):
            T[0] = value_for(self.rng, new['dist'], new['distargs'])
        col = self.names
        self.names += 1 + j % 3
        given = [nanned(x) for x in T]
        keep = list(given)
        views = sorted(st.views)
        choice = j % 3
        v = None if choice == 0 else (views[j % len(views)] if choice == 1
            else max(views) + 1 + j % 2)
        outputs, distargs = [col], dict(new['distargs'])
        st.incorporate_dim(given, outputs, cctype=new['dist'],
            distargs=distargs, v=v)
        check(repr(given) == repr(keep) and outputs == [col] and
            distargs == new['distargs'], 'arguments of incorporate_dim: %r',
            (given, outputs, distargs))
        # The list stays the caller's.
        given[0] = 123.
        if v is not None:
            equal('view given for the new column', st.Zv(col), v)
        s['cols'].append({'col': col, 'dist': new['dist'],
            'distargs': new['distargs']})
        for row, x in zip(s['rows'], T):
            row.append(x)
        return 'col'

    def do_drop_col(self, i):
        s = self.s
        if len(s['cols']) == 1:
            return None
        j = i % len(s['cols'])
        self.st.unincorporate_dim(s['cols'][j]['col'])
        s['cols'].pop(j)
        for row in s['rows']:
            row.pop(j)
        return 'drop_col'

    def do_force(self, i, j):
        s = self.s
        holes = [r for r in range(len(s['rows'])) if None in s['rows'][r]]
        if not holes:
            return None
        r = holes[i % len(holes)]
        cols = [k for k, x in enumerate(s['rows'][r]) if x is None]
        cols = cols[:1 + j % len(cols)]
        obs = {}
        for k in cols:
            c = s['cols'][k]
            obs[c['col']] = value_for(self.rng, c['dist'], c['distargs'])
            s['rows'][r][k] = obs[c['col']]
        keep = dict(obs)
        if j % 2:
            self.st.force_cell(r, obs)
        else:
            self.st.force_cell_bulk([r], [obs])
        equal('observation given to force_cell', obs, keep)
        return 'force'

    def do_retype(self, i, j):
        s = self.s
        k = i % len(s['cols'])
        c = s['cols'][k]
        seen = [r[k] for r in s['rows'] if r[k] is not None]
        if not seen:
            return None
        options = []
        for d in SWITCH:
            a = {'k': 6} if d == 'categorical' else {}
            if all(supports(d, a, x) for x in seen):
                options.append((d, a))
        if not options:
            return None
        d, a = options[j % len(options)]
        given = dict(a)
        self.st.update_cctype(c['col'], d, distargs=given or None)
        equal('distargs given to update_cctype', given, a)
        s['cols'][k] = {'col': c['col'], 'dist': d, 'distargs': a}
        return 'retype'

    def do_infer(self, i):
        st = self.st
        kernels = ['alpha', 'view_alphas', 'column_params', 'column_hypers',
            'rows', 'columns']
        which = i % 8
        cols = mix.ids(self.s)
        if which < 6:
            st.transition(N=1, kernels=[kernels[which]], progress=False)
        elif which == 6:
            st.transition(N=1, progress=False)
        else:
            st.transition(N=1, kernels=['rows', 'columns'],
                cols=cols[:1 + i % len(cols)], progress=False)
        return 'infer'

    def do_query(self, i):
        st, s = self.st, self.s
        col = s['cols'][i % len(s['cols'])]
        st.simulate(-1, [col['col']], N=2)
        st.simulate(i % st.n_rows(), [col['col']])
        st.logpdf(-1, {col['col']: value_for(self.rng, col['dist'],
            col['distargs'])})
        hyp = [{col['col']: value_for(self.rng, col['dist'],
            col['distargs'])}]
        st.relevance_probability(0, [st.n_rows() - 1], col['col'], hyp)
        return 'query'

    def finish(self):
        check(np.array_equal(self.given, self.kept, equal_nan=True),
            'the array given to State was modified')
        r = mix.read(self.st)
        if all(c['dist'] in prims.COLLAPSED for c in r['cols']):
            same('score after %s' % '; '.join(self.done),
                self.st.logpdf_score(), mix.score(r), 1e-5,
                2e-3 * (len(r['rows']) + 1) if any(c['dist'] == 'vonmises'
                    for c in r['cols']) else 1e-5)
        got = self.st.data_array()
        want = mix.array(r)
        check(np.array_equal(got, want, equal_nan=True),
            'data_array %r, expected %r', got.tolist(), want.tolist())


def run(c):
    m = Machine(c)
    mix.invariants('initially', m.st, m.s)
    m.finish()
    for o in c['ops']:
        m.step(o)
    m.finish()
    return {'nontrivial': len(m.done) >= 3 and len(set(m.done)) >= 2,
        'labels': sorted(set(m.done))}


PROP.sub('histories', case(), quick=1600)(run)


@hs.composite
def sparse_case(draw):
    """Rows with several missing cells, in several views."""
    c = draw(case(min_cols=3, max_cols=7, min_rows=2, max_rows=4))
    s = c['spec']
    seen = [next(r[j] for r in s['rows'] if r[j] is not None)
        for j in range(len(s['cols']))]
    full = draw(hs.integers(0, len(s['rows']) - 1))
    for i, r in enumerate(s['rows']):
        for j, x in enumerate(seen):
            if i == full:
                r[j] = x if r[j] is None else r[j]
            elif draw(hs.integers(0, 4)):
                r[j] = None
    c['ops'] = draw(hs.lists(hs.one_of(
        hs.tuples(hs.just('force'), int_, int_),
        hs.tuples(hs.just('force'), int_, int_),
        hs.tuples(hs.just('infer'), int_)), min_size=1, max_size=5))
    return c


PROP.sub('sparse-histories', sparse_case(), quick=400)(run)
PROP.sub('large-histories', case(big=True, max_rows=30, max_cols=8),
    quick=80, timeout=60.)(run)
PROP.sub('narrow-histories', case(max_cols=2, max_rows=2), quick=800)(run)


# --------------------------------------------------------------------------
# Conditional columns: their inputs are other columns of the view.

@hs.composite
def conditional_case(draw):
    return draw(case(hs.one_of(
        hs.tuples(hs.just('row'), int_, hs.sampled_from(['full', 'partial',
            'clustered'])),
        hs.tuples(hs.just('drop_row')),
        hs.tuples(hs.just('force'), int_, int_),
        hs.tuples(hs.just('force'), int_, int_),
        hs.tuples(hs.just('infer'), int_)),
        one_view=True, min_cols=2, max_cols=3, min_rows=3,
        dists=['normal', 'categorical', 'bernoulli']))


class Conditional(Machine):
    def __init__(self, c):
        Machine.__init__(self, c)
        # Bring all columns to one view, the first one conditional.
        s = self.s
        self.col = s['cols'][0]['col']
        seen = sum(1 for r in s['rows'] if r[0] is not None)
        self.ok = c['fixed'] and s['cols'][0]['dist'] == 'normal' and seen
        if self.ok:
            self.st.update_cctype(self.col, 'linear_regression')
            s['cols'][0] = {'col': self.col, 'dist': 'linear_regression',
                'distargs': {}}

    def do_row(self, i, style):
        self.s['cols'][0]['dist'] = 'normal'
        try:
            return Machine.do_row(self, i, style)
        finally:
            self.s['cols'][0]['dist'] = 'linear_regression'

    def do_force(self, i, j):
        self.s['cols'][0]['dist'] = 'normal'
        try:
            return Machine.do_force(self, i, j)
        finally:
            self.s['cols'][0]['dist'] = 'linear_regression'

    def do_infer(self, i):
        st = self.st
        st.transition(N=1, kernels=[['alpha', 'view_alphas',
            'column_hypers', 'rows'][i % 4]], progress=False)
        return 'infer'

    def finish(self):
        pass

    def regression(self, label):
        """Each cluster holds the rows with response and inputs observed."""
        d = self.st.dim_for(self.col)
        for k, m in d.clusters.items():
            rows = sorted(i for i, z in d.Zr.items() if z == k)
            equal('%s: rows of cluster %r' % (label, k), sorted(m.data.x),
                rows)
            for i in rows:
                equal('%s: response of row %d' % (label, i), m.data.x[i],
                    self.st.X[self.col][i])
                # A fresh model given the same row codes it the same way.
                fresh = d.create_aux_model()
                fresh.incorporate(i, {self.col: self.st.X[self.col][i]},
                    {p: self.st.X[p][i] for p in d.inputs[1:]})
                equal('%s: covariates of row %d' % (label, i),
                    list(m.data.Y[i]), list(fresh.data.Y[i]))


@PROP.sub('conditional-histories', conditional_case(), quick=500)
def conditional(c):
    c['spec']['cols'][0] = {'col': c['spec']['cols'][0]['col'],
        'dist': 'normal', 'distargs': {},
        'hypers': {'m': 0., 'r': 1., 's': 1., 'nu': 1.}}
    for r in c['spec']['rows']:
        if r[0] is not None:
            r[0] = float(r[0])
    c['fixed'] = True
    m = Conditional(c)
    if not m.ok:
        return {'nontrivial': False}
    mix.invariants('initially', m.st, m.s)
    m.regression('initially')
    for o in c['ops']:
        m.step(o)
        m.regression('after %s' % '; '.join(m.done))
    return {'nontrivial': len(m.done) >= 3, 'labels': sorted(set(m.done))}


# --------------------------------------------------------------------------
# Columns with explicit parameters.

@hs.composite
def explicit_case(draw):
    return draw(case(hs.one_of(
        hs.tuples(hs.just('row'), int_, hs.sampled_from(['full', 'partial',
            'clustered'])),
        hs.tuples(hs.just('drop_row')),
        hs.tuples(hs.just('force'), int_, int_),
        hs.tuples(hs.just('drop_col'), int_),
        hs.tuples(hs.just('infer'), int_)),
        max_cols=3, max_rows=4, dists=['beta', 'normal_trunc', 'normal']))


@PROP.sub('explicit-parameters', explicit_case(), quick=64, thorough=1600,
    timeout=200.)
def explicit(c):
    return run(c)


@hs.composite
def moves_case(draw):
    s = draw(mix.spec(min_cols=2, max_cols=3, min_rows=3, max_rows=8,
        dists=['beta', 'normal_trunc', 'beta', 'normal_trunc', 'normal',
            'categorical']))
    return {'spec': s, 'fixed': True, 'new': [], 'seeds': 0, 'ops': [],
        'seed': draw(hs.integers(0, 2**31 - 1)),
        'moves': draw(hs.lists(hs.tuples(int_, hs.sampled_from([1, 1, 2, 3]),
            hs.booleans()), min_size=2, max_size=8))}


@PROP.sub('moves', moves_case(), quick=100, timeout=200.)
def moves(c):
    """Columns move between views, with those which keep parameters."""
    m = Machine(c)
    st = m.st
    took = 0
    for i, aux, hypers in c['moves']:
        col = st.outputs[i % len(st.outputs)]
        before = mix.read(st)
        st.transition_dims(cols=[col], m=aux)
        label = 'after columns %r moved (m=%d)' % (col, aux)
        mix.invariants(label, st, m.s)
        after = mix.read(st)
        took += mix.zv(before)[col] != mix.zv(after)[col]
        old = dict(map(tuple, before['Zr']))
        for v, z in after['Zr']:
            if v in old:
                equal('%s: clusters of view %d' % (label, v), z, old[v])
        for x in mix.ids(before):
            if x != col:
                equal('%s: view of column %d' % (label, x),
                    mix.zv(after)[x], mix.zv(before)[x])
        if hypers:
            st.transition_dim_hypers(cols=[col])
            st.transition_dim_params(cols=[col])
            mix.invariants(label + ' and updated', st, m.s)
    m.finish()
    return {'nontrivial': took > 0}
