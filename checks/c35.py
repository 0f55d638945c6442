"""C35: arguments stay the caller's."""

import contextlib
import copy
import io
import math

import numpy as np

from checks import c10
from vlib import comp, mix, models, nets
from vlib.harness import Property, check, equal, hs, fail

TECHNIQUE = ('differential stateful testing of twins: one is driven with '
    'pristine copies, the other with arguments which are compared with their '
    'copies after every call and then overwritten, as are its results; both '
    'must go through the same states and answers')
NOTE = ('Random search with shrinking, over every kind of model, the state, '
    'the ensemble, networks and compositions. Arguments of constructors are '
    'only required to stay unmodified; arguments of calls and results of '
    'queries are overwritten in place as soon as the call returns.')
PROP = Property('C35',
    'Cases are a model and a history of updates and queries whose arguments '
    'are mutable containers. Non-trivial: at least three calls took effect.',
    ['in-place changes of arguments by the caller happen between calls, not '
        'from other threads'])

num = hs.integers(0, 10**6)
JUNK = 77


def spoil(x):
    """Overwrite every container within x in place."""
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        for k in list(x):
            x[k] = JUNK
        if len(x) > 1:
            del x[sorted(x, key=repr)[0]]
        x[JUNK] = JUNK
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v)
        if isinstance(x, list):
            if x and isinstance(x[0], (list, dict)):
                x.append(copy.copy(x[0]))
                del x[0]
            else:
                x[:] = [JUNK] * (len(x) + 1)
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.size:
        x[...] = JUNK


def plain(x):
    """Comparable form: NaN as a word, arrays as lists."""
    if isinstance(x, dict):
        return sorted(([repr(k), plain(v)] for k, v in x.items()), key=repr)
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [plain(v) for v in x]]
    if isinstance(x, np.ndarray):
        return ['array', plain(x.tolist())]
    if isinstance(x, (bool, int, np.integer)):
        return float(x)
    if isinstance(x, (float, np.floating)):
        return 'nan' if math.isnan(x) else float(x)
    return repr(x) if not isinstance(x, str) else x


class Twins(object):
    """The same calls on two objects built alike."""

    def __init__(self, make, look):
        self.a, self.b = make(), make()
        self.look = look
        self.done = []

    def call(self, what, f, *args, **kw):
        """f(object, *args, **kw) on both."""
        rest = (list(args), dict(kw))
        mine = copy.deepcopy(rest)
        theirs = copy.deepcopy(rest)
        out = []
        for g, (p, k) in ((self.a, mine), (self.b, theirs)):
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    out.append(['returned', f(g, *p, **k)])
                except (ValueError, AssertionError, KeyError, IndexError,
                        ZeroDivisionError) as e:
                    out.append(['raised', type(e).__name__])
        equal('arguments of %s after the call' % what, plain(mine),
            plain(rest))
        x, y = plain(out[0]), plain(out[1])
        equal('%s of the twin whose arguments and results were overwritten '
            'after %s' % (what, self.done), y, x)
        spoil(theirs[0])
        spoil(theirs[1])
        if out[1][0] == 'returned':
            spoil(out[1][1])
            self.done.append(what)
        self.compare(what)

    def compare(self, what):
        x, y = self.look(self.a), self.look(self.b)
        if x != y:
            if isinstance(x, dict):
                fail('overwriting the arguments and results of %s changed '
                    'the model: %s', what, '; '.join(mix.differences(x, y)
                    )[:700])
            fail('overwriting the arguments and results of %s changed the '
                'model from %r to %r', what, x, y)

    def result(self, least=3):
        return {'nontrivial': len(self.done) >= least,
            'labels': sorted(set(self.done))}


# --------------------------------------------------------------------------
# Models on their own.

@hs.composite
def model_case(draw):
    return {'model': draw(models.model()),
        'ops': draw(hs.lists(hs.tuples(hs.sampled_from(['add', 'add', 'add',
            'drop', 'density', 'sample', 'sample', 'fit']), num),
            min_size=3, max_size=10)),
        'seed': draw(hs.integers(0, 2**31 - 1))}


@PROP.sub('models', model_case(), quick=1000)
def models_(c):
    m = c['model']

    def look(g):
        return [models.stored(g, m), models.suffstats(g)]
    t = Twins(lambda: models.build(m, c['seed']), look)
    rows, n = [], 0
    for op, i in c['ops']:
        obs, ins = m['pool'][i % len(m['pool'])]
        q, e, x = m['queries'][i % len(m['queries'])]
        kw = {'inputs': models.dic(x)} if x else {}
        given = models.dic(e) if e else None
        if op == 'add':
            args = [n, models.dic(obs)] + ([models.dic(ins)] if ins else [])
            t.call('incorporate', lambda g, *a: g.incorporate(*a), *args)
            rows.append(n)
            n += 1
        elif op == 'drop' and rows:
            r = rows.pop(i % len(rows))
            t.call('unincorporate', lambda g, r: g.unincorporate(r), r)
        elif op == 'fit' and models.can_fit(m, t.a):
            t.call('transition', lambda g: g.transition(N=1))
        elif op in ('density', 'sample'):
            if m['kind'] in ('kde', 'knn') and not rows:
                continue
            if op == 'density':
                t.call('logpdf', lambda g, *a, **k: g.logpdf(*a, **k), -7,
                    models.dic(q), given, **kw)
            else:
                t.call('simulate', lambda g, *a, **k: g.simulate(*a, **k),
                    -7, [v for v, _ in q], given, N=[None, 1, 3][i % 3],
                    **kw)
                if rows and m['kind'] != 'dim' and not x:
                    r = rows[i % len(rows)]
                    t.call('simulate a row', lambda g, *a: g.simulate(*a), r,
                        [v for v, _ in q], given)
    return t.result()


# --------------------------------------------------------------------------
# States and ensembles.

OPS = ['row', 'rows', 'col', 'type', 'force', 'density', 'sample', 'bulk',
    'bulk_sample', 'infer', 'mi', 'relevance', 'similarity', 'dependence',
    'compose', 'compose', 'sample']


def state_case(**kw):
    @hs.composite
    def gen(draw):
        c = draw(comp.composite(max_foreign=1, **kw))
        c['ops'] = draw(hs.lists(hs.tuples(hs.sampled_from(OPS), num),
            min_size=3, max_size=9))
        return c
    return gen()


def fresh_dim(rng, s):
    dist = ['normal', 'categorical', 'poisson', 'bernoulli'][rng.randint(4)]
    distargs = {'k': 3} if dist == 'categorical' else {}
    return dist, distargs, [mix.sample_value(rng, dist, distargs)
        for _ in range(s)]


class Driver(object):
    """Operations with container arguments on a state or an ensemble."""

    def __init__(self, c, twins, first, extra):
        self.c, self.t, self.first, self.extra = c, twins, first, extra
        self.rng = np.random.RandomState(c['seed'] % 7919)
        self.composed = False

    def st(self):
        return self.first(self.t.a)

    def value(self, col):
        d = self.st().dim_for(col)
        return mix.sample_value(self.rng, d.cctype, d.distargs)

    def row(self):
        st = self.st()
        obs = {o: self.value(o) for o in st.outputs if
            self.rng.uniform() < .8}
        v = sorted(st.views)[0]
        if self.first is not ensemble_first and self.rng.uniform() < .2:
            obs[st.views[v].outputs[0]] = int(st.views[v].Zr(0))
        return obs or {st.outputs[0]: self.value(st.outputs[0])}

    def query(self):
        st = self.st()
        vs = list(st.outputs) + (list(self.c['foreign'][0]['outs'])
            if self.composed else [])
        vs = [vs[i] for i in self.rng.permutation(len(vs))]
        k = 1 + self.rng.randint(min(2, len(vs)))
        e = 1 + self.rng.randint(2)
        pick = lambda xs: {x: self.val(x) for x in xs}
        return pick(vs[:k]), pick(vs[k:k + e])

    def val(self, v):
        if v in self.st().outputs:
            return self.value(v)
        node = self.c['foreign'][0]
        return {'numerical': .5}.get(node['otypes'][node['outs'].index(v)][0]
            if node['kind'] != 'primitive' else '', 1)

    def step(self, op, i):
        t, rng, extra, st = self.t, self.rng, self.extra, self.st()
        n, outs = st.n_rows(), list(st.outputs)
        call = lambda name, *a, **k: t.call(name, lambda g, *p, **q: getattr(
            g, name)(*p, **dict(q, **extra)), *a, **k)
        conditional = any(d.is_conditional() for d in st.dims())
        if op == 'row':
            call('incorporate', n, self.row())
        elif op == 'rows':
            if hasattr(t.a, 'incorporate_bulk'):
                call('incorporate_bulk', [n, n + 1], [self.row(),
                    self.row()])
        elif op == 'col':
            dist, distargs, T = fresh_dim(rng, n)
            free = [o for o in range(70, 80) if o not in outs]
            if free:
                call('incorporate_dim', T, [free[i % len(free)]],
                    cctype=dist, distargs=distargs, v=None if i % 2 else
                    sorted(st.views)[0])
        elif op == 'type':
            col = [o for o in outs if st.dim_for(o).cctype in ('categorical',
                'bernoulli', 'poisson', 'normal') and o not in
                self.c['foreign'][0]['ins']]
            if col:
                col = col[i % len(col)]
                data = [x for x in st.X[col] if x == x]
                if all(0 <= x < 3 and x == int(x) for x in data):
                    call('update_cctype', col, 'categorical', distargs={
                        'k': 3})
                else:
                    call('update_cctype', col, 'normal', distargs={})
        elif op == 'force':
            holes = [(r, o) for r in range(n) for o in outs
                if st.X[o][r] != st.X[o][r]]
            if holes:
                r, o = holes[i % len(holes)]
                if hasattr(t.a, 'force_cell_bulk') and i % 2:
                    call('force_cell_bulk', [r], [{o: self.value(o)}])
                else:
                    call('force_cell', r, {o: self.value(o)})
        elif op == 'density':
            T, C = self.query()
            call('logpdf', -1, T, C)
            o = outs[i % len(outs)]
            r = i % n
            if st.X[o][r] != st.X[o][r]:
                call('logpdf', r, {o: self.value(o)}, {})
        elif op == 'sample':
            T, C = self.query()
            call('simulate', -1, list(T), C, N=[None, 1, 4][i % 3])
            T, C = self.query()
            r = i % n
            # An observed cell may be repeated, and nothing else said of it.
            C = {o: st.X[o][r] if o in outs and st.X[o][r] == st.X[o][r]
                else x for o, x in C.items()}
            call('simulate', r, list(T), [None, C][i % 2], N=2)
            T = {o: x for o, x in self.query()[0].items() if o not in outs
                or st.X[o][r] != st.X[o][r]}
            C = {o: x for o, x in C.items() if o not in T}
            if T:
                call('logpdf', r, T, C)
        elif op in ('bulk', 'bulk_sample'):
            qs = [self.query() for _ in range(2)]
            T = [q[0] if op == 'bulk' else list(q[0]) for q in qs]
            C = [q[1] for q in qs]
            if op == 'bulk':
                call('logpdf_bulk', [-1, -2], T, C)
            else:
                call('simulate_bulk', [-1, -2], T, C, Ns=[2, 1])
        elif op == 'infer':
            ks = [['alpha', 'rows'], ['column_hypers', 'view_alphas'],
                ['columns', 'rows'], ['rows']][i % 4]
            if conditional or self.composed:
                ks = [k for k in ks if k != 'columns']
            call('transition', N=1, kernels=ks, progress=False,
                cols=[outs[0]] if i % 3 == 0 and 'columns' not in ks else
                None, rowids=[0] if i % 5 == 0 else None)
        elif op == 'mi':
            a = [outs[i % len(outs)]]
            b = list(a) if i % 7 == 0 else [o for o in outs if o not in a
                ][:1] or list(a)
            C = {o: None if i % 2 else self.value(o) for o in outs
                if o not in a + b}
            C = dict(list(C.items())[:1])
            if self.composed:
                return
            call('mutual_information', a, b, C or None, N=3, T=2)
        elif op == 'relevance':
            hyp = [self.query()[0] for _ in range(i % 3)]
            hyp = [{o: x for o, x in h.items() if o in outs} for h in hyp]
            call('relevance_probability', i % n, [r for r in range(n)][:2],
                outs[i % len(outs)], hypotheticals=hyp or None)
        elif op == 'similarity':
            call('row_similarity', 0, n - 1, cols=[outs[0]])
            call('row_similarity_pairwise', cols=[outs[-1]])
        elif op == 'dependence':
            if not self.composed:
                call('dependence_probability_pairwise', colnos=outs[:2])
        elif op == 'compose' and not self.composed:
            self.compose()
            self.composed = True


def ensemble_first(g):
    return g.states[0]


@PROP.sub('states', state_case(), quick=300)
def states(c):
    s = c['state']
    t = Twins(lambda: mix.build(s, seed=c['seed']), mix.fingerprint)
    d = Driver(c, t, lambda g: g, {})

    def compose():
        # Each twin has its own copy of the composed model.
        for g in (t.a, t.b):
            g.compose_cgpm(comp.twins(c)[0])
        t.done.append('compose')
    d.compose = compose
    for op, i in c['ops']:
        d.step(op, i)
    return t.result()


@PROP.sub('ensembles', state_case(max_rows=4, kinds=('linreg', 'forest',
    'ols', 'factor')), quick=130)
def ensembles(c):
    from cgpm.crosscat.engine import Engine
    s = c['state']
    kw = dict(outputs=mix.ids(s), cctypes=[x['dist'] for x in s['cols']],
        distargs=[dict(x['distargs']) for x in s['cols']],
        hypers=[dict(x['hypers']) for x in s['cols']],
        Zv=mix.dic(s['Zv']), Zrv=mix.dic(s['Zr']), alpha=s['alpha'],
        view_alphas=mix.dic(s['view_alphas']))
    X = mix.array(s)
    keep = plain([kw, X])
    # The members of one ensemble share the arguments of its constructor.
    make = lambda: Engine(X, num_states=2, rng=np.random.RandomState(
        c['seed']), multiprocess=0, **kw)
    t = Twins(make, lambda g: {'state %d %s' % (i, k): v for i, st in
        enumerate(g.states) for k, v in mix.fingerprint(st).items()})
    d = Driver(c, t, ensemble_first, {'multiprocess': 0})

    def compose():
        for g in (t.a, t.b):
            ms = [comp.twins(c)[0] for _ in g.states]
            keep = list(ms)
            g.compose_cgpm(ms, multiprocess=0)
            check(len(ms) == len(keep) and all(x is y for x, y in zip(ms,
                keep)), 'compose_cgpm changed its list of models')
            del ms[:]
        t.done.append('compose')
    d.compose = compose
    for op, i in c['ops']:
        d.step(op, i)
    equal('arguments of the constructor', plain([kw, X]), keep)
    return t.result()


# --------------------------------------------------------------------------
# Constructors.

@hs.composite
def constructor_case(draw):
    s = draw(mix.spec(zero_based=True, min_cols=2, max_cols=5))
    D = len(s['cols'])
    p = list(draw(hs.permutations(range(D))))
    return {'spec': s, 'given': draw(hs.booleans()),
        'Cd': [p[:draw(hs.integers(2, D))]] if draw(hs.booleans()) else [],
        'Ci': [p[-2:]] if draw(hs.booleans()) else [],
        'ops': draw(hs.lists(hs.sampled_from(['rows', 'alpha',
            'view_alphas', 'column_hypers', 'row', 'drop_row', 'view',
            'reload']), min_size=1, max_size=6)),
        'seed': draw(hs.integers(0, 2**31 - 1))}


@PROP.sub('constructors', constructor_case(), quick=400)
def constructors(c):
    """What was given to build a state is never changed by its history."""
    from cgpm.crosscat.state import State
    from cgpm.mixtures.view import View
    s = c['spec']
    kw = dict(outputs=mix.ids(s), cctypes=[x['dist'] for x in s['cols']],
        distargs=[dict(x['distargs']) for x in s['cols']],
        hypers=[dict(x['hypers']) for x in s['cols']])
    if c['given']:
        kw.update(Zv=mix.dic(s['Zv']), Zrv=mix.dic(s['Zr']),
            view_alphas=mix.dic(s['view_alphas']))
    else:
        kw['Cd'] = copy.deepcopy(c['Cd'])
        if not any(set(p) <= set(b) for p in c['Ci'] for b in c['Cd']):
            kw['Ci'] = [tuple(p) for p in c['Ci']]
    X = mix.array(s)
    keep = plain([kw, X])
    st = State(X, rng=np.random.RandomState(c['seed']), **kw)
    rng = np.random.RandomState(c['seed'] % 1009)
    done = []
    for o in c['ops']:
        n = st.n_rows()
        with contextlib.redirect_stdout(io.StringIO()):
            if o == 'row':
                st.incorporate(n, {x['col']: mix.sample_value(rng, x['dist'],
                    x['distargs']) for x in s['cols']})
            elif o == 'drop_row':
                # No column is left without data.
                if n > 1 and all(any(x == x for x in v[:-1])
                        for v in st.X.values()):
                    st.unincorporate(n - 1)
            elif o == 'view':
                args = dict(outputs=[500] + mix.ids(s), cctypes=kw['cctypes'],
                    distargs=kw['distargs'], hypers=kw['hypers'],
                    Zr=[i % 2 for i in range(len(s['rows']))])
                data = {x: X[:, j].tolist() for j, x in enumerate(
                    mix.ids(s))}
                before = plain([args, data])
                w = View(data, rng=np.random.RandomState(c['seed']), **args)
                w.transition(N=1)
                w.unincorporate(0)
                equal('arguments of View', plain([args, data]), before)
            elif o == 'reload':
                m = st.to_metadata()
                before = plain(m)
                other = State.from_metadata(m, rng=np.random.RandomState(1))
                other.transition(N=1, kernels=['rows', 'column_hypers'],
                    progress=False)
                other.incorporate(n, {s['cols'][0]['col']: mix.sample_value(
                    rng, s['cols'][0]['dist'], s['cols'][0]['distargs'])})
                equal('metadata after the history of its copy', plain(m),
                    before)
            else:
                st.transition(N=1, kernels=[o], progress=False)
        equal('arguments of the constructor after %s' % (done + [o]),
            plain([kw, X]), keep)
        done.append(o)
    return {'nontrivial': len(done) >= 3, 'labels': sorted(set(done))}


# --------------------------------------------------------------------------
# Networks.

@hs.composite
def network_case(draw):
    net = draw(nets.network())
    return {'net': net, 'N': draw(hs.sampled_from([None, 1, 3])),
        'queries': draw(hs.lists(num, min_size=2, max_size=4)),
        'accuracy': draw(hs.integers(1, 5)),
        'seed': draw(hs.integers(0, 2**31 - 1))}


@PROP.sub('networks', network_case(), quick=400)
def networks(c):
    from cgpm.network.importance import ImportanceNetwork
    net = c['net']
    made = []

    def make():
        cgpms = nets.build(net, np.random.RandomState(c['seed']))
        made.append((cgpms, list(cgpms)))
        return ImportanceNetwork(cgpms, accuracy=c['accuracy'],
            rng=np.random.RandomState(c['seed'] + 1))
    t = Twins(make, lambda g: [sorted(g.v_to_c.items()), sorted(
        (k, list(v)) for k, v in g.adjacency.items()), sorted(g.extraneous),
        list(g.topo)])
    vs, lev = nets.variables(net), nets.levels(net)
    for q in c['queries']:
        rng = np.random.RandomState(q)
        order = [vs[i] for i in rng.permutation(len(vs))]
        k = 1 + rng.randint(len(order))
        e = rng.randint(len(order) - k + 1)
        T = {v: int(rng.randint(lev[v])) for v in order[:k]}
        C = {v: int(rng.randint(lev[v])) for v in order[k:k + e]}
        ins = {v: int(rng.randint(kk)) for v, kk in map(tuple, net['ext'])}
        t.call('simulate', lambda g, *a, **kw: g.simulate(*a, **kw), -1,
            list(T), C, ins, N=c['N'])
        t.call('logpdf', lambda g, *a: g.logpdf(*a), -1, T, C, ins)
    for cgpms, keep in made:
        check(len(cgpms) == len(keep) and all(x is y for x, y in zip(cgpms,
            keep)), 'the list of models given to the network was changed')
    return t.result()


# --------------------------------------------------------------------------
# Mixtures on their own.

@hs.composite
def view_case(draw):
    s = draw(mix.spec(one_view=True, max_cols=3))
    return {'spec': s, 'ops': draw(hs.lists(hs.tuples(hs.sampled_from(['add',
        'add', 'drop', 'density', 'density', 'sample', 'sample', 'fit',
        'dim']), num), min_size=3, max_size=9)),
        'seed': draw(hs.integers(0, 2**31 - 1))}


@PROP.sub('views', view_case(), quick=400)
def views(c):
    s = c['spec']
    v = s['Zr'][0][0]

    def look(w):
        n = len(w.Zr())
        return {'rows': sorted(w.Zr().items()), 'alpha': w.alpha(),
            'dims': [[o, d.cctype, sorted(d.hypers.items()), sorted(
                d.Zr.items()), sorted(d.Zi.items()), sorted((k, sorted(
                m.data.items())) for k, m in d.clusters.items())]
                for o, d in sorted(w.dims.items())], 'n': n}
    t = Twins(lambda: mix.build_view(s, v, c['seed']), look)
    rng = np.random.RandomState(c['seed'] % 7919)
    crp = t.a.outputs[0]
    by = {x['col']: x for x in s['cols']}
    cols = [o for o in t.a.outputs if o in by]
    value = lambda o: mix.sample_value(rng, by[o]['dist'], by[o]['distargs'])
    for op, i in c['ops']:
        order = [cols[j] for j in rng.permutation(len(cols))]
        k = 1 + i % len(cols)
        T, C = order[:k], order[k:k + 1 + i % 2]
        rows = sorted(t.a.Zr())
        if op == 'add':
            obs = {o: value(o) for o in T}
            if i % 3 == 0:
                obs[crp] = int(t.a.Zr(rows[i % len(rows)]))
            n = max(rows) + 1 + i % 2
            if i % 2:
                continue
            for w in (t.a, t.b):
                for o in cols:
                    w.X[o] += [float('nan')] * (n + 1 - len(w.X[o]))
                    w.X[o][n] = obs.get(o, float('nan'))
            t.call('incorporate', lambda g, *a: g.incorporate(*a), n, obs)
        elif op == 'drop' and len(rows) > 1:
            t.call('unincorporate', lambda g, r: g.unincorporate(r),
                rows[-1])
        elif op == 'density':
            q = {o: value(o) for o in T}
            e = {o: value(o) for o in C}
            if i % 4 == 1:
                e[crp] = int(t.a.Zr(rows[i % len(rows)]))
            elif i % 4 == 2:
                q[crp] = int(t.a.Zr(rows[i % len(rows)]))
            t.call('logpdf', lambda g, *a: g.logpdf(*a), -1, q, e)
        elif op == 'sample':
            e = {o: value(o) for o in C}
            if i % 4 == 1:
                e[crp] = int(t.a.Zr(rows[i % len(rows)]))
            elif i % 4 == 2:
                T = T + [crp]
            t.call('simulate', lambda g, *a, **k: g.simulate(*a, **k), -1, T,
                e, N=[None, 1, 4][i % 3])
        elif op == 'fit':
            t.call('transition', lambda g: g.transition_rows(rows=rows[:2]))
            t.call('transition_dim_hypers', lambda g, cols:
                g.transition_dim_hypers(cols=cols), cols[:1])
    return t.result()


# --------------------------------------------------------------------------
# Constructors of the other models.

@PROP.sub('model-constructors', hs.fixed_dictionaries({
    'model': models.model(6, 3, ('linreg', 'ols', 'forest', 'factor', 'kde',
        'knn', 'primitive', 'dim')),
    'ops': hs.lists(hs.sampled_from(['add', 'add', 'drop', 'density',
        'sample', 'fit', 'twin']), min_size=3, max_size=8),
    'seed': hs.integers(0, 2**31 - 1)}), quick=400)
def model_constructors(c):
    """What two models were built from is never changed by either."""
    from cgpm.factor.factor import FactorAnalysis
    from cgpm.kde.mvkde import MultivariateKde
    from cgpm.knn.mvknn import MultivariateKnn
    from cgpm.mixtures.dim import Dim
    from cgpm.regressions.forest import RandomForest
    from cgpm.regressions.linreg import LinearRegression
    from cgpm.regressions.ols import OrdinaryLeastSquares
    from cgpm.utils import config as cu
    m = c['model']
    kind, s = m['kind'], m['spec']
    args = [list(s['outputs']) if 'outputs' in s else [s['output']], list(
        s.get('inputs', ())) or None]
    kw = {}
    if kind in ('linreg', 'ols', 'forest'):
        cls = {'linreg': LinearRegression, 'ols': OrdinaryLeastSquares,
            'forest': RandomForest}[kind]
        kw['distargs'] = {'inputs': models.input_distargs(s['types'])}
        if kind == 'forest':
            kw['distargs']['k'] = s['k']
        if kind == 'linreg':
            kw['hypers'] = dict(s['hypers'])
    elif kind == 'factor':
        cls = FactorAnalysis
        kw = {'L': s['L'], 'params': {'mux': list(s['mux']), 'Psi': np.diag(
            s['psi']), 'W': np.asarray(s['W'], float)}}
    elif kind in ('kde', 'knn'):
        cls = {'kde': MultivariateKde, 'knn': MultivariateKnn}[kind]
        kw['distargs'] = {'outputs': models.input_distargs(s['types'])}
        if kind == 'kde':
            kw['params'] = {'bw': list(s['bw'])}
        else:
            kw.update(K=s['K'], M=s['M'])
    elif kind == 'primitive':
        cls = cu.cctype_class(s['dist'])
        args[1] = []
        kw = {'hypers': dict(s['hypers']) or None, 'params': dict(s['params']
            ) or None, 'distargs': dict(s['distargs'])}
    else:
        cls, args[1] = Dim, [-1]
        kw = {'cctype': s['dist'], 'hypers': dict(s['hypers']),
            'distargs': dict(s['distargs'])}
    keep = plain([args, kw])
    make = lambda: cls(*args, rng=np.random.RandomState(c['seed']), **kw)
    gs, rows, done = [make()], [[]], []
    equal('arguments of the constructor', plain([args, kw]), keep)
    for j, op in enumerate(c['ops']):
        i = j % len(gs)
        g, R = gs[i], rows[i]
        q, e, x = m['queries'][j % len(m['queries'])]
        ex = {'inputs': models.dic(x)} if x else {}
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                if op == 'add':
                    models.add(g, m, j, j)
                    R.append(j)
                elif op == 'drop' and R:
                    g.unincorporate(R.pop())
                elif op == 'fit' and models.can_fit(m, g):
                    g.transition(N=1)
                elif op == 'fit' and kind == 'dim':
                    g.transition_hyper_grids([1, 2])
                    g.transition_hypers()
                elif op == 'density':
                    g.logpdf(-7, models.dic(q), models.dic(e) or None, **ex)
                elif op == 'sample':
                    g.simulate(-7, [v for v, _ in q], models.dic(e) or None,
                        N=2, **ex)
                elif op == 'twin':
                    gs.append(make())
                    rows.append([])
                done.append(op)
            except (ValueError, IndexError, ZeroDivisionError):
                pass
        equal('arguments of the constructor after %s' % (done,), plain(
            [args, kw]), keep)
    return {'nontrivial': len(done) >= 3, 'labels': [kind]}
