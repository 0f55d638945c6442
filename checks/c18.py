"""C18: an ensemble behaves as its member states do."""

import copy
import hashlib
import importlib
import math

import numpy as np

from checks import c10, c16
from vlib import comp, mix, prims
from vlib.harness import Property, check, equal, same, hs, fail
from vlib import stats

TECHNIQUE = ('differential property-based testing: generated ensembles and '
    'histories of operations, each compared with the operation applied to '
    'copies of the member states and between the serial and the parallel '
    'mode; likelihood weighting against direct arithmetic and goodness of '
    'fit')
NOTE = ('Random search with shrinking. The number of worker processes is '
    'generated. Operations on the same state twice in one call are left out, '
    'as is an empty selection, which means all states.')
PROP = Property('C18',
    'Cases are ensembles of 1-4 states (also composed ones) after inference, '
    'a selection of states in any order, and a history of operations. '
    'Non-trivial: at least two states.',
    ['a selection names each state at most once'])

from cgpm.crosscat.engine import Engine
from cgpm.utils import parallel_map as pm

KINDS = ('linreg', 'forest', 'primitive', 'factor')


@hs.composite
def ensemble(draw, min_states=1, max_states=4, **kw):
    c = draw(comp.composite(KINDS, min_foreign=0, max_foreign=1, **kw))
    c['n'] = draw(hs.integers(min_states, max_states))
    c['workers'] = draw(hs.integers(1, 4))
    c['warm'] = draw(hs.integers(0, 2))
    return c


def build(c, hook=True, **kw):
    s = c['state']
    e = Engine(mix.array(s), num_states=c['n'], multiprocess=0,
        outputs=mix.ids(s), cctypes=[x['dist'] for x in s['cols']],
        distargs=[dict(x['distargs']) for x in s['cols']],
        rng=np.random.RandomState(c['seed']), **kw)
    for st in e.states:
        st.transition(N=c['warm'] or 1, progress=False,
            kernels=None if c['warm'] else ['alpha'])
    if hook and c['foreign']:
        for i, st in enumerate(e.states):
            st.compose_cgpm(comp.make(c['foreign'][0], c['seed'] + i))
    return e


class workers(object):
    """The number of worker processes, which defaults to all processors."""
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = getattr(pm, 'cpu_count', None)
        if self.old is not None:
            pm.cpu_count = lambda: self.n

    def __exit__(self, *_):
        if self.old is not None:
            pm.cpu_count = self.old


def token(rng):
    s = rng.get_state()
    return [s[0], s[1].tolist(), s[2], s[3], s[4]]


def digest(rng):
    return hashlib.md5(repr(token(rng)).encode()).hexdigest()


def image(st):
    """Comparable form of a state including its generator."""
    f = mix.fingerprint(st)
    f['rng'] = digest(st.rng)
    f['models'] = c16.plain(c16.pickles_removed(c16.plain(
        [m.to_metadata() for m in hooked(st)])))
    return f


def saved(m):
    """Primitives have no metadata of their own."""
    return not hasattr(m, 'is_collapsed')


def hooked(st):
    return [m for m in st.hooked_cgpms.values() if saved(m)]


def plain(x):
    return c16.plain(x)


def results(what, got, want):
    d = c16.first_difference(plain(got), plain(want))
    if d:
        fail('%s: %s', what, d)


def images(what, got, want):
    equal('%s: number of states' % what, len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        d = mix.differences(b, a)
        if d:
            fail('%s: state %d: %s', what, i, '; '.join(d)[:700])


# --------------------------------------------------------------------------
# Queries.

QUERIES = ['logpdf', 'logpdf', 'logpdf_bulk', 'logpdf_score',
    'logpdf_likelihood', 'simulate', 'simulate', 'simulate_bulk',
    'mutual_information', 'dependence_probability',
    'dependence_probability_pairwise', 'row_similarity',
    'row_similarity_pairwise', 'relevance_probability']


@hs.composite
def point(draw, c):
    """[rowid, targets, constraints]: a query defined for every state."""
    s, own = c['state'], comp.owner(c)
    n = len(s['rows'])
    order = draw(hs.permutations(sorted(own)))
    t = draw(hs.integers(1, len(order)))
    k = draw(hs.integers(0, len(order) - t))
    value = lambda v: draw(comp.value(c, v))
    rowid = draw(hs.sampled_from([-1, n, n + 3] + list(range(n))))
    T = [[v, value(v)] for v in order[:t]]
    E = [[v, value(v)] for v in order[t:t + k]]
    if 0 <= rowid < n:
        seen = set(x for x in mix.ids(s) if mix.cell(s, rowid, x) is not None)
        T = [p for p in T if p[0] not in seen]
        E = [p for p in E if p[0] not in seen]
        if not T:
            rowid = -1
            T = [[order[0], value(order[0])]]
            E = [p for p in E if p[0] != order[0]]
    return [rowid, T, E]


@hs.composite
def query(draw, c):
    s = c['state']
    n, cols = len(s['rows']), mix.ids(s)
    kind = draw(hs.sampled_from(QUERIES))
    row = hs.integers(0, n - 1)
    col = hs.sampled_from(cols)
    some = hs.one_of(hs.none(), hs.lists(col, min_size=1, unique=True))
    if kind in ('logpdf', 'simulate'):
        a = draw(point(c)) + [draw(hs.sampled_from([None, 1, 3])),
            draw(hs.sampled_from([None, 1, 4]))]
    elif kind in ('logpdf_bulk', 'simulate_bulk'):
        a = [draw(point(c)) + [draw(hs.integers(1, 3))]
            for _ in range(draw(hs.integers(1, 3)))]
    elif kind == 'mutual_information':
        pair = draw(hs.permutations(cols))
        a = [[pair[0]], [pair[-1]], draw(hs.integers(1, 4))]
    elif kind == 'dependence_probability':
        every = sorted(comp.owner(c))
        a = [draw(hs.sampled_from(every)), draw(hs.sampled_from(every))]
    elif kind == 'dependence_probability_pairwise':
        a = [draw(some)]
    elif kind == 'row_similarity':
        a = [draw(row), draw(row), draw(some)]
    elif kind == 'row_similarity_pairwise':
        a = [draw(some)]
    elif kind == 'relevance_probability':
        j = draw(hs.sampled_from(s['cols']))
        a = [draw(row), draw(hs.lists(row, max_size=2)), j['col'],
            draw(hs.one_of(hs.none(), hs.lists(comp.value(c, j['col']).map(
                lambda x: [[j['col'], x]]), max_size=2)))]
    else:
        a = []
    sel = draw(hs.one_of(hs.none(), hs.permutations(range(c['n'])).flatmap(
        lambda p: hs.integers(1, len(p)).map(lambda k: list(p[:k])))))
    return [kind, a, sel]


def call(target, kind, a, extra):
    """The query on an engine or, with extra={}, on a state."""
    dic = mix.dic
    f = getattr(target, kind)
    if kind == 'logpdf':
        r, T, E, acc, _N = a
        return f(r, dic(T), dic(E) if E else None, None, acc, **extra)
    if kind == 'simulate':
        r, T, E, acc, N = a
        return f(r, [v for v, _ in T], dic(E) if E else None, None, N, acc,
            **extra)
    if kind == 'logpdf_bulk':
        return f([r for r, _, _, _ in a], [dic(T) for _, T, _, _ in a],
            [dic(E) for _, _, E, _ in a], None, **extra)
    if kind == 'simulate_bulk':
        return f([r for r, _, _, _ in a], [[v for v, _ in T]
            for _, T, _, _ in a], [dic(E) for _, _, E, _ in a], None,
            [n for _, _, _, n in a], **extra)
    if kind == 'mutual_information':
        c0, c1, N = a
        return f(list(c0), list(c1), None, 2, N, False, **extra)
    if kind == 'relevance_probability':
        r, q, col, hyp = a
        return f(r, list(q), col, None if hyp is None else [dic(h)
            for h in hyp], **extra)
    return f(*a, **extra)


RANDOM = ('simulate', 'simulate_bulk', 'mutual_information')


class Recorder(object):
    """Notes the generator a member starts a query from."""
    def __init__(self, st, kind):
        self.st, self.kind, self.starts = st, kind, []

    def __call__(self, *args, **kw):
        self.starts.append(token(self.st.rng))
        return getattr(type(self.st), self.kind)(self.st, *args, **kw)


@hs.composite
def queries(draw):
    c = draw(ensemble(max_cols=3, max_rows=4))
    c['queries'] = [draw(query(c)) for _ in range(3)]
    return c


def attempt(f):
    """Queries may be undefined for every member (zero-density rows)."""
    try:
        return f(), None
    except (ValueError, RuntimeError, ZeroDivisionError) as e:
        return None, e


@PROP.sub('queries', queries(), quick=320, wall=True, timeout=120.)
def run_queries(c):
    e = build(c)
    for kind, a, sel in c['queries']:
        chosen = list(range(c['n'])) if sel is None else sel
        extra = dict(statenos=sel)
        before = [mix.fingerprint(x) for x in e.states]
        serial, parallel = copy.deepcopy(e), copy.deepcopy(e)
        recorders = {}
        if kind in RANDOM:
            for i, st in enumerate(serial.states):
                recorders[i] = Recorder(st, kind)
                setattr(st, kind, recorders[i])
        got, err = attempt(lambda: call(serial, kind, a, dict(extra,
            multiprocess=0)))
        with workers(c['workers']):
            par, perr = attempt(lambda: call(parallel, kind, a, dict(extra,
                multiprocess=1)))
        what = '%s%r of states %r of %d' % (kind, a, sel, c['n'])
        check((err is None) == (perr is None), '%s: serial %r, parallel %r',
            what, err, perr)
        for r, st in zip(recorders.values(), serial.states):
            st.__dict__.pop(kind, None)
        # Each member alone.
        want, failed = [], None
        for i in chosen:
            st = copy.deepcopy(e.states[i])
            if kind in RANDOM and err is None:
                starts = recorders[i].starts
                if len(starts) != 1:
                    want = None
                    break
                s = starts[0]
                st.rng.set_state((s[0], np.array(s[1], dtype=np.uint32),
                    s[2], s[3], s[4]))
            w, x = attempt(lambda: call(st, kind, a, {}))
            if x is not None:
                failed = x
                break
            want.append(w)
        if err is not None:
            # The members reject it as well (generators differ for
            # simulations, whose rejection can depend on the draw).
            if kind not in RANDOM:
                check(failed is not None, '%s raised %r, each member answers '
                    '%r', what, err, want)
            continue
        check(len(got) == len(chosen), '%s has %d answers', what, len(got))
        if want is not None:
            check(failed is None, '%s answers %r where a member raises %r',
                what, got, failed)
            results(what + ', compared with each state alone', got, want)
        results(what + ', parallel and serial', par, got)
        for label, x in (('serial', serial), ('parallel', parallel)):
            for i in range(c['n']):
                mix.unchanged('%s (%s)' % (what, label), x.states[i],
                    before[i])
        if kind in RANDOM:
            # Generators of different members are different.
            seeds = [str(recorders[i].starts) for i in chosen]
            check(len(set(seeds)) == len(seeds), '%s: members share a seed',
                what)
    return {'nontrivial': c['n'] > 1, 'labels': [q[0] for q in c['queries']]}


@hs.composite
def repeated(draw):
    c = draw(ensemble(min_states=1, max_states=4, max_cols=2, max_rows=4))
    c['calls'] = draw(hs.lists(hs.tuples(hs.sampled_from(['simulate',
        'simulate_bulk', 'mutual_information']), hs.integers(0, 1),
        hs.booleans()), min_size=2, max_size=5))
    c['mean'] = draw(hs.sampled_from([0., 4., -20.]))
    return c


@PROP.sub('fresh-draws', repeated(), quick=96, thorough=2000, wall=True,
    timeout=120.)
def fresh_draws(c):
    """Simulations of a continuous column never come out twice."""
    e = build(c)
    rng = np.random.RandomState(c['seed'])
    n = len(c['state']['rows'])
    e.incorporate_dim(list(rng.normal(c['mean'], 1, n)), [700],
        cctype='normal', multiprocess=0)
    e.incorporate_dim(list(rng.normal(c['mean'], 1, n)), [701],
        cctype='normal', multiprocess=0)
    seen, done = {}, []
    for kind, mp, some in c['calls']:
        done.append((kind, mp))
        sel = [len(e.states) - 1] if some else None
        kw = dict(statenos=sel, multiprocess=mp)
        with workers(c['workers']):
            if kind == 'simulate':
                got = [[x[700] for x in xs] for xs in e.simulate(-1, [700],
                    N=3, **kw)]
            elif kind == 'simulate_bulk':
                got = [[x[700] for xs in xss for x in xs]
                    for xss in e.simulate_bulk([-1, -2], [[700], [700]],
                        Ns=[2, 1], **kw)]
            else:
                # Entropy of a continuous column by simulation.
                got = [[x] for x in e.mutual_information([700], [700], N=3,
                    **kw)]
        for i, xs in enumerate(got):
            for x in xs:
                at = 'call %d of %r, member %d' % (len(done), done, i)
                check(x not in seen, '%s gives %r, which %s gave already',
                    at, x, seen.get(x))
                seen[x] = at
    return {'nontrivial': len(done) > 1, 'labels': [k for k, _ in done]}


@hs.composite
def selections(draw):
    c = draw(ensemble(min_states=3, max_states=12, max_cols=2, max_rows=3))
    c['warm'] = 0
    c['foreign'] = []
    order = list(range(c['n']))
    draw(hs.randoms(use_true_random=False)).shuffle(order)
    c['sel'] = order[:draw(hs.integers(2, c['n']))]
    c['queries'] = [draw(query(c)) for _ in range(2)]
    return c


class Tagged(object):
    """Stands in for a query of a member: answers which member it is."""
    def __init__(self, i):
        self.i = i

    def __call__(self, *args, **kw):
        return ['member', self.i]


@PROP.sub('selection-order', selections(), quick=240, wall=True, timeout=60.)
def selection_order(c):
    """Answers come in the order of the selection, also where the members'
    own answers coincide (each member answers with its number)."""
    e = build(c, hook=False)
    sel, judged = c['sel'], 0
    for kind in sorted(set(QUERIES)):
        a = [q for q in c['queries'] if q[0] == kind]
        if not a:
            continue
        for i, st in enumerate(e.states):
            setattr(st, kind, Tagged(i))
        for mp in (0, 1):
            with workers(c['workers']):
                got, err = attempt(lambda: call(e, kind, a[0][1],
                    dict(statenos=sel, multiprocess=mp)))
            tags = [x[1] for x in got or [] if isinstance(x, (list, tuple))
                and len(x) == 2 and isinstance(x[0], str) and x[0] == 'member']
            if len(tags) != len(got or []) or not tags:
                continue
            judged += 1
            equal('%s of states %r (multiprocess=%d): order of the answers'
                % (kind, sel, mp), tags, sel)
    return {'nontrivial': judged > 0 and sel != sorted(sel)}


@hs.composite
def large_queries(draw):
    c = draw(ensemble(min_states=9, max_states=20, max_cols=3, max_rows=4))
    c['workers'] = draw(hs.integers(2, 8))
    c['queries'] = [draw(query(c))]
    return c


@PROP.sub('many-members', large_queries(), quick=40, thorough=800, wall=True,
    timeout=180.)
def run_large_queries(c):
    return run_queries(c)


# --------------------------------------------------------------------------
# Updates.

@hs.composite
def update(draw, c):
    n = c['n']
    sel = draw(hs.one_of(hs.none(), hs.permutations(range(n)).flatmap(
        lambda p: hs.integers(1, len(p)).map(lambda k: list(p[:k])))))
    kind = draw(hs.sampled_from(['transition', 'transition', 'alter',
        'incorporate', 'incorporate_bulk', 'unincorporate', 'force_cell',
        'force_cell_bulk', 'incorporate_dim', 'unincorporate_dim',
        'update_cctype', 'transition_foreign', 'compose_cgpm', 'add_state',
        'drop_state', 'query', 'engine']))
    return [kind, draw(hs.integers(0, 60)), draw(hs.integers(0, 60)), sel,
        draw(hs.booleans())]


@hs.composite
def histories(draw):
    c = draw(ensemble(max_states=3, max_cols=3, max_rows=4))
    c['new'] = draw(mix.column())
    c['ops'] = [draw(update(c)) for _ in range(draw(hs.integers(2, 5)))]
    c['late'] = draw(hs.booleans())
    if c['late'] and c['foreign']:
        # The members are composed along the way.
        at = draw(hs.integers(0, len(c['ops'])))
        c['ops'].insert(at, ['compose_cgpm', 0, 0, None, draw(
            hs.booleans())])
    return c


@hs.composite
def large_histories(draw):
    c = draw(ensemble(min_states=9, max_states=14, max_cols=2, max_rows=4))
    c['workers'] = draw(hs.integers(2, 8))
    c['new'] = draw(mix.column())
    c['ops'] = [draw(update(c)) for _ in range(2)]
    return c


def bump(st):
    st.transition_crp_alpha()
    return st


def retire(st):
    """A function of alter may return another state."""
    twin = copy.deepcopy(st)
    twin.transition_dim_hypers()
    return twin


def apply(e, st, kind, args, kw):
    """On the engine (st None) or on one state; returns the new state."""
    if st is None:
        return getattr(e, kind)(*args, **kw)
    if kind == 'alter':
        for f in args[0]:
            st = f(st)
        return st
    getattr(st, kind)(*args)
    return st


@PROP.sub('histories', histories(), quick=320, wall=True, timeout=120.)
def run_histories(c):
    e = build(c, hook=not c.get('late'))
    s = copy.deepcopy(c['state'])
    rng = np.random.RandomState(c['seed'])
    fresh, done = 61, []
    for kind, i, j, sel, keep_parallel in c['ops']:
        n = e.num_states()
        if sel is not None:
            sel = [k for k in sel if k < n] or None
        chosen = list(range(n)) if sel is None else sel
        cols = mix.ids(s)
        N = len(s['rows'])
        col = s['cols'][i % len(cols)]
        val = lambda x: c10.value_for(rng, x['dist'], x['distargs'])
        kw, args, after = {}, None, None
        composed = bool(e.states[0].hooked_cgpms)
        if kind == 'transition':
            kernels = [None, ['alpha'], ['rows'], ['columns', 'rows'],
                ['view_alphas', 'column_hypers']][i % 5]
            args = (1 + j % 2, None, kernels, [j % N] if i % 3 == 0 else
                None, [col['col']] if i % 2 else None, None, False,
                1 if j % 3 == 0 else None)
            kw = dict(statenos=sel)
        elif kind == 'alter':
            args = ([[bump], [bump, retire], [retire]][i % 3],)
            kw = dict(statenos=sel)
        elif kind in ('incorporate', 'incorporate_bulk'):
            rows = [{x['col']: val(x) for x in s['cols'] if rng.uniform() < .8
                } or {cols[0]: val(s['cols'][0])} for _ in range(1 + j % 2)]
            if kind == 'incorporate':
                rows = rows[:1]
                args = (N, rows[0])
            else:
                args = (list(range(N, N + len(rows))), rows)
            after = lambda rows=rows: s['rows'].extend([[q.get(x) for x in
                cols] for q in rows])
        elif kind == 'unincorporate':
            if N < 2:
                continue
            args = (N - 1,)
            after = lambda: s['rows'].pop()
        elif kind in ('force_cell', 'force_cell_bulk'):
            holes = [(r, k) for r in range(N) for k in range(len(cols))
                if s['rows'][r][k] is None]
            if not holes:
                continue
            r, k = holes[i % len(holes)]
            x = val(s['cols'][k])
            args = (r, {cols[k]: x}) if kind == 'force_cell' else (
                [r], [{cols[k]: x}])

            def after(r=r, k=k, x=x):
                s['rows'][r][k] = x
        elif kind == 'incorporate_dim':
            new = dict(c['new'], col=fresh)
            fresh += 1
            T = [val(new) for _ in range(N)]
            # Without a view the columns move, each member its own way.
            args = (T, [new['col']], None, new['dist'],
                dict(new['distargs']), None)

            def after(new=new, T=T):
                s['cols'].append(new)
                for row, y in zip(s['rows'], T):
                    row.append(y)
        elif kind == 'unincorporate_dim':
            used = set(v for f in c['foreign'] for v in f['ins']) \
                if composed else set()
            free = [x for x in cols if x not in used]
            if len(cols) < 2 or not free:
                continue
            x = free[i % len(free)]
            args = (x,)

            def after(k=cols.index(x)):
                s['cols'].pop(k)
                for row in s['rows']:
                    row.pop(k)
        elif kind == 'update_cctype':
            k = cols.index(col['col'])
            seen = [r[k] for r in s['rows'] if r[k] is not None]
            options = [d for d in c10.SWITCH if seen and all(c10.supports(d,
                {'k': 6} if d == 'categorical' else {}, x) for x in seen)]
            if not options:
                continue
            d = options[j % len(options)]
            a = {'k': 6} if d == 'categorical' else {}
            args = (col['col'], d, a or None)

            def after(k=k, d=d, a=a, col=col):
                s['cols'][k] = {'col': col['col'], 'dist': d, 'distargs': a}
        elif kind == 'transition_foreign':
            if not composed or any(not n['rows'] for n in c['foreign']):
                # Hyperparameters are searched over the range of the data.
                continue
            args = (1, None, None, False)
            kw = dict(statenos=sel)
        elif kind == 'compose_cgpm':
            if composed or not c['foreign'] or any(v not in cols
                    for v in c['foreign'][0]['ins']) or \
                    c['foreign'][0]['kind'] == 'primitive':
                continue
            # Each state gets a model with data of its own.
            node = c['foreign'][0]
            models = [comp.make(dict(node, rows=node['rows'][k % (len(
                node['rows']) + 1):], **({'mux': [m + k for m in
                node['mux']]} if 'mux' in node else {})),
                c['seed'] + 5 * k) for k in range(n)]
        elif kind == 'query':
            x = cols[i % len(cols)]
            e.simulate(-1, [x], N=2, multiprocess=int(keep_parallel))
            e.logpdf(-1, {x: val(col) if col['col'] == x else 0.},
                multiprocess=0)
            done.append(kind)
            continue
        elif kind == 'engine':
            # Through its metadata and back.
            if any(not saved(m) for st in e.states
                    for m in st.hooked_cgpms.values()):
                continue
            if c16.empty_column(s):
                continue
            m = e.to_metadata()
            two = [Engine.from_metadata(m, rng=np.random.RandomState(i),
                multiprocess=0)]
            with workers(c['workers']):
                two.append(Engine.from_metadata(m,
                    rng=np.random.RandomState(i), multiprocess=1))
            ignore = ('rng', 'hooked', 'diagnostics')
            if any(f['kind'] == 'forest' for f in c['foreign']):
                ignore += ('models',)
            strip = lambda st: {k: v for k, v in image(st).items()
                if k not in ignore}
            images('loaded engine after %r' % done, [strip(x) for x in
                two[0].states], [strip(x) for x in e.states])
            images('engine loaded in parallel after %r' % done, [image(x)
                for x in two[1].states], [image(x) for x in two[0].states])
            for x in two:
                seeds = [str(token(st.rng)) for st in x.states]
                check(len(set(seeds)) == len(seeds), 'members of an engine '
                    'loaded after %r share their generator', done)
            continue
        if 'statenos' not in kw:
            sel, chosen = None, list(range(n))
        what = '%s of states %r of %d after %r' % (kind, sel, n, done)
        before = [image(x) for x in e.states]
        serial, parallel = copy.deepcopy(e), copy.deepcopy(e)
        twins = copy.deepcopy(e.states)
        objects = [list(serial.states), list(parallel.states)]
        engines = ((serial, 0, objects[0]), (parallel, 1, objects[1]))
        if kind == 'add_state':
            if composed:
                try:
                    serial.add_state(count=1, multiprocess=0)
                except ValueError:
                    continue
                fail('%s: added a state to a composite', what)
            if c16.empty_column(s):
                # No hyperparameter grids (the known finding of C16).
                continue
            count = 1 + j % 2
            for eng, mp, was in engines:
                with workers(c['workers']):
                    eng.add_state(count=count, multiprocess=mp)
                equal('%s: number of states' % what, eng.num_states(),
                    n + count)
                check(all(a is b for a, b in zip(eng.states, was)),
                    '%s replaced a member', what)
                images(what, [image(x) for x in eng.states[:n]], before)
                for x in eng.states[n:]:
                    mix.invariants('%s: the new state' % what, x, s)
                    equal('%s: distribution arguments' % what,
                        plain(x.distargs()), plain(e.states[0].distargs()))
                seeds = [str(token(x.rng)) for x in eng.states]
                check(len(set(seeds)) == len(seeds), '%s: members share '
                    'their generator', what)
            images('%s, parallel' % what, [image(x) for x in
                parallel.states], [image(x) for x in serial.states])
            e = parallel if keep_parallel else serial
            done.append(kind)
            continue
        if kind == 'drop_state':
            if n < 2:
                continue
            k = i % n
            check(e.get_state(k) is e.states[k], 'get_state(%d)', k)
            for eng, mp, was in engines:
                eng.drop_state(k)
                check(len(eng.states) == n - 1 and all(a is b for a, b in
                    zip(eng.states, was[:k] + was[k + 1:])),
                    '%s: dropped another state than %d', what, k)
            images(what, [image(x) for x in serial.states],
                before[:k] + before[k + 1:])
            e = serial
            done.append(kind)
            continue
        if kind == 'compose_cgpm':
            for k in range(n):
                m = models[k].to_metadata()
                cls = getattr(importlib.import_module(m['factory'][0]),
                    m['factory'][1])
                twins[k].compose_cgpm(cls.from_metadata(m,
                    rng=twins[k].rng))
            for eng, mp, was in engines:
                with workers(c['workers']):
                    eng.compose_cgpm([copy.deepcopy(m) for m in models],
                        multiprocess=mp)
        else:
            errors = []
            for k in chosen:
                r, x = attempt(lambda: apply(None, twins[k], kind,
                    copy.deepcopy(args), {}))
                if x is not None:
                    errors.append(x)
                    break
                twins[k] = r
            for eng, mp, was in engines:
                with workers(c['workers']):
                    given = copy.deepcopy(args)
                    _, x = attempt(lambda: apply(eng, None, kind, given,
                        dict(kw, multiprocess=mp)))
                check((x is None) == (not errors), '%s raises %r, its '
                    'members %r', what, x, errors)
                if kind != 'alter':
                    check(plain(given) == plain(args), '%s changed its '
                        'arguments', what)
            if errors:
                continue
        want = [image(x) for x in twins]
        for eng, mp, was in engines:
            label = '%s (%s)' % (what, 'parallel' if mp else 'serial')
            images(label, [image(x) for x in eng.states], want)
            for k in range(n):
                if k not in chosen:
                    check(eng.states[k] is was[k], '%s replaced state %d',
                        label, k)
            equal('generator of the engine: ' + label, token(eng.rng),
                token(e.rng))
        e = parallel if keep_parallel else serial
        if after is not None:
            after()
            for k, x in enumerate(e.states):
                mix.invariants('%s: state %d' % (what, k), x, s)
        done.append(kind)
    return {'nontrivial': c['n'] > 1 and len(done) > 1, 'labels': done}


@PROP.sub('large-histories', large_histories(), quick=40, thorough=800,
    wall=True, timeout=180.)
def run_large_histories(c):
    return run_histories(c)


# --------------------------------------------------------------------------
# Construction.

@hs.composite
def constructions(draw):
    c = draw(ensemble(max_cols=4))
    c['fixed'] = draw(hs.booleans())
    return c


@PROP.sub('construction', constructions(), quick=160, wall=True, timeout=60.)
def construction(c):
    s = c['state']
    X = mix.array(s)
    kw = dict(outputs=mix.ids(s), cctypes=[x['dist'] for x in s['cols']],
        distargs=[dict(x['distargs']) for x in s['cols']])
    if c['fixed']:
        kw.update(Zv=mix.dic(s['Zv']), Zrv=mix.dic(s['Zr']), hypers=[
            dict(x['hypers']) for x in s['cols']], alpha=s['alpha'])
    make = lambda mp, seed: Engine(X.tolist() if c['warm'] else X,
        num_states=c['n'], rng=np.random.RandomState(seed), multiprocess=mp,
        **copy.deepcopy(kw))
    a = make(0, c['seed'])
    with workers(c['workers']):
        b = make(1, c['seed'])
    equal('number of states', [a.num_states(), b.num_states()],
        [c['n'], c['n']])
    images('states built in parallel', [image(x) for x in b.states],
        [image(x) for x in a.states])
    for x in a.states:
        mix.invariants('a new member', x, s)
        if c['fixed']:
            r = mix.read(x)
            equal('column partition of a member', sorted(r['Zv']),
                sorted(s['Zv']))
            equal('row partitions of a member', sorted(r['Zr']),
                sorted(s['Zr']))
    seeds = [str(token(x.rng)) for x in a.states]
    check(len(set(seeds)) == len(seeds), 'members share their generator')
    check(not np.may_share_memory(X, X) or np.array_equal(X, mix.array(s),
        equal_nan=True), 'the dataset was modified')
    # Members hold their own data.
    if c['n'] > 1:
        before = image(a.states[1])
        a.states[0].incorporate(len(s['rows']), {mix.ids(s)[0]:
            c10.value_for(np.random.RandomState(0), s['cols'][0]['dist'],
                s['cols'][0]['distargs'])})
        a.states[0].transition(N=1, progress=False)
        images('driving one member', [image(a.states[1])], [before])
    return {'nontrivial': c['n'] > 1}


# --------------------------------------------------------------------------
# Likelihood weighting.

@hs.composite
def weighted(draw):
    c = draw(ensemble(min_states=1, max_cols=3, max_rows=4))
    own = comp.owner(c)
    order = draw(hs.permutations(sorted(own)))
    t = draw(hs.integers(1, len(order)))
    k = draw(hs.integers(0, len(order) - t))
    c['T'] = [[v, draw(comp.value(c, v))] for v in order[:t]]
    c['E'] = [[v, draw(comp.value(c, v))] for v in order[t:t + k]]
    c['sel'] = draw(hs.one_of(hs.none(), hs.permutations(range(c['n']))
        .flatmap(lambda p: hs.integers(1, len(p)).map(
            lambda k: list(p[:k])))))
    c['zero'] = draw(hs.lists(hs.integers(0, 3), max_size=2))
    return c


@PROP.sub('likelihood-weighting', weighted(), quick=480, wall=True,
    timeout=60.)
def likelihood_weighting(c):
    e = build(c)
    sel = c['sel']
    chosen = list(range(c['n'])) if sel is None else sel
    T, E = mix.dic(c['T']), mix.dic(c['E'])
    p, x = attempt(lambda: [float(np.squeeze(v)) for v in e.logpdf(-1, T, E
        or None, statenos=sel, multiprocess=0)])
    if x is not None:
        return {'nontrivial': False}
    for z in c['zero']:
        if z < len(p) and len(p) > 1:
            p[z] = -mix.INF
    twin = copy.deepcopy(e)
    got, x = attempt(lambda: e._likelihood_weighted_integrate(list(p), -1,
        constraints=E or None, inputs=None, statenos=sel, multiprocess=0))
    # The weights: the density of the constraints under each member, from
    # the same generators (densities of composites are estimates).
    w = [0.] * len(p)
    if E:
        w, y = attempt(lambda: [float(np.squeeze(twin.states[i].logpdf(-1,
            dict(E)))) for i in chosen])
        if y is not None:
            check(x is not None, 'constraints which a member rejects with %r '
                'were accepted', y)
            return {'nontrivial': False}
    if not all(math.isfinite(v) for v in w) or x is not None:
        # All weights zero: no answer to compare with.
        if x is None and mix.lse(w) == -mix.INF:
            return {'nontrivial': False}
    check(x is None, 'likelihood weighting raised %r', x)
    num = mix.lse([a + b for a, b in zip(p, w)])
    want = num - mix.lse(w) if num != -mix.INF else -mix.INF
    same('likelihood-weighted density of %r given %r, members %r weights %r'
        % (T, E, p, w), got, want, 1e-8, 1e-8)
    lo, hi = min(p), max(p)
    check(lo - 1e-9 <= got <= hi + 1e-9, 'average %r of %r', got, p)
    return {'nontrivial': len(p) > 1 and bool(E)}


@hs.composite
def resampled(draw):
    c = draw(ensemble(min_states=2, max_states=4, max_cols=3, max_rows=4))
    own = comp.owner(c)
    order = draw(hs.permutations([v for v in sorted(own)
        if own[v] is None]))
    k = draw(hs.integers(0, min(2, len(order))))
    c['E'] = [[v, draw(comp.value(c, v))] for v in order[:k]]
    c['N'] = draw(hs.sampled_from([1, 2, 5, 30]))
    return c


@PROP.sub('likelihood-resampling', resampled(), quick=48, thorough=600,
    wall=True, timeout=120.)
def likelihood_resampling(c):
    e = build(c, hook=False)
    E, N = mix.dic(c['E']), c['N']
    w = [0.] * c['n']
    if E:
        w = [st.logpdf(-1, dict(E)) for st in e.states]
        if mix.lse(w) == -mix.INF:
            return {'nontrivial': False}
    p = [math.exp(x - mix.lse(w)) for x in w]
    samples = [[{7: (i, j)} for j in range(N)] for i in range(c['n'])]
    reps = max(1, 600 // N)

    def draw(n):
        """Member of every resampled item over repeated calls."""
        out = []
        for _ in range(n):
            r = e._likelihood_weighted_resample(samples, -1,
                constraints=E or None, multiprocess=0)
            equal('number of resampled items', len(r), N)
            ids = [x[7] for x in r]
            check(all(x in samples[x[7][0]] for x in r), 'resampled items %r',
                r)
            check(len(set(ids)) == len(ids), 'items drawn twice: %r', ids)
            out.extend(i for i, _ in ids)
        return out
    stats.discrete('members chosen with weights %r' % (p,), lambda n: draw(
        max(1, n // N)), {i: q for i, q in enumerate(p)}, reps * N)
    return {'nontrivial': bool(E)}
