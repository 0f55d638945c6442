"""C12: inference touches only what was asked, and is accounted for."""

import math

import numpy as np

from checks import c10
from vlib import mix, prims
from vlib.harness import Property, check, equal, same, hs, fail, raises

TECHNIQUE = ('property-based testing: generated states and sequences of '
    'inference calls; before/after comparison against the parts each kernel '
    'may change, a counter model, and metamorphic equivalences (N iterations '
    'against N calls, kernel lists against successive calls, selections '
    'against direct calls on the selected parts)')
NOTE = ('Random search with shrinking. That the kernels sample the right '
    'distribution is decided under C05, C07 and C13.')
PROP = Property('C12',
    'Cases are crosscat states and 1-4 inference calls with generated '
    'kernels, columns, rows, views, iteration counts and checkpoint '
    'intervals. Non-trivial: a call selects a proper subset of the columns, '
    'rows, views or kernels.',
    ['single-row states are left out of row inference, which skips them'])

KERNELS = ['alpha', 'view_alphas', 'column_params', 'column_hypers', 'rows',
    'columns']
num = hs.integers(0, 10**6)


@hs.composite
def call(draw):
    kernels = draw(hs.one_of(hs.none(), hs.lists(hs.sampled_from(KERNELS),
        min_size=1, max_size=3, unique=True)))
    return {'kernels': kernels, 'N': draw(hs.sampled_from([None, 1, 1, 2, 3])),
        'cols': draw(hs.one_of(hs.none(), num)),
        'rows': draw(hs.one_of(hs.none(), num)),
        'views': draw(hs.one_of(hs.none(), hs.none(), num)),
        'checkpoint': draw(hs.sampled_from([None, None, 1, 2, 3]))}


@hs.composite
def case(draw, big=False, **kw):
    kw.setdefault('min_rows', 2)
    kw.setdefault('min_cols', 2)
    s = draw(mix.big(**kw) if big else mix.spec(**kw))
    return {'spec': s, 'seed': draw(hs.integers(0, 2**31 - 1)),
        'calls': draw(hs.lists(call(), min_size=1, max_size=4))}


def subset(items, n):
    """A non-empty sub-list, in an order of its own."""
    items = list(items)
    if n is None:
        return None
    rng = np.random.RandomState(n % 2**31)
    size = rng.randint(1, len(items) + 1)
    return [items[i] for i in rng.permutation(len(items))[:size]]


def params(dim):
    return {k: repr(sorted(m.get_params().items()))
        for k, m in dim.clusters.items()} if not dim.is_collapsed() else {}


def parts(st):
    n = st.n_rows()
    out = {('data',): repr([list(st.X[c]) for c in sorted(st.X)]),
        ('outputs',): list(st.outputs), ('types',): list(st.cctypes()),
        ('distargs',): repr([sorted(d.items()) for d in st.distargs()]),
        ('alpha',): st.alpha(),
        ('Ci',): repr((st.Ci, st.Cd))}
    for c in st.outputs:
        d = st.dim_for(c)
        out['hypers', c] = sorted(d.hypers.items())
        out['params', c] = sorted(params(d).items())
        out['Zv', c] = st.Zv(c)
    for v, view in st.views.items():
        out['view_alpha', v] = view.alpha()
        for i in range(n):
            out['Zr', v, i] = view.Zr(i)
    return out


def resolve(st, c):
    cols = subset(st.outputs, c['cols'])
    rows = subset(range(st.n_rows()), c['rows'])
    kernels = c['kernels']
    # Views are renumbered by column moves; a selection names current ones.
    views = subset(st.views, c['views']) \
        if kernels is not None and 'columns' not in kernels else None
    return cols, rows, views, kernels


def permitted(st, cols, rows, views, kernels):
    """Keys which the call may change."""
    ks = KERNELS if kernels is None else kernels
    cs = list(st.outputs) if cols is None else cols
    if views is not None:
        vs = views
    elif cols is not None:
        vs = set(st.Zv(c) for c in cols)
    else:
        vs = list(st.views)
    allowed = set()
    if 'alpha' in ks:
        allowed.add(('alpha',))
    if 'view_alphas' in ks:
        allowed |= {('view_alpha', v) for v in vs}
    if 'column_params' in ks:
        allowed |= {('params', c) for c in cs}
    if 'column_hypers' in ks:
        allowed |= {('hypers', c) for c in cs}
    if 'rows' in ks:
        rs = range(st.n_rows()) if rows is None else rows
        allowed |= {('Zr', v, i) for v in vs for i in rs}
        allowed |= {('params', c) for c in st.outputs if st.Zv(c) in vs}
    if 'columns' in ks:
        allowed |= {('Zv', c) for c in cs}
        allowed |= {('params', c) for c in cs}
    return allowed


def compare(what, before, after, allowed, ks, cols):
    """Nothing outside `allowed` differs."""
    if 'columns' in ks:
        # Views with a column which may not move keep what they are.
        stay = set(before['Zv', c] for k, c in
            [x for x in before if x[0] == 'Zv'] if ('Zv', c) not in allowed)
        drop = lambda d: {k: x for k, x in d.items()
            if k[0] not in ('Zr', 'view_alpha') or k[1] in stay}
        before, after = drop(before), drop(after)
        if 'rows' in ks or 'view_alphas' in ks:
            # Columns in motion select other views as they go.
            pre = set(k for k in before if k[0] in ('Zr', 'view_alpha'))
            if cols is None or 'rows' in ks:
                allowed = allowed | set(k for k in pre if k[0] == 'Zr'
                    and 'rows' in ks and ('rows', k[2]) not in allowed)
            if 'view_alphas' in ks:
                allowed = allowed | set(k for k in pre
                    if k[0] == 'view_alpha')
            if 'rows' in ks:
                allowed = allowed | set(k for k in before
                    if k[0] == 'params')
    for k in sorted(set(before) | set(after), key=repr):
        if k in allowed:
            continue
        if before.get(k) != after.get(k):
            fail('%s changed %r: %r -> %r', what, k, before.get(k),
                after.get(k))


def invoke(st, c, cols, rows, views, kernels, N):
    st.transition(N=N, kernels=None if kernels is None else list(kernels),
        rowids=None if rows is None else list(rows),
        cols=None if cols is None else list(cols),
        views=None if views is None else list(views), progress=False,
        checkpoint=c['checkpoint'])


def run(c, **kw):
    s = c['spec']
    st = mix.build(s, c['seed'], **kw)
    counts, marks, proper = {}, 0, False
    for x in c['calls']:
        cols, rows, views, kernels = resolve(st, x)
        ks = KERNELS if kernels is None else kernels
        n = x['N'] or 1
        what = 'transition(N=%r, kernels=%r, cols=%r, rowids=%r, views=%r)' \
            % (x['N'], kernels, cols, rows, views)
        before = parts(st)
        allowed = permitted(st, cols, rows, views, kernels)
        moved = 'columns' in ks and len(ks) > 1 and n > 1
        if kw.get('Ci'):
            x = dict(x, checkpoint=None)
        invoke(st, x, cols, rows, views, kernels, x['N'])
        after = parts(st)
        compare(what, before, after, allowed, ks, cols)
        if rows is not None and 'rows' in ks and not moved:
            # Rows not selected keep their clusters in the lasting views.
            for k in before:
                if k[0] == 'Zr' and k in after and k[2] not in rows \
                        and 'columns' not in ks:
                    equal('%s: %r' % (what, k), after[k], before[k])
        for k in ks:
            counts[k] = counts.get(k, 0) + n
        got = dict(st.diagnostics['iterations'])
        check(got == counts, '%s: iteration counters %r, expected %r', what,
            got, counts)
        if x['checkpoint']:
            marks += n // x['checkpoint']
        for name in ('logscore', 'column_crp_alpha', 'column_partition'):
            d = st.diagnostics.get(name, [])
            check(len(d) == marks, '%s, checkpoint %r: %d entries of %s, '
                'expected %d', what, x['checkpoint'], len(d), name, marks)
        if x['checkpoint'] and n % x['checkpoint'] == 0:
            same('%s: last log score recorded' % what,
                st.diagnostics['logscore'][-1], st.logpdf_score(), 1e-9)
            same('%s: last alpha recorded' % what,
                st.diagnostics['column_crp_alpha'][-1], st.alpha(), 1e-12)
            equal('%s: last partition recorded' % what, dict(
                st.diagnostics['column_partition'][-1]), dict(st.Zv()))
        for a, b in kw.get('Ci', []):
            check(st.Zv(a) != st.Zv(b), '%s: columns %d and %d, declared '
                'independent, share view %r', what, a, b, st.Zv(a))
        mix.invariants(what, st, s)
        proper = proper or cols is not None or rows is not None \
            or views is not None or len(ks) < 6
    return {'nontrivial': proper, 'labels': sorted(counts)}


PROP.sub('scope-and-counters', case(), quick=800)(run)
PROP.sub('large-scope-and-counters', case(big=True, max_rows=25, max_cols=8),
    quick=48, timeout=60.)(run)


@hs.composite
def independent_case(draw):
    c = draw(case(zero_based=True, min_cols=3, max_rows=4))
    z = mix.zv(c['spec'])
    cols = mix.ids(c['spec'])
    pairs = [[a, b] for a in cols for b in cols if a < b and z[a] != z[b]]
    if not pairs:
        # Give the last column a view of its own.
        s = c['spec']
        v = max(v for v, _ in s['Zr']) + 1
        s['Zv'][-1][1] = v
        s['Zr'].append([v, list(s['Zr'][0][1])])
        s['view_alphas'].append([v, 1.])
        z = mix.zv(s)
        pairs = [[a, b] for a in cols for b in cols
            if a < b and z[a] != z[b]]
    c['Ci'] = draw(hs.lists(hs.sampled_from(pairs), min_size=1, max_size=4,
        unique_by=tuple))
    c['flip'] = draw(hs.booleans())
    for x in c['calls']:
        x['kernels'] = draw(hs.sampled_from([None, ['columns'], ['columns'],
            ['rows', 'columns']]))
        x['N'] = draw(hs.integers(1, 5))
    return c


@PROP.sub('independence', independent_case(), quick=600)
def independence(c):
    Ci = [tuple(reversed(p)) if c['flip'] else tuple(p) for p in c['Ci']]
    return run(c, Ci=Ci)


@hs.composite
def dependent_case(draw):
    s = draw(mix.spec(zero_based=True, min_cols=2, one_view=True))
    k = draw(hs.integers(2, len(s['cols'])))
    return {'spec': s, 'Cd': [draw(hs.permutations(mix.ids(s)))[:k]],
        'seed': draw(hs.integers(0, 10**6)), 'cols': draw(hs.one_of(
            hs.none(), num)), 'conditional': draw(hs.booleans())}


@PROP.sub('columns-refused', dependent_case(), quick=600)
def refused(c):
    s = c['spec']
    if c['conditional']:
        # A column which depends on others of its view.
        s = dict(s, cols=[dict(x) for x in s['cols']])
        s['cols'][0].update(dist='normal', distargs={}, hypers={'m': 0.,
            'r': 1., 's': 1., 'nu': 1.})
        if any(x['dist'] not in ('normal', 'poisson', 'exponential')
                for x in s['cols'][1:]):
            return {'nontrivial': False}
        st = mix.build(s, c['seed'])
        st.update_cctype(0, 'linear_regression')
    else:
        st = mix.build(s, c['seed'], Cd=[list(x) for x in c['Cd']])
    before = mix.fingerprint(st)
    p = parts(st)
    cols = subset(mix.ids(s), c['cols'])
    raises('column transition under dependence', ValueError,
        lambda: st.transition(N=1, kernels=['columns'], cols=cols,
            progress=False))
    mix.unchanged('refused column transition', st, before)
    compare('refused column transition', p, parts(st), set(), [], None)
    # The other kernels run.
    ks = ['alpha', 'view_alphas', 'column_params', 'column_hypers', 'rows']
    st.transition(N=1, kernels=ks, progress=False)
    equal('column partition', dict(st.Zv()), mix.zv(s))
    return {'nontrivial': True}


# --------------------------------------------------------------------------
# Equivalences.

def assert_twins(what, a, b, counters=True):
    pa, pb = parts(a), parts(b)
    d = [(k, pa.get(k), pb.get(k)) for k in sorted(set(pa) | set(pb),
        key=repr) if pa.get(k) != pb.get(k)]
    if d:
        fail('%s: states differ in %r', what, d[:4])
    if counters:
        equal('%s: counters' % what, dict(a.diagnostics['iterations']),
            dict(b.diagnostics['iterations']))


@PROP.sub('equivalences', case(max_rows=4, max_cols=3), quick=600)
def equivalences(c):
    """N iterations are N calls; a list of kernels is one call for each."""
    s, x = c['spec'], c['calls'][0]
    a, b = mix.build(s, c['seed']), mix.build(s, c['seed'])
    cols, rows, views, kernels = resolve(a, x)
    ks = KERNELS if kernels is None else kernels
    n = x['N'] or 1
    x = dict(x, checkpoint=None)
    invoke(a, x, cols, rows, views, kernels, n)
    for _ in range(n):
        for k in ks:
            invoke(b, x, cols, rows, views, [k], 1)
    assert_twins('transition(N=%d, kernels=%r, cols=%r, rowids=%r, views=%r) '
        'and %d single transitions' % (n, kernels, cols, rows, views, n), a,
        b)
    # A time limit which does not bind.
    d = mix.build(s, c['seed'])
    d.transition(N=n, S=10**6, kernels=kernels, rowids=rows, cols=cols,
        views=views, progress=False)
    assert_twins('transition with and without a time limit', a, d)
    return {'nontrivial': n > 1 or len(ks) > 1}


@PROP.sub('direct-calls', case(), quick=700)
def direct(c):
    """A kernel acts on each selected part as that part's own method does."""
    s, x = c['spec'], c['calls'][0]
    ks = x['kernels'] or KERNELS
    for k in ks:
        a, b = mix.build(s, c['seed']), mix.build(s, c['seed'])
        cols = subset(a.outputs, x['cols'])
        rows = subset(range(a.n_rows()), x['rows'])
        v = subset(a.views, x['views'] or 7)[0]
        args = dict(N=1, kernels=[k], progress=False)
        if k == 'alpha':
            a.transition(**args)
            b.transition_crp_alpha()
        elif k == 'view_alphas':
            a.transition(views=[v], **args)
            b.views[v].transition_crp_alpha()
        elif k in ('column_params', 'column_hypers'):
            a.transition(cols=cols, **args)
            for col in cols or b.outputs:
                getattr(b.dim_for(col), 'transition_' + k[7:])()
        elif k == 'rows':
            a.transition(views=[v], rowids=rows, **args)
            b.views[v].transition_rows(rows=rows)
        else:
            a.transition(cols=cols, **args)
            b.transition_dims(cols=cols)
        assert_twins('kernel %s of cols %r, rows %r, view %r' % (k, cols,
            rows, v), a, b, counters=False)
    return {'nontrivial': True}


@PROP.sub('nothing-selected', case(max_rows=5), quick=200)
def nothing_selected(c):
    """An empty selection of rows or views selects none of them."""
    st = mix.build(c['spec'], c['seed'])
    before = parts(st)
    for call in (
            lambda: st.transition(kernels=['rows'], rowids=[], N=2,
                progress=False),
            lambda: st.transition(kernels=['rows', 'view_alphas'], views=[],
                progress=False),
            lambda: st.transition_view_rows(rows=[]),
            lambda: list(st.views.values())[0].transition_rows(rows=[])):
        call()
        after = parts(st)
        for k in sorted(before, key=repr):
            if before[k] != after[k] and k[0] != 'params':
                fail('inference on no rows or views changed %r: %r -> %r', k,
                    before[k], after[k])
    return {'nontrivial': st.n_rows() > 1}


@PROP.sub('kernels-act', case(max_rows=5, dists=['normal', 'poisson',
    'bernoulli', 'categorical', 'exponential', 'geometric']), quick=250)
def kernels_act(c):
    """Every selected part is resampled, every time.

    Each of these conditionals is spread over a grid, so that not one change
    over 40 iterations has negligible probability.
    """
    s = c['spec']
    st = mix.build(s, c['seed'])
    cols = subset(st.outputs, c['calls'][0]['cols'])
    seen = {}
    for i in range(40):
        st.transition(N=1, kernels=['alpha', 'view_alphas',
            'column_hypers'], cols=cols, progress=False)
        p = parts(st)
        for k in p:
            if k[0] in ('alpha', 'view_alpha', 'hypers'):
                seen.setdefault(k, set()).add(repr(p[k]))
    chosen = list(st.outputs) if cols is None else cols
    want = [('alpha',)] + [('hypers', x) for x in chosen] + [
        ('view_alpha', v) for v in set(st.Zv(x) for x in chosen)]
    for k in want:
        if k[0] == 'hypers' and all(len(set(g)) < 2 for g in
                st.dim_for(k[1]).hyper_grids.values()):
            # Too little data for a grid of more than one point.
            continue
        check(len(seen[k]) > 1, '%r did not change in 40 iterations over '
            'columns %r', k, cols)
    return {'nontrivial': True}


# --------------------------------------------------------------------------
# Nearly empty columns, whose partitions inference is free to rearrange.

@hs.composite
def free_case(draw):
    D, n = draw(hs.integers(2, 7)), draw(hs.integers(2, 5))
    shape = draw(hs.sampled_from(['apart', 'any', 'any']))
    z = [j if shape == 'apart' else draw(hs.integers(0, 3))
        for j in range(D)]
    used = sorted(set(z))
    pairs = [[a, b] for a in range(D) for b in range(D)
        if a != b and z[a] != z[b] and (a < b or draw(hs.booleans()))]
    seen, Ci = set(), []
    for a, b in pairs:
        if tuple(sorted((a, b))) not in seen:
            seen.add(tuple(sorted((a, b))))
            Ci.append([a, b])
    kind = draw(hs.sampled_from(['none', 'none', 'star', 'all', 'some']))
    if kind == 'none':
        Ci = []
    elif kind == 'star':
        hub = draw(hs.integers(0, D - 1))
        Ci = [p for p in Ci if hub in p]
    elif kind == 'some' and Ci:
        Ci = draw(hs.lists(hs.sampled_from(Ci), min_size=1, max_size=6,
            unique_by=tuple))
    rows = [[None] * D for _ in range(n)]
    for j in range(D):
        rows[draw(hs.integers(0, n - 1))][j] = draw(hs.sampled_from(
            [0., 1., -2.5]))
    return {'spec': {'cols': [{'col': j, 'dist': 'normal', 'distargs': {},
            'hypers': {'m': 0., 'r': 1., 's': 1., 'nu': 2.}}
            for j in range(D)], 'rows': rows,
            'Zv': [[j, v] for j, v in enumerate(z)],
            'Zr': [[v, [draw(hs.integers(0, 2)) for _ in range(n)]]
                for v in used],
            'alpha': float(D), 'view_alphas': [[v, float(n)] for v in used]},
        'Ci': draw(hs.permutations(Ci)),
        'kernel': 'columns' if Ci else draw(hs.sampled_from(
            ['rows', 'rows', 'columns'])),
        'by': draw(hs.sampled_from(['cols', 'cols', 'views', 'all'])),
        'some': draw(num), 'rows': draw(hs.one_of(hs.none(), num)),
        'seed': draw(num)}


def company(z, i):
    return frozenset(j for j in z if z[j] == z[i])


@PROP.sub('selected-parts-move', free_case(), quick=160, timeout=60.)
def selected_move(c):
    """All selected rows, columns and views are resampled, and no others.

    The cells are nearly all missing, so that each move has a probability
    of at least a third; independence of columns holds after every move.
    """
    s, Ci = c['spec'], [tuple(p) for p in c['Ci']]
    st = mix.build(s, c['seed'], Ci=Ci)
    kw, kernel = {}, c['kernel']
    if kernel == 'rows':
        if c['by'] == 'cols':
            kw['cols'] = subset(st.outputs, c['some'])
            vs = set(st.Zv(x) for x in kw['cols'])
        elif c['by'] == 'views':
            kw['views'] = subset(st.views, c['some'])
            vs = set(kw['views'])
        else:
            vs = set(st.views)
        kw['rowids'] = subset(range(st.n_rows()), c['rows'])
        rows = range(st.n_rows()) if kw['rowids'] is None else kw['rowids']
        want = set((v, i) for v in vs for i in rows)
        parts_ = lambda: {(v, i): company(st.views[v].Zr(), i)
            for v in st.views for i in range(st.n_rows())}
    else:
        if c['by'] != 'all':
            kw['cols'] = subset(st.outputs, c['some'])
        want = set(kw.get('cols') or st.outputs)
        parts_ = lambda: {x: company(st.Zv(), x) for x in st.outputs}
    first, moved = parts_(), set()
    for i in range(12 if Ci else 45):
        st.transition(N=1, kernels=[kernel], progress=False,
            **{k: None if v is None else list(v) for k, v in kw.items()})
        now = parts_()
        moved |= set(k for k in now if now[k] != first[k])
        for a, b in Ci:
            check(st.Zv(a) != st.Zv(b), 'columns %d and %d, declared '
                'independent, share view %r after %d transitions of %r', a,
                b, st.Zv(a), i + 1, kw.get('cols'))
        if moved >= want and not Ci:
            break
    if not Ci:
        check(moved >= want, '%s did not move in %d transitions of kernel '
            '%s, %r', sorted(want - moved), i + 1, kernel, kw)
    if kernel == 'rows':
        for v, k in moved:
            check(v in vs, 'rows of view %r moved in transitions of rows of '
                'views %r', v, sorted(vs))
    return {'nontrivial': bool(Ci) or len(want) > 1,
        'labels': [kernel, 'Ci=%d' % min(len(Ci), 4)]}


# --------------------------------------------------------------------------
# Time limits, foreign kernels, views.

@PROP.sub('time-limit', case(max_rows=3, max_cols=2), quick=40, wall=True)
def time_limit(c):
    """Stopping on time ends between kernels, in order."""
    s, x = c['spec'], c['calls'][0]
    st = mix.build(s, c['seed'])
    ks = x['kernels'] or KERNELS
    st.transition(S=.02, kernels=list(ks), progress=False)
    got = [st.diagnostics['iterations'].get(k, 0) for k in ks]
    check(got[0] >= 1, 'no iteration in the time given: %r', got)
    check(all(a >= b for a, b in zip(got, got[1:])) and
        got[0] - got[-1] <= 1, 'kernels %r ran %r times', ks, got)
    check(set(st.diagnostics['iterations']) <= set(ks), 'counters %r',
        st.diagnostics['iterations'])
    mix.invariants('after a time limit', st, s)
    return {'nontrivial': True}


@hs.composite
def both_case(draw):
    c = draw(case(max_rows=3, max_cols=2))
    c.update(N=draw(hs.integers(2, 12)), slack=draw(hs.integers(2, 6)),
        entry=draw(hs.sampled_from(['transition', 'transition_foreign'])))
    return c


@PROP.sub('both-limits', both_case(), quick=120)
def both_limits(c):
    """The first limit reached decides, not a mixture of the two.

    The clock is replaced: every reading is one second after the last.
    """
    import time
    s, x = c['spec'], c['calls'][0]
    ks = [k for k in x['kernels'] or KERNELS] if x['kernels'] != [] else \
        ['alpha']
    real, ticks = time.time, [0]

    def clock():
        ticks[0] += 1
        return 1e6 + ticks[0]

    def run(st, **limits):
        if c['entry'] == 'transition':
            st.transition(kernels=list(ks), progress=False, **limits)
        else:
            st.transition_foreign(progress=False, **limits)

    def build():
        st = mix.build(s, c['seed'])
        for j in range(2):
            st.compose_cgpm(Recorder([900 + j], []))
        return st
    try:
        time.time = clock
        alone = build()
        run(alone, N=c['N'])
        ticks[0] = 0
        timed = build()
        run(timed, N=c['N'], S=1e9)
        # Readings taken while nothing binds but the number of iterations.
        used = ticks[0]
        both = build()
        run(both, N=c['N'], S=float(c['slack'] * used + 10))
    finally:
        time.time = real
    for name, st in (('a distant', timed), ('a larger', both)):
        equal('iterations with N=%d and %s time limit' % (c['N'], name),
            dict(st.diagnostics['iterations']),
            dict(alone.diagnostics['iterations']))
    for k, n in alone.diagnostics['iterations'].items():
        equal('iterations of %s' % k, n, c['N'])
    return {'nontrivial': used > 0, 'labels': [c['entry']]}


class Recorder(object):
    def __init__(self, outputs, inputs):
        self.outputs, self.inputs, self.calls = outputs, inputs, 0

    def transition(self, N=None, **kw):
        self.calls += N or 1

    def simulate(self, *args, **kw):
        raise NotImplementedError

    logpdf = simulate


@hs.composite
def foreign_case(draw):
    s = draw(mix.spec(max_cols=2, max_rows=2))
    return {'spec': s, 'sizes': draw(hs.lists(hs.integers(1, 2), min_size=1,
            max_size=3)),
        'calls': draw(hs.lists(hs.tuples(hs.one_of(hs.none(), num),
            hs.sampled_from([None, 1, 2, 4])), min_size=1, max_size=3))}


@PROP.sub('foreign', foreign_case(), quick=500)
def foreign(c):
    s = c['spec']
    st = mix.build(s, 1)
    models, tokens, name = [], [], 900
    for k in c['sizes']:
        m = Recorder(list(range(name, name + k)), [mix.ids(s)[0]])
        name += k
        models.append(m)
        tokens.append(st.compose_cgpm(m))
    before = parts(st)
    want = [0] * len(models)
    for pick, N in c['calls']:
        cols = subset(range(900, name), pick)
        st.transition_foreign(N=N, cols=cols, progress=False)
        for i, m in enumerate(models):
            if cols is None or any(o in cols for o in m.outputs):
                want[i] += N or 1
        equal('transition_foreign(%r, %r): runs of %r' % (N, cols,
            [m.outputs for m in models]), [m.calls for m in models], want)
        equal('counters', {k: v for k, v in
            st.diagnostics['iterations'].items()}, {'foreign-%s' % t: w
            for t, w in zip(tokens, want) if w})
    compare('transition_foreign', before, parts(st), set(), [], None)
    return {'nontrivial': len(models) > 1}


@hs.composite
def view_case(draw):
    s = draw(mix.spec(one_view=True, min_cols=1, max_cols=3, min_rows=2))
    return {'spec': s, 'seed': draw(hs.integers(0, 10**6)),
        'what': draw(hs.sampled_from(['alpha', 'hypers', 'rows', 'grids',
            'all'])), 'cols': draw(hs.one_of(hs.none(), num)),
        'rows': draw(hs.one_of(hs.none(), num))}


@PROP.sub('views', view_case(), quick=800)
def views(c):
    s = c['spec']
    v = s['Zr'][0][0]
    view = mix.build_view(s, v, c['seed'])
    n = mix.n_rows(s)

    def snap():
        out = {('alpha',): view.alpha(), ('data',): repr(sorted(
            (k, list(x)) for k, x in view.X.items()))}
        for i in range(n):
            out['Zr', i] = view.Zr(i)
        for k, d in view.dims.items():
            out['hypers', k] = sorted(d.hypers.items())
            out['grids', k] = repr(sorted((h, list(g)) for h, g in
                d.hyper_grids.items()))
        return out
    before = snap()
    cols = subset(mix.ids(s), c['cols'])
    rows = subset(range(n), c['rows'])
    cs, rs = cols or mix.ids(s), rows or range(n)
    if c['what'] == 'alpha':
        view.transition_crp_alpha()
        allowed = {('alpha',)}
    elif c['what'] == 'hypers':
        view.transition_dim_hypers(cols=cols)
        allowed = {('hypers', k) for k in cs}
    elif c['what'] == 'rows':
        view.transition_rows(rows=rows)
        allowed = {('Zr', i) for i in rs}
    elif c['what'] == 'grids':
        view.transition_dim_grids(cols=cols)
        allowed = {('grids', k) for k in cs}
    else:
        view.transition(2)
        allowed = {('alpha',)} | {('hypers', k) for k in mix.ids(s)} | {
            ('Zr', i) for i in range(n)}
    compare('view: %s of columns %r, rows %r' % (c['what'], cols, rows),
        before, snap(), allowed, [], None)
    same('score of the view', view.logpdf_score(), mix.crp_score(
        [view.Zr(i) for i in range(n)], view.alpha()) + sum(
        prims.marginal(d.cctype, [view.X[k][i] for i in range(n)
            if view.Zr(i) == z and not math.isnan(view.X[k][i])],
            d.hypers, mix.by_col(s)[k]['distargs'])
        for k, d in view.dims.items()
        for z in set(view.Zr(i) for i in range(n))), 1e-5,
        5e-2 if any(x['dist'] == 'vonmises' for x in s['cols']) else 1e-5)
    return {'nontrivial': cols is not None or rows is not None}
