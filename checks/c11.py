"""C11: refused operations leave the model as it was."""

import math

import numpy as np

from checks import c10
from vlib import mix, models, prims
from vlib.harness import Property, check, equal, same, hs, fail

TECHNIQUE = ('property-based testing with injected invalid operations: '
    'generated histories of valid operations interleaved with operations '
    'which must be refused, with a full before/after comparison')
NOTE = ('Random search with shrinking. The comparison covers data, '
    'partitions, hyperparameters, cluster contents, score, diagnostics, '
    'compositions and the answers of a battery of queries.')
PROP = Property('C11',
    'Cases are crosscat states (some composed with a foreign model, some '
    'after histories of updates) and a list of invalid operations of every '
    'kind the state documents to refuse. Non-trivial: at least three '
    'different kinds were tried.')

num = hs.integers(0, 10**6)


@hs.composite
def case(draw):
    c = draw(c10.case(hs.one_of(
        hs.tuples(hs.just('row'), num, hs.sampled_from(['full', 'partial'])),
        hs.tuples(hs.just('drop_row')),
        hs.tuples(hs.just('col'), num, num),
        hs.tuples(hs.just('drop_col'), num),
        hs.tuples(hs.just('infer'), num)), max_cols=3, max_rows=4))
    c['ops'] = c['ops'][:draw(hs.integers(0, 4))]
    c['foreign'] = draw(hs.booleans())
    c['bad'] = draw(hs.lists(hs.tuples(hs.sampled_from(sorted(KINDS)), num,
        num), min_size=4, max_size=10))
    return c


class Foreign(object):
    """A model which only declares its variables (queries use models.py)."""
    def __init__(self, outputs, inputs):
        self.outputs, self.inputs = list(outputs), list(inputs)

    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
        s = {t: 1. for t in targets}
        return s if N is None else [dict(s) for _ in range(N)]

    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        return -1.25 * len(targets)

    def transition(self, N=None):
        pass


def good_value(m, j, a):
    c = m.s['cols'][j]
    return c10.value_for(np.random.RandomState(a % 2**31), c['dist'],
        c['distargs'])


def contradiction(m, i, j, near=0):
    """A value of column j other than the one row i holds."""
    c = m.s['cols'][j]
    x = m.s['rows'][i][j]
    if c['dist'] in ('bernoulli', 'categorical'):
        return 1. - x if x in (0, 1) else 0.
    if c['dist'] in ('poisson', 'geometric'):
        return x + 1.
    return x + [1., .05, .002][near % 3] * max(1., abs(x))


def observed(m):
    return [(i, j) for i, r in enumerate(m.s['rows'])
        for j, x in enumerate(r) if x is not None]


def missing(m):
    return [(i, j) for i, r in enumerate(m.s['rows'])
        for j, x in enumerate(r) if x is None]


# Each maker returns a call which must be refused, or None.

def row_rowid(m, a, b):
    n = m.st.n_rows()
    rowid = [n + 1, n + 7, -1, 0, n - 1, -n, 10**6][a % 7]
    j = b % len(m.s['cols'])
    obs = {m.s['cols'][j]['col']: good_value(m, j, b)}
    return 'incorporate row %d of %d' % (rowid, n), \
        lambda: m.st.incorporate(rowid, dict(obs))


def row_nan(m, a, b):
    obs = {c['col']: good_value(m, j, b) for j, c in enumerate(m.s['cols'])}
    obs[m.s['cols'][a % len(obs)]['col']] = mix.NAN
    return 'incorporate %r' % obs, lambda: m.st.incorporate(m.st.n_rows(),
        dict(obs))


def row_unknown(m, a, b):
    j = b % len(m.s['cols'])
    obs = {m.s['cols'][j]['col']: good_value(m, j, b)}
    obs[[987, -5, 10**7 + 999, 5**8][a % 4]] = 0
    return 'incorporate %r' % obs, lambda: m.st.incorporate(m.st.n_rows(),
        dict(obs))


def row_inputs(m, a, b):
    j = b % len(m.s['cols'])
    obs = {m.s['cols'][j]['col']: good_value(m, j, b)}
    return 'incorporate with inputs', lambda: m.st.incorporate(
        m.st.n_rows(), dict(obs), {987: 1})


def bulk_row(m, a, b):
    n = m.st.n_rows()
    j = b % len(m.s['cols'])
    obs = {m.s['cols'][j]['col']: good_value(m, j, b)}
    return 'incorporate_bulk from row %d of %d' % (n + 1, n), \
        lambda: m.st.incorporate_bulk([n + 1, n + 2], [obs, obs])


def drop_row(m, a, b):
    n = m.st.n_rows()
    options = [-1, n, n + 3] + list(range(n - 1))
    if n == 1:
        options.append(0)
    r = options[a % len(options)]
    return 'unincorporate row %d of %d' % (r, n), \
        lambda: m.st.unincorporate(r)


def drop_col(m, a, b):
    cols = mix.ids(m.s)
    c = [987, -1][a % 2] if len(cols) > 1 else [987, cols[0], cols[0]][a % 3]
    return 'unincorporate column %d of %r' % (c, cols), \
        lambda: m.st.unincorporate_dim(c)


def new_col(m, a, b):
    n = m.st.n_rows()
    kind = a % 6
    T, outputs, inputs = [0.] * n, [777], None
    if kind == 0:
        T = [0.] * (n + 1)
    elif kind == 1:
        T = [0.] * (n - 1)
    elif kind == 2:
        outputs = [mix.ids(m.s)[b % len(m.s['cols'])]]
    elif kind == 3:
        outputs = [777, 778]
    elif kind == 4:
        inputs = [mix.ids(m.s)[0]]
    else:
        outputs = []
    v = None if b % 3 == 0 else [0, 1, 50][b % 3]
    return 'incorporate column %r of %d values with inputs %r (of %d rows)' \
        % (outputs, len(T), inputs, n), lambda: m.st.incorporate_dim(
            list(T), list(outputs), inputs, cctype='normal', v=v)


def force_observed(m, a, b):
    o = observed(m)
    if not o:
        return None
    i, j = o[a % len(o)]
    obs = {m.s['cols'][j]['col']: good_value(m, j, b)}
    # Together with a cell which could be forced.
    for i2, j2 in missing(m):
        if i2 == i:
            obs[m.s['cols'][j2]['col']] = good_value(m, j2, b)
    return 'force %r in row %d' % (obs, i), lambda: m.st.force_cell(i, obs)


def force_absent(m, a, b):
    n = m.st.n_rows()
    r = [n, n + 1, -1, -n][a % 4]
    j = b % len(m.s['cols'])
    obs = {m.s['cols'][j]['col']: good_value(m, j, b)}
    return 'force %r in row %d of %d' % (obs, r, n), \
        lambda: m.st.force_cell(r, obs)


def force_unknown(m, a, b):
    o = missing(m)
    obs, i = {987: 1.}, 0
    if o:
        i, j = o[a % len(o)]
        obs = {m.s['cols'][j]['col']: good_value(m, j, b), 987: 1.}
    return 'force %r in row %d' % (obs, i), lambda: m.st.force_cell(i, obs)


def some_row(m, a):
    n = m.st.n_rows()
    return [-1, None, n + 2, a % n][a % 4]


def duplicate_targets(m, a, b):
    col = mix.ids(m.s)[b % len(m.s['cols'])]
    r = some_row(m, a)
    targets = [col, col] if b % 2 else mix.ids(m.s) + [col]
    q = (m.st, m.st.view_for(col))[a // 4 % 2]
    if q is not m.st:
        targets = [col, col]
    return 'simulate %r twice (row %r)' % (targets, r), \
        lambda: q.simulate(r, targets, None, None, [None, 2][b // 2 % 2])


def overlap(m, a, b):
    j = b % len(m.s['cols'])
    col = m.s['cols'][j]['col']
    r = [-1, None][a % 2]
    x = good_value(m, j, b)
    cons = {col: x}
    if b % 3:
        # Alongside other columns.
        for k, c in enumerate(m.s['cols']):
            if k != j and m.st.Zv(c['col']) == m.st.Zv(col):
                cons[c['col']] = good_value(m, k, b)
    q = (m.st, m.st.view_for(col))[a // 4 % 2]
    if a // 8 % 2:
        return 'simulate %d given %r' % (col, cons), \
            lambda: q.simulate(r, [col], dict(cons))
    return 'logpdf of %d given %r' % (col, cons), \
        lambda: q.logpdf(r, {col: x}, dict(cons))


def contradicting(m, a, b):
    o = observed(m)
    if not o:
        return None
    i, j = o[a % len(o)]
    col = m.s['cols'][j]['col']
    view = m.st.view_for(col)
    in_view = b % 2 == 0
    others = [(k, c['col']) for k, c in enumerate(m.s['cols']) if k != j
        and m.s['rows'][i][k] is None
        and (not in_view or c['col'] in view.dims)]
    q = view if in_view else m.st
    cons = {col: contradiction(m, i, j, (a + b) // 3)}
    if not others:
        # Sampling an observed cell again.
        others = [(k, c['col']) for k, c in enumerate(m.s['cols'])
            if k != j and (not in_view or c['col'] in view.dims)]
        if not others:
            return None
        return 'simulate row %d with %r, observed as %r' % (i, cons,
            m.s['rows'][i][j]), lambda: q.simulate(i, [others[0][1]], cons)
    k, t = others[b % len(others)]
    x = good_value(m, k, b)
    if b // 2 % 2:
        return 'simulate row %d with %r, observed as %r' % (i, cons,
            m.s['rows'][i][j]), lambda: q.simulate(i, [t], dict(cons))
    return 'logpdf of row %d with %r, observed as %r' % (i, cons,
        m.s['rows'][i][j]), lambda: q.logpdf(i, {t: x}, dict(cons))


def observed_target(m, a, b):
    o = observed(m)
    if not o:
        return None
    i, j = o[a % len(o)]
    col = m.s['cols'][j]['col']
    x = m.s['rows'][i][j]
    return 'logpdf of the observed cell (%d, %d)' % (i, col), \
        lambda: m.st.logpdf(i, {col: x})


def observed_cluster(m, a, b):
    v = sorted(m.st.views)[b % len(m.st.views)]
    view = m.st.views[v]
    token = view.outputs[0]
    i = a % m.st.n_rows()
    k = view.Zr(i)
    col = view.outputs[1]
    kind = b // 7 % 4
    calls = [
        lambda: view.logpdf(i, {token: k}),
        lambda: view.simulate(i, [token]),
        lambda: view.simulate(i, [col], {token: k}),
        lambda: view.simulate(i, [token, col], None, None, 3)]
    return 'cluster of row %d in a query (%d)' % (i, kind), calls[kind]


def transition_unknown(m, a, b):
    cols = [[987], mix.ids(m.s) + [987], [987, mix.ids(m.s)[0]],
        [-1]][a % 4]
    kernels = [None, ['columns'], ['rows'], ['column_hypers'],
        ['view_alphas'], ['alpha'], ['column_params']][b % 7]
    return 'transition columns %r kernels %r' % (cols, kernels), \
        lambda: m.st.transition(N=1, cols=cols, kernels=kernels,
            progress=False)


def transition_kernel(m, a, b):
    return 'transition with an unknown kernel', lambda: m.st.transition(
        N=1, kernels=[['bogus'], ['rows', 'bogus'], ['columns', 'row']][
            a % 3], progress=False)


def transition_foreign(m, a, b):
    col = mix.ids(m.s)[b % len(m.s['cols'])]
    return 'foreign transition of crosscat column %d' % col, \
        lambda: m.st.transition_foreign(N=1, cols=[col], progress=False)


def compose_duplicate(m, a, b):
    col = mix.ids(m.s)[b % len(m.s['cols'])]
    options = [[col], [900, col]]
    if m.st.hooked_cgpms:
        taken = sorted(m.st.hooked_cgpms.items())[0][1].outputs[0]
        options += [[taken], [905, taken]]
    outputs = options[a % len(options)]
    return 'compose a model of outputs %r' % outputs, \
        lambda: m.st.compose_cgpm(Foreign(outputs, []))


def compose_nothing(m, a, b):
    return 'compose a model without outputs', \
        lambda: m.st.compose_cgpm(Foreign([], [mix.ids(m.s)[0]]))


def compose_cycle(m, a, b):
    if m.open and a % 2:
        # The composed models read variables 910 and 911.
        outputs, inputs = [([910], [900]), ([911], [901]), ([911], [900]),
            ([910, 911], [3, 901])][a // 2 % 4]
    else:
        outputs, inputs = [906], [mix.ids(m.s)[0], 906]
    return 'compose %r reading %r' % (outputs, inputs), \
        lambda: m.st.compose_cgpm(Foreign(outputs, inputs))


def view_duplicate_row(m, a, b):
    v = sorted(m.st.views)[b % len(m.st.views)]
    view = m.st.views[v]
    i = a % m.st.n_rows()
    obs = {c: m.st.X[c][i] for c in view.dims}
    return 'view: incorporate row %d again' % i, \
        lambda: view.incorporate(i, obs)


def view_absent_row(m, a, b):
    v = sorted(m.st.views)[b % len(m.st.views)]
    r = [m.st.n_rows(), -1, m.st.n_rows() + 4][a % 3]
    return 'view: unincorporate row %d' % r, \
        lambda: m.st.views[v].unincorporate(r)


def view_relevance(m, a, b):
    v = sorted(m.st.views)[b % len(m.st.views)]
    foreign = [c for c in mix.ids(m.s) if m.st.Zv(c) != v] + [987]
    col = foreign[a % len(foreign)]
    n = m.st.n_rows()
    return 'view: relevance for column %d of another view' % col, \
        lambda: m.st.views[v].relevance_probability(0, [n - 1], col)


KINDS = {f.__name__: f for f in (row_rowid, row_nan, row_unknown, row_inputs,
    bulk_row, drop_row, drop_col, new_col, force_observed, force_absent,
    force_unknown, duplicate_targets, overlap, contradicting,
    observed_target, observed_cluster, transition_unknown, transition_kernel,
    transition_foreign, compose_duplicate, compose_nothing, compose_cycle,
    view_duplicate_row, view_absent_row, view_relevance)}


def answers(m):
    """A battery of queries, all deterministic."""
    st = m.st
    out = {'score': st.logpdf_score()}
    for j, c in enumerate(m.s['cols']):
        x = good_value(m, j, 3)
        out['logpdf %d' % c['col']] = st.logpdf(-1, {c['col']: x})
        for k, d in enumerate(m.s['cols']):
            if k != j:
                out['logpdf %d given %d' % (c['col'], d['col'])] = st.logpdf(
                    -1, {c['col']: x}, {d['col']: good_value(m, k, 4)})
    for i, j in missing(m)[:4]:
        col = m.s['cols'][j]['col']
        out['logpdf cell %d %d' % (i, col)] = st.logpdf(i, {col:
            good_value(m, j, 5)})
    n = st.n_rows()
    for i in range(n):
        out['similarity %d' % i] = st.row_similarity(0, i)
    return out


def refuse(m, maker, a, b, label):
    made = maker(m, a, b)
    if made is None:
        return False
    what, call = made
    what = '%s%s' % (label, what)
    try:
        r = call()
    except Exception:
        pass
    else:
        fail('%s was accepted (returned %r)', what, r)
    mix.unchanged('refused: ' + what, m.st, m.before)
    now = answers(m)
    equal('queries answered after %s' % what, sorted(now), sorted(m.answers))
    for k, x in now.items():
        same('%s after the refused %s' % (k, what), x, m.answers[k], 1e-9,
            1e-9)
    return True


@PROP.sub('refusals', case(), quick=1600)
def refusals(c):
    m = c10.Machine(c)
    m.open = c['foreign']
    for o in c['ops']:
        getattr(m, 'do_' + o[0])(*o[1:])
    if m.open:
        # Composed models with open inputs do not take part in the queries.
        m.st.compose_cgpm(Foreign([900, 901], [910, 911]))
    m.before = mix.fingerprint(m.st)
    m.answers = answers(m)
    label = 'after %r: ' % (c['ops'],)
    tried = set()
    for kind, a, b in c['bad']:
        if refuse(m, KINDS[kind], a, b, label):
            tried.add(kind)
    mix.invariants('after refused operations', m.st, m.s)
    # The state still accepts what is valid.
    n = m.st.n_rows()
    row = [good_value(m, j, 6) for j in range(len(m.s['cols']))]
    m.st.incorporate(n, dict(zip(mix.ids(m.s), row)))
    m.s['rows'].append(row)
    mix.invariants('after refused operations and a new row', m.st, m.s)
    # Constraints which agree with the row are accepted.
    cols = mix.ids(m.s)
    if len(cols) > 1:
        m.st.simulate(n, cols[:1], {cols[1]: row[1]})
    return {'nontrivial': len(tried) >= 3, 'labels': sorted(tried)}


# --------------------------------------------------------------------------
# Chains of compositions: exactly the acyclic ones with unique outputs pass.

@hs.composite
def compose_case(draw):
    s = draw(mix.spec(max_cols=2, max_rows=2))
    pool = [900, 901, 902, 903, 904]
    ms = []
    for _ in range(draw(hs.integers(1, 5))):
        outs = draw(hs.lists(hs.sampled_from(pool), min_size=1, max_size=2,
            unique=True))
        ins = draw(hs.lists(hs.sampled_from(pool + mix.ids(s)), max_size=3,
            unique=True))
        ms.append([outs, ins])
    return {'spec': s, 'models': ms, 'seed': draw(hs.integers(0, 10**6)),
        'drop': draw(hs.integers(0, 9))}


def acyclic(ms):
    owner = {o: i for i, (outs, _) in enumerate(ms) for o in outs}
    parents = {i: set(owner[x] for x in ins if x in owner)
        for i, (_, ins) in enumerate(ms)}
    left = set(parents)
    while left:
        free = [i for i in left if not (parents[i] & left)]
        if not free:
            return False
        left -= set(free)
    return True


@PROP.sub('compositions', compose_case(), quick=2500)
def compositions(c):
    st = mix.build(c['spec'], c['seed'])
    held, refused = {}, 0
    queries = {x['col']: c10.value_for(np.random.RandomState(1), x['dist'],
        x['distargs']) for x in c['spec']['cols']}
    lp = st.logpdf(-1, dict(queries))
    for n, (outs, ins) in enumerate(c['models']):
        mine = list(held.values())
        bad = any(o in outs2 for outs2, _ in mine for o in outs) or \
            not acyclic(mine + [[outs, ins]])
        before = mix.fingerprint(st)
        f = Foreign(outs, ins)
        what = 'compose %r reading %r onto %r' % (outs, ins, mine)
        try:
            token = st.compose_cgpm(f)
        except Exception as e:
            check(bad, '%s: refused (%r)', what, e)
            mix.unchanged('refused: ' + what, st, before)
            check(all(g is not f for g in st.hooked_cgpms.values()),
                '%s: refused but kept', what)
            refused += 1
        else:
            check(not bad, '%s: accepted', what)
            check(st.hooked_cgpms[token] is f, '%s: not held', what)
            held[token] = [outs, ins]
            if n == c['drop'] % len(c['models']):
                st.decompose_cgpm(token)
                check(token not in st.hooked_cgpms, 'decompose_cgpm')
                del held[token]
        equal('composed models', sorted(st.hooked_cgpms), sorted(held))
        equal('composite', st.is_composite(), bool(held))
        same('logpdf after %s' % what, st.logpdf(-1, dict(queries)), lp,
            1e-9, 1e-9)
    return {'nontrivial': refused > 0 and bool(held),
        'labels': ['refused=%d' % min(2, refused)]}
