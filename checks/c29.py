"""C29: exchange with external inference engines."""

import contextlib
import copy
import csv
import gzip
import json
import math
import os
import shutil
import sys
import tempfile
import types

import numpy as np

from checks import c10, c18
from vlib import mix
from vlib.harness import Property, check, equal, fail, hs, raises, same

TECHNIQUE = ('model-based property-based testing with stand-in engines: '
    'generated states and histories are exchanged with a stand-in which '
    'decodes everything it receives and reports generated partitions; both '
    'directions are compared with the state')
NOTE = ('Random search with shrinking. crosscat and loom are not installed; '
    'the stand-ins implement their documented formats (crosscat: M_c, T, X_L, '
    'X_D; loom: csv files, encoding, samples) and the engines themselves are '
    'assumed to follow them.')
PROP = Property('C29',
    'Cases are states of normal and categorical columns (loom: all types) '
    'after a history of updates and inference, and the partitions the engine '
    'reports. Non-trivial: at least two rows and two columns.',
    ['a categorical column has at least one observed value: crosscat has no '
     'symbol for a variable without values',
     'the engine reports partitions whose tables are numbered from zero '
     'without gaps, as crosscat and loom do'])

STATE = dict(max_cols=5, max_rows=6)


def canon(xs):
    """Partition in restricted growth form."""
    seen = {}
    return [seen.setdefault(x, len(seen)) for x in xs]


def report_of(picks, D, N, views):
    """[column assignments, row assignments per view] from raw integers."""
    it = iter(picks)
    nxt = lambda k: next(it, 0) % k
    cols = canon([nxt(views) for _ in range(D)])
    rows = [canon([nxt(3) for _ in range(N)])
        for _ in range(max(cols) + 1)]
    # Engines do not number tables in the order of appearance.
    shift = nxt(4)
    V = max(cols) + 1
    cols = [(z + shift) % V for z in cols]
    rows = [[(z + shift) % (max(r) + 1) for z in r] for r in rows]
    return cols, [rows[(v - shift) % V] for v in range(V)]


picks = hs.lists(hs.integers(0, 23), min_size=12, max_size=60)


# --------------------------------------------------------------------------
# lovecat.

@contextlib.contextmanager
def modules(table):
    old = {k: sys.modules.get(k) for k in table}
    sys.modules.update(table)
    try:
        yield
    finally:
        for k, m in old.items():
            if m is None:
                del sys.modules[k]
            else:
                sys.modules[k] = m


class Lovecat(object):
    """Stand-in for crosscat; calls answer(record) for its results."""

    def __init__(self, answer):
        self.answer, self.calls, self.scc = answer, [], []

    def modules(self):
        outer = self

        class LocalEngine(object):
            def __init__(self, seed=None):
                self.seed = seed

            def analyze(self, M_c, T, X_L, X_D, seed, kernel_list=(),
                    n_steps=1, c=(), r=(), max_iterations=-1, max_time=-1,
                    do_diagnostics=False, diagnostics_every_N=1,
                    ROW_CRP_ALPHA_GRID=(), COLUMN_CRP_ALPHA_GRID=(),
                    S_GRID=(), MU_GRID=(), N_GRID=31, do_timing=False,
                    CT_KERNEL=0, progress=None):
                record = copy.deepcopy(dict(M_c=M_c, T=T, X_L=X_L, X_D=X_D,
                    seed=seed, engine_seed=self.seed, kernels=kernel_list,
                    n_steps=n_steps, max_time=max_time, cols=c, rows=r,
                    diagnostics=do_diagnostics,
                    every=diagnostics_every_N))
                record['progress'] = progress
                outer.calls.append(record)
                return outer.answer(record)

        def get_scc_from_tuples(pairs):
            outer.scc.append(list(pairs))
            out = {}
            for a, b in pairs:
                out.setdefault(a, []).append(b)
                out.setdefault(b, []).append(a)
            return out
        pkg = lambda name: types.ModuleType(name)
        root, le = pkg('crosscat'), pkg('crosscat.LocalEngine')
        ut, gu = pkg('crosscat.utils'), pkg('crosscat.utils.general_utils')
        root.__path__, ut.__path__ = [], []
        le.LocalEngine = LocalEngine
        gu.get_scc_from_tuples = get_scc_from_tuples
        root.LocalEngine, root.utils, ut.general_utils = le, ut, gu
        return modules({'crosscat': root, 'crosscat.LocalEngine': le,
            'crosscat.utils': ut, 'crosscat.utils.general_utils': gu})


def new_X_L(rec, cols, rows, alphas):
    """The structure crosscat reports for given partitions."""
    names = [rec['M_c']['idx_to_name'][str(i)] for i in range(len(cols))]
    return {
        'column_hypers': rec['X_L']['column_hypers'],
        'column_partition': {'assignments': list(cols),
            'counts': [cols.count(v) for v in range(max(cols) + 1)],
            'hypers': {'alpha': alphas[0]}},
        'view_state': [{
            'column_component_suffstats': [[{} for _ in set(r)]
                for z in cols if z == v],
            'column_names': [n for n, z in zip(names, cols) if z == v],
            'row_partition_model': {
                'counts': [r.count(k) for k in range(max(r) + 1)],
                'hypers': {'alpha': alphas[1 + v % (len(alphas) - 1)]}}}
            for v, r in enumerate(rows)],
        'col_ensure': rec['X_L'].get('col_ensure', {})}


def decode(what, rec, s, st):
    """Everything the engine received, against the state sent."""
    cols, N = mix.ids(s), mix.n_rows(s)
    M_c, T, X_L, X_D = [rec[k] for k in ('M_c', 'T', 'X_L', 'X_D')]
    D = len(cols)
    order = list(st.outputs)
    by = mix.by_col(s)
    # Column names.
    n2i, i2n = M_c['name_to_idx'], M_c['idx_to_name']
    check(sorted(n2i.values()) == list(range(D)) and {str(i): n for n, i in
        n2i.items()} == i2n, '%s: names %r %r', what, n2i, i2n)
    check(len(M_c['column_metadata']) == D, '%s: metadata of %d columns',
        what, len(M_c['column_metadata']))
    # Data through the codes.
    check(len(T) == N and all(len(r) == D for r in T), '%s: %d rows', what,
        len(T))
    for j, c in enumerate(order):
        md = M_c['column_metadata'][j]
        cat = by[c]['dist'] == 'categorical'
        equal('%s: type of column %d' % (what, c), md['modeltype'],
            'symmetric_dirichlet_discrete' if cat else
            'normal_inverse_gamma')
        v2c, c2v = md['value_to_code'], md['code_to_value']
        seen = set()
        for i in range(N):
            x, y = mix.cell(s, i, c), T[i][j]
            if x is None:
                check(math.isnan(y), '%s: missing cell %d of column %d is '
                    '%r', what, i, c, y)
                continue
            if cat:
                check(y == int(y), '%s: code %r', what, y)
                seen.add(int(y))
                y = float(v2c[str(int(y))])
            check(y == x, '%s: cell %d of column %d is %r, not %r', what, i,
                c, y, x)
        if cat:
            equal('%s: codes of column %d' % (what, c), sorted(v2c, key=int),
                [str(k) for k in range(len(v2c))])
            check({v: int(k) for k, v in v2c.items()} == c2v, '%s: codes '
                '%r %r', what, v2c, c2v)
            check(seen == set(range(len(v2c))), '%s: codes %r of column %d '
                'of which %r occur', what, v2c, c, seen)
        else:
            check(not v2c and not c2v, '%s: codes of a numerical column',
                what)
        h = X_L['column_hypers'][j]
        d = by[c]['hypers']
        equal('%s: hypers of column %d are fixed' % (what, c), h['fixed'],
            0.)
        if cat:
            equal('%s: hypers of column %d' % (what, c), [h[
                'dirichlet_alpha'], h['K']], [d['alpha'], len(v2c)])
        else:
            equal('%s: hypers of column %d' % (what, c), [h['mu'], h['r'],
                h['s'], h['nu']], [d['m'], d['r'], d['s'], d['nu']])
    # Column partition.
    cp = X_L['column_partition']
    z = mix.zv(s)
    equal('%s: column partition' % what, canon(cp['assignments']), canon([
        z[c] for c in order]))
    V = len(set(cp['assignments']))
    check(sorted(set(cp['assignments'])) == list(range(V)), '%s: views %r',
        what, cp['assignments'])
    equal('%s: view counts' % what, [int(x) for x in cp['counts']],
        [list(cp['assignments']).count(v) for v in range(V)])
    equal('%s: column alpha' % what, cp['hypers']['alpha'], s['alpha'])
    check(len(X_D) == len(X_L['view_state']) == V, '%s: %d views', what,
        len(X_D))
    for v in range(V):
        mine = [c for c, a in zip(order, cp['assignments']) if a == v]
        mv = z[mine[0]]
        got = list(X_D[v])
        equal('%s: rows of the view of %r' % (what, mine), canon(got),
            canon(mix.zr(s)[mv]))
        K = len(set(got))
        check(sorted(set(got)) == list(range(K)), '%s: clusters %r', what,
            got)
        vs = X_L['view_state'][v]
        equal('%s: columns of view %d' % (what, v), sorted(vs[
            'column_names']), sorted(i2n[str(order.index(c))] for c in
                mine))
        equal('%s: cluster counts of view %d' % (what, v), [int(x) for x in
            vs['row_partition_model']['counts']], [got.count(k) for k in
                range(K)])
        equal('%s: alpha of view %d' % (what, v), vs['row_partition_model'][
            'hypers']['alpha'], mix.view_alpha(s)[mv])
        check(len(vs['column_component_suffstats']) == len(mine),
            '%s: statistics of view %d', what, v)


def reported(what, st, cols, rows):
    """The state has the partitions which were reported."""
    order = list(st.outputs)
    equal('%s: column partition' % what, canon([st.Zv(c) for c in order]),
        canon(cols))
    for j, c in enumerate(order):
        view = st.view_for(c)
        equal('%s: rows in the view of column %d' % (what, c), canon([
            view.Zr(i) for i in range(st.n_rows())]), canon(rows[cols[j]]))


@hs.composite
def love_case(draw):
    ops = hs.one_of(
        hs.tuples(hs.just('row'), c10.int_, hs.sampled_from(['full',
            'partial', 'clustered'])),
        hs.tuples(hs.just('drop_row')),
        hs.tuples(hs.just('force'), c10.int_, c10.int_),
        hs.tuples(hs.just('drop_col'), c10.int_),
        hs.tuples(hs.just('infer'), c10.int_),
        hs.tuples(hs.just('infer'), c10.int_),
        hs.tuples(hs.just('exchange'), picks, hs.integers(0, 60)),
        hs.tuples(hs.just('exchange'), picks, hs.integers(0, 60)))
    c = draw(c10.case(ops, dists=['normal', 'categorical'], **STATE))
    c['ops'] = c['ops'] + [['exchange', draw(picks), draw(hs.integers(0,
        60))]]
    c['alphas'] = draw(hs.lists(hs.sampled_from([.3, .7, 1.1, 2.5, 6.]),
        min_size=2, max_size=4))
    return c


class Exchanger(c10.Machine):

    def do_exchange(self, raw, i):
        st = self.st
        s = mix.read(st)
        if any(x['dist'] == 'categorical' and all(mix.cell(s, r, x['col'])
                is None for r in range(mix.n_rows(s))) for x in s['cols']):
            return
        direct = i % 3 != 0
        label = 'exchange %d after %s' % (len(self.done), '; '.join(
            self.done))
        D, N = st.n_cols(), st.n_rows()
        cols, rows = report_of(raw, D, N, 1 + i % 4)
        identity = i % 5 == 0
        steps = 1 + i % 3
        diag = None
        if i % 4 == 0:
            diag = {'logscore': np.arange(steps).reshape(-1, 1) - .5 - i,
                'column_crp_alpha': np.arange(steps).reshape(-1, 1) + .25,
                'column_partition_assignments': np.array([[[int((c + t) %
                    2)] for t in range(steps)] for c in range(D)])}

        def answer(rec):
            if identity:
                X_L, X_D = copy.deepcopy(rec['X_L']), rec['X_D']
            else:
                X_L = new_X_L(rec, cols, rows, self.c['alphas'])
                X_D = [list(r) for r in rows]
            return (X_L, X_D) if diag is None else (X_L, X_D,
                copy.deepcopy(diag))
        stub = Lovecat(answer)
        choice = st.outputs[i % D:]
        kw = [dict(N=2), dict(S=1.5), dict(N=3, S=7), {}][i % 4]
        kw = dict(kw, kernels=[None, ('row_partition_assignments',),
            ['column_hyperparameters', 'row_partition_hyperparameters']][
                i % 3], cols=[None, list(choice)][i % 2],
            rowids=[None, [0], list(range(N))][i // 2 % 3],
            progress=[None, False, True][i // 3 % 3])
        if diag is not None:
            kw['checkpoint'] = 1 + i % 2
        before = copy.deepcopy(st.diagnostics)
        with stub.modules():
            if direct:
                from cgpm.crosscat import lovecat
                seed = None if i % 7 == 0 else 1000 + i
                lovecat.transition(st, seed=seed, **kw)
            else:
                st.transition_lovecat(**kw)
        equal('%s: number of calls' % label, len(stub.calls), 1)
        rec, = stub.calls
        decode(label, rec, s, st)
        # The request.
        equal('%s: kernels' % label, list(rec['kernels']), list(
            kw['kernels'] or ()))
        equal('%s: columns' % label, list(rec['cols']), [] if kw['cols'] is
            None else [s_index(s, c) for c in kw['cols']])
        equal('%s: rows' % label, list(rec['rows']), list(kw['rowids'] or
            ()))
        steps_ = {(1, 0): (2, -1), (0, 1): (None, 1.5), (1, 1): (3, 7),
            (0, 0): (1, -1)}['N' in kw and 1 or 0, 'S' in kw and 1 or 0]
        check(steps_[0] in (None, rec['n_steps']) and rec['max_time'] ==
            steps_[1], '%s: %r steps and %r seconds for %r', label,
            rec['n_steps'], rec['max_time'], kw)
        if steps_[0] is None:
            check(rec['n_steps'] >= 1000, '%s: %r steps for %r', label,
                rec['n_steps'], kw)
        equal('%s: seeds' % label, rec['seed'], rec['engine_seed'])
        if direct and seed is not None:
            equal('%s: seed' % label, rec['seed'], seed)
        equal('%s: diagnostics requested' % label, bool(rec['diagnostics']),
            diag is not None)
        if diag is not None:
            equal('%s: checkpoint' % label, rec['every'], kw['checkpoint'])
        equal('%s: progress' % label, bool(rec['progress']),
            kw['progress'] is not False)
        # The result.
        if identity:
            want = [s_cols(s, st), None]
            equal('%s: column partition after an exchange which changed '
                'nothing' % label, canon([st.Zv(c) for c in st.outputs]),
                canon(want[0]))
            for c in st.outputs:
                equal('%s: rows in the view of column %d after an exchange '
                    'which changed nothing' % (label, c), canon([st.view_for(
                        c).Zr(r) for r in range(N)]), canon(mix.zr(s)[
                            mix.zv(s)[c]]))
        else:
            reported(label, st, cols, rows)
        now = mix.read(st)
        equal('%s: data' % label, now['rows'], s['rows'])
        if direct:
            a = rec['X_L']['column_partition']['hypers']['alpha'] if \
                identity else self.c['alphas'][0]
            equal('%s: alpha' % label, st.alpha(), a)
            equal('%s: alpha of the model' % label, st.crp.clusters[0].alpha,
                a)
            for j, c in enumerate(st.outputs):
                a = mix.view_alpha(s)[mix.zv(s)[c]] if identity else \
                    self.c['alphas'][1 + cols[j] % (len(self.c['alphas'])
                        - 1)]
                equal('%s: alpha of the view of %d' % (label, c),
                    st.view_for(c).alpha(), a)
            for a, b in zip(s['cols'], now['cols']):
                equal('%s: hypers of column %d' % (label, a['col']),
                    b['hypers'], a['hypers'])
        else:
            for c in st.outputs:
                check(st.view_for(c).alpha() > 0, '%s: alpha', label)
        # Diagnostics.
        log = {k: list(v) for k, v in st.diagnostics.items()
            if k != 'iterations'}
        want = {k: list(v) for k, v in before.items() if k != 'iterations'}
        if diag is not None:
            want.setdefault('logscore', []).extend(
                np.ravel(diag['logscore']).tolist())
            want.setdefault('column_crp_alpha', []).extend(
                np.ravel(diag['column_crp_alpha']).tolist())
            want.setdefault('column_partition', []).extend([[(c, (j + t) %
                2) for j, c in enumerate(st.outputs)] for t in range(steps)])
        strip = lambda d: {k: [[tuple(p) for p in x] if isinstance(x, list)
            else x for x in v] for k, v in d.items() if v}
        equal('%s: diagnostics' % label, strip(log), strip(want))
        return 'exchange'

    def stable(self, label, kind, what, before, after):
        if kind != 'exchange':
            c10.Machine.stable(self, label, kind, what, before, after)


def s_index(s, c):
    return mix.ids(s).index(c)


def s_cols(s, st):
    z = mix.zv(s)
    return [z[c] for c in st.outputs]


@PROP.sub('lovecat', love_case(), quick=640)
def love(c):
    m = Exchanger(c)
    for o in c['ops']:
        m.step(o)
    m.finish()
    return {'nontrivial': m.st.n_rows() > 1 and m.st.n_cols() > 1,
        'labels': sorted(set(m.done))}


# --------------------------------------------------------------------------
# Constraints and refusals.

@hs.composite
def constrained(draw):
    D = draw(hs.integers(3, 6))
    s = draw(mix.spec(min_cols=D, max_cols=D, max_rows=4, zero_based=True,
        dists=['normal', 'categorical']))
    order = draw(hs.permutations(range(D)))
    k = draw(hs.integers(0, D - 1))
    Cd = [sorted(order[:k])] if k > 1 else []
    if len(order) - k >= 3 and draw(hs.booleans()):
        Cd.append(list(order[k:k + 2]))
    free = [c for c in order if not any(c in b for b in Cd)]
    Ci = []
    if free and draw(hs.booleans()):
        Ci = [[free[0], o] for o in order if o != free[0]][:draw(
            hs.integers(1, 2))]
    return {'spec': s, 'Cd': Cd, 'Ci': Ci, 'seed': draw(hs.integers(0,
        10**6)), 'raw': draw(picks)}


@PROP.sub('constraints', constrained(), quick=320)
def constraints(c):
    s0 = c['spec']
    Ci = [tuple(x) for x in c['Ci']]
    st = mix.build(s0, seed=c['seed'], Zv=None, Zrv=None, view_alphas=None,
        Cd=c['Cd'] or None, Ci=Ci or None)
    st.transition(N=1, kernels=['rows', 'alpha'], progress=False)
    s = mix.read(st)
    stub = Lovecat(lambda rec: (copy.deepcopy(rec['X_L']), rec['X_D']))
    with stub.modules():
        st.transition_lovecat(N=1)
    rec, = stub.calls
    what = 'exchange with dependences %r and independences %r' % (c['Cd'],
        Ci)
    decode(what, rec, s, st)
    ensure = rec['X_L'].get('col_ensure', {})
    want = {str(x): sorted(b) for b in c['Cd'] for x in b}
    equal('%s: dependences' % what, {k: sorted(v) for k, v in ensure.get(
        'dependent', {}).items()}, want)
    apart = {}
    for a, b in Ci:
        apart.setdefault(str(a), set()).add(b)
        apart.setdefault(str(b), set()).add(a)
    equal('%s: independences' % what, {k: set(v) for k, v in ensure.get(
        'independent', {}).items()}, apart)
    mix.invariants(what, st, s0)
    equal('%s: constraints of the state' % what, [st.Cd, st.Ci], [c['Cd'],
        Ci])
    for b in c['Cd']:
        check(len(set(st.Zv(x) for x in b)) == 1, '%s: dependences broken',
            what)
    for a, b in Ci:
        check(st.Zv(a) != st.Zv(b), '%s: independences broken', what)
    return {'nontrivial': bool(Ci or c['Cd']), 'labels': [x for x, y in
        (('Cd', c['Cd']), ('Ci', Ci)) if y]}


@PROP.sub('refusals', mix.spec(max_cols=4, max_rows=5, min_cols=1),
    quick=160)
def refusals(s):
    st = mix.build(s)
    before = mix.fingerprint(st)
    stub = Lovecat(lambda rec: (copy.deepcopy(rec['X_L']), rec['X_D']))
    bad = any(x['dist'] not in ('normal', 'categorical') for x in s['cols'])
    conditional = False
    z = mix.zv(s)
    cand = [x['col'] for x in s['cols'] if x['dist'] == 'normal' and any(
        y != x['col'] and z[y] == z[x['col']] for y in z)]
    if not bad and cand:
        full = [r for r in s['rows'] if all(v is not None for v in r)]
        if full:
            st.update_cctype(cand[0], 'linear_regression')
            conditional = True
            before = mix.fingerprint(st)
    with stub.modules():
        if not bad and not conditional:
            st.transition_lovecat(N=1)
            return {'nontrivial': False}
        raises('lovecat with types %r' % [x['dist'] for x in s['cols']],
            ValueError, lambda: st.transition_lovecat(N=1))
    equal('number of calls of the engine', len(stub.calls), 0)
    mix.unchanged('a refused exchange', st, before)
    return {'nontrivial': True, 'labels': ['conditional' if conditional
        else 'types']}


# --------------------------------------------------------------------------
# Ensembles.

@hs.composite
def ensemble(draw):
    c = draw(c18.ensemble(dists=['normal', 'categorical'], max_cols=4,
        max_rows=5))
    c['foreign'] = []
    c['raw'] = draw(picks)
    c['sel'] = draw(hs.one_of(hs.none(), hs.permutations(range(c['n']))
        .flatmap(lambda p: hs.integers(1, len(p)).map(
            lambda k: list(p[:k])))))
    c['checkpoint'] = draw(hs.booleans())
    return c


@PROP.sub('ensembles', ensemble(), quick=120, wall=True, timeout=60.)
def ensembles(c):
    e = c18.build(c)
    n = c['n']
    sel = c['sel'] or list(range(n))

    def answer(rec):
        D, N = len(rec['X_L']['column_hypers']), len(rec['T'])
        cols, rows = report_of([x + rec['seed'] % 97 for x in c['raw']], D,
            N, 3)
        X_L = new_X_L(rec, cols, rows, [.5, 1.5])
        if not rec['diagnostics']:
            return X_L, rows
        return X_L, rows, {'logscore': np.array([[float(rec['seed'])]]),
            'column_crp_alpha': np.array([[1.]]),
            'column_partition_assignments': np.array([[[int(z)]] for z in
                cols])}
    kw = dict(N=1, progress=False)
    if c['checkpoint']:
        kw['checkpoint'] = 1
    stub = Lovecat(answer)
    before = [c18.image(x) for x in e.states]
    twins = copy.deepcopy(e.states)
    serial, parallel = copy.deepcopy(e), copy.deepcopy(e)
    with stub.modules():
        for i in sel:
            twins[i].transition_lovecat(**kw)
        serial.transition_lovecat(statenos=c['sel'], multiprocess=0, **kw)
        with c18.workers(c['workers']):
            parallel.transition_lovecat(statenos=c['sel'], multiprocess=1,
                **kw)
    what = 'exchange of states %r of %d' % (c['sel'], n)
    want = [c18.image(x) for x in twins]
    c18.images(what, [c18.image(x) for x in serial.states], want)
    c18.images(what + ' in parallel', [c18.image(x) for x in
        parallel.states], want)
    for i in range(n):
        if i not in sel:
            d = mix.differences(before[i], want[i])
            check(not d, '%s changed state %d', what, i)
    seeds = [r['seed'] for r in stub.calls[:len(sel)]]
    check(len(set(seeds)) == len(sel), '%s: engines seeded with %r', what,
        seeds)
    return {'nontrivial': n > 1}


# --------------------------------------------------------------------------
# loom.

TYPES = {'boolean': 'bb', 'categorical': 'dd', 'unbounded_categorical':
    'dpd', 'count': 'gp', 'real': 'nich'}
LOOM = {'bernoulli': 'boolean', 'categorical': 'categorical', 'poisson':
    'count', 'normal': 'real', 'exponential': 'real', 'geometric': 'real',
    'lognormal': 'real', 'vonmises': 'real'}


class Bunch(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Loom(object):
    """Stand-in for loom: text in, samples out."""

    def __init__(self, samples):
        self.samples = samples          # sample number -> (cols, rows)
        self.log = []

    def force_ascii(self, source, target):
        self.log.append('cleanse')
        with open(source, 'rb') as f, gzip.open(target, 'wb') as g:
            g.write(f.read())

    def transform(self, root, schema, rows_csv):
        self.log.append('transform')
        with open(schema) as f:
            self.schema = list(csv.reader(f))
        names = os.listdir(rows_csv)
        check(names == ['data.csv.gz'], 'files for loom: %r', names)
        with gzip.open(os.path.join(rows_csv, names[0]), 'rt') as f:
            self.data = list(csv.reader(f))

    def ingest(self, root, *_a, **_k):
        self.log.append('ingest')
        os.makedirs(os.path.join(root, 'ingest'))
        types_ = {n: TYPES[t] for n, t in self.schema[1:]}
        # Features are ordered by type, then name.
        self.features = sorted(types_, key=lambda n: (types_[n], n))
        with gzip.open(os.path.join(root, 'ingest', 'encoding.json.gz'),
                'wt') as f:
            json.dump([{'name': n, 'model': types_[n]} for n in
                self.features], f)

    def write(self, root, sample):
        cols, rows = self.samples[sample]
        # cols[i]: view of the i-th column of the table.
        d = os.path.join(root, 'samples', 'sample.%d' % sample)
        if not os.path.isdir(d):
            os.makedirs(d)
        kinds = [[] for _ in rows]
        table = self.data[0]
        for i, n in enumerate(self.features):
            kinds[cols[table.index(n)]].append(i)
        with gzip.open(os.path.join(d, 'model.pb.gz'), 'wt') as f:
            json.dump(kinds, f)
        ids = list(range(len(self.data) - 1))
        # Rows are streamed in the order they were sampled.
        order = ids[::2][::-1] + ids[1::2]
        with gzip.open(os.path.join(d, 'assign.pbs.gz'), 'wt') as f:
            json.dump([[i, [r[i] for r in rows]] for i in order], f)

    def infer_one(self, root, seed=0, config=None, **_k):
        self.log.append(['infer_one', seed, config])
        self.write(root, seed)

    def infer(self, root, sample_count=None, config=None, **_k):
        self.log.append(['infer', sample_count, config])
        for i in range(sample_count):
            self.write(root, i)

    def modules(self):
        outer = self

        class CrossCat(object):
            def ParseFromString(self, text):
                self.kinds = [Bunch(featureids=k) for k in json.loads(text)]
        pkg = lambda name, **kw: Bunch_module(name, kw)
        cleanse = pkg('loom.cleanse', force_ascii=outer.force_ascii)
        tasks = pkg('loom.tasks', transform=outer.transform,
            ingest=outer.ingest, infer_one=outer.infer_one,
            infer=outer.infer)

        def stream(path):
            with gzip.open(path, 'rt') as f:
                return [Bunch(rowid=i, groupids=lambda k, g=g: g[k]) for i,
                    g in json.load(f)]

        def load(path):
            with gzip.open(path, 'rt') as f:
                return json.load(f)
        cf = pkg('loom.cFormat', assignment_stream_load=stream)
        pb = pkg('loom.schema_pb2', CrossCat=CrossCat)
        root = pkg('loom', cleanse=cleanse, tasks=tasks, cFormat=cf,
            schema_pb2=pb, __path__=[])
        st = pkg('distributions.io.stream', json_load=load,
            open_compressed=gzip.open)
        io = pkg('distributions.io', stream=st, __path__=[])
        di = pkg('distributions', io=io, __path__=[])
        return modules({'loom': root, 'loom.cleanse': cleanse, 'loom.tasks':
            tasks, 'loom.cFormat': cf, 'loom.schema_pb2': pb,
            'distributions': di, 'distributions.io': io,
            'distributions.io.stream': st})


def Bunch_module(name, kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


def text_open(path, mode='r', *args, **kw):
    """Python 2 writes text to binary files."""
    if 'b' in mode and path.endswith('.csv'):
        return open(path, mode.replace('b', ''), newline='')
    return open(path, mode, *args, **kw)


@contextlib.contextmanager
def loom_store(stub):
    d = tempfile.mkdtemp(prefix='c29-')
    old = os.environ.get('CGPM_LOOM_STORE')
    os.environ['CGPM_LOOM_STORE'] = d
    try:
        with stub.modules():
            sys.modules.pop('cgpm.crosscat.loomcat', None)
            import cgpm.crosscat
            cgpm.crosscat.__dict__.pop('loomcat', None)
            from cgpm.crosscat import loomcat
            loomcat.open = text_open
            # Workers inherit the stand-in.
            try:
                yield d
            finally:
                sys.modules.pop('cgpm.crosscat.loomcat', None)
                cgpm.crosscat.__dict__.pop('loomcat', None)
    finally:
        if old is None:
            del os.environ['CGPM_LOOM_STORE']
        else:
            os.environ['CGPM_LOOM_STORE'] = old
        shutil.rmtree(d)


def loom_received(what, stub, st, s):
    cols, N = list(st.outputs), mix.n_rows(s)
    names, rows = stub.data[0], stub.data[1:]
    check(len(set(names)) == len(names) == len(cols), '%s: names %r', what,
        names)
    check(len(rows) == N, '%s: %d rows of %d', what, len(rows), N)
    equal('%s: names in the schema' % what, [r[0] for r in stub.schema[1:]],
        names)
    by = mix.by_col(s)
    for j, c in enumerate(cols):
        equal('%s: type of column %d' % (what, c), stub.schema[1 + j][1],
            LOOM[by[c]['dist']])
        for i in range(N):
            x, y = mix.cell(s, i, c), rows[i][j]
            if x is None:
                equal('%s: missing cell' % what, y, '')
            else:
                check(y != '' and float(y) == x, '%s: cell %d of column %d '
                    'is %r, not %r', what, i, c, y, x)


@hs.composite
def loom_case(draw):
    ops = hs.one_of(
        hs.tuples(hs.just('row'), c10.int_, hs.sampled_from(['full',
            'partial'])),
        hs.tuples(hs.just('force'), c10.int_, c10.int_),
        hs.tuples(hs.just('infer'), c10.int_))
    c = draw(c10.case(ops, **STATE))
    c['raw'] = [draw(picks) for _ in range(2)]
    c['loom_seed'] = draw(hs.one_of(hs.none(), hs.integers(0, 3)))
    c['N'] = draw(hs.one_of(hs.none(), hs.integers(1, 5)))
    return c


@PROP.sub('loom', loom_case(), quick=320, timeout=60.)
def loom(c):
    m = c10.Machine(c)
    for o in c['ops']:
        m.step(o)
    st = m.st
    if any(x['dist'] not in LOOM for x in m.s['cols']):
        return {'nontrivial': False}
    s = mix.read(st)
    D, N = st.n_cols(), st.n_rows()
    stub = Loom({})
    sample = c['loom_seed'] or 0
    with loom_store(stub) as d:
        for k, raw in enumerate(c['raw']):
            cols, rows = report_of(raw, D, N, 3)
            stub.samples[sample] = (cols, rows)
            before = mix.read(st)
            from cgpm.crosscat import loomcat
            if k == 0:
                loomcat.transition(st, N=c['N'], seed=c['loom_seed'])
            else:
                st.transition_loom(N=c['N'], seed=c['loom_seed'])
            what = 'loom exchange %d after %s' % (k, '; '.join(m.done))
            loom_received(what, stub, st, s)
            reported(what, st, cols, rows)
            mix.invariants(what, st, m.s)
            now = mix.read(st)
            equal('%s: data' % what, now['rows'], before['rows'])
            if k == 0:
                equal('%s: hypers' % what, [x['hypers'] for x in
                    now['cols']], [x['hypers'] for x in before['cols']])
            equal('%s: request' % what, stub.log[-1], ['infer_one', sample,
                {'schedule': {'extra_passes': c['N'] or 1}}])
        # One project per state.
        equal('steps of loom', stub.log[:3], ['cleanse', 'transform',
            'ingest'])
        equal('number of steps of loom', len(stub.log), 5)
        check(all(os.path.realpath(p).startswith(os.path.realpath(d)) for p
            in st._loom_path.values()), 'project outside of the store: %r',
            st._loom_path)
        # The project is part of the saved state.
        from cgpm.crosscat.state import State
        st2 = State.from_metadata(st.to_metadata(),
            rng=np.random.RandomState(1))
        equal('project of a loaded state', st2._loom_path, st._loom_path)
        bad = [dict(S=1), dict(kernels=['rows']), dict(progress=True),
            dict(checkpoint=1)][D % 4]
        seen = mix.fingerprint(st)
        raises('loom with %r' % bad, ValueError, lambda: st.transition_loom(
            **bad))
        mix.unchanged('a refused loom exchange', st, seen)
    m.finish()
    return {'nontrivial': N > 1 and D > 1, 'labels': sorted(set(m.done))}


@PROP.sub('loom-ensembles', ensemble(), quick=80, wall=True, timeout=60.)
def loom_ensembles(c):
    e = c18.build(c)
    n = c['n']
    s = mix.read(e.states[0])
    D, N = e.states[0].n_cols(), e.states[0].n_rows()
    samples = {i: report_of([x + 7 * i for x in c['raw']], D, N, 3)
        for i in range(n)}
    stub = Loom(samples)
    with loom_store(stub) as d, c18.workers(c['workers']):
        e.transition_loom(N=2)
        for i, st in enumerate(e.states):
            what = 'state %d of %d after a loom exchange' % (i, n)
            reported(what, st, *samples[i])
            mix.invariants(what, st, c['state'])
        loom_received('ensemble', stub, e.states[0], s)
        equal('request', stub.log[3:], [['infer', n, {'schedule':
            {'extra_passes': 2}}]])
        check(len(set(str(sorted(x._loom_path.items())) for x in e.states))
            == 1, 'members have different projects')
        e.transition_loom(N=1)
        equal('number of steps of loom', len(stub.log), 5)
        for i, st in enumerate(e.states):
            reported('state %d of %d after a second loom exchange' % (i, n),
                st, *samples[i])
    return {'nontrivial': n > 1}
