"""C16: serialisation round trips."""

import copy
import io
import json
import math
import os
import pickle
import shutil
import tempfile

import numpy as np

from checks import c10
from vlib import comp, mix, models, prims
from vlib.harness import Property, check, equal, same, hs, fail

TECHNIQUE = ('property-based round-trip testing: generated models and update '
    'histories, saved and loaded directly, through JSON and through pickle, '
    'compared in structure and in the answers to generated queries')
NOTE = ('Random search with shrinking over models of every kind, crosscat '
    'states after histories of updates, compositions, conditional columns '
    'and engines. Aliasing is checked by driving the loaded and the original '
    'model apart.')
PROP = Property('C16',
    'Cases are models of every kind with generated data (states after '
    'histories of data, schema and inference operations), a route (direct, '
    'JSON, pickle) and queries. Non-trivial: the model holds data.',
    ['uncollapsed parameters and the prior mean of a regression are not part '
     'of the metadata, as documented in the code',
     'composed models get new tokens'])

# Univariate models are saved as columns of a state.
KINDS = ('linreg', 'forest', 'ols', 'factor')
ROUTES = ['direct', 'json', 'pickle-file', 'pickle-path']


def load(metadata, rng, **kw):
    import importlib
    f = metadata['factory']
    cls = getattr(importlib.import_module(f[0]), f[1])
    return cls.from_metadata(metadata, rng=rng, **kw)


def number(x):
    """numpy integers are integers in Python 2."""
    if isinstance(x, np.integer):
        return int(x)
    raise TypeError('%r is not JSON serializable' % (x,))


def through(route, g, rng, **kw):
    """(metadata which was loaded, loaded model)."""
    if route.startswith('pickle') and hasattr(g, 'to_pickle'):
        if route == 'pickle-file':
            f = io.BytesIO()
            g.to_pickle(f)
            f.seek(0)
            return None, type(g).from_pickle(f, rng=rng)
        d = tempfile.mkdtemp(prefix='c16-')
        try:
            path = os.path.join(d, 'model.pkl')
            with open(path, 'wb') as f:
                g.to_pickle(f)
            return None, type(g).from_pickle(path, rng=rng)
        finally:
            shutil.rmtree(d)
    m = g.to_metadata()
    if route == 'json':
        m = json.loads(json.dumps(m, default=number))
    elif route.startswith('pickle'):
        import pickle
        m = pickle.loads(pickle.dumps(m))
    return m, load(m, rng, **kw)


def plain(x):
    """Comparable form of a metadata structure; numbers by value."""
    if isinstance(x, dict):
        return {'%s' % (k,): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)) or type(x).__name__ in (
            'dict_items', 'dict_keys', 'dict_values'):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return [plain(v) for v in x.tolist()]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return 'nan' if math.isnan(x) else float(x)
    return x


def first_difference(a, b, path=''):
    if type(a) is dict and type(b) is dict:
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return '%s/%s is missing on one side' % (path, k)
            d = first_difference(a[k], b[k], path + '/' + k)
            if d:
                return d
        return None
    if type(a) is list and type(b) is list and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, '%s/%d' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        return None if a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) \
            else '%s: %r and %r' % (path, a, b)
    return None if a == b else '%s: %r and %r' % (path, str(a)[:200],
        str(b)[:200])


def pickles_removed(x):
    if isinstance(x, dict):
        return {k: pickles_removed(v) for k, v in x.items()
            if not k.endswith('_binary')}
    return [pickles_removed(v) for v in x] if isinstance(x, list) else x


def same_metadata(what, a, b):
    d = first_difference(pickles_removed(plain(a)), pickles_removed(
        plain(b)))
    if d:
        fail('%s: %s', what, d)


def empty_column(s):
    return any(all(mix.cell(s, i, c) is None for i in range(mix.n_rows(s)))
        for c in mix.ids(s))


def canonical(m):
    """The order of views and clusters carries no meaning."""
    # Sufficient statistics are compared with the data (mix.invariants).
    m = {k: v for k, v in m.items() if k != 'suffstats'}
    return dict(m, **{k: sorted(m[k]) for k in ('Zv', 'Zrv', 'view_alphas')})


def strip(m, *keys):
    return {k: v for k, v in m.items() if k not in keys}


# --------------------------------------------------------------------------
# Single models.

@hs.composite
def one(draw):
    kinds = tuple(k for k in models.KINDS if k not in ('dim', 'primitive'))
    c = draw(models.model(n=7, nq=3, kinds=kinds))
    c['n'] = draw(hs.integers(0, 6))
    c['gone'] = draw(hs.booleans())
    c['fit'] = draw(hs.booleans())
    c['route'] = draw(hs.sampled_from(ROUTES[:3]))
    c['seed'] = draw(hs.integers(0, 10**6))
    c['start'] = draw(hs.sampled_from([0, 0, 3, 100]))
    return c


def params_of(g):
    out = {}
    for f in ('get_hypers', 'get_params', 'get_distargs'):
        try:
            x = getattr(g, f)()
        except (NotImplementedError, AttributeError):
            continue
        out[f] = plain({k: v for k, v in (x or {}).items()
            if isinstance(v, (int, float, str, dict, list, tuple,
                np.ndarray, np.number))})
    return out


def answer(g, c):
    g.rng.seed(c['seed'])
    out = models.answers(g, c)
    if c['kind'] not in ('kde', 'knn') or g.N:
        out += observed(g, c)
    return out


def observed(g, c):
    """Simulations of a fresh and of every stored row."""
    g.rng.seed(c['seed'] + 1)
    out, first = [], None
    t, e, i = c['queries'][0]
    kw = {'inputs': models.dic(i)} if i else {}
    rows = [-3]
    if c['kind'] in ('linreg', 'forest', 'ols'):
        rows += sorted(g.data.x)
    elif hasattr(g, 'data') and isinstance(g.data, dict):
        rows += sorted(g.data)
    for r in rows:
        try:
            s = g.simulate(r, [v for v, _ in t], models.dic(e) if e and
                r == -3 else None, **kw)
        except (ValueError, IndexError):
            out.append(None)
            continue
        out += [float(np.squeeze(s[k])) for k in sorted(s)]
    return out


@PROP.sub('models', one(), quick=1600)
def single(c):
    g = models.build(c, c['seed'])
    for i in range(c['n']):
        models.add(g, c, c['start'] + i, i)
    if c['n'] and c['gone']:
        g.unincorporate(c['start'] + c['seed'] % c['n'])
    fitted = c['fit'] and models.can_fit(c, g)
    if fitted:
        g.transition(N=1)
    # A fitted regression keeps its fit; without one there is no answer.
    answers = c['kind'] != 'ols' or fitted
    before = [models.stored(g, c), params_of(g), models.count(g, c)]
    ans = answer(g, c) if answers else None
    m0 = g.to_metadata()
    same_metadata('saving twice', m0, g.to_metadata())
    keep = copy.deepcopy(plain(m0))
    loaded_from, h = through(c['route'], g, np.random.RandomState(5))
    what = '%s through %s' % (c['kind'], c['route'])
    check(type(h) is type(g), '%s became a %r', what, type(h))
    equal('outputs of ' + what, list(h.outputs), list(g.outputs))
    equal('inputs of ' + what, list(h.inputs), list(g.inputs))
    equal('data of ' + what, models.stored(h, c), before[0])
    equal('number of rows of ' + what, models.count(h, c), before[2])
    d = first_difference(params_of(h), before[1])
    check(d is None, 'parameters of %s: %s', what, d)
    same_metadata('metadata of the loaded ' + what, strip(h.to_metadata(),
        'ordering'), strip(m0, 'ordering'))
    if answers:
        models.compare('answers of the loaded ' + what, answer(h, c), ans)
    models.compare_stats(what, models.suffstats(h), models.suffstats(g))
    kept = copy.deepcopy(plain(loaded_from)) if loaded_from else None
    # The loaded model, the original and the metadata live on separately.
    n = c['n']
    more = c['start'] + n
    models.add(h, c, more, n)
    models.add(h, c, more + 1, n + 1)
    rows = sorted(set(h.data.x if hasattr(h.data, 'x') else h.data)
        if not isinstance(getattr(h, 'data', None), list) else [])
    if rows:
        h.unincorporate(rows[0])
    if models.can_fit(c, h):
        h.transition(N=1)
    elif c['kind'] == 'primitive':
        h.transition_hyper_grids([v[0][0][1] for v in c['pool']], 5) if \
            hasattr(h, 'transition_hyper_grids') else None
    equal('data of the original after driving the loaded ' + what,
        models.stored(g, c), before[0])
    if answers:
        models.compare('answers of the original after driving the loaded '
            + what, answer(g, c), ans)
    same_metadata('metadata after driving the loaded ' + what, m0, keep)
    if kept is not None:
        same_metadata('metadata after driving the model loaded from it: '
            + what, loaded_from, kept)
    # And the other way round.
    loaded_from, h = through(c['route'], g, np.random.RandomState(5))
    models.add(g, c, more, n)
    if rows and c['n'] and rows[0] in (g.data.x if hasattr(g.data, 'x')
            else g.data):
        g.unincorporate(rows[0])
    if models.can_fit(c, g):
        g.transition(N=1)
    equal('data of the loaded after driving the original ' + what,
        models.stored(h, c), before[0])
    if answers:
        models.compare('answers of the loaded after driving the original '
            + what, answer(h, c), ans)
    same_metadata('metadata after driving the original ' + what, m0, keep)
    return {'nontrivial': c['n'] > 0, 'labels': [c['kind'], c['route']]
        + (['fitted'] if fitted else [])}


# --------------------------------------------------------------------------
# States after histories.

def battery(st, s, seed):
    """Answers of a state to a battery of queries."""
    out = []
    rng = np.random.RandomState(seed)
    cols = mix.ids(s)
    by = mix.by_col(s)
    val = lambda c: c10.value_for(rng, by[c]['dist'], by[c]['distargs'])
    out.append(st.logpdf_score())
    out.append(st.logpdf_likelihood())
    for c in cols:
        out.append(st.logpdf(-1, {c: val(c)}))
    row = {c: val(c) for c in cols}
    half = cols[:len(cols) // 2]
    out.append(st.logpdf(-1, row))
    if half:
        out.append(st.logpdf(-1, {c: row[c] for c in cols if c not in half},
            {c: row[c] for c in half}))
    for i in range(st.n_rows()):
        t = {c: row[c] for c in cols if math.isnan(st.X[c][i])}
        if t:
            out.append(st.logpdf(i, t))
    for a in cols[:3]:
        out.append(st.dependence_probability(cols[0], a))
        out.append(st.row_similarity(0, st.n_rows() - 1, [a]))
        out.append(st.relevance_probability(0, [st.n_rows() - 1], a))
    return [float(x) for x in out]


def clean(fp):
    return {k: v for k, v in fp.items() if k != 'hooked'}


def diff(what, a, b):
    d = mix.differences(a, b)
    if d:
        fail('%s: %s', what, '; '.join(d)[:900])


@hs.composite
def history(draw, big=False):
    c = draw(c10.case(big=True, max_cols=8, max_rows=24) if big else
        c10.case(max_cols=4, max_rows=4))
    c['route'] = draw(hs.sampled_from(ROUTES))
    return c


@PROP.sub('states', history(), quick=480)
def states(c):
    m = c10.Machine(c)
    for o in c['ops']:
        m.step(o)
    st, s = m.st, mix.read(m.st)
    if not all(x['dist'] in prims.COLLAPSED for x in s['cols']):
        return {'nontrivial': False}
    if empty_column(s):
        # Recorded finding, see the probe.
        return {'nontrivial': False, 'labels': ['empty-column']}
    before = mix.fingerprint(st)
    ans = battery(st, s, c['seed'])
    m0 = st.to_metadata()
    diff('saving the state', before, mix.fingerprint(st))
    same_metadata('saving a state twice', m0, st.to_metadata())
    keep = copy.deepcopy(plain(m0))
    loaded_from, st2 = through(c['route'], st, np.random.RandomState(3))
    kept = copy.deepcopy(plain(loaded_from))
    what = 'state through %s after %s' % (c['route'], '; '.join(m.done))
    diff('loaded ' + what, before, mix.fingerprint(st2))
    equal('outputs of the loaded ' + what, list(st2.outputs),
        list(st.outputs))
    mix.invariants('loaded ' + what, st2, m.s)
    models.compare('answers of the loaded ' + what, battery(st2, s,
        c['seed']), ans)
    same_metadata('metadata of the loaded ' + what, canonical(
        st2.to_metadata()), canonical(m0))
    # Drive the loaded state.
    m.st, own = st2, copy.deepcopy(m.s)
    for o in c['ops'][:4] + [['infer', 6], ['row', 3, 'full'], ['col', 1, 1]]:
        m.step(o)
    diff('original after driving the loaded ' + what, before,
        mix.fingerprint(st))
    models.compare('answers of the original after driving the loaded '
        + what, battery(st, s, c['seed']), ans)
    same_metadata('metadata after driving the loaded ' + what, m0, keep)
    if loaded_from is not None:
        same_metadata('metadata after driving the state loaded from it: '
            + what, loaded_from, kept)
    # Drive the original.
    _m, st3 = through(c['route'], st, np.random.RandomState(3))
    m.st, m.s = st, own
    for o in c['ops'][:3] + [['infer', 6], ['row', 5, 'full'], ['col', 4, 2]]:
        m.step(o)
    diff('loaded after driving the original ' + what, before,
        mix.fingerprint(st3))
    models.compare('answers of the loaded after driving the original '
        + what, battery(st3, s, c['seed']), ans)
    same_metadata('metadata after driving the original ' + what, m0, keep)
    return {'nontrivial': True, 'labels': [c['route']]}


PROP.sub('large-states', history(True), quick=24, timeout=60.)(states)


# --------------------------------------------------------------------------
# Views on their own.

@PROP.sub('views', history(), quick=240)
def views(c):
    m = c10.Machine(c)
    for o in c['ops']:
        m.step(o)
    s = mix.read(m.st)
    if not all(x['dist'] in prims.COLLAPSED for x in s['cols']) \
            or empty_column(s):
        return {'nontrivial': False}
    n = m.st.n_rows()
    moved = False
    for key, view in m.st.views.items():
        if c['route'].startswith('pickle'):
            meta = pickle.loads(pickle.dumps(view.to_metadata(), 2))
        else:
            meta = view.to_metadata()
        moved = moved or list(view.Zr()) != sorted(view.Zr())
        got = load(meta, np.random.RandomState(3))
        what = 'loaded view of %s after %s' % (view.outputs[1:],
            '; '.join(m.done))
        equal('outputs of the ' + what, list(got.outputs),
            list(view.outputs))
        equal('row partition of the ' + what,
            [got.Zr(i) for i in range(n)], [view.Zr(i) for i in range(n)])
        same('concentration of the ' + what, got.alpha(), view.alpha(), 1e-12)
        for j, d in view.dims.items():
            e = got.dims[j]
            equal('type of %s in the %s' % (j, what), e.cctype, d.cctype)
            equal('inputs of %s in the %s' % (j, what), list(e.inputs),
                list(d.inputs))
            equal('hyperparameters of %s in the %s' % (j, what),
                dict(e.hypers), dict(d.hypers))
        same('log score of the ' + what, got.logpdf_score(),
            view.logpdf_score(), 1e-7, 1e-7)
        token = view.outputs[0]
        for k in view.crp.clusters[0].gibbs_tables(-1):
            same('log probability of cluster %s in the %s' % (k, what),
                got.logpdf(-1, {token: k}), view.logpdf(-1, {token: k}),
                1e-9, 1e-9)
    return {'nontrivial': n > 0, 'labels': ['moved'] if moved else []}


# --------------------------------------------------------------------------
# Constraints, diagnostics.

@hs.composite
def constrained(draw):
    D = draw(hs.integers(3, 4))
    s = draw(mix.spec(min_cols=D, max_cols=D, max_rows=4, zero_based=True,
        dists=['normal', 'categorical', 'bernoulli']))
    order = draw(hs.permutations(range(D)))
    which = draw(hs.sampled_from(['Cd', 'Ci', 'both', 'diag']))
    Cd = [sorted(order[:2])] if which in ('Cd', 'both') else []
    Ci = [[order[2], order[draw(hs.integers(0, 1))]]] \
        if which in ('Ci', 'both') else []
    return {'spec': s, 'Cd': Cd, 'Ci': Ci, 'which': which,
        'route': draw(hs.sampled_from(ROUTES)),
        'steps': draw(hs.integers(1, 3)),
        'seed': draw(hs.integers(0, 10**6))}


@PROP.sub('constraints-diagnostics', constrained(), quick=240)
def constraints_diagnostics(c):
    s = c['spec']
    Ci = [tuple(x) for x in c['Ci']]
    kw = {}
    if c['which'] != 'diag':
        kw = dict(Zv=None, Zrv=None, view_alphas=None, Cd=c['Cd'] or None,
            Ci=Ci or None)
    st = mix.build(s, seed=c['seed'], **kw)
    if c['which'] == 'diag':
        st.transition(N=c['steps'], checkpoint=1, progress=False)
    else:
        st.transition(N=c['steps'], kernels=['rows', 'alpha',
            'column_hypers'], progress=False)
    before = mix.fingerprint(st)
    dg = copy.deepcopy(st.diagnostics)
    loaded_from, st2 = through(c['route'], st, np.random.RandomState(3))
    what = 'state with %s through %s' % (c['which'], c['route'])
    got = mix.fingerprint(st2)
    for k in ('Ci', 'Cd', 'diagnostics'):
        got.pop(k), before.pop(k)
    diff(what, before, got)
    d = first_difference(plain(st2.diagnostics), plain(dg))
    check(d is None, 'diagnostics of %s: %s', what, d)
    equal('partitions recorded in ' + what, [dict(p) for p in
        st2.diagnostics.get('column_partition', [])], [dict(p) for p in
        dg.get('column_partition', [])])
    equal('Cd of ' + what, [list(x) for x in st2.Cd], [list(x) for x in
        st.Cd])
    equal('Ci of ' + what, [list(x) for x in st2.Ci], [list(x) for x in
        st.Ci])
    if c['which'] == 'diag':
        st2.transition(N=1, checkpoint=1, progress=False)
        d = first_difference(plain(st.diagnostics), plain(dg))
        check(d is None, 'diagnostics of the original after driving %s: %s',
            what, d)
        n = len(dg['logscore'])
        equal('diagnostics appended to those of ' + what,
            plain(st2.diagnostics['logscore'])[:n], plain(dg['logscore']))
        equal('number of diagnostics', len(st2.diagnostics['logscore']),
            n + 1)
        for k, v in dg['iterations'].items():
            equal('iterations of kernel %s' % k,
                st2.diagnostics['iterations'][k], v + 1)
    if not Ci:
        same('score of ' + what, st2.logpdf_score() if c['which'] != 'diag'
            else through(c['route'], st, np.random.RandomState(3))[1]
            .logpdf_score(), st.logpdf_score(), 1e-6, 1e-6)
    return {'nontrivial': True, 'labels': [c['which']]}


# --------------------------------------------------------------------------
# Compositions and conditional columns.

@hs.composite
def composed(draw):
    c = draw(comp.composite(KINDS, min_foreign=0))
    c['route'] = draw(hs.sampled_from(ROUTES))
    own = comp.owner(c)
    c['queries'] = []
    for _ in range(3):
        order = draw(hs.permutations(sorted(own)))
        T = comp.upward(c, order[:draw(hs.integers(1, len(order)))])
        c['queries'].append([[v, draw(comp.value(c, v))] for v in sorted(T)])
    c['cond'] = draw(hs.booleans())
    c['which'] = draw(hs.integers(0, 10))
    return c


def make_conditional(st, c):
    """Turn a column conditional; None if there is no choice."""
    s = c['state']
    options = []
    for col in s['cols']:
        others = [x for x in s['cols'] if x['col'] != col['col']
            and mix.zv(s)[x['col']] == mix.zv(s)[col['col']]]
        if not others:
            continue
        if any(mix.cell(s, i, col['col']) is not None and all(mix.cell(s, i,
                x['col']) is not None for x in others)
                for i in range(mix.n_rows(s))):
            if col['dist'] in ('normal', 'poisson'):
                options.append((col['col'], 'linear_regression', None))
            elif col['dist'] in ('categorical', 'bernoulli'):
                options.append((col['col'], 'random_forest',
                    {'k': comp.type_of(col)[1]}))
    if not options:
        return None
    col, cctype, distargs = options[c['which'] % len(options)]
    st.update_cctype(col, cctype, distargs=distargs)
    return col


@PROP.sub('composed', composed(), quick=500)
def composed_states(c):
    st, tokens, gs = comp.build(c)
    cond = make_conditional(st, c) if c['cond'] else None
    seen = mix.fingerprint(st)

    def ask(x):
        out = []
        for q in c['queries']:
            q = mix.dic(q)
            if cond is not None and cond in q:
                # All inputs are given along.
                q = dict(q)
                for col in c['state']['cols']:
                    q.setdefault(col['col'], 0. if col['dist'] != 'normal'
                        else .5)
            out.append(float(np.squeeze(x.logpdf(-1, q))))
        return out
    ans = ask(st)
    m0 = st.to_metadata()
    keep = copy.deepcopy(plain(m0))
    same_metadata('saving a composed state twice', strip_forest(m0),
        strip_forest(st.to_metadata()))
    diff('saving a composed state', seen, mix.fingerprint(st))
    loaded_from, st2 = through(c['route'], st, np.random.RandomState(3))
    what = 'state composed with %s%s through %s' % ([n['kind'] for n in
        c['foreign']], ' with conditional column %r' % cond if cond is not
        None else '', c['route'])
    conditional_forest = cond is not None and st.dim_for(cond).cctype == \
        'random_forest'
    if conditional_forest:
        # The classifiers inside a mixture are learned anew, as hyper-
        # parameters of the column are.
        same_structure(what, st, st2)
    else:
        diff('loaded ' + what, clean(seen), clean(mix.fingerprint(st2)))
        models.compare('answers of the loaded ' + what, ask(st2), ans)
    equal('number of composed models of ' + what, len(st2.hooked_cgpms),
        len(st.hooked_cgpms))
    equal('is_composite of ' + what, st2.is_composite(), st.is_composite())
    # Composed models are their own.
    for h in st2.hooked_cgpms.values():
        check(not any(h is g for g in gs), '%s shares a composed model', what)
    twins = list(st2.hooked_cgpms.values())
    for n, h in zip(c['foreign'], twins):
        if n['rows']:
            h.unincorporate(1000)
    models.compare('answers of the original after driving the loaded ' +
        what, ask(st), ans)
    same_metadata('metadata after driving the loaded ' + what,
        strip_forest(m0), strip_forest(keep))
    return {'nontrivial': bool(c['foreign']) or cond is not None,
        'labels': [n['kind'] for n in c['foreign']]
            + (['conditional'] if cond is not None else [])}


def same_structure(what, a, b):
    x, y = mix.read(a), mix.read(b)
    for k in ('rows', 'Zv', 'Zr', 'alpha', 'view_alphas'):
        check(plain(x[k]) == plain(y[k]), '%s: %s %r, expected %r', what, k,
            y[k], x[k])
    equal('types of ' + what, [c['dist'] for c in y['cols']], [c['dist']
        for c in x['cols']])
    equal('arguments of ' + what, [plain(c['distargs']) for c in y['cols']],
        [plain(c['distargs']) for c in x['cols']])


def strip_forest(m):
    """Metadata without pickled regressors and statistics of classifiers."""
    m = dict(m)
    hooked = m['hooked_cgpms']
    m['hooked_cgpms'] = {k: dict(v, params={kk: vv for kk, vv in (
        v.get('params') or {}).items() if not kk.endswith('_binary')})
        for k, v in hooked.items()}
    return {k: v for k, v in m.items() if k != 'suffstats'}


# --------------------------------------------------------------------------
# Engines.

@hs.composite
def ensemble(draw):
    c = draw(comp.composite(KINDS, min_foreign=0, max_foreign=1))
    c['n'] = draw(hs.integers(1, 3))
    c['route'] = draw(hs.sampled_from(ROUTES))
    c['multiprocess'] = draw(hs.sampled_from([0, 0, 1]))
    return c


@PROP.sub('engines', ensemble(), quick=160, wall=True, timeout=120.)
def engines(c):
    from cgpm.crosscat.engine import Engine
    s = c['state']
    e = Engine(mix.array(s), num_states=c['n'], multiprocess=0,
        outputs=mix.ids(s), cctypes=[x['dist'] for x in s['cols']],
        distargs=[dict(x['distargs']) for x in s['cols']],
        rng=np.random.RandomState(c['seed']))
    e.transition(N=1, progress=False, multiprocess=0)
    if c['foreign']:
        e.compose_cgpm([comp.make(c['foreign'][0], c['seed'] + i)
            for i in range(c['n'])], multiprocess=0)
    before = [mix.fingerprint(x) for x in e.states]
    scores = [x.logpdf_score() for x in e.states]
    m0 = e.to_metadata()
    check(all('X' not in x for x in m0['states']), 'the dataset is saved '
        'with every state')
    same_metadata('saving an engine twice', dict(m0, states=[strip_forest(x)
        for x in m0['states']]), dict(e.to_metadata(), states=[
            strip_forest(x) for x in e.to_metadata()['states']]))
    kw = {} if c['route'].startswith('pickle') else {
        'multiprocess': c['multiprocess']}
    keep = copy.deepcopy(plain(m0))
    loaded_from, e2 = through(c['route'], e, np.random.RandomState(3), **kw)
    kept = copy.deepcopy(plain(loaded_from))
    what = 'engine through %s' % c['route']
    equal('states of the loaded ' + what, e2.num_states(), e.num_states())
    for i, x in enumerate(e2.states):
        diff('state %d of the loaded %s' % (i, what), clean(before[i]),
            clean(mix.fingerprint(x)))
        same('score of state %d of %s' % (i, what), x.logpdf_score(),
            scores[i], 1e-6, 1e-6)
        mix.invariants('state %d of the loaded %s' % (i, what), x, s)
    seeds = [x.rng.get_state()[1].tolist() for x in e2.states]
    check(len(set(map(tuple, seeds))) == len(seeds), 'states of the loaded '
        '%s share their seed', what)
    e2.transition(N=1, progress=False, multiprocess=0)
    for i, x in enumerate(e.states):
        diff('state %d of the original after driving the loaded %s' % (i,
            what), before[i], mix.fingerprint(x))
    same_metadata('metadata after driving the loaded ' + what, m0, keep)
    if loaded_from is not None:
        same_metadata('metadata after driving the engine loaded from it',
            loaded_from, kept)
    return {'nontrivial': c['n'] > 1, 'labels': [c['route']]}


@PROP.probe('empty-column')
def empty():
    from cgpm.crosscat.state import State
    st = State([[0.], [mix.NAN]], outputs=[0], cctypes=['categorical'],
        distargs=[{'k': 2}], rng=np.random.RandomState(0))
    st.unincorporate(1)
    st.incorporate(1, {0: 1.})
    State.from_metadata(st.to_metadata())
    st = State([[mix.NAN], [1.]], outputs=[0], cctypes=['categorical'],
        distargs=[{'k': 2}], rng=np.random.RandomState(0))
    st.unincorporate(1)
    State.from_metadata(st.to_metadata())
