"""C17: all randomness comes from the seed that was given."""

import copy
import hashlib
import math
import random

import numpy as np

from checks import c10, c16, c18, c31
from vlib import comp, mix, models, prims
from vlib.harness import Property, check, equal, hs, fail

TECHNIQUE = ('metamorphic property-based testing: generated models and '
    'histories are run twice from the same seed while the global generators '
    'of numpy and Python differ, and every intermediate result is compared '
    'exactly; the global generators are compared before and after')
NOTE = ('Random search with shrinking. Results are compared bit for bit. '
    'Continuous samples from another seed must differ.')
PROP = Property('C17',
    'Cases are histories of construction, data, inference and queries for '
    'models of every kind, crosscat states, composed states, ensembles and '
    'the random helpers. Non-trivial: the history draws from the generator.',
    ['a generator or seed is given (without one the library draws a seed from '
     'the global generator)', 'entropy estimators and plots are excluded'])


def exact(x):
    """A form which compares bit for bit; NaN equals itself."""
    if isinstance(x, dict):
        return ['dict'] + sorted(([repr(k), exact(v)] for k, v in x.items()),
            key=lambda p: p[0])
    if isinstance(x, (list, tuple)) or type(x).__name__ in ('dict_items',
            'dict_keys', 'dict_values'):
        return [exact(v) for v in x]
    if isinstance(x, np.ndarray):
        return [exact(v) for v in x.tolist()]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return repr(int(x))
    if isinstance(x, (float, np.floating)):
        return 'nan' if math.isnan(x) else float(x).hex()
    if isinstance(x, np.random.RandomState):
        return c18.digest(x)
    if x is None or isinstance(x, str):
        return x
    return repr(type(x))


class Log(list):
    def __call__(self, label, x):
        self.append([label, exact(x)])


def globals_():
    return c18.digest(np.random.mtrand._rand), hashlib.md5(repr(
        random.getstate()).encode()).hexdigest()


def repeatable(what, driver, seed, differs=False):
    """driver(seed, log) twice; returns the first log."""
    logs = []
    save = np.random.get_state(), random.getstate()
    try:
        for g in (11, 4242):
            np.random.seed(g)
            random.seed(g + 1)
            before = globals_()
            log = Log()
            error = None
            try:
                driver(seed, log)
            except (ValueError, IndexError, ZeroDivisionError,
                    NotImplementedError) as e:
                error = '%s: %s' % (type(e).__name__, e)
            log('error', error)
            check(globals_()[0] == before[0], '%s changes the global state of '
                'numpy.random (after %r)', what, [x[0] for x in log[-3:]])
            check(globals_()[1] == before[1], '%s changes the global state of '
                'random (after %r)', what, [x[0] for x in log[-3:]])
            logs.append(log)
    finally:
        np.random.set_state(save[0])
        random.setstate(save[1])
    a, b = logs
    for x, y in zip(a, b):
        if x != y:
            fail('%s: the same seed gives different results for %r: %r and '
                '%r', what, x[0], str(x[1])[:300], str(y[1])[:300])
    equal('%s: number of results' % what, len(a), len(b))
    if differs:
        log = Log()
        driver(seed + 1, log)
        other = dict(map(tuple_, log))
        for l, x in map(tuple_, a):
            check(not l.startswith('random') or other.get(l) != x, '%s: '
                'another seed gives the same %s %s', what, l, x[:200])
    return a


def tuple_(p):
    return p[0], repr(p[1])


# --------------------------------------------------------------------------
# Single models.

@hs.composite
def one(draw):
    c = draw(models.model(n=7, nq=3))
    c['n'] = draw(hs.integers(0, 7))
    c['gone'] = draw(hs.booleans())
    c['seed'] = draw(hs.integers(0, 2**31 - 3))
    c['steps'] = draw(hs.integers(1, 3))
    c['N'] = draw(hs.sampled_from([None, 1, 6]))
    return c


def drive_model(c):
    def driver(seed, log):
        g = models.build(c, seed)
        kind = c['kind']
        for i in range(c['n']):
            models.add(g, c, i, i)
        if c['n'] and c['gone']:
            g.unincorporate(seed % c['n'])
        if kind == 'dim':
            xs = [o[0][1] for o, _ in c['pool'][:c['n']]]
            xs = [x for x in xs if x is not None]
            if xs:
                g.transition_hyper_grids(np.asarray(xs, float), 5)
                g.transition_hypers()
                log('hypers', g.hypers)
            g.transition_params()
        elif kind == 'primitive':
            xs = [o[0][1] for o, _ in c['pool'][:c['n']]]
            if c['spec']['dist'] in ('beta', 'normal_trunc'):
                g.transition_params()
                log('params', g.get_params())
            if xs and hasattr(type(g), 'construct_hyper_grids'):
                grids = type(g).construct_hyper_grids(np.asarray(xs, float),
                    5)
                log('grids', grids)
        elif models.can_fit(c, g):
            for _ in range(c['steps']):
                g.transition(N=1)
        log('answers', models.answers(g, c))
        log('params', c16.params_of(g))
        if kind in ('kde', 'knn') and not g.N:
            return
        if kind == 'ols' and not models.can_fit(c, g):
            return
        for q, (t, e, i) in enumerate(c['queries']):
            kw = {'inputs': models.dic(i)} if i else {}
            try:
                s = g.simulate(-5, [v for v, _ in t], models.dic(e) if e
                    else None, N=c['N'], **kw)
            except (ValueError, IndexError) as x:
                s = repr(x)
            log('random sample %d' % q, s)
        log('generator', g.rng)
        log('answers again', models.answers(g, c))
    return driver


@PROP.sub('models', one(), quick=1600)
def single(c):
    continuous = c['kind'] == 'linreg' or c['kind'] == 'primitive' and \
        c['spec']['dist'] in ('normal', 'exponential', 'lognormal', 'beta',
            'normal_trunc')
    a = repeatable('%s model %r' % (c['kind'], c['spec']), drive_model(c),
        c['seed'], differs=continuous)
    return {'nontrivial': any(l.startswith('random') for l, _ in a),
        'labels': [c['kind']]}


# --------------------------------------------------------------------------
# Reloaded models use the generator they are given.

@hs.composite
def reload_case(draw):
    c = draw(models.model(n=7, nq=2, kinds=tuple(k for k in models.KINDS
        if k not in ('dim', 'primitive'))))
    c['n'] = draw(hs.integers(2, 7))
    c['seed'] = draw(hs.integers(0, 2**31 - 3))
    return c


@PROP.sub('loaded-models', reload_case(), quick=480)
def loaded(c):
    g = models.build(c, 3)
    for i in range(c['n']):
        models.add(g, c, i, i)
    if models.can_fit(c, g):
        g.transition(N=1)
    elif c['kind'] == 'ols':
        return {'nontrivial': False}
    m = g.to_metadata()

    def driver(seed, log):
        rng = np.random.RandomState(seed)
        h = c16.load(copy.deepcopy(m), rng)
        check(h.rng is rng, 'a %s loaded with a generator uses another',
            c['kind'])
        for q, (t, e, i) in enumerate(c['queries']):
            kw = {'inputs': models.dic(i)} if i else {}
            log('random sample %d' % q, h.simulate(-5, [v for v, _ in t],
                models.dic(e) if e else None, N=3, **kw))
        if models.can_fit(c, h):
            h.transition(N=1)
        log('answers', models.answers(h, c))
        log('generator', h.rng)
    repeatable('loaded %s model' % c['kind'], driver, c['seed'],
        differs=c['kind'] == 'linreg')
    return {'nontrivial': True, 'labels': [c['kind']]}


# --------------------------------------------------------------------------
# Crosscat states.

def drive_state(c):
    def driver(seed, log):
        m = c10.Machine(dict(c, seed=seed))
        log('built', mix.fingerprint(m.st))
        for o in c['ops']:
            m.step(o)
            log('after %s' % '; '.join(m.done), mix.fingerprint(m.st))
            log('generator after %s' % '; '.join(m.done), m.st.rng)
        st, s = m.st, m.s
        cols = mix.ids(s)
        log('random samples', st.simulate(-1, cols, N=4))
        log('random samples of a row', st.simulate(0, cols[:2], N=2))
        log('answers', c16.battery(st, s, 5))
        if len(cols) > 1:
            log('random mutual information', st.mutual_information(
                cols[:1], cols[1:2], N=3))
        log('generator', st.rng)
    return driver


@PROP.sub('states', c10.case(max_cols=4, max_rows=5), quick=320)
def states(c):
    repeatable('state', drive_state(c), c['seed'] % (2**31 - 3))
    return {'nontrivial': True, 'labels': sorted(set(o[0] for o in
        c['ops']))}


@hs.composite
def explicit(draw):
    return draw(c10.case(hs.one_of(hs.tuples(hs.just('row'), c10.int_,
        hs.sampled_from(['full', 'partial'])), hs.tuples(hs.just('infer'),
        c10.int_)), max_cols=2, max_rows=3, dists=['beta', 'normal_trunc',
        'normal']))


@PROP.sub('explicit-parameters', explicit(), quick=24, thorough=480,
    timeout=200.)
def explicit_states(c):
    def driver(seed, log):
        m = c10.Machine(dict(c, seed=seed))
        for o in c['ops'][:4]:
            m.step(o)
            log('generator after %s' % '; '.join(m.done), m.st.rng)
        log('random samples', m.st.simulate(-1, mix.ids(m.s), N=3))
        for x in mix.ids(m.s):
            d = m.st.dim_for(x)
            log('parameters of %d' % x, {k: q.get_params() for k, q in
                d.clusters.items()})
    repeatable('state with explicit parameters', driver, c['seed'] % (2**31
        - 3))
    return {'nontrivial': True}


@hs.composite
def constrained(draw):
    D = draw(hs.integers(3, 6))
    s = draw(mix.spec(min_cols=D, max_cols=D, max_rows=4, zero_based=True,
        dists=['normal', 'categorical', 'bernoulli']))
    order = draw(hs.permutations(range(D)))
    which = draw(hs.sampled_from(['Cd', 'Ci', 'both', 'none']))
    return {'spec': s, 'seed': draw(hs.integers(0, 2**31 - 3)),
        'Cd': [sorted(order[:2])] if which in ('Cd', 'both') else [],
        'Ci': [[order[2], order[0]]] if which in ('Ci', 'both') else [],
        'steps': draw(hs.integers(1, 2))}


@PROP.sub('constrained-states', constrained(), quick=160)
def constrained_states(c):
    def driver(seed, log):
        st = mix.build(c['spec'], seed=seed, Zv=None, Zrv=None,
            view_alphas=None, alpha=None, hypers=None, Cd=c['Cd'] or None,
            Ci=[tuple(x) for x in c['Ci']] or None)
        log('built', mix.fingerprint(st))
        kernels = None
        if c['Cd']:
            kernels = ['alpha', 'view_alphas', 'column_hypers', 'rows']
        st.transition(N=c['steps'], kernels=kernels, progress=False,
            checkpoint=None if c['Ci'] else 1)
        log('inferred', mix.fingerprint(st))
        log('random samples', st.simulate(-1, mix.ids(c['spec']), N=3))
        log('generator', st.rng)
    repeatable('state with constraints %r %r' % (c['Cd'], c['Ci']), driver,
        c['seed'])
    return {'nontrivial': True}


# --------------------------------------------------------------------------
# Composed states.

@hs.composite
def composed(draw):
    c = draw(comp.composite(min_foreign=0))
    own = comp.owner(c)
    c['queries'] = []
    for _ in range(2):
        order = draw(hs.permutations(sorted(own)))
        t = draw(hs.integers(1, len(order)))
        k = draw(hs.integers(0, len(order) - t))
        c['queries'].append([[[v, draw(comp.value(c, v))] for v in
            order[:t]], [[v, draw(comp.value(c, v))] for v in
            order[t:t + k]], draw(hs.sampled_from([1, 2, 5]))])
    c['cond'] = draw(hs.booleans())
    c['which'] = draw(hs.integers(0, 10))
    return c


@PROP.sub('composed-states', composed(), quick=240)
def composed_states(c):
    def driver(seed, log):
        st, _tokens, _gs = comp.build(dict(c, seed=seed))
        if c['cond']:
            log('conditional', c16.make_conditional(st, c))
        for i, (t, e, acc) in enumerate(c['queries']):
            for label, f in (
                    ('density', lambda: st.logpdf(-1, mix.dic(t), mix.dic(e)
                        or None, accuracy=acc)),
                    ('random samples', lambda: st.simulate(-1, [v for v, _ in
                        t], mix.dic(e) or None, N=2, accuracy=acc))):
                try:
                    log('%s %d' % (label, i), f())
                except ValueError as x:
                    log('%s %d' % (label, i), repr(x))
        if c['foreign'] and not any(n['kind'] in ('primitive', 'factor')
                or not n['rows'] for n in c['foreign']):
            st.transition_foreign(N=1, progress=False)
        log('state', {k: v for k, v in mix.fingerprint(st).items()
            if k != 'hooked'})
        for i, g in enumerate(st.hooked_cgpms.values()):
            log('generator of model %d' % i, g.rng)
        log('generator', st.rng)
    repeatable('state composed with %r' % [n['kind'] for n in c['foreign']],
        driver, c['seed'] % (2**31 - 3))
    return {'nontrivial': bool(c['foreign']), 'labels': [n['kind'] for n in
        c['foreign']]}


# --------------------------------------------------------------------------
# Ensembles.

@hs.composite
def ensembles(draw):
    c = draw(c18.ensemble(min_states=2, max_states=4, max_cols=3,
        max_rows=4))
    c['ops'] = draw(hs.lists(hs.sampled_from(['transition', 'simulate',
        'simulate_bulk', 'mutual_information', 'add_state', 'reload',
        'compose', 'incorporate', 'resample']), min_size=1, max_size=5))
    c['seed'] = draw(hs.integers(0, 2**31 - 3))
    return c


def member_seeds(what, e, log, seeds):
    """Members have different generators."""
    now = [c18.digest(x.rng) for x in e.states]
    check(len(set(now)) == len(now), '%s: members share their generator',
        what)
    log('generators after ' + what, now)
    seeds.append(now)


def drive_engine(c, seeds):
    from cgpm.crosscat.engine import Engine

    def driver(seed, log):
        del seeds[:]
        s = c['state']
        e = c18.build(dict(c, seed=seed), hook=False)
        cols = mix.ids(s)
        n = len(s['rows'])
        log('built', [mix.fingerprint(x) for x in e.states])
        member_seeds('building', e, log, seeds)
        done = 'building'
        for o in c['ops']:
            done += ', ' + o
            if o == 'transition':
                e.transition(N=1, progress=False, multiprocess=0)
            elif o == 'simulate':
                log('random ' + done, e.simulate(-1, cols, N=3,
                    multiprocess=0))
            elif o == 'simulate_bulk':
                log('random ' + done, e.simulate_bulk([-1, -1], [cols[:1],
                    cols], multiprocess=0))
            elif o == 'mutual_information':
                log('random ' + done, e.mutual_information(cols[:1],
                    cols[-1:], N=3, multiprocess=0))
            elif o == 'resample':
                k = e.num_states()
                log('random ' + done, e._likelihood_weighted_resample(
                    [[10 * i + j for j in range(8)] for i in range(k)], -1,
                    multiprocess=0))
            elif o == 'add_state':
                if e.states[0].is_composite():
                    continue
                e.add_state(count=2, multiprocess=0)
            elif o == 'reload':
                if c16.empty_column(s):
                    continue
                if any(not c18.saved(m) for x in e.states
                        for m in x.hooked_cgpms.values()):
                    continue
                rng = np.random.RandomState(seed + 5)
                e = Engine.from_metadata(e.to_metadata(), rng=rng,
                    multiprocess=0)
                check(e.rng is rng, 'a loaded engine uses another generator')
            elif o == 'compose':
                if not c['foreign'] or e.states[0].is_composite() or \
                        c['foreign'][0]['kind'] == 'primitive':
                    continue
                e.compose_cgpm([comp.make(c['foreign'][0], seed + i)
                    for i in range(e.num_states())], multiprocess=0)
            elif o == 'incorporate':
                e.incorporate(n, {x['col']: c10.value_for(
                    np.random.RandomState(n), x['dist'], x['distargs'])
                    for x in s['cols']}, multiprocess=0)
                n += 1
            log('members after ' + done, [{k: v for k, v in mix.fingerprint(
                x).items() if k != 'hooked'} for x in e.states])
            member_seeds(done, e, log, seeds)
            log('generator after ' + done, e.rng)
    return driver


@PROP.sub('ensembles', ensembles(), quick=160, wall=True, timeout=120.)
def engines(c):
    seeds = []
    repeatable('engine', drive_engine(c, seeds), c['seed'])
    one = list(seeds)
    drive_engine(c, seeds)(c['seed'] + 1, Log())
    # Seeds of the members are derived from the one which was given.
    for a, b, what in zip(one, seeds, ['building'] + c['ops']):
        check(not set(a) & set(b), 'members have the same generators for '
            'another seed of the ensemble (after %s)', what)
    return {'nontrivial': True, 'labels': c['ops']}


# --------------------------------------------------------------------------
# Helpers.

@hs.composite
def helper(draw):
    D = draw(hs.integers(2, 8))
    order = draw(hs.permutations(range(D)))
    k = draw(hs.integers(0, D))
    return {'N': D, 'alpha': draw(prims.positive(.1, 5.)),
        'Cd': [sorted(order[:k])] if k > 1 else [],
        'Ci': [[order[0], order[-1]]] if 1 < k < D and draw(hs.booleans())
            else [],
        'p': draw(hs.lists(hs.integers(1, 9), min_size=1, max_size=6)),
        'size': draw(hs.one_of(hs.none(), hs.integers(1, 9))),
        'D': draw(hs.sampled_from([[0, None], [None, None], [-1, 3],
            [0, 1]])),
        'n': draw(hs.integers(1, 4)), 'burn': draw(hs.integers(1, 5)),
        'lag': draw(hs.integers(1, 3)),
        'seed': draw(hs.integers(0, 2**31 - 3))}


@PROP.sub('helpers', helper(), quick=800)
def helpers(c):
    from cgpm.utils import general as gu
    from cgpm.utils import sampling as su
    D = [-np.inf if c['D'][0] is None else c['D'][0],
        np.inf if c['D'][1] is None else c['D'][1]]

    def driver(seed, log):
        rng = np.random.RandomState(seed)
        log('random gen_rng', gu.gen_rng(seed).rand())
        log('crp', gu.simulate_crp(c['N'], c['alpha'], rng=rng))
        if c['Ci']:
            log('constrained crp', gu.simulate_crp_constrained(c['N'],
                c['alpha'], c['Cd'], [tuple(x) for x in c['Ci']], {}, {},
                rng=rng))
        log('dependent crp', gu.simulate_crp_constrained_dependent(c['N'],
            c['alpha'], c['Cd'], rng=rng))
        log('pflip', gu.pflip(np.asarray(c['p'], float), size=c['size'],
            rng=rng))
        log('log_pflip', gu.log_pflip(np.log(c['p']), size=c['size'],
            rng=rng))
        kw = dict(num_samples=c['n'], burn=c['burn'], lag=c['lag'], rng=rng)
        f = lambda x: -x ** 2 / 2.
        log('mh', su.mh_sample(.5, f, .4, tuple(D), **kw))
        log('random slice', su.slice_sample(lambda: .5, f, tuple(D), **kw))
        log('random rejection', su.rejection_sample(lambda x: x * (1 - x),
            lambda x: 1., lambda: rng.uniform(), N=c['n'], rng=rng))
        log('generator', rng)
    repeatable('helpers %r' % (c,), driver, c['seed'], differs=True)
    return {'nontrivial': True}


@PROP.sub('generated-data', c31.table_case(), quick=240)
def generated_data(c):
    def driver(seed, log):
        log('random table', c31.generate(c, seed))
    repeatable('gen_data_table', driver, c['seed'] % (2**31 - 3),
        differs=any(k in ('normal', 'exponential') for k, _, _ in
            c['cols']))
    return {'nontrivial': True}


XY = [('diamond', 'Diamond'), ('dots', 'Dots'), ('linear', 'Linear'),
    ('parabola', 'Parabola'), ('ring', 'Ring'), ('sin', 'Sin'),
    ('xcross', 'XCross')]


@hs.composite
def bundled(draw):
    return {'which': draw(hs.integers(0, len(XY) + 3)),
        'outs': draw(hs.lists(hs.integers(0, 9), min_size=4, max_size=4,
            unique=True)), 'noise': draw(hs.integers(5, 60)) / 100.,
        'N': draw(hs.one_of(hs.none(), hs.integers(1, 5))),
        'y': draw(hs.integers(0, 1)),
        'seed': draw(hs.integers(0, 2**31 - 3))}


@PROP.sub('bundled-models', bundled(), quick=400)
def bundled_models(c):
    import importlib
    i, o = c['which'], c['outs']

    def driver(seed, log):
        rng = np.random.RandomState(seed)
        if i < len(XY):
            cls = getattr(importlib.import_module('cgpm.uncorrelated.' +
                XY[i][0]), XY[i][1])
            g = cls(outputs=o[:2], noise=c['noise'], rng=rng)
            log('random joint', g.simulate(-1, o[:2], N=c['N']))
            log('random marginal', g.simulate(-1, o[:1], N=c['N']))
        elif i == len(XY):
            from cgpm.dummy.fourway import FourWay
            g = FourWay([o[0]], o[1:3], rng=rng)
            log('four', g.simulate(-1, [o[0]], None, {o[1]: c['y'],
                o[2]: c['noise']}, N=c['N']))
        elif i == len(XY) + 1:
            from cgpm.dummy.twoway import TwoWay
            g = TwoWay([o[0]], [o[1]], rng=rng)
            log('two', g.simulate(-1, [o[0]], None, {o[1]: c['y']},
                N=c['N']))
        elif i == len(XY) + 2:
            from cgpm.dummy.trollnormal import TrollNormal
            g = TrollNormal([o[0]], o[1:3], rng=rng)
            log('random troll', g.simulate(-1, [o[0]], None, {o[1]: 1.,
                o[2]: c['noise']}, N=c['N']))
        else:
            from cgpm.dummy.piecewise import PieceWise
            g = PieceWise(o[:2], [o[2]], sigma=c['noise'], rng=rng)
            log('random piece', g.simulate(-1, o[:2], None, {o[2]:
                float(c['y'])}, N=c['N']))
        log('generator', rng)
    repeatable('bundled model %d' % i, driver, c['seed'],
        differs=i not in (len(XY), len(XY) + 1))
    return {'nontrivial': True}
