"""C34: debug mode is silent on sound models, sees damage, changes nothing."""

import contextlib
import copy
import os

import numpy as np

from checks import c10
from vlib import mix
from vlib.harness import Property, check, equal, same, hs, fail

TECHNIQUE = ('differential stateful testing: generated histories driven with '
    'and without the debug flag must never trip a self-check and must agree '
    'step by step; fault injection: generated damage to a live model must be '
    'reported by the next operation')
NOTE = ('Random search with shrinking. Damage is injected into live objects '
    '(counts, assignments, data, constraints); the report is demanded from '
    'public operations which complete when the debug flag is off.')
PROP = Property('C34',
    'Cases are a crosscat state, a history of operations and, for damage, '
    'the place that is damaged. Non-trivial: at least three operations took '
    'effect, or the damage is invisible to the same operation when the debug '
    'flag is off.',
    ['the debug flag is read from the environment at each self-check'])

FLAG = 'GPMCCDEBUG'


@contextlib.contextmanager
def debugging(on):
    old = os.environ.pop(FLAG, None)
    if on is not None:
        os.environ[FLAG] = on
    try:
        yield
    finally:
        os.environ.pop(FLAG, None)
        if old is not None:
            os.environ[FLAG] = old


def drive(c, on):
    """Fingerprints of the state after each operation."""
    with debugging(on):
        m = c10.Machine(c)
        out = [mix.fingerprint(m.st)]
        for o in c['ops']:
            m.step(o)
            out.append(mix.fingerprint(m.st))
    return m, out


@PROP.sub('histories', c10.case(), quick=500)
def histories(c):
    plain, a = drive(c, None)
    watched, b = drive(c, '1')
    equal('operations that took effect', watched.done, plain.done)
    for i, (x, y) in enumerate(zip(a, b)):
        d = mix.differences(x, y)
        if d:
            fail('after %d of %r the debug flag changes %s', i, c['ops'],
                '; '.join(d)[:600])
    return {'nontrivial': len(plain.done) >= 3,
        'labels': sorted(set(plain.done))}


@PROP.sub('conditional', c10.conditional_case(), quick=150)
def conditional(c):
    with debugging('1'):
        return c10.conditional(c)


# --------------------------------------------------------------------------
# Constraints between columns.

@hs.composite
def constrained_case(draw):
    D = draw(hs.integers(2, 6))
    s = draw(mix.spec(min_cols=D, max_cols=D, min_rows=1, max_rows=4,
        zero_based=True))
    kind = draw(hs.sampled_from(['Cd', 'Ci', 'both']))
    names = list(draw(hs.permutations(range(D))))
    Cd, Ci = [], []
    if kind != 'Ci':
        Cd = [names[:draw(hs.integers(2, D))]]
        if len(names) - len(Cd[0]) >= 2 and draw(hs.booleans()):
            Cd.append(names[len(Cd[0]):])
    block = {x: i for i, b in enumerate(Cd) for x in b}
    if kind != 'Cd':
        pairs = [[a, b] for a in range(D) for b in range(a)
            if a not in block or block[a] != block.get(b)]
        if pairs:
            Ci = draw(hs.lists(hs.sampled_from(pairs), max_size=3,
                unique_by=tuple))
    return {'spec': s, 'Cd': Cd, 'Ci': Ci,
        'ops': draw(hs.lists(hs.sampled_from(['rows', 'columns', 'alpha',
            'view_alphas', 'column_hypers', 'row', 'drop_row', 'force']),
            min_size=1, max_size=6)),
        'seed': draw(hs.integers(0, 2**31 - 1))}


@PROP.sub('constrained', constrained_case(), quick=250)
def constrained(c):
    from cgpm.crosscat.state import State
    s = c['spec']

    def history(on):
        with debugging(on):
            rng = np.random.RandomState(c['seed'] % 1000)
            st = State(mix.array(s), outputs=mix.ids(s),
                cctypes=[x['dist'] for x in s['cols']],
                distargs=[dict(x['distargs']) for x in s['cols']],
                Cd=copy.deepcopy(c['Cd']), Ci=[tuple(p) for p in c['Ci']],
                rng=np.random.RandomState(c['seed']))
            out = [mix.fingerprint(st)]
            for o in c['ops']:
                n = st.n_rows()
                if o == 'row':
                    st.incorporate(n, {x['col']: c10.value_for(rng,
                        x['dist'], x['distargs']) for x in s['cols']})
                elif o == 'drop_row':
                    if n > 1:
                        st.unincorporate(n - 1)
                elif o == 'force':
                    holes = [(i, x) for i in range(n) for x in s['cols']
                        if st.X[x['col']][i] != st.X[x['col']][i]]
                    if holes:
                        i, x = holes[rng.randint(len(holes))]
                        st.force_cell(i, {x['col']: c10.value_for(rng,
                            x['dist'], x['distargs'])})
                elif o == 'columns' and c['Cd']:
                    continue
                else:
                    st.transition(N=1, kernels=[o], progress=False)
                out.append(mix.fingerprint(st))
        return out
    a, b = history(None), history('1')
    for x, y in zip(a, b):
        d = mix.differences(x, y)
        check(not d, 'the debug flag changes %s', '; '.join(d)[:600])
    return {'nontrivial': bool(c['Cd'] or c['Ci'])}


# --------------------------------------------------------------------------
# Relevance, whose normalisation is verified in debug mode.

@hs.composite
def relevance_case(draw):
    s = draw(mix.spec(min_rows=2, max_rows=6, max_cols=3))
    n = mix.n_rows(s)
    col = draw(hs.sampled_from(mix.ids(s)))
    hyps = draw(hs.lists(hs.fixed_dictionaries({'use': hs.lists(hs.booleans(),
        min_size=len(s['cols']), max_size=len(s['cols']))}), max_size=2))
    return {'spec': s, 'target': draw(hs.integers(0, n - 1)),
        'query': draw(hs.lists(hs.integers(0, n - 1), min_size=1,
            max_size=min(3, n), unique=True)), 'col': col, 'hyps': hyps,
        'seed': draw(hs.integers(0, 2**31 - 1))}


@PROP.sub('relevance', relevance_case(), quick=300)
def relevance(c):
    s = c['spec']
    rng = np.random.RandomState(c['seed'])
    hyps = []
    for h in c['hyps']:
        row = {x['col']: c10.value_for(rng, x['dist'], x['distargs'])
            for x, use in zip(s['cols'], h['use']) if use}
        if row:
            hyps.append(row)
    got = []
    for on in (None, '1'):
        with debugging(on):
            st = mix.build(s, c['seed'])
            before = mix.fingerprint(st)
            got.append(st.relevance_probability(c['target'], list(
                c['query']), c['col'], copy.deepcopy(hyps) or None))
            mix.unchanged('relevance with debug flag %r' % on, st, before)
    same('relevance with the debug flag', float(got[1]), float(got[0]), 1e-9,
        1e-12)
    return {'nontrivial': c['target'] not in c['query'],
        'labels': ['hypotheticals=%d' % bool(hyps)]}


@PROP.sub('view-relevance', relevance_case(), quick=300)
def view_relevance(c):
    s = c['spec']
    v = mix.zv(s)[c['col']]
    got = []
    for on in (None, '1'):
        with debugging(on):
            view = mix.build_view(s, v, c['seed'])
            before = (view.logpdf_score(), dict(view.Zr()))
            got.append(view.relevance_probability(c['target'],
                list(c['query']), c['col']))
            same('score after relevance', view.logpdf_score(), before[0],
                1e-9, 1e-9)
            equal('clusters after relevance', dict(view.Zr()), before[1])
    same('relevance in a view with the debug flag', float(got[1]),
        float(got[0]), 1e-9, 1e-12)
    return {'nontrivial': c['target'] not in c['query'],
        'labels': ['clusters=%d' % len(set(mix.zr(s)[v]))]}


# --------------------------------------------------------------------------
# Damage.

PLACES = ['count', 'assignment', 'view-size', 'data-length', 'apart',
    'together', 'unknown-cluster']


@hs.composite
def damage_case(draw):
    D = draw(hs.integers(2, 4))
    s = draw(mix.spec(min_cols=D, max_cols=D, min_rows=2, max_rows=5,
        zero_based=True))
    return {'spec': s, 'place': draw(hs.sampled_from(PLACES)),
        'which': draw(hs.integers(0, 40)), 'how': draw(hs.integers(0, 40)),
        'seed': draw(hs.integers(0, 2**31 - 1))}


def spoil(st, c):
    """Damage st; False when this state has no such place."""
    i, j = c['which'], c['how']
    cols = list(st.outputs)
    col = cols[i % len(cols)]
    dim = st.dim_for(col)
    if c['place'] == 'count':
        ks = sorted(dim.clusters)
        if not ks:
            return False
        dim.clusters[ks[j % len(ks)]].N += 1 + j % 2
    elif c['place'] == 'assignment':
        rows = sorted(dim.Zr)
        view = st.view_for(col)
        if not rows or len(view.Nk()) < 2:
            return False
        r = rows[j % len(rows)]
        dim.Zr[r] = [k for k in sorted(view.Nk()) if k != dim.Zr[r]][0]
    elif c['place'] == 'unknown-cluster':
        rows = sorted(dim.Zi)
        if not rows:
            return False
        dim.Zi[rows[j % len(rows)]] = 77
    elif c['place'] == 'view-size':
        v = sorted(st.views)[i % len(st.views)]
        st.crp.clusters[0].counts[v] += 1
    elif c['place'] == 'data-length':
        st.view_for(col).X[col].append(st.view_for(col).X[col][0])
    elif c['place'] == 'apart':
        pairs = [(a, b) for a in cols for b in cols if a < b
            and st.Zv(a) != st.Zv(b)]
        if not pairs:
            return False
        st.Cd = [list(pairs[j % len(pairs)])]
    elif c['place'] == 'together':
        pairs = [(a, b) for a in cols for b in cols if a < b
            and st.Zv(a) == st.Zv(b)]
        if not pairs:
            return False
        st.Ci = [pairs[j % len(pairs)]]
    return True


@PROP.sub('damage', damage_case(), quick=400)
def damage(c):
    s = c['spec']
    rng = np.random.RandomState(c['seed'])
    row = {x['col']: c10.value_for(rng, x['dist'], x['distargs'])
        for x in s['cols']}

    def attempt(on, spoiled):
        with debugging(on):
            st = mix.build(s, c['seed'])
            if spoiled and not spoil(st, c):
                return None
            try:
                # (Removing the row might remove the damage with it.)
                st.incorporate(st.n_rows(), dict(row))
            except AssertionError:
                return 'report'
            except Exception as e:
                return repr(e)
            return 'quiet'
    equal('a sound state in debug mode', attempt('1', False), 'quiet')
    plain = attempt(None, True)
    if plain is None:
        return {'nontrivial': False}
    seen = attempt('1', True)
    if plain == 'quiet':
        check(seen != 'quiet', 'damage of kind %r goes unnoticed in debug '
            'mode', c['place'])
    return {'nontrivial': plain == 'quiet', 'labels': [c['place']]}
