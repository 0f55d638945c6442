"""C27: schema, type and query parsing."""

import copy
import math

import numpy as np
import pandas as pd

from vlib.harness import Property, check, equal, same, hs, fail, raises

from cgpm.utils import config as cu
from cgpm.utils import data as du
from cgpm.utils import validation as vu

TECHNIQUE = ('property-based testing: generated schemas, tables, type strings '
    'and partitions against the structures they were printed from')
NOTE = ('Random search with shrinking: inputs are rendered from a structure '
    'and the parse is compared with it; malformed renderings must be '
    'rejected. Arguments are compared with deep copies afterwards.')
PROP = Property('C27',
    'Cases are lists of type strings, tables with schemas (missing cells, '
    'text and numeric categories), covariate vectors, and partition maps. '
    'Non-trivial: at least two items of different kinds.')

CCTYPES = {
    'bernoulli': 'Bernoulli', 'beta': 'Beta', 'categorical': 'Categorical',
    'crp': 'Crp', 'exponential': 'Exponential', 'geometric': 'Geometric',
    'linear_regression': 'LinearRegression', 'lognormal': 'Lognormal',
    'normal': 'Normal', 'normal_trunc': 'NormalTrunc', 'poisson': 'Poisson',
    'random_forest': 'RandomForest', 'vonmises': 'Vonmises'}
LOOM = {'bernoulli': 'boolean', 'beta': 'real', 'categorical': 'categorical',
    'crp': 'unbounded_categorical', 'exponential': 'real',
    'geometric': 'real', 'lognormal': 'real', 'normal': 'real',
    'normal_trunc': 'real', 'poisson': 'count', 'vonmises': 'real'}

number = hs.one_of(hs.integers(-20, 300), hs.floats(-1e6, 1e6,
    allow_nan=False), hs.sampled_from([.5, 1e-9, 2.5e10]))
item = hs.tuples(hs.sampled_from(sorted(CCTYPES)), hs.one_of(hs.none(),
    hs.lists(hs.tuples(hs.sampled_from(['k', 'l', 'h', 'alpha', 'x_1']),
        number), min_size=1, max_size=3, unique_by=lambda t: t[0])))


def render(name, args):
    if args is None:
        return name
    return '%s(%s)' % (name, ','.join('%s=%r' % (k, v) for k, v in args))


@PROP.sub('distargs', hs.lists(item, max_size=6), quick=4000)
def distargs(c):
    texts = [render(n, a) for n, a in c]
    before = list(texts)
    names, args = cu.parse_distargs(texts)
    equal('names in %r' % texts, names, [n for n, _ in c])
    equal('arguments in %r' % texts, args,
        [None if a is None else {k: float(v) for k, v in a} for _, a in c])
    equal('texts after', texts, before)
    return {'nontrivial': len(c) >= 2 and any(a for _, a in c)}


@PROP.sub('distargs-malformed', hs.tuples(item, hs.sampled_from(
    ['(k)', '(k=)', '(k=a)', '(k=1=2)', '()', '(k=1,)', '(k 1)',
     '(=,)', '(k=1;l=2)'])), quick=120)
def malformed(c):
    (name, _), bad = c
    raises('parse_distargs(%r)' % (name + bad), ValueError,
        lambda: cu.parse_distargs(['normal', name + bad]))


@PROP.sub('types', hs.tuples(hs.one_of(hs.sampled_from(sorted(CCTYPES)),
    hs.sampled_from(['', 'Normal', 'gaussian', 'norma', 'numerical', 'cat'])),
    hs.one_of(hs.integers(2, 600), hs.sampled_from([255, 256, 257]))),
    quick=400)
def types(c):
    name, k = c
    equal('valid_cctype(%r)' % name, cu.valid_cctype(name), name in CCTYPES)
    equal('all_cctypes', sorted(cu.all_cctypes()), sorted(CCTYPES))
    if name not in CCTYPES:
        raises('cctype_class(%r)' % name, (KeyError, ValueError),
            lambda: cu.cctype_class(name))
        raises('loom_stattype(%r)' % name, ValueError,
            lambda: cu.loom_stattype(name, {'k': k}))
        return {'nontrivial': False}
    cls = cu.cctype_class(name)
    equal('class of %s' % name, cls.__name__, CCTYPES[name])
    equal('name of %s' % name, cls.name(), name)
    args = {'k': k}
    if name in LOOM:
        want = LOOM[name]
        if name == 'categorical' and k > 256:
            want = LOOM['crp']
        equal('loom type of %s (k=%d)' % (name, k),
            cu.loom_stattype(name, args), want)
    else:
        raises('loom_stattype(%r)' % name, ValueError,
            lambda: cu.loom_stattype(name, args))
    equal('arguments after', args, {'k': k})
    for bad in (None, ''):
        raises('cctype_class(%r)' % bad, ValueError,
            lambda: cu.cctype_class(bad))


# --------------------------------------------------------------------------
# Tables.

WORDS = ['mit', 'harvard', 'a', 'B', 'zz', '10', '9', 'x y', '']


@hs.composite
def table(draw):
    n = draw(hs.integers(1, 12))
    cols = []
    names = draw(hs.lists(hs.sampled_from(['id', 'age', 'uni', 'c1', 'c2',
        'salary', 'flag', 'Z']), min_size=1, max_size=5, unique=True))
    for name in names:
        kind = draw(hs.sampled_from(['numeric', 'text', 'int', 'two',
            'ignore']))
        if kind in ('numeric', 'ignore'):
            vals = [draw(hs.one_of(hs.integers(-9, 9).map(lambda i: i / 2.),
                hs.none())) for _ in range(n)]
        elif kind == 'text':
            vals = [draw(hs.one_of(hs.sampled_from(WORDS), hs.none()))
                for _ in range(n)]
        elif kind == 'int':
            vals = [draw(hs.one_of(hs.integers(-2, 6), hs.none()))
                for _ in range(n)]
        else:
            two = draw(hs.sampled_from([['no', 'yes'], [0, 1], [3, 8],
                ['b', 'a'], [1, 2]]))
            vals = [draw(hs.one_of(hs.sampled_from(two), hs.none()))
                for _ in range(n)]
        if all(v is None for v in vals):
            vals[0] = 1 if kind not in ('text',) else 'a'
        cols.append({'name': name, 'kind': kind, 'vals': vals,
            'na': draw(hs.booleans()),
            'k': draw(hs.one_of(hs.none(), hs.integers(1, 12))),
            'index': draw(hs.integers(0, 99))})
    return {'cols': cols, 'order': draw(hs.permutations(list(
        range(len(cols)))))}


def frame(c):
    d = {}
    for col in c['cols']:
        vals = col['vals']
        if col['na'] and col['kind'] == 'text':
            vals = ['NA' if v is None else v for v in vals]
        elif col['kind'] == 'text' or any(isinstance(v, str) for v in vals):
            vals = [np.nan if v is None else v for v in vals]
        else:
            vals = [np.nan if v is None else v for v in vals]
        d[col['name']] = vals
    return pd.DataFrame(d)


def missing(v):
    return v is None or (isinstance(v, float) and math.isnan(v))


@PROP.sub('schema', table(), quick=1500, shards=8)
def schema(c):
    df = frame(c)
    before = df.copy(deep=True)
    sch, bad, expect = [], [], []
    for i in c['order']:
        col = c['cols'][i]
        levels = sorted({v for v in col['vals'] if not missing(v)})
        kind = col['kind']
        if kind == 'ignore':
            sch.append((col['name'], 'ignore', col['index']))
            continue
        if kind == 'numeric':
            text, want = 'normal', None
        elif kind == 'two' and col['k'] is None:
            text, want = 'bernoulli', None
            if len(levels) != 2:
                bad.append(col['name'])
        elif col['k'] is None:
            text, want = 'categorical', {'k': len(levels)}
        else:
            text, want = 'categorical(k=%d)' % col['k'], {
                'k': float(col['k'])}
            if len(levels) > col['k']:
                bad.append(col['name'])
        sch.append((col['name'], text, col['index']))
        expect.append((col, text.split('(')[0], want, levels))
    before_sch = list(sch)
    if bad:
        raises('schema %r with %r' % (sch, bad), (AssertionError, ValueError),
            lambda: du.parse_schema(sch, df))
        return {'nontrivial': False, 'labels': ['rejected']}
    if not expect:
        return {'nontrivial': False}
    T, outputs, cctypes, args, valmap, columns = du.parse_schema(sch, df)
    equal('columns', columns, [e[0]['name'] for e in expect])
    equal('outputs', outputs, [e[0]['index'] for e in expect])
    equal('cctypes', cctypes, [e[1] for e in expect])
    equal('distargs', args, [e[2] for e in expect])
    equal('coded columns', sorted(valmap), sorted(e[0]['name']
        for e in expect if e[1] != 'normal'))
    n = len(c['cols'][0]['vals'])
    equal('shape', T.shape, (n, len(expect)))
    for j, (col, kind, _want, levels) in enumerate(expect):
        if kind != 'normal':
            code = valmap[col['name']]
            equal('levels of %s' % col['name'], sorted(code), levels)
            equal('codes of %s' % col['name'], [code[v] for v in levels],
                list(range(len(levels))))
        for i, v in enumerate(col['vals']):
            got = T[i, j]
            if missing(v):
                check(pd.isnull(got), 'cell %d of %s: %r instead of missing',
                    i, col['name'], got)
            else:
                want = v if kind == 'normal' else levels.index(v)
                check(not pd.isnull(got) and float(got) == want,
                    'cell %d of %s: %r instead of %r', i, col['name'], got,
                    want)
    check(before.equals(df), 'the table was modified')
    equal('schema after', sch, before_sch)
    return {'nontrivial': len(expect) >= 2}


@PROP.sub('valmap', hs.lists(hs.one_of(hs.sampled_from(WORDS), hs.none()),
    min_size=1, max_size=10), quick=1000)
def valmap(c):
    s = pd.Series([np.nan if v is None else v for v in c], dtype=object)
    got = du.build_valmap(s)
    equal('valmap of %r' % c, got, {v: i for i, v in enumerate(sorted(
        {v for v in c if v is not None}))})
    return {'nontrivial': len(got) >= 2}


# --------------------------------------------------------------------------
# Dummy coding.

@hs.composite
def covariates(draw, bad=False):
    n = draw(hs.integers(0, 6))
    x, discretes = [], {}
    for i in range(n):
        if draw(hs.booleans()):
            k = draw(hs.integers(1, 6))
            discretes[str(i)] = k
            v = draw(hs.integers(0, k - 1))
            x.append(float(v) if draw(hs.booleans()) else v)
        else:
            x.append(draw(hs.integers(-9, 9)) / 2.)
    return {'x': x, 'discretes': discretes,
        'which': draw(hs.integers(0, 5)), 'bad': draw(hs.sampled_from(
            ['k', '-1', '.5', 'k+1', 'nan']))}


@PROP.sub('dummy-code', covariates(), quick=3000)
def dummy(c):
    x = list(c['x'])
    disc = {int(k): v for k, v in c['discretes'].items()}
    got = du.dummy_code(x, disc)
    want = []
    for i, v in enumerate(c['x']):
        if i in disc:
            want += [1 if v == j else 0 for j in range(disc[i] - 1)]
        else:
            want.append(v)
    equal('dummy_code(%r, %r)' % (x, disc), list(got), want)
    equal('covariates after', x, c['x'])
    got.append(0)
    equal('covariates share the result', x, c['x'])
    equal('discretes after', disc, {int(k): v
        for k, v in c['discretes'].items()})
    if disc:
        i = sorted(disc)[c['which'] % len(disc)]
        k = disc[i]
        x[i] = {'k': k, '-1': -1, '.5': .5, 'k+1': float(k + 1),
            'nan': float('nan')}[c['bad']]
        raises('dummy_code(%r, %r)' % (x, disc), (ValueError, TypeError),
            lambda: du.dummy_code(x, disc))
    return {'nontrivial': len(disc) >= 1 and len(disc) < len(c['x'])}


# --------------------------------------------------------------------------
# Partitions.

@hs.composite
def partition(draw):
    n = draw(hs.integers(1, 9))
    Z = {str(i): draw(hs.integers(0, 3)) for i in range(n)}
    vs = draw(hs.permutations(list(range(n))))
    a = draw(hs.integers(0, n))
    b = draw(hs.integers(a, n))
    return {'Z': Z, 'q': vs[:a], 'e': vs[a:b], 'dict': draw(hs.booleans()),
        'none': draw(hs.booleans()),
        'vals': [draw(hs.integers(-5, 5)) for _ in range(n)]}


@PROP.sub('partition', partition(), quick=3000)
def partitions(c):
    Z = {int(k): v for k, v in c['Z'].items()}
    q = {v: c['vals'][v] for v in c['q']} if c['dict'] else list(c['q'])
    e = None if c['none'] and not c['e'] else {v: c['vals'][v]
        for v in c['e']}
    before = copy.deepcopy((Z, q, e))

    def want_dict(d):
        w = {}
        for v in d:
            w.setdefault(Z[v], {})[v] = d[v]
        return w
    want_q = want_dict(q) if c['dict'] else {k: [v for v in c['q']
        if Z[v] == k] for k in {Z[v] for v in c['q']}}
    want_e = want_dict(e or {})
    gq, ge = vu.partition_query_evidence(Z, q, e)
    equal('partitioned query', gq, want_q)
    equal('partitioned evidence', ge, want_e)
    if c['dict']:
        equal('partition_dict', vu.partition_dict(Z, q), want_q)
    else:
        equal('partition_list', vu.partition_list(Z, q), want_q)
        zl = [Z[i] for i in range(len(Z))]
        equal('partition_list by a list', vu.partition_list(zl, q), want_q)
    for g in list(gq.values()) + list(ge.values()):
        if isinstance(g, dict):
            g[-1] = 0
        else:
            g.append(-1)
    equal('arguments after', (Z, q, e), before)
    raises('unassigned item', (KeyError, IndexError),
        lambda: vu.partition_query_evidence(Z, [99], None))
    return {'nontrivial': len(want_q) >= 2}


@PROP.sub('debug-flag', hs.one_of(hs.none(), hs.integers(0, 3).map(str)),
    quick=20, shards=1)
def debug_flag(c):
    import os
    old = os.environ.pop('GPMCCDEBUG', None)
    try:
        if c is not None:
            os.environ['GPMCCDEBUG'] = c
        equal('check_env_debug with %r' % c, cu.check_env_debug(),
            False if c is None else int(c))
    finally:
        os.environ.pop('GPMCCDEBUG', None)
        if old is not None:
            os.environ['GPMCCDEBUG'] = old


# --------------------------------------------------------------------------
# Statistical type of each column type.

#            collapsed, continuous, conditional, numeric
FLAGS = {
    'bernoulli': (True, False, False, False),
    'beta': (False, True, False, True),
    'categorical': (True, False, False, False),
    'crp': (True, False, False, False),
    'exponential': (True, True, False, True),
    'geometric': (True, False, False, True),
    'linear_regression': (True, True, True, True),
    'lognormal': (True, True, False, True),
    'normal': (True, True, False, True),
    'normal_trunc': (False, True, False, True),
    'poisson': (True, False, False, True),
    'random_forest': (False, False, True, False),
    'vonmises': (True, True, False, True)}


@PROP.sub('type-flags', hs.tuples(hs.sampled_from(sorted(FLAGS)),
    hs.booleans()), quick=120, thorough=120)
def flags(c):
    name, instance = c
    cls = cu.cctype_class(name)
    m = cls
    if instance and not FLAGS[name][2]:
        m = cls(outputs=[3], inputs=[], distargs={'k': 3, 'l': 0., 'h': 1.},
            rng=np.random.RandomState(1))
    equal('name of %s' % name, m.name(), name)
    equal('collapsed, continuous, conditional and numeric flags of %s' % name,
        (m.is_collapsed(), m.is_continuous(), m.is_conditional(),
            m.is_numeric()), FLAGS[name])
    equal('class of the type %s' % cls.name(), cu.cctype_class(cls.name()),
        cls)
    return {'nontrivial': instance, 'labels': [name]}
