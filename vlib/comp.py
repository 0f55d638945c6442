"""Crosscat states composed with other models, and conditional columns.

Spec (JSON): {'state': mix spec, 'foreign': [node..], 'seed'}.  A node is
{'kind', 'outs', 'ins', 'types' (of the inputs), 'rows': [[obs pairs, input
pairs]..], ...}.  Inputs are columns of the state or outputs of earlier nodes.
"""

import math

import numpy as np

from vlib import mix, models, prims
from vlib.harness import hs

DISTS = ['bernoulli', 'categorical', 'normal', 'poisson', 'normal']
quarter = models.quarter


def type_of(col):
    if col['dist'] == 'categorical':
        return ['categorical', int(col['distargs']['k'])]
    if col['dist'] == 'bernoulli':
        return ['categorical', 2]
    return ['numerical', None]


def value_of_type(t):
    return quarter if t[1] is None else hs.integers(0, t[1] - 1)


@hs.composite
def foreign(draw, avail, names, kinds):
    """avail: [[variable, type]] which may be inputs."""
    kind = draw(hs.sampled_from(kinds))
    node = {'kind': kind, 'ins': [], 'types': []}
    n = draw(hs.integers(0, 6))
    if kind in ('linreg', 'forest', 'ols'):
        pick = draw(hs.lists(hs.sampled_from(range(len(avail))), min_size=1,
            max_size=2, unique=True))
        if kind == 'forest':
            pick = sorted(pick, key=lambda i: avail[i][0])
            node['k'] = draw(hs.integers(2, 3))
        if kind == 'ols':
            n = max(n, 3)
        node['ins'] = [avail[i][0] for i in pick]
        node['types'] = [avail[i][1] for i in pick]
        out = names.pop()
        node['outs'] = [out]
        otype = ['categorical', node['k']] if kind == 'forest' else \
            ['numerical', None]
        node['otypes'] = [otype]
        node['rows'] = [[[[out, draw(value_of_type(otype))]],
            draw(models.covariates(node['types'], node['ins']))]
            for _ in range(n)]
        if kind == 'ols':
            # No perfect fit, which has no density.
            (obs, ins), = node['rows'][:1]
            node['rows'].append([[[out, obs[0][1] + 1.]], ins])
    elif kind == 'primitive':
        m = draw(prims.model(['normal', 'categorical', 'poisson'], 0))
        out = names.pop()
        val = prims.value_of(m['dist'], m['distargs'])
        node.update(outs=[out], otypes=[type_of(m)], model=m, rows=[
            [[[out, draw(val)]], []] for _ in range(n)])
    else:
        assert kind == 'factor'
        node['outs'] = [names.pop() for _ in range(3)]
        node['otypes'] = [['numerical', None]] * 3
        coef = hs.integers(-6, 6).map(lambda i: i / 4.)
        node['mux'] = [draw(coef) for _ in range(2)]
        node['psi'] = [draw(prims.positive(.2, 3.)) for _ in range(2)]
        node['W'] = [[draw(coef)] for _ in range(2)]
        node['rows'] = [[[[o, draw(quarter)] for o in node['outs'][:2]], []]
            for _ in range(n)]
    return node


@hs.composite
def composite(draw, kinds=('linreg', 'forest', 'ols', 'primitive', 'factor'),
        min_foreign=1, max_foreign=2, **kw):
    kw.setdefault('dists', DISTS)
    kw.setdefault('max_cols', 3)
    kw.setdefault('max_rows', 5)
    s = draw(mix.spec(**kw))
    names = draw(hs.lists(hs.integers(31, 60), min_size=9, max_size=9,
        unique=True))
    avail = [[c['col'], type_of(c)] for c in s['cols']]
    nodes = []
    for _ in range(draw(hs.integers(min_foreign, max_foreign))):
        node = draw(foreign(avail, names, kinds))
        nodes.append(node)
        avail = avail + [[o, t] for o, t in zip(node['outs'],
            node['otypes'])]
    return {'state': s, 'foreign': nodes,
        'seed': draw(hs.integers(0, 2**31 - 1))}


def make(node, seed, rowid0=1000, fit=True):
    rng = np.random.RandomState(seed)
    kind = node['kind']
    args = {'inputs': models.input_distargs(node['types'])}
    if kind == 'linreg':
        from cgpm.regressions.linreg import LinearRegression
        g = LinearRegression(list(node['outs']), list(node['ins']),
            distargs=args, rng=rng)
    elif kind == 'forest':
        from cgpm.regressions.forest import RandomForest
        g = RandomForest(list(node['outs']), list(node['ins']),
            distargs=dict(args, k=node['k']), rng=rng)
    elif kind == 'ols':
        from cgpm.regressions.ols import OrdinaryLeastSquares
        g = OrdinaryLeastSquares(list(node['outs']), list(node['ins']),
            distargs=args, rng=rng)
    elif kind == 'factor':
        from cgpm.factor.factor import FactorAnalysis
        g = FactorAnalysis(list(node['outs']), None, L=1, params={
            'mux': list(node['mux']), 'Psi': np.diag(node['psi']),
            'W': np.asarray(node['W'], float)}, rng=rng)
    else:
        m = dict(node['model'], output=node['outs'][0])
        g = models.build({'kind': 'primitive', 'spec': m}, seed)
    for i, (obs, ins) in enumerate(node['rows']):
        if ins:
            g.incorporate(rowid0 + i, dict(map(tuple, obs)),
                dict(map(tuple, ins)))
        else:
            g.incorporate(rowid0 + i, dict(map(tuple, obs)))
    if fit and (kind == 'ols' or kind == 'forest' and node['rows']):
        g.transition(N=1)
    return g


def twins(c, **kw):
    return [make(n, c['seed'] + 17 * i + 5, **kw)
        for i, n in enumerate(c['foreign'])]


def build(c, **kw):
    """(state, tokens, composed models)."""
    st = mix.build(c['state'], seed=c['seed'])
    gs = twins(c, **kw)
    return st, [st.compose_cgpm(g) for g in gs], gs


def types(c):
    out = {x['col']: type_of(x) for x in c['state']['cols']}
    for n in c['foreign']:
        out.update(zip(n['outs'], n['otypes']))
    return out


def owner(c):
    """variable -> index of the composed model, None for the state."""
    out = {x['col']: None for x in c['state']['cols']}
    for i, n in enumerate(c['foreign']):
        out.update((o, i) for o in n['outs'])
    return out


def value(c, v):
    for x in c['state']['cols']:
        if x['col'] == v:
            return prims.value_of(x['dist'], x['distargs'])
    for n in c['foreign']:
        if v in n['outs']:
            if n['kind'] == 'primitive':
                return prims.value_of(n['model']['dist'],
                    n['model']['distargs'])
            return value_of_type(n['otypes'][n['outs'].index(v)])


def upward(c, vs):
    """vs with all inputs needed to evaluate them exactly."""
    own, need, todo = owner(c), set(vs), list(vs)
    while todo:
        i = own[todo.pop()]
        if i is None:
            continue
        for u in c['foreign'][i]['ins']:
            if u not in need:
                need.add(u)
                todo.append(u)
    return need


def joint_lp(c, gs, values, state_lp):
    """Exact log joint of upward-closed values."""
    own = owner(c)
    mine = {v: x for v, x in values.items() if own[v] is None}
    total = state_lp(mine) if mine else 0.
    for i, n in enumerate(c['foreign']):
        t = {v: x for v, x in values.items() if own[v] == i}
        if t:
            kw = {'inputs': {u: values[u] for u in n['ins']}} if n['ins'] \
                else {}
            lp = float(np.squeeze(gs[i].logpdf(-1, t, None, **kw)))
            total += lp
            if lp == -float('inf'):
                return lp
    return total
