"""Exact discrete networks: generated directed models with known tables.

A network (JSON): {'nodes': [{'outs': [v..], 'levels': [k..], 'ins': [v..],
'seed': int}], 'ext': [[v, k]], 'lo': float}, nodes in topological order.
"""

import itertools
import math

import numpy as np

from vlib.harness import hs, fail, equal, check

INF = float('inf')


@hs.composite
def network(draw, max_nodes=4, max_outs=2, lo=(.15, 1.), min_nodes=1,
        zeros=False, max_vars=6, ext=True, sharp=None):
    n = draw(hs.sampled_from(range(max_nodes, min_nodes - 1, -1)))
    names = draw(hs.lists(hs.integers(0, 40), min_size=20, max_size=20,
        unique=True))
    exts = [[names.pop(), 2] for _ in range(draw(hs.integers(0, 2)))] \
        if ext else []
    nodes, avail = [], []
    for i in range(n):
        outs = [names.pop() for _ in range(draw(hs.integers(1, max_outs)))]
        if len(avail) + len(outs) > max_vars:
            outs = outs[:1]
        pool = avail + [e for e, _ in exts]
        ins = draw(hs.lists(hs.sampled_from(pool), unique=True, max_size=2)
            ) if pool else []
        if avail and not any(v in avail for v in ins) and draw(
                hs.integers(0, 3)):
            ins.append(draw(hs.sampled_from(avail)))
        nodes.append({'outs': outs, 'levels': [draw(hs.integers(2, 3))
            for _ in outs], 'ins': ins, 'seed': draw(hs.integers(0, 10**6)),
            'zeros': draw(hs.booleans()) if zeros else False})
        avail += outs
    net = {'nodes': nodes, 'ext': exts, 'lo': draw(hs.sampled_from(lo)),
        'order': draw(hs.permutations(range(n)))}
    if sharp:
        net['sharp'] = draw(hs.sampled_from(sharp))
    return net


class Node(object):
    """A model with a table of probabilities for each value of its inputs."""

    def __init__(self, net, i, rng):
        d = net['nodes'][i]
        self.outputs, self.inputs = list(d['outs']), list(d['ins'])
        self.levels, self.sharp = d['levels'], net.get('sharp', 1)
        self.d, self.lo, self.rng, self.rowids = d, net['lo'], rng, set()
        self.tables = {}
        self.calls = []

    def table(self, ins):
        if ins not in self.tables:
            r = np.random.RandomState(
                (self.d['seed'] * 1009 + hash(ins)) % (2**31))
            vals = list(itertools.product(*[range(k) for k in self.levels]))
            p = self.lo + r.uniform(size=len(vals))**self.sharp
            if self.d['zeros']:
                p[r.uniform(size=len(vals)) < .4] = 0
                if p.sum() == 0:
                    p[r.randint(len(vals))] = 1
            self.tables[ins] = dict(zip(vals, p / p.sum()))
        return self.tables[ins]

    def key(self, inputs):
        check(set(inputs or {}) == set(self.inputs), 'a model with inputs %r '
            'received the inputs %r', self.inputs, inputs)
        return tuple(int(inputs[v]) for v in self.inputs)

    def restrict(self, table, values):
        pos = {v: j for j, v in enumerate(self.outputs)}
        return {k: p for k, p in table.items()
            if all(k[pos[v]] == x for v, x in values.items())}

    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        self.rowids.add(rowid)
        for q in list(targets) + list(constraints or ()):
            check(q in self.outputs, 'a model of outputs %r was asked for %r',
                self.outputs, q)
        check(not set(targets) & set(constraints or ()), 'overlap')
        t = self.restrict(self.table(self.key(inputs)), constraints or {})
        a = sum(self.restrict(t, targets).values())
        b = sum(t.values())
        if b == 0:
            raise ValueError('zero density constraints')
        return math.log(a / b) if a > 0 else -INF

    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
        self.rowids.add(rowid)
        for q in list(targets) + list(constraints or ()):
            check(q in self.outputs, 'a model of outputs %r was asked for %r',
                self.outputs, q)
        check(not set(targets) & set(constraints or ()), 'a sample of %r is '
            'requested which is given in %r', targets, constraints)
        t = self.restrict(self.table(self.key(inputs)), constraints or {})
        ks = sorted(t)
        p = np.asarray([t[k] for k in ks])
        if p.sum() == 0:
            raise ValueError('zero density constraints')
        pos = {v: j for j, v in enumerate(self.outputs)}
        cdf = np.cumsum(p / p.sum())

        def one():
            i = min(int(np.searchsorted(cdf, self.rng.uniform(),
                side='right')), len(ks) - 1)
            while p[i] == 0:
                i -= 1
            return {v: ks[i][pos[v]] for v in targets}
        return one() if N is None else [one() for _ in range(N)]

    # Serialisation is not part of this model.


def build(net, rng, order=None):
    """Models in the listed order."""
    nodes = [Node(net, i, rng) for i in range(len(net['nodes']))]
    return [nodes[i] for i in (net['order'] if order is None else order)]


def variables(net):
    return [v for d in net['nodes'] for v in d['outs']]


def levels(net):
    out = {v: k for d in net['nodes'] for v, k in zip(d['outs'], d['levels'])}
    out.update(dict(map(tuple, net['ext'])))
    return out


def owner(net):
    return {v: i for i, d in enumerate(net['nodes']) for v in d['outs']}


def upward(net, vs):
    """Variables needed to evaluate the joint of vs exactly, without vs."""
    own, need, todo = owner(net), set(vs), list(vs)
    while todo:
        v = todo.pop()
        if v not in own:
            continue
        for u in net['nodes'][own[v]]['ins']:
            if u in own and u not in need:
                need.add(u)
                todo.append(u)
    return need


def joint(net, inputs):
    """{assignment (tuple in order of variables): probability}."""
    vs = variables(net)
    nodes = [Node(net, i, None) for i in range(len(net['nodes']))]
    out = [({}, 1.)]
    for m in nodes:
        nxt = []
        for a, p in out:
            both = dict(inputs, **{})
            both.update(a)
            t = m.table(tuple(int(both[v]) for v in m.inputs))
            for k, q in t.items():
                if q > 0:
                    b = dict(a)
                    b.update(zip(m.outputs, k))
                    nxt.append((b, p * q))
        out = nxt
    return {tuple(a[v] for v in vs): p for a, p in out}


def prob(net, J, values):
    pos = {v: j for j, v in enumerate(variables(net))}
    return sum(p for k, p in J.items()
        if all(k[pos[v]] == x for v, x in values.items()))


def logprob(net, J, targets, constraints):
    both = dict(constraints)
    both.update(targets)
    a, b = prob(net, J, both), prob(net, J, constraints)
    return math.log(a / b) if a > 0 else -INF


def distribution(net, J, targets, constraints):
    """{tuple of target values: conditional probability}."""
    pos = {v: j for j, v in enumerate(variables(net))}
    out, b = {}, prob(net, J, constraints)
    for k, p in J.items():
        if all(k[pos[v]] == x for v, x in constraints.items()):
            t = tuple(k[pos[v]] for v in targets)
            out[t] = out.get(t, 0.) + p / b
    return out


def weights(net, inputs, fixed):
    """Mean and standard deviation of one likelihood weight of `fixed`:
    ancestors are drawn from the model, fixed variables weigh in."""
    nodes = [Node(net, i, None) for i in range(len(net['nodes']))]
    need = upward(net, fixed)
    own = owner(net)
    out = [({}, 1., 1.)]
    for m in nodes:
        fix = {v: fixed[v] for v in m.outputs if v in fixed}
        draw = [v for v in m.outputs if v in need and v not in fixed]
        if not fix and not draw:
            continue
        nxt = []
        for a, p, w in out:
            both = dict(inputs)
            both.update(a)
            t = m.table(tuple(int(both[v]) for v in m.inputs))
            t1 = m.restrict(t, fix)
            wf = sum(t1.values())
            if wf == 0:
                # Weight zero adds nothing to either moment.
                continue
            groups = {}
            for k, q in t1.items():
                g = tuple(x for v, x in zip(m.outputs, k) if v in draw)
                groups[g] = groups.get(g, 0.) + q / wf
            names = [v for v in m.outputs if v in draw]
            for g, q in groups.items():
                if q > 0:
                    b = dict(a)
                    b.update(fix)
                    b.update(zip(names, g))
                    nxt.append((b, p * q, w * wf))
        out = nxt
    mean = sum(p * w for _, p, w in out)
    second = sum(p * w * w for _, p, w in out)
    return mean, math.sqrt(max(0., second - mean * mean))
