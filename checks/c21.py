"""C21: structure analysis of networks of models."""

import copy

from vlib.harness import Property, check, equal, hs, fail, raises

from cgpm.network import helpers as hu
from cgpm.network.importance import ImportanceNetwork

TECHNIQUE = ('property-based testing: generated graphs of models against '
    'brute-force reachability over the corresponding directed graph')
NOTE = ('Random search with shrinking over acyclic and cyclic graphs with '
    'several outputs and inputs per model; the oracle is a transitive closure '
    'coded separately.')
PROP = Property('C21',
    'Cases are lists of models given by outputs and inputs (up to 8 models, '
    'some inputs external), acyclic by construction or arbitrary. '
    'Non-trivial: at least three models and two edges.')


class Stub(object):
    def __init__(self, outputs, inputs):
        self.outputs, self.inputs = list(outputs), list(inputs)

    def __repr__(self):
        return 'M(%s<-%s)' % (self.outputs, self.inputs)


@hs.composite
def graph(draw, acyclic=True, max_models=8, min_models=1):
    n = draw(hs.integers(min_models, max_models))
    names = draw(hs.permutations(list(range(3 * n))))
    names = list(names)
    models, outs = [], []
    for i in range(n):
        k = draw(hs.sampled_from([1, 1, 1, 2, 3]))
        outs.append([names.pop() for _ in range(k)])
    near = draw(hs.sampled_from([2, 5, 99]))        # Long chains, or wide.
    for i in range(n):
        pool = [v for j in range(n) for v in outs[j]
            if (i - near <= j < i if acyclic else True)]
        ext = [100, 101, 102]
        ins = []
        for _ in range(draw(hs.sampled_from([0, 1, 1, 2, 3]))):
            v = draw(hs.sampled_from(pool + ext if draw(hs.integers(0, 4)) == 0
                or not pool else pool))
            if v not in ins:
                ins.append(v)
        models.append([outs[i], ins])
    perm = draw(hs.permutations(list(range(n))))
    return [models[i] for i in perm]


def big(acyclic=True):
    return graph(acyclic, 30, 12)


def build(c):
    return [Stub(o, i) for o, i in c]


def producer(c):
    return {v: i for i, (o, _) in enumerate(c) for v in o}


def closure(c):
    """reach[i]: models from which model i is reachable (strict, by edges)."""
    prod = producer(c)
    par = [{prod[v] for v in ins if v in prod} for _, ins in c]
    reach = [set(p) for p in par]
    while True:
        changed = False
        for i in range(len(c)):
            for j in list(reach[i]):
                if not reach[j] <= reach[i]:
                    reach[i] |= reach[j]
                    changed = True
        if not changed:
            return par, reach


def nontrivial(c):
    par, _ = closure(c)
    return len(c) >= 3 and sum(map(len, par)) >= 2


def unchanged(c, cgpms):
    equal('models after the query', [[m.outputs, m.inputs] for m in cgpms], c)


@PROP.sub('relations', graph(), quick=4000)
def relations(c):
    cgpms, prod = build(c), producer(c)
    par, reach = closure(c)
    v_to_c = hu.retrieve_variable_to_cgpm(cgpms)
    equal('variable to model', v_to_c, prod)
    adj = hu.retrieve_adjacency_list(cgpms, v_to_c)
    equal('models in the adjacency list', sorted(adj), list(range(len(c))))
    for i in adj:
        equal('number of parents listed', len(adj[i]), len(set(adj[i])))
        equal('parents of %d in %r' % (i, c), set(adj[i]), par[i])
    A = hu.retrieve_adjacency_matrix(cgpms, v_to_c)
    for i in range(len(c)):
        for j in range(len(c)):
            equal('adjacency[%d, %d]' % (j, i), bool(A[j, i]), j in par[i])
    ext = hu.retrieve_extraneous_inputs(cgpms, v_to_c)
    equal('extraneous inputs', sorted(ext), sorted(v for _, ins in c
        for v in ins if v not in prod))
    check(hu.validate_cgpms(cgpms) is cgpms or
        hu.validate_cgpms(cgpms) == cgpms, 'validate_cgpms rejects')
    unchanged(c, cgpms)
    return {'nontrivial': nontrivial(c)}


@PROP.sub('large-relations', big(), quick=300)
def large_relations(c):
    return relations(c)


def valid_order(what, order, par):
    equal('%s lists every model once' % what, sorted(order),
        list(range(len(par))))
    pos = {m: i for i, m in enumerate(order)}
    for m in order:
        for p in par[m]:
            check(pos[p] < pos[m], '%s: %d precedes its parent %d in %r',
                what, m, p, order)


@PROP.sub('topological-order', graph(), quick=3000)
def topological(c):
    cgpms, prod = build(c), producer(c)
    par, _ = closure(c)
    adj = {i: sorted(p) for i, p in enumerate(par)}
    before = copy.deepcopy(adj)
    valid_order('topological_sort', hu.topological_sort(adj), par)
    equal('argument of topological_sort', adj, before)
    valid_order('topological_sort of a list',
        hu.topological_sort(list(adj.items())), par)
    got = hu.topological_sort({i: adj[i] + [1000 + i] for i in adj})
    valid_order('topological_sort with external parents', got, par)
    net = ImportanceNetwork(cgpms=cgpms, accuracy=1)
    valid_order('network order', list(net.topo), par)
    unchanged(c, cgpms)
    return {'nontrivial': nontrivial(c)}


@PROP.sub('large-topological-order', big(), quick=300)
def large_topological(c):
    return topological(c)


@PROP.sub('ancestry', graph(), quick=4000)
def ancestry(c):
    cgpms, prod = build(c), producer(c)
    par, reach = closure(c)
    for q in prod:
        i = prod[q]
        want = {v for j in reach[i] | {i} for v in c[j][1]}
        equal('ancestors of %r in %r' % (q, c),
            set(hu.retrieve_ancestors(cgpms, q)), want)
        # Descendants of q: models which use q, and everything below them.
        below = {j for j in range(len(c)) if q in c[j][1]}
        below |= {j for j in range(len(c)) if reach[j] & below}
        # Reaching by way of a sibling output is also a path through models
        # below only; siblings of q itself do not count.
        want = descend(c, q)
        equal('descendants of %r in %r' % (q, c),
            set(hu.retrieve_descendents(cgpms, q)), want)
    for bad in (-1, 999, 100):
        if bad not in prod:
            raises('ancestors of unknown %r' % bad, ValueError,
                lambda: hu.retrieve_ancestors(cgpms, bad))
            raises('descendants of unknown %r' % bad, ValueError,
                lambda: hu.retrieve_descendents(cgpms, bad))
    unchanged(c, cgpms)
    return {'nontrivial': nontrivial(c)}


@PROP.sub('large-ancestry', graph(True, 12, 9), quick=300)
def large_ancestry(c):
    return ancestry(c)


def descend(c, q):
    found, todo = set(), [q]
    while todo:
        v = todo.pop()
        for o, ins in c:
            if v in ins:
                for w in o:
                    if w not in found:
                        found.add(w)
                        todo.append(w)
    return found


@PROP.sub('components', graph(False), quick=3000)
def components(c):
    cgpms = build(c)
    par, _ = closure(c)
    comp = list(range(len(c)))
    for _ in c:
        for i in range(len(c)):
            for j in par[i]:
                m = min(comp[i], comp[j])
                comp = [m if x in (comp[i], comp[j]) else x for x in comp]
    labels = list(hu.retrieve_weakly_connected_components(cgpms))
    equal('number of labels', len(labels), len(c))
    for i in range(len(c)):
        for j in range(len(c)):
            equal('models %d and %d connected in %r' % (i, j, c),
                bool(labels[i] == labels[j]), comp[i] == comp[j])
    unchanged(c, cgpms)
    return {'nontrivial': nontrivial(c)}


@PROP.sub('large-components', big(False), quick=200)
def large_components(c):
    return components(c)


@PROP.sub('rejection', graph(False), quick=4000)
def rejection(c):
    """Cyclic graphs are rejected, and only those."""
    cgpms = build(c)
    par, reach = closure(c)
    cyclic = any(i in reach[i] for i in range(len(c)))
    adj = {i: sorted(p) for i, p in enumerate(par)}
    if cyclic:
        raises('topological_sort of cyclic %r' % c, ValueError,
            lambda: hu.topological_sort(adj))
        raises('network of cyclic %r' % c, ValueError,
            lambda: ImportanceNetwork(cgpms=cgpms, accuracy=1))
    else:
        valid_order('topological_sort', hu.topological_sort(adj), par)
        ImportanceNetwork(cgpms=cgpms, accuracy=1)
    return {'nontrivial': nontrivial(c), 'labels': [
        'cyclic' if cyclic else 'acyclic']}


@PROP.sub('large-rejection', big(False), quick=300)
def large_rejection(c):
    return rejection(c)


@PROP.sub('duplicates', hs.tuples(graph(), hs.integers(0, 20),
    hs.integers(0, 20), hs.booleans()), quick=1500)
def duplicates(t):
    c, i, j, empty = t
    cgpms = build(c)
    i, j = i % len(c), j % len(c)
    if empty:
        cgpms[i].outputs = []
    elif i == j:
        return {'nontrivial': False}
    else:
        cgpms[i].outputs = cgpms[i].outputs + [cgpms[j].outputs[-1]]
    raises('models %r' % cgpms, ValueError, lambda: hu.validate_cgpms(cgpms))
    raises('network of %r' % cgpms, ValueError,
        lambda: ImportanceNetwork(cgpms=cgpms, accuracy=1))
    return {'nontrivial': nontrivial(c)}


@hs.composite
def query(draw, **kw):
    c = draw(graph(**kw))
    vs = sorted(producer(c))
    vs = list(draw(hs.permutations(vs)))
    nt = draw(hs.integers(1, len(vs)))
    nc = draw(hs.integers(0, len(vs) - nt))
    return {'c': c, 'targets': vs[:nt], 'constraints': vs[nt:nt + nc],
        'flag': draw(hs.booleans())}


@PROP.sub('required-inputs', query(), quick=4000)
def required(q):
    """The latent variables a query needs are the unqueried ancestors of its
    targets and constraints."""
    c, targets = q['c'], list(q['targets'])
    constraints = {v: 0 for v in q['constraints']}
    cgpms, prod = build(c), producer(c)
    par, reach = closure(c)
    topo = hu.topological_sort({i: sorted(p) for i, p in enumerate(par)})
    ext = hu.retrieve_extraneous_inputs(cgpms, prod)
    t = {v: 1 for v in targets} if q['flag'] else list(targets)
    got = hu.retrieve_required_inputs(cgpms, topo, t, constraints, ext)
    want = set()
    for v in targets + list(constraints):
        i = prod[v]
        for j in reach[i] | {i}:
            want |= set(c[j][1])
    want = {v for v in want if v in prod and v not in targets
        and v not in constraints}
    equal('required inputs of %r' % q, sorted(got), sorted(want))
    equal('targets after', sorted(t), sorted(targets))
    unchanged(c, cgpms)
    return {'nontrivial': nontrivial(c) and bool(want)}


@PROP.sub('large-required-inputs', query(max_models=12, min_models=8),
    quick=300)
def large_required(q):
    return required(q)
