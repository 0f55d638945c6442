"""C20: networks of models answer queries as the joint requires."""

import math

import numpy as np

from vlib import nets, stats
from vlib.harness import Property, check, equal, same, hs, fail, raises

TECHNIQUE = ('property-based testing: generated acyclic networks of exact '
    'discrete models against enumeration of the joint distribution, '
    'goodness-of-fit of samples and convergence bounds of estimates')
NOTE = ('Random search with shrinking over networks of up to 4 models and 6 '
    'variables. Queries whose ancestors are fixed are compared exactly, '
    'estimates within six standard errors of the exact conditional, samples '
    'with two-stage goodness of fit.')
PROP = Property('C20',
    'Cases are directed acyclic networks of discrete models (several outputs '
    'per model, shared parents, external inputs, any listing order) with '
    'queries. Non-trivial: at least two models are connected by an edge.',
    ['convergence is checked for tables bounded away from zero'])

from cgpm.network.importance import ImportanceNetwork

INF = float('inf')


def linked(net):
    own = nets.owner(net)
    return any(v in own for d in net['nodes'] for v in d['ins'])


@hs.composite
def assign(draw, net, vs):
    lv = nets.levels(net)
    return [[v, draw(hs.integers(0, lv[v] - 1))] for v in vs]


@hs.composite
def case(draw, closed, **kw):
    net = draw(nets.network(**kw))
    vs = nets.variables(net)
    order = list(draw(hs.permutations(vs)))
    nc = draw(hs.integers(0, len(vs) - 1))
    C = set(order[:nc])
    if closed:
        C = nets.upward(net, C)
    rest = [v for v in order if v not in C]
    if not rest:
        C, rest = set(), order
    nt = draw(hs.integers(1, len(rest)))
    T = rest[:nt]
    if closed:
        both = nets.upward(net, set(T) | C)
        T = [v for v in order if v in both and v not in C]
    C = [v for v in order if v in C]
    return {'net': net, 'T': draw(assign(net, T)), 'C': draw(assign(net, C)),
        'I': draw(assign(net, [v for v, _ in net['ext']])),
        'rowid': draw(hs.sampled_from([None, -1, 0, 3, 17])),
        'seed': draw(hs.integers(0, 2**31 - 1)),
        'extra': draw(hs.booleans()), 'order2': draw(hs.permutations(
            range(len(net['nodes']))))}


def dic(x):
    return {k: v for k, v in x}


def inputs_for(c):
    """External inputs: all of them, some models may not be asked."""
    return dic(c['I'])


def make(c, accuracy=None, order=None, seed=None):
    rng = np.random.RandomState(c['seed'] if seed is None else seed)
    nodes = nets.build(c['net'], rng, order)
    return ImportanceNetwork(nodes, accuracy=accuracy, rng=rng), nodes


def untouched(c, nodes, order=None):
    order = c['net']['order'] if order is None else order
    for i, m in zip(order, nodes):
        d = c['net']['nodes'][i]
        equal('outputs and inputs of a model after queries',
            [m.outputs, m.inputs], [d['outs'], d['ins']])


@PROP.sub('fixed-ancestors', case(True, zeros=True), quick=3000)
def exact(c):
    """Every variable between targets and constraints is given."""
    net, I = c['net'], inputs_for(c)
    T, C = dic(c['T']), dic(c['C'])
    J = nets.joint(net, I)
    got = []
    for order in (net['order'], c['order2']):
        n, nodes = make(c, order=order)
        args = [dict(T), dict(C) if C or c['extra'] else None,
            dict(I) if I or c['extra'] else None]
        if nets.prob(net, J, C) == 0:
            raises('logpdf with constraints of density zero', (ValueError,),
                lambda: n.logpdf(c['rowid'], args[0], args[1], args[2]))
            return {'nontrivial': False, 'labels': ['impossible']}
        got.append(n.logpdf(c['rowid'], args[0], args[1], args[2]))
        same('logpdf(%r | %r; %r)' % (T, C, I), got[-1],
            nets.logprob(net, J, T, C))
        equal('query given to logpdf', args, [T, C if C or c['extra'] else
            None, I if I or c['extra'] else None])
        untouched(c, nodes, order)
        for m in nodes:
            check(m.rowids <= {c['rowid']}, 'models were asked about rows %r, '
                'not %r', m.rowids, c['rowid'])
    same('logpdf for another listing of the models', got[1], got[0])
    # Chain rule: the same joint one variable at a time is exact as well when
    # taken in topological order.
    n, _ = make(c)
    total, given = 0., dict(C)
    for v in nets.variables(net):
        if v in T:
            lp = n.logpdf(c['rowid'], {v: T[v]}, dict(given), dict(I))
            total += lp
            if lp == -INF:
                break
            given[v] = T[v]
    same('sum of the conditional log densities', total, got[0])
    return {'nontrivial': linked(net) and len(T) > 0,
        'labels': ['constrained'] if C else []}


@PROP.sub('large-networks', case(True, zeros=True, min_nodes=5, max_nodes=8,
    max_vars=9), quick=500)
def large_networks(c):
    return exact(c)


@PROP.sub('estimates', case(False, lo=(.3, 1.), min_nodes=2, max_nodes=3,
    max_vars=4), quick=400)
def estimates(c):
    """Importance sampling converges to the exact conditional."""
    net, I = c['net'], inputs_for(c)
    T, C = dic(c['T']), dic(c['C'])
    J = nets.joint(net, I)
    want = nets.logprob(net, J, T, C)
    both = dict(C)
    both.update(T)
    m1, s1 = nets.weights(net, I, both)
    m0, s0 = nets.weights(net, I, C) if C else (1., 0.)
    same('reference', math.log(m1 / m0), want)

    def off(order, accuracy, seed):
        n, nodes = make(c, accuracy, order, seed)
        got = n.logpdf(c['rowid'], dict(T), dict(C) or None, dict(I) or None)
        untouched(c, nodes, order)
        se = math.sqrt((s1 / m1)**2 + (s0 / m0)**2) / math.sqrt(accuracy)
        return abs(got - want), 6 * se + 1e-9, got
    for k, order in enumerate((net['order'], c['order2'])):
        d, tol, _ = off(order, 200, c['seed'] + k)
        if d > tol:
            d, tol, got = off(order, 4000, c['seed'] + 7 + k)
            check(d <= tol, 'logpdf(%r | %r; %r) with 4000 samples is %r, '
                'expected %r +- %.3g', T, C, I, got, want, tol)
    return {'nontrivial': linked(net) and s1 + s0 > 1e-9}


def draws(c, T, C, I, accuracy, orders, per_call=50):
    calls = [0]

    def draw(n):
        out = []
        while len(out) < n:
            calls[0] += 1
            order = orders[calls[0] % len(orders)]
            net, nodes = make(c, accuracy, order, c['seed'] + 13 * calls[0])
            k = min(per_call, n - len(out))
            t = list(T)
            one = calls[0] % 7 == 3
            xs = net.simulate(c['rowid'], t, dict(C) or None, dict(I) or
                None, None if one else k)
            equal('targets given to simulate', t, list(T))
            if one:
                check(isinstance(xs, dict), 'simulate without N gave %r', xs)
                xs = [xs]
            else:
                check(isinstance(xs, list) and len(xs) == k,
                    'simulate with N=%d gave %d samples', k, len(xs))
            for x in xs:
                check(set(x) == set(T), 'sample %r of targets %r', x, T)
            out += [tuple(int(x[v]) for v in T) for x in xs]
            untouched(c, nodes, order)
        return out[:n]
    return draw


@PROP.sub('samples-exact', case(True, max_vars=5), quick=300)
def samples_exact(c):
    """Forward sampling: constraints hold every ancestor they have."""
    net, I = c['net'], inputs_for(c)
    C = dic(c['C'])
    T = [v for v, _ in c['T']]
    T = T[:3]
    if not T:
        return {'nontrivial': False}
    J = nets.joint(net, I)
    stats.discrete('sample of %r given %r and inputs %r' % (T, C, I),
        draws(c, T, C, I, None, [net['order'], c['order2']]),
        nets.distribution(net, J, T, C), 300, 4000)
    return {'nontrivial': linked(net)}


@PROP.sub('large-samples', case(True, min_nodes=4, max_nodes=7, max_vars=8),
    quick=120)
def large_samples(c):
    return samples_exact(c)


@hs.composite
def batch_case(draw):
    c = draw(case(True, max_vars=6))
    c['N'] = draw(hs.sampled_from([2, 5, 20, 60]))
    c['accuracy'] = draw(hs.sampled_from([None, 1, 3]))
    return c


@PROP.sub('batches', batch_case(), quick=150, timeout=200.)
def batches(c):
    """The samples of one call are independent of each other."""
    net, I, N = c['net'], inputs_for(c), c['N']
    C = dic(c['C'])
    T = [v for v, _ in c['T']][:3]
    if not T:
        return {'nontrivial': False}
    D = nets.distribution(net, nets.joint(net, I), T, C)
    k = min(sorted(D), key=lambda x: abs(D[x] - .4))
    if not .05 < D[k] < .95:
        return {'nontrivial': False}
    live, _nodes = make(c, c['accuracy'], c['order2'])
    stats.dispersion('samples of %r given %r and inputs %r, N=%d' % (T, C, I,
        N), lambda: sum(tuple(int(x[v]) for v in T) == k
            for x in live.simulate(c['rowid'], list(T), dict(C) or None,
                dict(I) or None, N)), D[k], N, 30, 300)
    return {'nontrivial': linked(net), 'labels': ['N=%d' % N]}


@PROP.sub('samples-conditioned', case(False, lo=(1.,), min_nodes=2,
    max_nodes=3, max_vars=4), quick=150)
def samples_conditioned(c):
    net, I = c['net'], inputs_for(c)
    C = dic(c['C'])
    T = [v for v, _ in c['T']][:2]
    J = nets.joint(net, I)
    stats.discrete('sample of %r given %r and inputs %r' % (T, C, I),
        draws(c, T, C, I, 64, [net['order'], c['order2']]),
        nets.distribution(net, J, T, C), 150, 1500)
    below = set(C) & nets.upward(net, set(T)) != set(C)
    return {'nontrivial': linked(net) and bool(C),
        'labels': ['evidence-elsewhere'] if below else []}


@PROP.sub('samples-rare-evidence', case(False, lo=(.0005, .004), min_nodes=2,
    max_nodes=3, max_vars=4, sharp=(4, 8)), quick=200, thorough=800, timeout=200.)
def samples_rare_evidence(c):
    """Evidence which few importance samples explain: with enough of them the
    samples still follow the conditional."""
    net, I = c['net'], inputs_for(c)
    lv, options = nets.levels(net), []
    for v in nets.variables(net):
        for x in range(lv[v]):
            m, s = nets.weights(net, I, {v: x})
            need = 40. * (s / m)**2 if m > 0 else 1e9
            if 8 < need < 1200:
                options.append((v, x, need))
    if not options:
        return {'nontrivial': False}
    v, x, need = options[c['seed'] % len(options)]
    C = {v: x}
    above = [w for w in nets.upward(net, {v}) if w != v and w in lv]
    T = (sorted(above, key=nets.variables(net).index) + [w for w, _ in
        c['T'] if w != v and w not in above])[:2]
    J = nets.joint(net, I)
    stats.discrete('sample of %r given %r and inputs %r (accuracy %d)' % (T,
        C, I, need), draws(c, T, C, I, int(need) + 1, [net['order'],
        c['order2']]), nets.distribution(net, J, T, C), 60, 500)
    return {'nontrivial': True, 'labels': ['accuracy-%d+' % (
        100 * int(need / 100))]}


@PROP.sub('impossible', case(False, zeros=True, max_vars=5), quick=1500)
def impossible(c):
    """Zero-density events: support of samples, densities of -inf."""
    net, I = c['net'], inputs_for(c)
    T, C = dic(c['T']), dic(c['C'])
    J = nets.joint(net, I)
    n, _ = make(c, 20)
    pc = nets.prob(net, J, C)
    both = dict(C)
    both.update(T)
    labels = []
    if pc == 0:
        labels.append('impossible-constraints')
        raises('logpdf given %r' % C, (ValueError,),
            lambda: n.logpdf(c['rowid'], dict(T), dict(C), dict(I)))
        # Some model may itself refuse to sample.
        raises('simulate given %r' % C, (ValueError,),
            lambda: n.simulate(c['rowid'], list(T), dict(C), dict(I)))
    else:
        D = nets.distribution(net, J, list(T), C)
        try:
            xs = n.simulate(c['rowid'], list(T), dict(C) or None, dict(I) or
                None, 20)
        except ValueError:
            # All importance samples had weight zero.
            m, s = nets.weights(net, I, C) if C else (1., 0.)
            check(s > 0, 'simulate of %r given %r was refused', list(T), C)
            return {'nontrivial': False}
        for x in xs:
            k = tuple(int(x[v]) for v in T)
            check(D.get(k, 0) > 0, 'sampled %r given %r, which has '
                'probability zero', x, C)
        if nets.prob(net, J, both) == 0:
            labels.append('impossible-targets')
            try:
                equal('logpdf of impossible %r given %r' % (T, C),
                    n.logpdf(c['rowid'], dict(T), dict(C) or None, dict(I)
                    or None), -INF)
            except ValueError:
                m, s = nets.weights(net, I, C) if C else (1., 0.)
                check(s > 0, 'logpdf of %r given %r was refused', T, C)
    return {'nontrivial': bool(labels), 'labels': labels}


@PROP.sub('refused', case(False), quick=800)
def refused(c):
    """Networks which are not networks."""
    net = c['net']
    rng = np.random.RandomState(0)
    nodes = nets.build(net, rng)
    vs = nets.variables(net)

    class Plain(object):
        def __init__(self, outputs, inputs):
            self.outputs, self.inputs = outputs, inputs
    raises('a model with an output which another model has', (ValueError,),
        lambda: ImportanceNetwork(nodes + [Plain([99, vs[0]], [])]))
    raises('a model without outputs', (ValueError,),
        lambda: ImportanceNetwork([Plain([], [vs[0]])] + nodes))
    raises('a cycle of two models', (ValueError,), lambda: ImportanceNetwork(
        nodes + [Plain([101], [102]), Plain([102], [101])]))
    raises('a model which is its own input', (ValueError,),
        lambda: ImportanceNetwork(nodes + [Plain([101], [101])]))
    ImportanceNetwork(nodes + [Plain([101], [102]), Plain([102], [])])
    return {'nontrivial': len(nodes) > 1}
