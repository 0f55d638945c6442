"""C06: CRP partitions and constrained partitions."""

import copy
import itertools
import math

import numpy as np

from vlib import stats
from vlib.harness import Property, check, equal, same, hs, fail, raises

from cgpm.primitives.crp import Crp
from cgpm.utils import general as gu
from cgpm.utils import validation as vu

TECHNIQUE = ('property-based testing: generated restaurants and constraints '
    'against enumeration of all set partitions')
NOTE = ('Random search with shrinking. Partition probabilities come from the '
    'sequential seating rule coded separately, sums run over every set '
    'partition of up to 6 customers, samplers are judged by two-stage '
    'goodness of fit, constraints by direct inspection.')
PROP = Property('C06',
    'Cases are restaurants (up to 12 customers at arbitrary table labels), '
    'concentrations, auxiliary table counts, and dependence/independence '
    'constraints over up to 7 customers (valid and invalid). Non-trivial: '
    'at least two tables, or at least one constraint.')

alpha_ = hs.one_of(hs.sampled_from([.1, .5, 1., 2., 5.]), hs.floats(.01, 20))


def partitions(n):
    """All partitions of 0..n-1, as restricted growth strings."""
    def grow(prefix, k):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for t in range(k + 1):
            yield from grow(prefix + [t], max(k, t + 1))
    return list(grow([], 0))


def canonical(Z):
    names = {}
    return tuple(names.setdefault(z, len(names)) for z in Z)


def eppf(Z, alpha):
    """Log probability by seating the customers one at a time."""
    counts, lp = {}, 0.
    for i, z in enumerate(Z):
        lp += math.log(counts.get(z, alpha)) - math.log(i + alpha)
        counts[z] = counts.get(z, 0) + 1
    return lp


def sizes(Z):
    return [sum(1 for z in Z if z == t) for t in sorted(set(Z))]


restaurant = hs.fixed_dictionaries({
    'Z': hs.lists(hs.integers(0, 5), min_size=1, max_size=12),
    'stride': hs.sampled_from([1, 1, 3]), 'alpha': alpha_,
    'm': hs.integers(1, 3), 'who': hs.integers(0, 11),
    'rowids': hs.permutations(list(range(12)))})


@hs.composite
def big_restaurant(draw):
    n = draw(hs.integers(30, 220))
    r = np.random.RandomState(draw(hs.integers(0, 2**31 - 1)))
    K = draw(hs.sampled_from([2, 5, 12, 40, n]))
    return {'Z': [int(z) for z in r.randint(K, size=n)],
        'stride': draw(hs.sampled_from([1, 1, 3])), 'alpha': draw(alpha_),
        'm': draw(hs.integers(1, 3)), 'who': draw(hs.integers(0, n - 1)),
        'rowids': [int(i) for i in r.permutation(n)]}


def seat(c):
    Z = [z * c['stride'] for z in c['Z']]
    crp = Crp([0], [], hypers={'alpha': c['alpha']},
        rng=np.random.RandomState(0))
    rowids = c['rowids'][:len(Z)]
    for r, z in zip(rowids, Z):
        crp.incorporate(r, {0: z})
    return crp, Z, rowids


@PROP.sub('seating', restaurant, quick=3000)
def seating(c):
    crp, Z, rowids = seat(c)
    a = c['alpha']
    same('score of %r' % Z, crp.logpdf_score(), eppf(Z, a))
    same('logp_crp', gu.logp_crp(len(Z), sizes(Z), a), eppf(Z, a))
    # Fresh customer: the existing tables and the new one.
    tables = sorted(set(Z)) + [max(Z) + 1]
    lps = [crp.logpdf(-1, {0: t}) for t in tables]
    same('seating probabilities sum', sum(map(math.exp, lps)), 1.)
    for t, lp in zip(tables, lps):
        same('probability of table %d after %r' % (t, Z), lp,
            eppf(Z + [t], a) - eppf(Z, a))
    for r, z in zip(rowids, Z):
        equal('seated customer', (crp.logpdf(r, {0: z}),
            crp.logpdf(r, {0: max(Z) + 1})), (0, -float('inf')))
    got = gu.logp_crp_fresh(len(Z), [Z.count(t) for t in tables[:-1]], a,
        m=c['m'])
    equal('number of fresh probabilities', len(got),
        len(tables) - 1 + c['m'])
    for t, lp in zip(tables[:-1], got):
        same('fresh customer at %d' % t, lp, eppf(Z + [t], a) - eppf(Z, a))
    for lp in got[len(tables) - 1:]:
        same('fresh auxiliary table', lp, eppf(Z + [max(Z) + 1], a)
            - eppf(Z, a) - math.log(c['m']))
    a2 = a * 1.7 + .1
    n, K = len(Z), len(set(Z))
    same('unnormalised score as a function of alpha',
        gu.logp_crp_unorm(n, K, a2) - gu.logp_crp_unorm(n, K, a),
        eppf(Z, a2) - eppf(Z, a))
    return {'nontrivial': len(set(Z)) >= 2}


@PROP.sub('large-seating', big_restaurant(), quick=400)
def large_seating(c):
    return seating(c)


@PROP.sub('reseating', restaurant, quick=4000)
def reseating(c):
    """Tables and probabilities are those of the restaurant without the
    customer, with m auxiliary tables (its own, when it sits alone)."""
    crp, Z, rowids = seat(c)
    i = c['who'] % len(Z)
    a, m = c['alpha'], c['m']
    without = [z for j, z in enumerate(Z) if j != i]
    before = (crp.N, dict(crp.counts), dict(crp.data))
    tables = list(crp.gibbs_tables(rowids[i], m=m))
    lps = list(crp.gibbs_logps(rowids[i], m=m))
    equal('one probability per table', len(lps), len(tables))
    equal('distinct tables in %r' % tables, len(set(tables)), len(tables))
    equal('restaurant after the queries', (crp.N, dict(crp.counts),
        dict(crp.data)), before)
    existing = set(without)
    check(existing <= set(tables), 'tables %r lack some of %r', tables,
        existing)
    aux = [t for t in tables if t not in existing]
    equal('number of auxiliary tables of %r without customer %d' % (Z, i),
        len(aux), m)
    if Z[i] not in existing:
        check(Z[i] in aux, 'own table of a lone customer is not reused')
    for t, lp in zip(tables, lps):
        p = without.count(t) if t in existing else a / m
        same('reseating customer %d of %r at %d' % (i, Z, t), lp,
            math.log(p))
    # A customer not in the restaurant.
    fresh = list(crp.gibbs_tables(-5, m=m))
    check(set(Z) <= set(fresh), 'fresh tables %r lack some of %r', fresh, Z)
    equal('fresh auxiliary tables', len(set(fresh) - set(Z)), m)
    equal('fresh tables', len(fresh), len(set(fresh)))
    equal('lone customer', bool(crp.singleton(rowids[i])),
        Z[i] not in existing)
    equal('absent customer', bool(crp.singleton(-5)), False)
    # The same computation on plain counts.
    Zc = [sorted(set(Z)).index(z) for z in Z]
    Nk = [Zc.count(k) for k in range(max(Zc) + 1)]
    for counts in (Nk, dict(enumerate(Nk))):
        got = list(gu.logp_crp_gibbs(counts, Zc, i, a, m))
        want = []
        for t in range(len(Nk)):
            n = Nk[t] - (t == Zc[i])
            want.append(math.log(n if n else a / m))
        want += [math.log(a / m)] * (m - (Nk[Zc[i]] == 1))
        equal('number of probabilities', len(got), len(want))
        for g, w in zip(got, want):
            same('logp_crp_gibbs', g, w)
    return {'nontrivial': len(set(Z)) >= 2}


@PROP.sub('large-reseating', big_restaurant(), quick=400)
def large_reseating(c):
    return reseating(c)


@PROP.sub('normalisation', hs.tuples(hs.integers(1, 6), alpha_), quick=200)
def normalisation(c):
    n, a = c
    total = 0.
    for Z in partitions(n):
        lp = gu.logp_crp(n, sizes(Z), a)
        same('logp_crp(%r)' % (Z,), lp, eppf(Z, a))
        total += math.exp(lp)
    same('sum over the partitions of %d' % n, total, 1.)
    return {'nontrivial': n >= 3}


# --------------------------------------------------------------------------
# Constraints.

@hs.composite
def constraints(draw, max_n=6, valid=True, ci=True):
    n = draw(hs.integers(1, max_n))
    order = list(draw(hs.permutations(list(range(n)))))
    Cd = []
    while len(order) >= 2 and draw(hs.booleans()):
        k = draw(hs.integers(2, len(order)))
        Cd.append(order[:k])
        order = order[k:]
    block = {x: i for i, b in enumerate(Cd) for x in b}
    Ci = []
    if ci:
        pairs = [(a, b) for a in range(n) for b in range(n) if a != b
            and (a not in block or b not in block or block[a] != block[b])]
        if pairs:
            Ci = draw(hs.lists(hs.sampled_from(pairs), max_size=4,
                unique_by=lambda t: tuple(sorted(t))))
    return {'n': n, 'Cd': Cd, 'Ci': [list(p) for p in Ci], 'alpha':
        draw(alpha_), 'seed': draw(hs.integers(0, 2**31 - 1))}


def tup(pairs):
    return [tuple(p) for p in pairs]


def admissible(Z, Cd, Ci):
    return all(len({Z[x] for x in b}) == 1 for b in Cd) and \
        all(Z[a] != Z[b] for a, b in Ci)


@hs.composite
def with_rows(draw):
    """Column constraints plus row constraints of some columns."""
    c = draw(constraints(5))
    rows = {}
    for x in range(c['n']):
        if draw(hs.integers(0, 2)) == 0:
            r = draw(constraints(4))
            rows[str(x)] = [r['Cd'], r['Ci']]
    c['rows'] = rows
    return c


def row_constraints(c):
    Rd = {int(k): v[0] for k, v in c['rows'].items() if v[0]}
    Ri = {int(k): tup(v[1]) for k, v in c['rows'].items() if v[1]}
    return Rd, Ri


def direct_conflict(c1, c2):
    """An independence of one inside a dependence block of either."""
    return any(a in b and x in b for Cd in (c1[0], c2[0]) for b in Cd
        for a, x in list(c1[1]) + list(c2[1]))


def satisfiable(c1, c2):
    """The union of both constraint sets has a model."""
    comp = {}

    def find(x):
        while comp.get(x, x) != x:
            x = comp[x]
        return x
    for b in list(c1[0]) + list(c2[0]):
        for x in b[1:]:
            comp[find(x)] = find(b[0])
    return all(find(a) != find(b) for a, b in list(c1[1]) + list(c2[1]))


@PROP.sub('constrained-sampling', with_rows(), quick=4000)
def constrained(c):
    n, Cd, Ci = c['n'], c['Cd'], tup(c['Ci'])
    Rd, Ri = row_constraints(c)
    of = lambda x: (Rd.get(x, []), Ri.get(x, []))
    bad = [(a, b) for block in Cd for a, b in itertools.combinations(block, 2)
        if direct_conflict(of(a), of(b))]
    before = copy.deepcopy((Cd, Ci, Rd, Ri))
    sim = lambda: gu.simulate_crp_constrained(n, c['alpha'], Cd, Ci, Rd, Ri,
        rng=np.random.RandomState(c['seed']))
    if bad:
        raises('dependent columns with contradictory rows', ValueError, sim)
        return {'labels': ['rejected']}
    if not all(satisfiable(of(a), of(b)) for block in Cd
            for a, b in itertools.combinations(block, 2)):
        # A contradiction through several constraints: unspecified.
        return {'nontrivial': False}
    Z = sim()
    equal('number of customers', len(Z), n)
    check(admissible(Z, Cd, Ci), 'partition %r violates Cd=%r Ci=%r', Z, Cd,
        Ci)
    for a, b in itertools.combinations([int(x) for x in c['rows']], 2):
        if Z[a] == Z[b]:
            check(not direct_conflict(of(a), of(b)),
                'columns %d and %d share a table with contradictory rows %r',
                a, b, c['rows'])
    equal('constraints after', (Cd, Ci, Rd, Ri), before)
    check(vu.validate_crp_constrained_partition(Z, Cd, Ci, Rd, Ri),
        'own partition is called invalid')
    return {'nontrivial': bool(Cd or Ci), 'labels': ['sampled']}


@hs.composite
def many_constraints(draw):
    """10-40 customers, a few tables, blocks and enemies far apart."""
    n = draw(hs.integers(10, 40))
    r = np.random.RandomState(draw(hs.integers(0, 2**31 - 1)))
    order = [int(i) for i in r.permutation(n)]
    Cd = []
    for _ in range(draw(hs.integers(0, 3))):
        k = int(r.randint(2, 8))
        if len(order) > k:
            Cd.append(order[:k])
            order = order[k:]
    block = {x: i for i, b in enumerate(Cd) for x in b}
    Ci = set()
    for _ in range(draw(hs.integers(0 if Cd else 1, 8))):
        a, b = [int(i) for i in r.choice(n, 2, replace=False)]
        if block.get(a, -1) != block.get(b, -2) and (b, a) not in Ci:
            Ci.add((a, b))
    return {'n': n, 'Cd': Cd, 'Ci': [list(p) for p in sorted(Ci)],
        'alpha': draw(hs.sampled_from([.01, .1, .5, 2., 10.])),
        'seed': draw(hs.integers(0, 2**31 - 1)), 'rows': {}}


@PROP.sub('large-constrained', many_constraints(), quick=1500)
def large_constrained(c):
    """Many customers: the partition honours every constraint, and is judged
    invalid as soon as one constraint is broken."""
    out = constrained(c)
    n, Cd, Ci = c['n'], c['Cd'], tup(c['Ci'])
    r = np.random.RandomState(c['seed'])
    valid = lambda z: bool(vu.validate_crp_constrained_partition(z, Cd, Ci,
        {}, {}))
    Z = list(gu.simulate_crp_constrained(n, c['alpha'], Cd, Ci, {}, {},
        rng=r))
    for b in Cd:
        for x in b:
            z = list(Z)
            z[x] = max(Z) + 1
            equal('validity after moving %d away from %r' % (x, b), valid(z),
                False)
    for a, b in Ci:
        z = list(Z)
        z[a] = z[b]
        equal('validity after seating %d with %d' % (a, b), valid(z), False)
    z = list(gu.simulate_crp_constrained_dependent(n, c['alpha'], Cd,
        rng=r))
    check(admissible(z, Cd, []), 'partition %r violates Cd=%r', z, Cd)
    drop = {x for b in Cd for x in b[1:]}
    same('log probability of %r under %r' % (z, Cd),
        gu.logp_crp_constrained_dependent(dict(enumerate(z)), c['alpha'], Cd),
        eppf([z[i] for i in range(n) if i not in drop], c['alpha']))
    return out


def sequential(n, alpha, Cd, Ci):
    """Distribution of the seating rule: each customer in turn (with its
    friends) takes a table without enemies with probability proportional to
    the number of customers there, a new one with weight alpha."""
    block = {x: b for b in Cd for x in b}
    enemies = set(Ci) | set((b, a) for a, b in Ci)
    probs = {}

    def go(Z, p):
        free = [i for i in range(n) if i not in Z]
        if not free:
            z = canonical([Z[i] for i in range(n)])
            probs[z] = probs.get(z, 0.) + p
            return
        who = block.get(free[0], [free[0]])
        K = max(list(Z.values()) + [-1]) + 1
        w = []
        for t in range(K):
            at = [i for i in Z if Z[i] == t]
            w.append(0. if any((a, b) in enemies for a in who for b in at)
                else float(len(at)))
        w.append(alpha)
        for t, x in enumerate(w):
            if x:
                go(merge(Z, who, t), p * x / sum(w))

    def merge(Z, who, t):
        Z = dict(Z)
        Z.update((i, t) for i in who)
        return Z
    go({}, 1.)
    return probs


@PROP.sub('constrained-seating', constraints(5), quick=250)
def constrained_seating(c):
    n, Cd, Ci, a = c['n'], c['Cd'], tup(c['Ci']), c['alpha']
    rng = np.random.RandomState(c['seed'])
    probs = sequential(n, a, Cd, Ci)
    stats.discrete('constrained partitions (%r)' % c, lambda k: [
        canonical(gu.simulate_crp_constrained(n, a, Cd, Ci, {}, {}, rng=rng))
        for _ in range(k)], probs, n1=250, n2=3000)
    return {'nontrivial': bool(Cd or Ci)}


@PROP.sub('partition-validity', constraints(), quick=1500)
def validity(c):
    """Exactly the admissible partitions are called valid."""
    Cd, Ci = c['Cd'], tup(c['Ci'])
    for Z in partitions(min(c['n'], 6))[:203]:
        for z in (list(Z), dict(enumerate(Z))):
            equal('validity of %r under %r, %r' % (Z, Cd, Ci),
                bool(vu.validate_crp_constrained_partition(
                    z, Cd, Ci, {}, {})), admissible(Z, Cd, Ci))
    return {'nontrivial': bool(Cd or Ci)}


@PROP.sub('dependent-probability', constraints(6, ci=False), quick=600)
def dependent_probability(c):
    """Probabilities of dependence-constrained partitions sum to one; other
    partitions have probability zero."""
    n, Cd, a = c['n'], c['Cd'], c['alpha']
    total = 0.
    for Z in partitions(n):
        z = dict(enumerate(Z))
        lp = gu.logp_crp_constrained_dependent(z, a, Cd)
        if not admissible(Z, Cd, []):
            equal('inadmissible %r under %r' % (Z, Cd), lp, -float('inf'))
            continue
        # One representative per block.
        drop = {x for b in Cd for x in b[1:]}
        reduced = [Z[i] for i in range(n) if i not in drop]
        same('log probability of %r under %r' % (Z, Cd), lp, eppf(reduced, a))
        total += math.exp(lp)
    same('sum over the admissible partitions', total, 1.)
    equal('effective customers', gu.get_crp_constrained_num_effective(n, Cd),
        n - sum(len(b) - 1 for b in Cd))
    return {'nontrivial': bool(Cd)}


@PROP.sub('samplers', constraints(5, ci=False), quick=220)
def samplers(c):
    n, Cd, a = c['n'], c['Cd'], c['alpha']
    rng = np.random.RandomState(c['seed'])
    drop = {x for b in Cd for x in b[1:]}
    probs = {}
    for Z in partitions(n):
        if admissible(Z, Cd, []):
            probs[Z] = math.exp(eppf([Z[i] for i in range(n)
                if i not in drop], a))

    def draw(f):
        def go(k):
            out = []
            for _ in range(k):
                Z = f()
                if len(Z) != n:
                    fail('%d customers instead of %d', len(Z), n)
                out.append(canonical(Z))
            return out
        return go
    stats.discrete('constrained dependent partitions (%r)' % c,
        draw(lambda: gu.simulate_crp_constrained_dependent(n, a, Cd,
            rng=rng)), probs, n1=250, n2=3000)
    free = {Z: math.exp(eppf(Z, a)) for Z in partitions(n)}
    stats.discrete('partitions of %d customers, alpha=%r' % (n, a),
        draw(lambda: gu.simulate_crp(n, a, rng=rng)), free, n1=250, n2=3000)
    if not Cd:
        stats.discrete('constrained partitions without constraints',
            draw(lambda: gu.simulate_crp_constrained(n, a, [], [], {}, {},
                rng=rng)), free, n1=250, n2=3000)
    return {'nontrivial': n >= 2}


@PROP.sub('crp-sampler', restaurant, quick=200)
def crp_sampler(c):
    crp, Z, rowids = seat(c)
    tables = sorted(set(Z)) + [max(Z) + 1]
    probs = {t: math.exp(eppf(Z + [t], c['alpha']) - eppf(Z, c['alpha']))
        for t in tables}
    stats.discrete('tables for a fresh customer after %r' % Z,
        lambda n: [int(s[0]) for s in crp.simulate(-1, [0], N=n)], probs,
        n1=250, n2=3000)
    return {'nontrivial': len(tables) >= 3}


@PROP.sub('invalid-constraints', hs.tuples(constraints(6),
    hs.sampled_from(['single', 'range-d', 'range-i', 'repeat', 'twice',
        'contradiction', 'triple', 'self']), hs.integers(0, 30),
    hs.integers(0, 30)), quick=1500)
def invalid(t):
    c, kind, i, j = t
    n, Cd, Ci = c['n'], copy.deepcopy(c['Cd']), tup(c['Ci'])
    ok = lambda: vu.validate_dependency_constraints(n, c['Cd'],
        tup(c['Ci']))
    check(ok() is True, 'valid constraints are not accepted')
    check(vu.validate_crp_constrained_input(n, c['Cd'], tup(c['Ci']), {}, {})
        is True, 'valid input is not accepted')
    used = {x for b in Cd for x in b}
    free = [x for x in range(n) if x not in used]
    if kind == 'single' and free:
        Cd.insert(i % (len(Cd) + 1), [free[j % len(free)]])
    elif kind == 'range-d':
        Cd.append([free[0] if free else n + 1, n])
    elif kind == 'range-i':
        Ci.append((i % n, n + j) if j % 2 else (n + j, i % n))
    elif kind == 'repeat' and Cd and len(free):
        Cd.append([free[0], Cd[i % len(Cd)][0]])
    elif kind == 'twice' and Cd:
        b = Cd[i % len(Cd)]
        b.append(b[j % len(b)])
    elif kind == 'contradiction' and Cd:
        b = Cd[i % len(Cd)]
        x, y = b[j % len(b)], b[(j + 1) % len(b)]
        Ci.insert(0, (x, y))
    elif kind == 'triple' and n >= 3:
        Ci.append((0, 1, 2))
    elif kind == 'self':
        Ci.append((i % n, i % n))
    else:
        return {'nontrivial': False}
    what = '%s: N=%d Cd=%r Ci=%r' % (kind, n, Cd, Ci)
    raises('validate_dependency_constraints ' + what, ValueError,
        lambda: vu.validate_dependency_constraints(n, Cd, Ci))
    raises('validate_crp_constrained_input ' + what, ValueError,
        lambda: vu.validate_crp_constrained_input(n, Cd, Ci, {}, {}))
    raises('simulate_crp_constrained ' + what, ValueError,
        lambda: gu.simulate_crp_constrained(n, 1., Cd, Ci, {}, {},
            rng=np.random.RandomState(0)))
    if kind not in ('range-i', 'contradiction', 'triple', 'self'):
        raises('simulate_crp_constrained_dependent ' + what, ValueError,
            lambda: gu.simulate_crp_constrained_dependent(n, 1., Cd,
                rng=np.random.RandomState(0)))
    return {'nontrivial': True, 'labels': [kind]}


@PROP.sub('compatibility', hs.tuples(constraints(5), constraints(5)),
    quick=2500)
def compatibility(t):
    c1, c2 = [(c['Cd'], tup(c['Ci'])) for c in t]
    got = bool(vu.check_compatible_constraints(c1[0], c1[1], c2[0], c2[1]))
    if direct_conflict(c1, c2):
        equal('compatibility of %r and %r' % (c1, c2), got, False)
    elif satisfiable(c1, c2):
        equal('compatibility of %r and %r' % (c1, c2), got, True)
    Rd, Ri = {0: c1[0], 1: c2[0]}, {0: c1[1], 1: c2[1]}
    equal('columns 0 and 1', bool(vu.check_compatible_customers(
        [], [], Ri, Rd, 0, 1)), got)
    equal('columns 1 and 0', bool(vu.check_compatible_customers(
        [], [], Ri, Rd, 1, 0)), got)
    for Ci in ([(0, 1)], [(1, 0)]):
        equal('explicitly independent', bool(vu.check_compatible_customers(
            [], Ci, {}, {}, 0, 1)), False)
    equal('unconstrained', bool(vu.check_compatible_customers(
        [], [(0, 2)], {}, {}, 0, 1)), True)
    return {'nontrivial': bool(c1[0] and c2[1] or c1[1] and c2[0]),
        'labels': ['compatible' if got else 'incompatible']}
