"""C26: log-space arithmetic, weighted choice and entropy helpers."""

import collections
import copy
import decimal
import math

import numpy as np

from vlib import stats
from vlib.harness import Property, check, equal, same, hs, fail, raises

from cgpm.utils import entropy_estimators as ee
from cgpm.utils import general as gu

TECHNIQUE = ('property-based testing: generated vectors, weights and samples '
    'against arbitrary-precision, exact-integer and brute-force references')
NOTE = ('Random search with shrinking. Arithmetic is compared with 60-digit '
    'decimal arithmetic and exact integers, choices with exact zero-'
    'probability exclusion and two-stage goodness of fit, entropy estimators '
    'with a brute-force implementation.')
PROP = Property('C26',
    'Cases are vectors of log values (including -inf, +inf, repeated and '
    'extreme entries), weights, integer pairs, dictionaries and samples. '
    'Non-trivial: at least two distinct entries.')

INF = float('inf')
CTX = decimal.Context(prec=60, Emax=decimal.MAX_EMAX, Emin=decimal.MIN_EMIN)


def dexp(x):
    return CTX.exp(decimal.Decimal(x)) if x != -INF else decimal.Decimal(0)


def dlog(d):
    return float(CTX.ln(d)) if d > 0 else -INF


def dlse(xs):
    if any(x == INF for x in xs):
        return INF
    total = decimal.Decimal(0)
    for x in xs:
        total = CTX.add(total, dexp(x))
    return dlog(total)


finite = hs.one_of(
    hs.integers(-20, 20).map(float),
    hs.floats(-50, 50, allow_nan=False),
    hs.sampled_from([0., -745.5, -1000., 1000., 710., -1e5, 1e5, 12345.678]))
entry = hs.one_of(finite, finite, finite, hs.just('-inf'))


def num(x):
    return -INF if x == '-inf' else x


def vec(min_size=0, max_size=8):
    return hs.tuples(hs.lists(entry, min_size=min_size, max_size=max_size),
        hs.sampled_from([0., 0., 0., -800., 900., 1e5, -1e5, -.5])).map(
            lambda t: [x if x == '-inf' else x + t[1] for x in t[0]])


@PROP.sub('logsumexp', hs.fixed_dictionaries({'a': vec(), 'perm': hs.randoms(
    use_true_random=False).map(lambda r: r.randint(0, 10**6)),
    'array': hs.booleans()}), quick=12000)
def logsumexp(c):
    a = [num(x) for x in c['a']]
    arg = np.asarray(a, dtype=float) if c['array'] and a else list(a)
    got = gu.logsumexp(arg)
    same('logsumexp(%r)' % a, got, dlse(a), rtol=1e-12, atol=1e-11)
    equal('argument after logsumexp', list(arg), a)
    got = gu.logmeanexp(arg)
    want = dlse(a) - math.log(len(a)) if a else -INF
    same('logmeanexp(%r)' % a, got, want, rtol=1e-12, atol=1e-11)
    if a and any(x != -INF for x in a):
        z = dlse(a)
        got = gu.log_normalize(list(a))
        for x, y in zip(a, got):
            same('log_normalize(%r)' % a, y, x - z if x != -INF else -INF,
                rtol=1e-12, atol=1e-9)
        equal('length', len(got), len(a))
    return {'nontrivial': len(set(a)) >= 2}


@hs.composite
def long_vec(draw):
    n = draw(hs.integers(30, 3000))
    r = np.random.RandomState(draw(hs.integers(0, 2**31 - 1)))
    a = r.normal(size=n) * draw(hs.sampled_from([.1, 3., 60., 800.])) \
        + draw(hs.sampled_from([0., -900., 1e4]))
    out = [float(x) for x in a]
    for i in r.randint(n, size=draw(hs.sampled_from([0, 0, 3, n]))):
        out[i] = '-inf'
    return {'a': out, 'perm': 0, 'array': draw(hs.booleans())}


@PROP.sub('long-logsumexp', long_vec(), quick=60)
def long_logsumexp(c):
    return logsumexp(c)


@PROP.sub('logsumexp-extremes', hs.fixed_dictionaries({
    'n': hs.integers(1, 6), 'x': hs.sampled_from(
        [1e308, -1e308, 1e300, -1e300, 5e-324, 0., 1e17]),
    'inf': hs.sampled_from(['none', 'plus', 'nan'])}), quick=300)
def extremes(c):
    a = [c['x']] * c['n']
    if c['inf'] == 'plus':
        check(gu.logsumexp(a + [INF]) == INF, 'logsumexp with +inf')
        check(gu.logmeanexp(a + [INF]) == INF, 'logmeanexp with +inf')
        check(gu.logmeanexp([-INF] + a + [INF]) == INF,
            'logmeanexp with both infinities')
        check(gu.logsumexp([INF, INF]) == INF, 'logsumexp of +inf')
    elif c['inf'] == 'nan':
        check(math.isnan(gu.logsumexp(a + [float('nan')])),
            'logsumexp with nan')
        check(math.isnan(gu.logmeanexp(a + [float('nan')])),
            'logmeanexp with nan')
    else:
        same('logsumexp of %d x %r' % (c['n'], c['x']), gu.logsumexp(a),
            c['x'] + math.log(c['n']), rtol=1e-15, atol=1e-12)
        same('logmeanexp of %d x %r' % (c['n'], c['x']), gu.logmeanexp(a),
            c['x'], rtol=1e-15, atol=1e-12)
        equal('all -inf', gu.logsumexp([-INF] * c['n']), -INF)
        equal('all -inf mean', gu.logmeanexp([-INF] * c['n']), -INF)


@PROP.sub('logmeanexp-weighted', hs.lists(hs.tuples(entry, entry), min_size=1,
    max_size=7), quick=5000)
def weighted(c):
    A, W = [num(a) for a, _ in c], [num(w) for _, w in c]
    if all(w == -INF for w in W):
        return {'nontrivial': False}
    A0, W0 = list(A), list(W)
    got = gu.logmeanexp_weighted(A, W)
    top = decimal.Decimal(0)
    for a, w in zip(A, W):
        if a != -INF and w != -INF:
            top = CTX.add(top, CTX.multiply(dexp(a), dexp(w)))
    bottom = decimal.Decimal(0)
    for w in W:
        bottom = CTX.add(bottom, dexp(w))
    want = dlog(CTX.divide(top, bottom)) if top > 0 else -INF
    # The operands are rounded to doubles: the error scales with them.
    scale = max([abs(a) + abs(w) for a, w in zip(A, W)
        if a != -INF and w != -INF] or [0])
    same('logmeanexp_weighted(%r, %r)' % (A, W), got, want, rtol=1e-11,
        atol=1e-10 + 1e-13 * scale)
    equal('arguments after', (A, W), (A0, W0))
    raises('unequal lengths', AssertionError,
        lambda: gu.logmeanexp_weighted(A + [0.], W))
    return {'nontrivial': len(set(A)) >= 2 and len(set(W)) >= 2}


@PROP.sub('log-linspace', hs.fixed_dictionaries({
    'a': hs.floats(1e-4, 1e4), 'b': hs.floats(1e-4, 1e4),
    'n': hs.one_of(hs.integers(2, 40), hs.integers(2, 300))}), quick=1500)
def linspace(c):
    g = gu.log_linspace(c['a'], c['b'], c['n'])
    equal('number of entries', len(g), c['n'])
    for i in range(c['n']):
        f = i / (c['n'] - 1.)
        same('entry %d of %r' % (i, c), g[i],
            c['a'] ** (1 - f) * c['b'] ** f, rtol=1e-9)
    return {'nontrivial': c['n'] > 2 and c['a'] != c['b']}


@PROP.sub('log-binomial', hs.integers(0, 400).flatmap(lambda n: hs.tuples(
    hs.just(n), hs.integers(0, n))), quick=3000)
def binomial(c):
    n, k = c
    same('log_nCk(%d, %d)' % (n, k), gu.log_nCk(n, k),
        math.log(math.comb(n, k)), rtol=1e-10, atol=1e-9)
    return {'nontrivial': 0 < k < n}


weight = hs.one_of(hs.just(0.), hs.just(0), hs.integers(1, 5),
    hs.floats(.01, 50), hs.sampled_from([1e-300, 1e-12, 1e6]))


@PROP.sub('choice', hs.fixed_dictionaries({
    'p': hs.lists(weight, min_size=1, max_size=6),
    'log': hs.booleans(), 'shift': hs.sampled_from([0., -900., 700., -5.]),
    'array': hs.booleans(), 'seed': hs.integers(0, 2**31 - 1),
    'size': hs.integers(0, 30)}), quick=4000)
def choice(c):
    p = [float(x) for x in c['p']]
    if sum(p) == 0:
        return {'nontrivial': False}
    if len(p) == 1 and p[0] == 0:
        return {'nontrivial': False}
    items = ['i%d' % i for i in range(len(p))] if c['array'] else None
    ids = items or list(range(len(p)))
    allowed = {ids[i] for i, x in enumerate(p) if x > 0}
    if c['log']:
        with np.errstate(all='ignore'):
            w = [math.log(x) + c['shift'] if x > 0 else -INF for x in p]
        f = lambda size, rng: gu.log_pflip(w, array=items, size=size, rng=rng)
    else:
        w = list(p)
        f = lambda size, rng: gu.pflip(w, array=items, size=size, rng=rng)
    w0 = list(w)
    rng = gu.gen_rng(c['seed'])
    one = f(None, rng)
    check(one in allowed, 'pflip(%r) chose %r', w, one)
    many = f(c['size'], rng)
    equal('number of choices', len(many), c['size'])
    for x in many:
        check(x in allowed, 'pflip(%r) chose %r', w, x)
    equal('weights after', w, w0)
    a = [f(None, r) for r in [gu.gen_rng(c['seed'])] for _ in range(5)]
    b = [f(None, r) for r in [gu.gen_rng(c['seed'])] for _ in range(5)]
    equal('choices repeated with the same seed', a, b)
    return {'nontrivial': len(allowed) >= 2}


@hs.composite
def long_choice(draw):
    n = draw(hs.integers(20, 400))
    r = np.random.RandomState(draw(hs.integers(0, 2**31 - 1)))
    p = r.uniform(size=n) ** draw(hs.sampled_from([1, 4, 30]))
    p[r.uniform(size=n) < draw(hs.sampled_from([0., .5, .97]))] = 0
    return {'p': [float(x) for x in p], 'log': draw(hs.booleans()),
        'shift': draw(hs.sampled_from([0., -900., 700.])),
        'array': draw(hs.booleans()), 'size': draw(hs.integers(0, 500)),
        'seed': draw(hs.integers(0, 2**31 - 1))}


@PROP.sub('long-choice', long_choice(), quick=300)
def long_choice_(c):
    return choice(c)


@PROP.sub('choice-frequencies', hs.fixed_dictionaries({
    'p': hs.lists(hs.one_of(hs.just(0), hs.integers(1, 6),
        hs.floats(.05, 4)), min_size=2, max_size=5).filter(any),
    'log': hs.booleans(), 'shift': hs.sampled_from([0., -900., 500.]),
    'one': hs.booleans(),
    'seed': hs.integers(0, 2**31 - 1)}), quick=320)
def frequencies(c):
    p = [float(x) for x in c['p']]
    w = [math.log(x) + c['shift'] if x > 0 else -INF for x in p] \
        if c['log'] else p
    flip = gu.log_pflip if c['log'] else gu.pflip
    rng = gu.gen_rng(c['seed'])

    def draw(n):
        if c['one']:
            return [int(flip(w, rng=rng)) for _ in range(n)]
        return [int(x) for x in flip(w, size=n, rng=rng)]
    stats.discrete('pflip(%r)' % w, draw,
        {i: x / sum(p) for i, x in enumerate(p)})
    got = gu.normalize(p)
    for x, y in zip(p, got):
        same('normalize(%r)' % p, y, x / sum(p), rtol=1e-12)
    return {'nontrivial': sum(x > 0 for x in p) >= 2}


dicts = hs.dictionaries(hs.integers(0, 6).map(str), hs.integers(0, 9),
    max_size=5)


@PROP.sub('collections', hs.fixed_dictionaries({
    'dicts': hs.lists(dicts, max_size=4),
    'lists': hs.lists(hs.lists(hs.integers(0, 9), max_size=5), min_size=1,
        max_size=4),
    'left': hs.lists(hs.integers(0, 6), max_size=5),
    'right': hs.lists(hs.integers(0, 6), max_size=5),
    }), quick=2500)
def collections_(c):
    ds = c['dicts']
    before = copy.deepcopy(ds)
    want = {}
    for d in ds:
        for k in d:
            want[k] = d[k]
    for name, got in (('merged', gu.merged(*ds)), ('mergedl',
            gu.mergedl(ds))):
        equal('%s(%r)' % (name, ds), got, want)
        check(all(got is not d for d in ds), '%s returns its argument', name)
        got['new'] = 1
    equal('arguments after merging', ds, before)
    equal('lchain', gu.lchain(*c['lists']), [x for l in c['lists'] for x in l])
    a, b = c['left'], c['right']
    equal('is_disjoint(%r, %r)' % (a, b), gu.is_disjoint(a, b),
        not any(x in b for x in a))
    equal('get_intersection lists', gu.get_intersection(a, b),
        [x for x in b if x in a])
    rd = {x: str(x) for x in b}
    equal('get_intersection dict', gu.get_intersection(a, rd),
        {x: str(x) for x in b if x in a})
    equal('get_intersection none', (gu.get_intersection(a, None),
        gu.get_intersection({}, None)), ([], {}))
    Z = np.asarray(c['lists'][0] + [3, 3]) % 3
    Y = (Z * 7 + len(a)) % 2
    blocks = gu.build_rowid_blocks([Z, Y])
    want = collections.defaultdict(list)
    for i, t in enumerate(zip(Z, Y)):
        want[tuple(t)].append(i)
    equal('build_rowid_blocks', {tuple(int(x) for x in k): [int(i) for i in v]
        for k, v in blocks.items()},
        {tuple(int(x) for x in k): v for k, v in want.items()})
    return {'nontrivial': len(ds) >= 2 and len(a) >= 2}


# --------------------------------------------------------------------------
# Entropy estimators.

sym = hs.integers(0, 3)


def ent(xs, base):
    n = float(len(xs))
    return -sum(k / n * math.log(k / n) for k in
        collections.Counter(xs).values()) / math.log(base)


@PROP.sub('discrete-entropy', hs.fixed_dictionaries({
    'xyz': hs.lists(hs.tuples(sym, sym, sym), min_size=1, max_size=30),
    'base': hs.sampled_from([2, 3., 10, math.e])}), quick=2500)
def discrete_entropy(c):
    x, y, z = [list(t) for t in zip(*c['xyz'])]
    b = c['base']
    t = dict(rtol=1e-9, atol=1e-9)
    same('entropyd', ee.entropyd(x, base=b), ent(x, b), **t)
    xy, xz, yz = list(zip(x, y)), list(zip(x, z)), list(zip(y, z))
    same('midd', ee.midd(x, y, base=b), ent(x, b) + ent(y, b) - ent(xy, b),
        **t)
    same('cmidd', ee.cmidd(x, y, z, base=b), ent(xz, b) + ent(yz, b)
        - ent(list(zip(x, y, z)), b) - ent(z, b), **t)
    equal('hist', sorted(ee.hist(x)), sorted(
        v / float(len(x)) for v in collections.Counter(x).values()))
    p = ee.hist(y)
    same('entropyfromprobs', ee.entropyfromprobs(p, base=b), ent(y, b), **t)
    equal('vectorize', [tuple(v) for v in ee.vectorize(x)],
        [(v,) for v in x])
    # The permutation test.
    calls, keep = [], list(x)

    def measure(*args, **kw):
        calls.append([list(v) for v in args] + [kw])
        return ee.midd(args[0], args[1], **kw)
    for given in ((x, y), (x, y, z)):
        del calls[:]
        out = ee.shuffle_test(measure, *given, ns=7, base=b)
        equal('x after shuffle_test', x, keep)
        equal('calls of the measure', len(calls), 7)
        for xp, *rest in calls:
            equal('permutation of x', sorted(xp), sorted(keep))
            equal('other arguments', rest, list(given[1:]) + [{'base': b}])
        want = sorted(ee.midd(v[0], y, base=b) for v in calls)
        for u, v in zip(out, want):
            same('values of shuffle_test', u, v, **t)
        equal('number of values of shuffle_test', len(out), 7)
    return {'nontrivial': len(set(xy)) >= 3}


def knn(points, k, others=None, self_included=True):
    """Distance of each point to its k-th nearest other (max norm)."""
    points = np.asarray(points, float)
    others = points if others is None else np.asarray(others, float)
    D = np.max(np.abs(points[:, None, :] - others[None, :, :]), axis=2)
    D.sort(axis=1)
    return D[:, k if self_included else k - 1]


@PROP.sub('nearest-neighbour-entropy', hs.fixed_dictionaries({
    'n': hs.integers(6, 25), 'd': hs.integers(1, 2), 'k': hs.integers(1, 4),
    'base': hs.sampled_from([2, math.e, 10.]),
    'seed': hs.integers(0, 2**31 - 1)}), quick=500)
def nn_entropy(c):
    from scipy.special import digamma as psi
    n, d, k, base = c['n'], c['d'], c['k'], c['base']
    r = np.random.RandomState(c['seed'])
    x, y, z, xp = [np.round(r.normal(size=(n, d)), 6) for _ in range(4)]
    y = y + .5 * x
    t = dict(rtol=1e-4, atol=1e-4)
    L = lambda a: a.tolist()
    want = (psi(n) - psi(k) + d * math.log(2)
        + d * np.mean(np.log(knn(x, k)))) / math.log(base)
    same('entropy', ee.entropy(L(x), k=k, base=base), want, **t)

    def dist(points):
        return np.max(np.abs(points[:, None, :] - points[None, :, :]), axis=2)

    def av(points, radius):
        # Neighbours strictly inside the radius, the point itself included.
        # The neighbour which attains the joint distance is on the boundary of
        # one of the marginals, and is excluded there.
        D = dist(points)
        return np.mean([psi(np.sum(D[i] < radius[i] - 1e-7))
            for i in range(n)])

    def clean(joint, parts, radius):
        # The tiny noise added against ties does not decide any count, and the
        # distances are small enough for the exclusion of the boundary.
        if max(radius) > 3. or min(radius) < 1e-5:
            return False
        ok = True
        for i in range(n):
            ok = ok and np.sum(np.abs(dist(joint)[i] - radius[i]) < 1e-6) == 1
            for part in parts:
                ok = ok and np.sum(np.abs(dist(part)[i] - radius[i])
                    < 1e-6) <= 1
        return ok
    xy, xz, yz = [np.hstack(v) for v in ([x, y], [x, z], [y, z])]
    xyz = np.hstack([x, y, z])
    eps, eps3 = knn(xy, k), knn(xyz, k)
    exact = [clean(xy, [x, y], eps), clean(xyz, [xz, yz, z], eps3)]
    if exact[0]:
        same('mi', ee.mi(L(x), L(y), k=k, base=base), (psi(k) + psi(n)
            - av(x, eps) - av(y, eps)) / math.log(base), **t)
    if exact[1]:
        same('cmi', ee.cmi(L(x), L(y), L(z), k=k, base=base), (psi(k)
            + av(z, eps3) - av(xz, eps3) - av(yz, eps3)) / math.log(base),
            **t)
    want = (math.log(n) - math.log(n - 1)
        + d * np.mean(np.log(knn(x, k, xp, False)))
        - d * np.mean(np.log(knn(x, k)))) / math.log(base)
    same('kldiv', ee.kldiv(L(x), L(xp), k=k, base=base), want, **t)
    lab = [int(v) for v in (x[:, 0] > 0)]
    got = ee.micd(L(x), lab, k=k, base=base, warning=False)
    H = lambda a: (psi(len(a)) - psi(k) + d * math.log(2)
        + d * np.mean(np.log(knn(a, k)))) / math.log(base)
    want = H(x)
    for v in set(lab):
        sub = x[np.asarray(lab) == v]
        want -= len(sub) / float(n) * (H(sub) if k <= len(sub) - 1 else H(x))
    same('micd', got, want, **t)
    return {'nontrivial': k > 1 and all(exact)}
