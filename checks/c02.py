"""C02: removing an observation undoes adding it."""

import copy

import numpy as np

from vlib import models
from vlib.harness import Property, check, equal, same, hs, fail

TECHNIQUE = ('model-based stateful testing: generated histories of adding and '
    'removing rows, compared with a fresh model given the survivors')
NOTE = ('Random search with shrinking over every kind of model. The oracle is '
    'the same code on a fresh object, so errors common to both are covered '
    'by C01 and C22-C25 instead.')
PROP = Property('C02',
    'Cases are a model of any kind and a history of up to 14 additions and '
    'removals over 6 row identifiers, including duplicate additions and '
    'removals of absent rows. Non-trivial: a row was removed while another '
    'stayed.',
    ['values of moderate magnitude: sums of squares are updated in floating '
     'point'])


@hs.composite
def history(draw, kinds=tuple(models.KINDS)):
    c = draw(models.model(6, 3, kinds))
    if c['kind'] == 'primitive' and c['spec']['dist'] == 'beta':
        # Values at the ends of the interval are moved inside it.
        ends = hs.sampled_from([None, None, 0, 1, 0., 1., 1e-9, 6e-9,
            1 - 1e-9, 1 - 1e-7, .001, .999])
        for row in c['pool']:
            x = draw(ends)
            if x is not None:
                row[0][0][1] = x
    c['ops'] = draw(hs.lists(hs.one_of(
        hs.tuples(hs.just('add'), hs.integers(0, 5), hs.integers(0, 5)),
        hs.tuples(hs.just('add'), hs.integers(0, 5), hs.integers(0, 5)),
        hs.tuples(hs.just('remove'), hs.integers(0, 5))),
        min_size=2, max_size=14))
    c['seed'] = draw(hs.integers(0, 2**31 - 1))
    return c


def snapshot(g, c):
    return (models.count(g, c), copy.deepcopy(models.stored(g, c)),
        models.suffstats(g), models.answers(g, c))


def unchanged(what, g, c, before):
    now = snapshot(g, c)
    equal(what + ': number of rows', now[0], before[0])
    equal(what + ': rows', now[1], before[1])
    if c['kind'] != 'dim':
        models.compare_stats(what, now[2], before[2])
    if c['kind'] != 'knn':
        models.compare(what + ': answers', now[3], before[3], 1e-9, 1e-9)


def run(c):
    g = models.build(c, c['seed'])
    live, removed_some, refused = {}, False, 0
    for op in c['ops']:
        r = op[1]
        label = '%s: %r with rows %r' % (c['kind'], op, sorted(live))
        if op[0] == 'add' and r not in live:
            models.add(g, c, r, op[2])
            live[r] = op[2]
        elif op[0] == 'remove' and r in live:
            g.unincorporate(r)
            live.pop(r)
            removed_some = removed_some or bool(live)
        else:
            # Must be refused without effect.
            refused += 1
            before = snapshot(g, c)
            try:
                if op[0] == 'add':
                    models.add(g, c, r, op[2])
                else:
                    g.unincorporate(r)
            except Exception as e:
                if isinstance(e, (NameError, AttributeError)):
                    raise
            else:
                fail('%s was accepted', label)
            unchanged(label, g, c, before)
    fresh = models.build(c, c['seed'])
    for r, i in live.items():
        models.add(fresh, c, r, i)
    what = '%s after %r' % (c['kind'], c['ops'])
    equal(what + ': number of rows', models.count(g, c),
        models.count(fresh, c))
    equal(what + ': rows', models.stored(g, c), models.stored(fresh, c))
    if c['kind'] != 'dim':
        models.compare_stats(what, models.suffstats(g),
            models.suffstats(fresh))
        if hasattr(g, 'counts'):
            counts = lambda m: {k: v for k, v in (m.counts.items()
                if hasattr(m.counts, 'items') else enumerate(m.counts)) if v}
            equal(what + ': counts', counts(g), counts(fresh))
    same_rng(g, fresh, c)
    models.compare(what + ': answers', models.answers(g, c),
        models.answers(fresh, c))
    if c['kind'] in models.FIT and models.can_fit(c, fresh):
        same_rng(g, fresh, c)
        g.transition(N=1)
        fresh.transition(N=1)
        models.compare(what + ': answers after learning',
            models.answers(g, c), models.answers(fresh, c), 1e-5, 1e-5)
    return {'nontrivial': removed_some, 'labels': [c['kind'] + (
        ':' + c['spec']['dist'] if 'dist' in c['spec'] else '')] + (
            ['refused'] if refused else [])}


def same_rng(g, fresh, c):
    """Both continue from the same generator state."""
    g.rng.seed(c['seed'] % 1000)
    fresh.rng.seed(c['seed'] % 1000)


PROP.sub('primitives', history(('primitive',)), quick=6000)(run)
PROP.sub('regressions', history(('linreg', 'ols')), quick=1500)(run)
PROP.sub('forest', history(('forest',)), quick=60, thorough=800)(run)
PROP.sub('multivariate', history(('factor', 'kde', 'knn')), quick=1500)(run)
PROP.sub('dims', history(('dim',)), quick=2500)(run)
