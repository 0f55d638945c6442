"""C33: pictures of data, partitions and models."""

import math

import matplotlib.pyplot as plt
import numpy as np

from checks import c10
from vlib import mix, prims
from vlib.harness import Property, check, equal, fail, hs, same

from cgpm.crosscat.engine import Engine
from cgpm.utils import plots
from cgpm.utils import render

TECHNIQUE = ('property-based testing: models after generated histories and '
    'generated matrices, drawn and read back from the figure, against the '
    'data, partitions and densities of an independent reference')
NOTE = ('Random search with shrinking. Figures are not rasterised: the '
    'matrices, bars, lines and labels are read from the figure objects and '
    'traced to the rows and columns by their labels.')
PROP = Property('C33',
    'Cases are crosscat states after histories of updates and inference '
    '(all univariate column types, missing cells), named rows and columns, '
    'subsamples, view partitions and orderings. Non-trivial: more than one '
    'row or column is shown.',
    ['unique row and column names; every shown column has a value',
     'columns conditional on others are not plotted by the library'])

NAN = float('nan')


def closed(f):
    """Run a check and close its figures."""
    def run(c):
        try:
            return f(c)
        finally:
            plt.close('all')
    run.__name__ = f.__name__
    return run


# --------------------------------------------------------------------------
# Matrices of partitions.

@hs.composite
def partitions(draw):
    n = draw(hs.integers(1, 6))
    cols = draw(hs.lists(hs.integers(0, 40), min_size=n, max_size=n,
        unique=True))
    m = draw(hs.integers(1, 4))
    Zs = [draw(hs.lists(hs.integers(0, 3), min_size=n, max_size=n))
        for _ in range(m)]
    order = draw(hs.one_of(hs.none(), hs.permutations(cols)))
    return {'cols': cols, 'Zs': Zs, 'order': order}


@PROP.sub('partition-matrices', partitions(), quick=2400)
def partition_matrices(c):
    Zvs = [dict(zip(c['cols'], z)) for z in c['Zs']]
    order = c['order'] and list(c['order'])
    rank = order or sorted(c['cols'])
    want = [[[1. if Z[a] == Z[b] else 0. for b in rank] for a in rank]
        for Z in Zvs]
    for Z, w in zip(Zvs, want):
        got = plots.partition_to_zmatrix(Z, ordering=order)
        equal('matrix of the partition %s in order %s' % (Z, order),
            np.asarray(got).tolist(), w)
    got = plots.partitions_to_zmatrix(Zvs, ordering=order)
    n = len(rank)
    for i in range(n):
        for j in range(n):
            same('entry %d, %d of the average of %s in order %s' % (i, j, Zvs,
                order), got[i][j], sum(w[i][j] for w in want) / len(want),
                1e-12, 1e-12)
    if order:
        equal('ordering after use', order, list(c['order']))
    return {'nontrivial': n > 1}


@hs.composite
def run_case(draw):
    n = draw(hs.integers(2, 4))
    cols = draw(hs.lists(hs.integers(0, 20), min_size=n, max_size=n,
        unique=True))
    return {'cols': cols, 'states': draw(hs.integers(1, 3)),
        'steps': draw(hs.integers(1, 4)), 'every': draw(hs.integers(1, 2)),
        'order': draw(hs.one_of(hs.permutations(cols), hs.none())),
        'seed': draw(hs.integers(0, 10**6))}


@PROP.sub('histories', run_case(), quick=96, wall=True, timeout=60.)
@closed
def histories(c):
    rng = np.random.RandomState(c['seed'])
    X = rng.normal(size=(5, len(c['cols'])))
    e = Engine(X, num_states=c['states'], outputs=list(c['cols']),
        cctypes=['normal'] * len(c['cols']), rng=rng, multiprocess=0)
    steps = c['steps'] * c['every']
    e.transition(N=steps, checkpoint=c['every'], progress=False,
        multiprocess=0)
    order = c['order'] and list(c['order'])
    got = plots.engine_to_zmatrix_history(e, ordering=order)
    equal('number of matrices', len(got), c['steps'])
    D = len(c['cols'])
    last = [s.Zv() for s in e.states]
    for i, M in enumerate(got):
        Zs = [dict(s.diagnostics['column_partition'][i]) for s in e.states]
        if order:
            want = [[np.mean([float(Z[a] == Z[b]) for Z in Zs])
                for b in order] for a in order]
            if not np.allclose(M, want, atol=1e-12):
                fail('matrix %d of the history is %s, not %s', i,
                    np.asarray(M).tolist(), want)
        else:
            check(np.shape(M) == (D, D) and np.allclose(M, np.transpose(M))
                and np.allclose(np.diag(M), 1),
                'matrix %d of the history is %s', i, np.asarray(M).tolist())
    want = sorted(sum(float(Z[a] == Z[b]) for Z in last) / len(last)
        for a in c['cols'] for b in c['cols'])
    if not np.allclose(sorted(np.ravel(got[-1])), want):
        fail('the last matrix is %s', np.asarray(got[-1]).tolist())
    if not order:
        # The groups of the last step stay together when all states agree.
        o = plots.clustermap_ordering(np.asarray(got[-1]))
        equal('ordering of the cluster map', sorted(o), list(range(D)))
    return {'nontrivial': True}


@hs.composite
def heat(draw):
    n = draw(hs.integers(1, 5))
    D = [[draw(hs.integers(-9, 9)) / 4. for _ in range(n)] for _ in range(n)]
    perm = hs.one_of(hs.none(), hs.permutations(range(n)))
    return {'D': D, 'x': draw(perm), 'y': draw(perm),
        'names': draw(hs.booleans())}


@PROP.sub('heatmaps', heat(), quick=160)
@closed
def heatmaps(c):
    D = np.asarray(c['D'])
    n = len(D)
    x = c['x'] and list(c['x'])
    y = c['y'] and list(c['y'])
    kw = {}
    if c['names']:
        kw = {'xticklabels': np.asarray(['x%d' % i for i in range(n)]),
            'yticklabels': np.asarray(['y%d' % i for i in range(n)])}
    ax = plots.plot_heatmap(D, xordering=x, yordering=y, **kw)
    equal('matrix after drawing it', D.tolist(), c['D'])
    got = np.asarray(ax.collections[0].get_array()).reshape(n, n)
    rows = y or list(range(n))
    cols = x or list(range(n))
    want = [[c['D'][i][j] for j in cols] for i in rows]
    equal('drawn matrix for the orders %s, %s' % (y, x), got.tolist(), want)
    name = (lambda p, i: '%s%d' % (p, i)) if c['names'] else (
        lambda p, i: str(i))
    equal('names of the columns', [t.get_text() for t in
        ax.get_xticklabels()], [name('x', i) for i in cols])
    equal('names of the rows', [t.get_text() for t in
        ax.get_yticklabels()], [name('y', i) for i in rows])
    return {'nontrivial': n > 1}


# --------------------------------------------------------------------------
# Tables.

@hs.composite
def table(draw):
    n, d = draw(hs.integers(1, 6)), draw(hs.integers(1, 4))
    val = hs.one_of(hs.integers(-9, 9).map(lambda k: k / 2.), hs.sampled_from(
        [0., 1., 1e6, -1e-6]), hs.none())
    rows = [[draw(val) for _ in range(d)] for _ in range(n)]
    for j in range(d):
        if all(r[j] is None for r in rows):
            rows[draw(hs.integers(0, n - 1))][j] = draw(
                hs.integers(-3, 3)) / 1.
    return {'rows': rows, 'names': draw(hs.booleans()),
        'raw': draw(hs.booleans())}


def scaled(column):
    """Affine map of the values onto [0, 1] (a constant goes to zero)."""
    xs = [x for x in column if x is not None]
    lo, hi = min(xs), max(xs)
    return [None if x is None else (x - lo) / ((hi - lo) or 1.)
        for x in column]


def shown(ax):
    m = ax.images[0].get_array()
    return [[None if np.ma.is_masked(x) or math.isnan(x) else float(x)
        for x in r] for r in np.ma.asarray(m)]


def labels(ax):
    return ([t.get_text() for t in ax.get_yticklabels()],
        [t.get_text() for t in ax.get_xticklabels()])


def compare(what, got, want):
    equal('shape of ' + what, np.shape(got), np.shape(want))
    for i, (g, w) in enumerate(zip(got, want)):
        for j, (a, b) in enumerate(zip(g, w)):
            if (a is None) != (b is None) or a is not None and \
                    not abs(a - b) < 1e-9:
                fail('%s: entry %d, %d is %r, not %r', what, i, j, a, b)


@PROP.sub('tables', table(), quick=240)
@closed
def tables(c):
    X = np.asarray([[NAN if x is None else x for x in r] for r in c['rows']])
    keep = X.copy()
    n, d = X.shape
    kw = {}
    if c['names']:
        kw = {'row_names': ['r%d' % i for i in range(n)],
            'col_names': ['c%d' % j for j in range(d)]}
    if c['raw']:
        _fig, ax = render.viz_data_raw(X.tolist(), **kw)
    else:
        _fig, ax = render.viz_data(X, **kw)
    check(np.array_equal(X, keep, equal_nan=True),
        'drawing changed the data')
    want = list(zip(*[scaled([r[j] for r in c['rows']]) for j in range(d)]))
    compare('table', shown(ax), want)
    name = (lambda p, i: p + str(i)) if c['names'] else (
        lambda p, i: str(i))
    equal('labels', labels(ax), ([name('r', i) for i in range(n)],
        [name('c', j) for j in range(d)]))
    lo, hi = ax.get_xlim()
    check((lo, hi) == (-.5, d - .5), 'horizontal range %s', (lo, hi))
    lo, hi = ax.get_ylim()
    check((lo, hi) == (-.5, n - .5), 'vertical range %s', (lo, hi))
    return {'nontrivial': n * d > 1}


# --------------------------------------------------------------------------
# Mixtures and states.

@hs.composite
def picture(draw):
    c = draw(c10.case(max_cols=4, max_rows=6))
    c['subsample'] = draw(hs.one_of(hs.none(), hs.integers(1, 8)))
    c['viz_seed'] = draw(hs.integers(0, 99))
    c['named'] = draw(hs.booleans())
    c['long'] = draw(hs.booleans())
    return c


@hs.composite
def large_picture(draw, max_rows=45):
    """States beyond the sizes of histories, with up to 30 clusters."""
    return {'big': draw(mix.big(max_cols=8, max_rows=max_rows, max_views=4,
        max_clusters=30)), 'seed': draw(hs.integers(0, 2**31 - 1)),
        'subsample': draw(hs.one_of(hs.none(), hs.integers(9, 40))),
        'viz_seed': draw(hs.integers(0, 99)), 'named': draw(hs.booleans()),
        'long': draw(hs.booleans())}


def prepared(c):
    if 'big' in c:
        st = mix.build(c['big'], c['seed'])
        return st, mix.read(st), 'of %d rows' % len(c['big']['rows'])
    m = c10.Machine(c)
    for o in c['ops']:
        m.step(o)
    s = mix.read(m.st)
    for j in range(len(s['cols'])):
        if all(r[j] is None for r in s['rows']):
            return None, None, None
    return m.st, s, 'after ' + '; '.join(m.done)


def names(prefix, ids, long):
    return [('%03d%s-of-the-table' if long else '%d%s') % (i, prefix)
        for i in ids]


def read_view(what, ax, s, v, view, rows, cols, subsample, columns):
    """Compare the axes with the data of the view."""
    n = len(s['rows'])
    ylab, xlab = labels(ax)
    count = min(subsample, n) if subsample else n
    check(len(ylab) == count and len(set(ylab)) == count
        and set(ylab) <= set(rows), '%s: rows are labelled %s, of %s', what,
        ylab, rows)
    equal('columns of ' + what, sorted(xlab), sorted(cols))
    ri = [rows.index(y) for y in ylab]
    ci = [columns[cols.index(x)] for x in xlab]
    data = [scaled([mix.cell(s, i, col) for i in ri]) if any(
        mix.cell(s, i, col) is not None for i in ri) else [None] * len(ri)
        for col in ci]
    compare('matrix of ' + what, shown(ax), list(zip(*data)))
    # Clusters stand together, divided by lines.
    z = [view.Zr(i) for i in ri]
    runs = [k for i, k in enumerate(z) if i == 0 or z[i - 1] != k]
    check(len(runs) == len(set(runs)), '%s: rows of clusters %s are not '
        'grouped', what, z)
    sizes = [z.count(k) for k in runs]
    check(sizes == sorted(sizes), '%s: clusters of sizes %s are not ordered',
        what, sizes)
    at = sorted(l.get_ydata()[0] for l in ax.lines)
    equal('lines between the clusters of ' + what, at,
        [i - .5 for i in range(1, len(z)) if z[i] != z[i - 1]])
    # Within a cluster by density of the row, columns by density.
    for k in runs:
        lps = [sum(mix.cell_lp(s, v, k, col, mix.cell(s, i, col))
            for col in mix.cols_in(s, v)
            if mix.cell(s, i, col) is not None) for i in ri
            if view.Zr(i) == k]
        check(all(b >= a - 1e-6 * (1 + abs(a)) for a, b in zip(lps, lps[1:])),
            '%s: rows of cluster %s are ordered with densities %s', what, k,
            lps)
    return count


@PROP.sub('views', picture(), quick=200)
@closed
def views(c):
    st, s, history = prepared(c)
    if st is None or not all(
            x['dist'] in prims.COLLAPSED for x in s['cols']):
        return {'nontrivial': False}
    before = mix.fingerprint(st)
    n, shown_rows = len(s['rows']), 0
    kw = {}
    if c['subsample']:
        kw.update(subsample=c['subsample'], seed=c['viz_seed'])
    for v, view in list(st.views.items()):
        columns = list(view.outputs[1:])
        if c['named']:
            rows = names('r', range(n), c['long'])
            cols = names('c', columns, c['long'])
            args = {'row_names': list(rows), 'col_names': list(cols)}
        else:
            rows = [str(i) for i in range(n)]
            cols = [str(j) for j in range(len(columns))]
            args = {}
        _fig, ax = render.viz_view(view, **dict(kw, **args))
        what = 'the view of %s %s' % (columns, history)
        shown_rows = read_view(what, ax, s, v, view, rows, cols,
            c['subsample'], columns)
        if c['subsample']:
            # Which rows are shown does not matter for the columns.
            _fig, whole = render.viz_view(view, **args)
            equal('columns of %s with %d of the rows' % (what,
                c['subsample']), labels(ax)[1], labels(whole)[1])
        if args:
            equal('names after drawing', (args['row_names'],
                args['col_names']), (rows, cols))
        mix.unchanged('drawing ' + what, st, before)
        plt.close('all')
    return {'nontrivial': shown_rows > 1,
        'labels': ['subsample'] if c['subsample'] else []}


@PROP.sub('large-views', large_picture(), quick=48, thorough=800, timeout=120.)
def large_views(c):
    return views(c)


@PROP.sub('states', picture(), quick=120)
@closed
def states(c):
    st, s, history = prepared(c)
    if st is None or not all(
            x['dist'] in prims.COLLAPSED for x in s['cols']):
        return {'nontrivial': False}
    before = mix.fingerprint(st)
    n = len(s['rows'])
    kw = {}
    if c['subsample']:
        kw.update(subsample=c['subsample'], seed=c['viz_seed'])
    if c['named']:
        rows = names('r', range(n), c['long'])
        cols = names('c', st.outputs, c['long'])
        kw.update(row_names=list(rows), col_names=list(cols))
    else:
        rows = [str(i) for i in range(n)]
        cols = [str(j) for j in range(len(st.outputs))]
    _fig, axes = render.viz_state(st, **kw)
    equal('number of views shown ' + history, len(axes), len(st.views))
    left = dict(st.views)
    sizes, shown_rows = [], None
    for i, ax in enumerate(axes):
        _y, xlab = labels(ax)
        mine = sorted(st.outputs[cols.index(x)] for x in xlab)
        found = [v for v in left if sorted(left[v].outputs[1:]) == mine]
        check(len(found) == 1, 'axes %d show the columns %s; views are %s', i,
            mine, [w.outputs[1:] for w in st.views.values()])
        view = left.pop(found[0])
        columns = list(view.outputs[1:])
        trim = rows if i == 0 else [r[:8] for r in rows]
        read_view('the view of %s %s' % (columns, history), ax, s, found[0],
            view, trim, [cols[st.outputs.index(x)] for x in columns],
            c['subsample'], columns)
        ys = labels(ax)[0]
        sizes.append(len(columns))
        if c['subsample']:
            rowset = sorted(trim.index(y) for y in ys)
            check(shown_rows in (None, rowset), 'views show the rows %s and '
                '%s', shown_rows, rowset)
            shown_rows = rowset
    check(sizes == sorted(sizes, reverse=True), 'views of sizes %s', sizes)
    mix.unchanged('drawing the state ' + history, st, before)
    return {'nontrivial': n > 1, 'labels': ['views-%d' % len(st.views)]}


@PROP.sub('large-states', large_picture(), quick=24, thorough=400,
    timeout=120.)
def large_states(c):
    return states(c)


# --------------------------------------------------------------------------
# Densities of columns.

def total_density(s, v, col, x):
    """Mixture over the clusters by their share of the observed cells."""
    z = mix.zr(s)[v]
    have = [i for i in range(len(s['rows']))
        if mix.cell(s, i, col) is not None]
    out = {}
    for k in set(z[i] for i in have):
        w = sum(1 for i in have if z[i] == k) / float(len(have))
        out[k] = w * math.exp(mix.cell_lp(s, v, k, col, x))
    return out


def close(a, b):
    return abs(a - b) <= 1e-6 * (abs(a) + abs(b)) + 1e-9


@PROP.sub('column-densities', picture(), quick=200)
@closed
def column_densities(c):
    st, s, history = prepared(c)
    if st is None or not all(
            x['dist'] in prims.COLLAPSED for x in s['cols']):
        return {'nontrivial': False}
    before = mix.fingerprint(st)
    gaps = False
    for d in st.dims():
        col, v = d.index, st.Zv(d.index)
        X = st.X[col]
        xs = [x for x in X if not math.isnan(x)]
        gaps = gaps or any(m.N == 0 for m in d.clusters.values())
        grid = sorted(set(xs))
        what = 'column %s (%s) %s' % (col, d.cctype, history)
        if d.is_continuous():
            ax = d.plot_dist(list(X), Y=np.asarray(grid))
            lines = [l.get_ydata() for l in ax.lines]
            total = lines[-1]
            parts = [[float(y) for y in l] for l in lines[:-1]]
            equal('points of ' + what, [float(x) for x in
                ax.lines[-1].get_xdata()], [float(x) for x in grid])
        else:
            ax = d.plot_dist(list(X))
            grid = list(range(int(max(xs)) + 1))
            heights = [p.get_height() for p in ax.patches]
            lo, hi = ax.get_xlim()
            check(lo <= 0 and max(grid) <= hi, 'values 0 to %d of %s are '
                'drawn from %s to %s', max(grid), what, lo, hi)
            check(len(heights) % len(grid) == 0, 'bars of %s: %d for %d '
                'values', what, len(heights), len(grid))
            groups = [heights[i:i + len(grid)] for i in range(0,
                len(heights), len(grid))]
            for x, h in zip(grid, groups[0]):
                if not close(h, xs.count(x) / float(len(xs))):
                    fail('frequency of %s in %s is drawn as %r', x, what, h)
            total, parts = groups[-1], groups[1:-1]
        want = [total_density(s, v, col, x) for x in grid]
        for i, x in enumerate(grid):
            w = sum(want[i].values())
            if not close(total[i], w):
                fail('total density of %s at %s is drawn as %r, not %r', what,
                    x, total[i], w)
            # Clusters without a value have no share.
            got = sorted(p[i] for p in parts if p[i] > 1e-12)
            exp = sorted(y for y in want[i].values() if y > 1e-12)
            if len(got) != len(exp) or not all(
                    close(a, b) for a, b in zip(got, exp)):
                fail('densities of the clusters of %s at %s are drawn as %s, '
                    'not %s', what, x, got, exp)
        plt.close('all')
    mix.unchanged('drawing the columns ' + history, st, before)
    return {'nontrivial': len(s['rows']) > 1,
        'labels': ['empty-cluster'] if gaps else []}


@PROP.sub('large-column-densities', large_picture(60), quick=48,
    thorough=800, timeout=120.)
def large_column_densities(c):
    return column_densities(c)


@PROP.sub('layouts', hs.lists(hs.lists(hs.floats(-50, 50), min_size=3,
    max_size=3), min_size=1, max_size=4), quick=60)
@closed
def layouts(c):
    """Room for every column; traces of scores and marks of samples."""
    for n in range(1, 25):
        l = plots.get_state_plot_layout(n)
        check(l['plots_x'] * l['plots_y'] >= n, 'layout of %d columns: %r',
            n, l)
        check(min(l['plot_inches_x'], l['plot_inches_y']) > 0, 'size of %d '
            'columns: %r', n, l)
    keep = [list(x) for x in c]
    for ax in (None, plt.subplots()[1]):
        got = plots.plot_logscore(c, ax=ax)
        check(ax is None or got is ax, 'plot_logscore drew elsewhere')
        equal('traces', [[float(y) for y in l.get_ydata()]
            for l in got.lines], c)
        equal('sweeps', [list(map(int, l.get_xdata())) for l in got.lines],
            [[0, 1, 2]] * len(c))
        got = plots.plot_samples(c[0], ax=None if ax is None else
            plt.subplots()[1])
        marks = [x.get_segments()[0] for x in got.collections]
        equal('marks of samples', [float(m[0][0]) for m in marks], c[0])
        if ax is None:
            lo, hi = got.get_ylim()
            check(all(lo <= y <= hi for m in marks for _x, y in m),
                'marks %r outside %r', marks, (lo, hi))
    equal('scores', c, keep)
    return {'nontrivial': len(c) > 1}


@hs.composite
def wide(draw):
    return {'n': draw(hs.integers(1, 27)), 'seed': draw(
        hs.integers(0, 10**6)), 'gap': draw(hs.booleans())}


@PROP.sub('whole-states', wide(), quick=48, timeout=60.)
@closed
def whole_states(c):
    from cgpm.crosscat.state import State
    rng = np.random.RandomState(c['seed'])
    n = c['n']
    ids = [int(x) for x in rng.permutation(60)[:n]]
    X = rng.randint(0, 2, size=(4, n)).astype(float)
    kinds = [['bernoulli', 'normal'][k] for k in rng.randint(0, 2, size=n)]
    Zr = {0: [0, 0, 0, 1]}
    if c['gap']:
        X[3, 0] = NAN
    st = State(X, outputs=ids, cctypes=kinds, Zv={i: 0 for i in ids},
        Zrv=Zr, rng=rng)
    before = mix.fingerprint(st)
    fig = st.plot()
    mix.unchanged('plotting a state of %d columns' % n, st, before)
    if fig is None:
        check(n > 24, 'a state of %d columns is not plotted', n)
        return {'nontrivial': True, 'labels': ['too-wide']}
    check(n <= 24, 'a state of %d columns is plotted', n)
    equal('plots of the state', len(fig.axes), n)
    for ax, kind in zip(fig.axes, kinds):
        equal('title', ax.get_title(), kind)
        check(any('K: 2' in t.get_text() for t in ax.texts),
            'number of clusters is shown as %s',
            [t.get_text() for t in ax.texts])
    boxes = [ax.get_subplotspec().num1 for ax in fig.axes]
    check(len(set(boxes)) == n, 'plots share their places: %s', boxes)
    return {'nontrivial': True}
