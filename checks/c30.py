"""C30: states composed with other models."""

import copy
import itertools
import math

import numpy as np

from checks import c10, c16
from vlib import comp, mix, models, stats
from vlib.harness import Property, check, equal, fail, hs, raises, same

TECHNIQUE = ('model-based stateful testing: histories of composing, removing, '
    'conditioning, observing and inference against a reference joint density '
    'assembled from the component models; goodness of fit for samples and '
    'for importance weights')
NOTE = ('Random search with shrinking. The mixture over clusters, the routing '
    'of inputs and the rows of each cluster are recomputed; the component '
    'regressions themselves are judged by C22 and C23.')
PROP = Property('C30',
    'Cases are crosscat states with up to three composed models (linear and '
    'least-squares regressions, random forests, primitives, factor analysis) '
    'and conditional columns, and a history of operations. Non-trivial: a '
    'composed model or conditional column took part in a query.',
    ['inputs of random forests are listed in ascending order',
     'a column with no observed value is not saved (see C16), nor is a '
     'composed primitive, which has no saved form',
     'columns which are inputs of other models are not removed'])

int_ = c10.int_
LSE = mix.lse


class Joint(object):
    """Reference density of a composed state at one moment."""

    def __init__(self, st, foreign):
        """foreign: [(outputs, inputs, independent model)]"""
        self.s = mix.read(st)
        self.z = mix.zv(self.s)
        self.parents, self.owner = {}, {}
        self.cond = {}
        for c in mix.ids(self.s):
            d = st.dim_for(c)
            self.parents[c] = list(d.inputs[1:])
            self.owner[c] = None
            if d.is_conditional():
                self.cond[c] = {k: self.component(d, k) for k in list(
                    d.clusters) + [None]}
        self.foreign = foreign
        for i, (outs, ins, _g) in enumerate(foreign):
            for o in outs:
                self.owner[o] = i
                self.parents[o] = list(ins)

    def component(self, d, k):
        """A model of the rows of cluster k, built from scratch."""
        if d.cctype != 'linear_regression':
            # Classifiers cannot be refitted identically.
            return copy.deepcopy(d.clusters.get(k, d.aux_model))
        from cgpm.regressions.linreg import LinearRegression
        g = LinearRegression([d.index], list(d.inputs[1:]), hypers=dict(
            d.hypers), distargs=copy.deepcopy(d.distargs),
            rng=np.random.RandomState(0))
        z = mix.zr(self.s)[self.z[d.index]]
        for i, r in enumerate(z):
            y = mix.cell(self.s, i, d.index)
            xs = {p: mix.cell(self.s, i, p) for p in d.inputs[1:]}
            if r == k and y is not None and None not in xs.values():
                g.incorporate(i, {d.index: y}, xs)
        return g

    def variables(self):
        return sorted(self.owner)

    def close(self, vs):
        out, todo = set(vs), list(vs)
        while todo:
            for p in self.parents[todo.pop()]:
                if p not in out:
                    out.add(p)
                    todo.append(p)
        return out

    def cell(self, v, k, c, values):
        if c not in self.cond:
            return mix.cell_lp(self.s, v, k, c, values[c])
        g = self.cond[c].get(k, self.cond[c][None])
        return float(np.squeeze(g.logpdf(-1, {c: values[c]}, None,
            {p: values[p] for p in self.parents[c]})))

    def view(self, v, values, row=None):
        mine = [c for c in values if self.owner[c] is None and self.z[c] ==
            v]
        if not mine:
            return 0.
        terms = []
        for k, lp in mix.tables(self.s, v):
            if row is not None:
                if k != mix.zr(self.s)[v][row]:
                    continue
                lp = 0.
            terms.append(lp + sum(self.cell(v, k, c, values) for c in mine))
        return LSE(terms)

    def joint(self, values, row=None):
        """log p of upward closed values."""
        total = sum(self.view(v, values, row) for v in set(self.z.values()))
        for outs, ins, g in self.foreign:
            t = {o: values[o] for o in outs if o in values}
            if t and total > -float('inf'):
                kw = {'inputs': {p: values[p] for p in ins}} if ins else {}
                total += float(np.squeeze(g.logpdf(-1, t, None, **kw)))
        return total

    def logpdf(self, T, C, row=None):
        both = dict(C)
        both.update(T)
        num = self.joint(both, row)
        if num == -float('inf'):
            return num
        return num - self.joint(C, row)

    def values_in_row(self, i):
        return {c: mix.cell(self.s, i, c) for c in mix.ids(self.s)
            if mix.cell(self.s, i, c) is not None}


def value_like(rng, type_, parent=None):
    if type_[1] is not None:
        return int(rng.randint(type_[1]))
    return round(float(rng.normal(0, 2)), 2)


class Machine(c10.Machine):

    def __init__(self, c):
        c = copy.deepcopy(c)
        full = dict(c, spec=c['state'], fixed=True)
        c10.Machine.__init__(self, full)
        self.base = {x['col']: dict(x) for x in self.s['cols']}
        self.names = 70
        self.mine = []      # [node, reference, token]
        self.used = set()
        self.asked = 0

    # Columns are generated by their original type.

    def original(self, f, *args):
        cols = self.s['cols']
        now = {x['col']: (x['dist'], x['distargs']) for x in cols}
        for x in cols:
            b = self.base[x['col']]
            x['dist'], x['distargs'] = b['dist'], b['distargs']
        try:
            return f(self, *args)
        finally:
            for x in cols:
                if x['col'] in now:
                    x['dist'], x['distargs'] = now[x['col']]
                else:
                    self.base[x['col']] = dict(x)

    def do_row(self, i, style):
        return self.original(c10.Machine.do_row, i, style)

    def do_force(self, i, j):
        return self.original(c10.Machine.do_force, i, j)

    def do_col(self, i, j):
        if self.has_conditional() and j % 3 == 0:
            # Columns are not transitioned next to conditional ones.
            j += 1
        return self.original(c10.Machine.do_col, i, j)

    def do_drop_col(self, i):
        cols = mix.ids(self.s)
        free = [c for c in cols if not any(c in n['ins'] for n, _g, _t in
            self.mine) and not any(c in self.st.dim_for(d).inputs for d in
                cols) and not any(c in n['ins'] for n in self.waiting())]
        if not free or len(cols) == 1:
            return None
        col = free[i % len(free)]
        return c10.Machine.do_drop_col(self, cols.index(col))

    def do_adopt(self, i):
        """A column makes room for a model of the variable it held."""
        wait = self.waiting()
        before = set(mix.ids(self.s))
        if not wait or self.do_drop_col(i) is None:
            return None
        new = (before - set(mix.ids(self.s))).pop()
        old = wait[i % len(wait)]['outs'][0]
        name = lambda v: new if v == old else v
        for n in self.c['foreign']:
            n['outs'] = [name(v) for v in n['outs']]
            n['ins'] = [name(v) for v in n['ins']]
            n['rows'] = [[[[name(v), x] for v, x in a], [[name(v), x] for
                v, x in b]] for a, b in n.get('rows', [])]
        self.do_compose(i)
        return 'adopt'

    def waiting(self):
        return [n for i, n in enumerate(self.c['foreign'])
            if i not in [m[0]['id'] for m in self.mine]]

    def has_conditional(self):
        return any(self.st.dim_for(c).is_conditional() for c in
            self.st.outputs)

    def do_infer(self, i):
        kernels = ['alpha', 'view_alphas', 'column_params', 'column_hypers',
            'rows'] + ([] if self.has_conditional() else ['columns'])
        self.st.transition(N=1, kernels=[kernels[i % len(kernels)]],
            progress=False)
        return 'infer'

    # Compositions.

    def do_compose(self, i):
        options = []
        seen = set(self.st.outputs).union(*[m[0]['outs'] for m in self.mine])
        for k, n in enumerate(self.c['foreign']):
            if k not in [m[0]['id'] for m in self.mine] and all(
                    u in seen for u in n['ins']):
                options.append(k)
        if not options:
            return None
        k = options[i % len(options)]
        node = dict(self.c['foreign'][k], id=k)
        seed = self.c['seed'] + 17 * k + 5
        g, twin = comp.make(node, seed), comp.make(node, seed)
        before = mix.fingerprint(self.st)
        token = self.st.compose_cgpm(g)
        check(token not in [m[2] for m in self.mine], 'token %r twice',
            token)
        check(self.st.hooked_cgpms[token] is g, 'another model was composed')
        mix.unchanged('composing %s' % node['kind'], self.st, before,
            ignore=('hooked', 'composite'))
        check(self.st.is_composite(), 'a composed state is not composite')
        self.mine.append([node, twin, token])
        return 'compose'

    def do_decompose(self, i):
        free = [m for m in self.mine if not any(o in x[0]['ins'] for x in
            self.mine for o in m[0]['outs'])]
        if not free:
            return None
        m = free[i % len(free)]
        before = mix.fingerprint(self.st)
        self.st.decompose_cgpm(m[2])
        self.mine.remove(m)
        mix.unchanged('removing %s' % m[0]['kind'], self.st, before,
            ignore=('hooked', 'composite'))
        equal('composed models', sorted(self.st.hooked_cgpms), sorted(x[2]
            for x in self.mine))
        equal('is_composite', bool(self.st.is_composite()), bool(self.mine)
            or self.has_conditional())
        for o in m[0]['outs']:
            raises('querying the removed variable %d' % o, (ValueError,
                KeyError, AssertionError, RuntimeError), lambda:
                self.st.simulate(-1, [o]))
        return 'decompose'

    def do_learn(self, i, j):
        """New observations for a composed model."""
        if not self.mine:
            return None
        node, twin, token = self.mine[i % len(self.mine)]
        if node['kind'] in ('forest', 'ols'):
            # Fitted models answer from their last transition.
            return None
        rowid = 2000 + len(self.done)
        g = self.st.hooked_cgpms[token]
        if j % 3 == 0 and node['rows']:
            rowid = 1000 + len(node['rows']) - 1
            g.unincorporate(rowid)
            twin.unincorporate(rowid)
            node['rows'] = node['rows'][:-1]
            return 'unlearn'
        if node['kind'] == 'primitive':
            m = node['model']
            obs = {node['outs'][0]: c10.value_for(self.rng, m['dist'],
                m['distargs'])}
        else:
            k = 2 if node['kind'] == 'factor' else 1
            obs = {o: value_like(self.rng, t) for o, t in zip(node['outs'][
                :k], node['otypes'])}
        args = [obs]
        if node['ins']:
            args.append({u: value_like(self.rng, t) for u, t in zip(node[
                'ins'], node['types'])})
        g.incorporate(rowid, *copy.deepcopy(args))
        twin.incorporate(rowid, *copy.deepcopy(args))
        return 'learn'

    def do_foreign(self, i):
        """Inference on composed models."""
        able = [m for m in self.mine if m[0]['kind'] in ('linreg', 'ols',
            'forest') and len(m[0]['rows']) > 0]
        if not able:
            return None
        m = able[i % len(able)]
        before = mix.fingerprint(self.st)
        others = [(x, copy.deepcopy(x[1])) for x in self.mine if x is not m]
        self.st.transition_foreign(N=1, cols=[m[0]['outs'][0]],
            progress=False)
        mix.unchanged('inference on %s' % m[0]['kind'], self.st, before,
            ignore=('diagnostics',))
        m[1] = copy.deepcopy(self.st.hooked_cgpms[m[2]])
        return 'foreign'

    # Conditional columns.

    def do_condition(self, i, j):
        s, st = self.s, self.st
        z = dict((c, st.Zv(c)) for c in st.outputs)
        options = []
        for k, x in enumerate(s['cols']):
            c = x['col']
            if x['dist'] in ('linear_regression', 'random_forest'):
                continue
            ins = [o for o in sorted(z) if o != c and z[o] == z[c] and not
                st.dim_for(o).is_conditional()]
            if not ins:
                continue
            seen = [r[k] for r in s['rows'] if r[k] is not None]
            if not seen:
                continue
            if x['dist'] in ('normal', 'poisson', 'exponential',
                    'lognormal'):
                options.append((k, 'linear_regression', {}, ins))
            elif x['dist'] in ('categorical', 'bernoulli'):
                options.append((k, 'random_forest', {'k': comp.type_of(
                    self.base[c])[1]}, ins))
        # Acyclic: no column becomes the input of its own input.
        if not options:
            return None
        k, cctype, args, ins = options[i % len(options)]
        given = dict(args)
        if j % 2:
            given['inputs'] = ins[:1 + j % len(ins)]
            ins = given['inputs']
        keep = copy.deepcopy(given)
        col = s['cols'][k]['col']
        before = mix.fingerprint(st)
        st.update_cctype(col, cctype, distargs=given or None)
        equal('distargs given to update_cctype', given, keep)
        equal('inputs of the conditional column %d' % col, list(st.dim_for(
            col).inputs[1:]), ins)
        check(st.is_composite(), 'a state with a conditional column is not '
            'composite')
        s['cols'][k] = {'col': col, 'dist': cctype, 'distargs': {}}
        return 'condition'

    def do_uncondition(self, i):
        s, st = self.s, self.st
        mine = [k for k, x in enumerate(s['cols']) if x['dist'] in (
            'linear_regression', 'random_forest')]
        if not mine:
            return None
        k = mine[i % len(mine)]
        col = s['cols'][k]['col']
        if all(r[k] is None for r in s['rows']):
            return None
        b = self.base[col]
        st.update_cctype(col, b['dist'], distargs=dict(b['distargs']) or
            None)
        s['cols'][k] = {'col': col, 'dist': b['dist'], 'distargs': b[
            'distargs']}
        equal('is_composite', bool(st.is_composite()), bool(self.mine) or
            self.has_conditional())
        return 'uncondition'

    def do_reload(self):
        if c16.empty_column(mix.read(self.st)) or any(m[0]['kind'] ==
                'primitive' for m in self.mine):
            return None
        from cgpm.crosscat.state import State
        st = State.from_metadata(self.st.to_metadata(),
            rng=np.random.RandomState(len(self.done)))
        equal('number of composed models after loading', len(
            st.hooked_cgpms), len(self.mine))
        by = {tuple(g.outputs): t for t, g in st.hooked_cgpms.items()}
        for m in self.mine:
            check(tuple(m[0]['outs']) in by, 'composed model of %r is lost',
                m[0]['outs'])
            m[2] = by[tuple(m[0]['outs'])]
        equal('is_composite after loading', bool(st.is_composite()),
            bool(self.st.is_composite()))
        self.st = st
        return 'reload'

    # Queries.

    def reference(self):
        return Joint(self.st, [(m[0]['outs'], m[0]['ins'], m[1]) for m in
            self.mine])

    def value_of(self, v):
        if v in self.base and v in mix.ids(self.s):
            b = self.base[v]
            return c10.value_for(self.rng, b['dist'], b['distargs'])
        for n, _g, _t in self.mine:
            if v in n['outs']:
                if n['kind'] == 'primitive':
                    return c10.value_for(self.rng, n['model']['dist'],
                        n['model']['distargs'])
                return value_like(self.rng, n['otypes'][n['outs'].index(v)])

    def ask(self, i, j):
        st = self.st
        J = self.reference()
        vs = J.variables()
        order = [vs[k] for k in self.rng.permutation(len(vs))]
        row = None
        if j % 3 == 2:
            row = i % st.n_rows()
        have = J.values_in_row(row) if row is not None else {}
        A = J.close(order[:1 + i % len(order)])
        C = J.close(order[:i // 7 % (1 + i % len(order))])
        if row is not None:
            # The row contributes its values; they need their inputs too.
            A = J.close(A | set(have))
            C = J.close(C | set(have))
        T = sorted(A - C)
        if not T:
            return
        values = {v: have.get(v, self.value_of(v)) for v in A}
        T = {v: values[v] for v in T}
        given = {v: values[v] for v in C}
        # Observed cells may or may not be repeated in the constraints.
        passed = {v: x for v, x in given.items() if v not in have or (i + v)
            % 3 == 0}
        label = 'logpdf(%r, %r, %r) after %s' % (row, T, passed, '; '.join(
            self.done))
        kinds = [m[0]['kind'] for m in self.mine] + [
            'conditional' for _ in J.cond]
        lpC = J.joint(given, row)
        rowid = row if row is not None else [-1, None, st.n_rows() + 3][
            j % 2 + (j // 3 % 2)]
        if rowid is None:
            rowid = -1
        Tc, Pc = dict(T), dict(passed)
        if lpC == -float('inf'):
            return
        got = st.logpdf(rowid, T, passed or None)
        check(T == Tc and passed == Pc, '%s changed its arguments', label)
        same(label, float(np.squeeze(got)), J.logpdf(T, given, row), 1e-6,
            1e-6)
        if row is not None:
            # A view on its own takes the rest of the row from the data.
            for q in J.cond:
                if q in have and all(p in have for p in J.parents[q]) and \
                        not any(q in J.parents[p] for p in J.cond):
                    v = J.z[q]
                    k = mix.zr(J.s)[v][row]
                    same('logpdf(%r, %r) of view %r after %s' % (row, {q:
                        have[q]}, v, '; '.join(self.done)), st.views[v]
                        .logpdf(row, {q: have[q]}), J.cell(v, k, q, have),
                        1e-6, 1e-6)
        # More accuracy changes nothing when nothing is sampled.
        if i % 4 == 0:
            same(label + ' with accuracy', float(np.squeeze(st.logpdf(rowid,
                T, passed or None, accuracy=3))), J.logpdf(T, given, row),
                1e-6, 1e-6)
        # Samples.
        N = [None, 1, 3][i % 3]
        Q = list(T)
        out = st.simulate(rowid, Q, passed or None, N=N)
        rows = [out] if N is None else out
        equal('number of samples', len(rows), N or 1)
        for r in rows:
            equal('variables of a sample', sorted(r), sorted(Q))
            w = dict(given)
            w.update({k: float(np.squeeze(x)) for k, x in r.items()})
            if max(abs(x) for x in w.values()) > 1e6:
                # Heavy tails: no density in floating point.
                continue
            lp = J.joint(w, row)
            check(lp > -float('inf') and not math.isnan(lp), 'sample %r of '
                '%s has log density %r', r, label, lp)
        if kinds and any(J.owner[v] is not None or v in J.cond for v in A):
            self.asked += 1
            self.used.update(kinds)

    def do_ask(self, i, j):
        self.ask(i, j)
        return 'ask'

    def finish(self):
        for j in range(6):
            self.ask(int(self.rng.randint(400)), j)
        # Remove everything: the state answers as the state alone.
        while self.mine:
            self.do_decompose(int(self.rng.randint(9)))
        for i in range(len(self.s['cols']), 0, -1):
            self.do_uncondition(i)
        if self.has_conditional():
            return
        mix.invariants('in the end', self.st, self.s)
        check(not self.st.is_composite(), 'the bare state is composite')
        r = mix.read(self.st)
        T = {}
        for c in r['cols']:
            T[c['col']] = self.value_of(c['col'])
        same('density of the bare state after %s' % '; '.join(self.done),
            self.st.logpdf(-1, T), mix.logpdf(r, T), 1e-6, 1e-6)

    def stable(self, label, kind, what, before, after):
        if kind not in ('foreign',):
            c10.Machine.stable(self, label, kind, what, before, after)


op = hs.one_of(
    hs.tuples(hs.just('ask'), hs.integers(0, 400), int_),
    hs.tuples(hs.just('ask'), hs.integers(0, 400), int_),
    hs.tuples(hs.just('compose'), int_),
    hs.tuples(hs.just('compose'), int_),
    hs.tuples(hs.just('decompose'), int_),
    hs.tuples(hs.just('adopt'), int_),
    hs.tuples(hs.just('learn'), int_, int_),
    hs.tuples(hs.just('foreign'), int_),
    hs.tuples(hs.just('condition'), int_, int_),
    hs.tuples(hs.just('condition'), int_, int_),
    hs.tuples(hs.just('uncondition'), int_),
    hs.tuples(hs.just('reload')),
    hs.tuples(hs.just('infer'), int_),
    hs.tuples(hs.just('force'), int_, int_),
    hs.tuples(hs.just('drop_row')),
    hs.tuples(hs.just('col'), int_, int_),
    hs.tuples(hs.just('drop_col'), int_),
    hs.tuples(hs.just('row'), int_, hs.sampled_from(['full', 'partial',
        'clustered'])))


@hs.composite
def history(draw, **kw):
    kw.setdefault('max_foreign', 3)
    c = draw(comp.composite(min_foreign=1, **kw))
    c['ops'] = [['compose', 0]] + draw(hs.lists(op, min_size=2,
        max_size=12))
    c['new'] = [draw(mix.column(dists=comp.DISTS)) for _ in range(2)]
    c['seeds'] = draw(hs.integers(0, 10**6))
    return c


def run(c):
    m = Machine(c)
    for o in c['ops']:
        m.step(o)
    m.finish()
    return {'nontrivial': m.asked > 0, 'labels': sorted(m.used |
        set(m.done))}


PROP.sub('histories', history(), quick=700)(run)
PROP.sub('regressions', history(kinds=['linreg', 'linreg', 'forest'],
    one_view=True, min_cols=2, max_rows=6, max_foreign=2), quick=500)(run)


# --------------------------------------------------------------------------
# Samples and weights, on states small enough to enumerate.

@hs.composite
def discrete_case(draw):
    c = draw(comp.composite(kinds=('forest', 'linreg', 'forest', 'forest', 'primitive'),
        dists=['bernoulli', 'categorical', 'bernoulli'], max_cols=3,
        min_cols=1, max_rows=5, max_foreign=2))
    c['cond'] = draw(hs.sampled_from([None, None, 0, 1, 2]))
    c['order'] = draw(hs.integers(0, 10**6))
    c['row'] = draw(hs.one_of(hs.none(), hs.integers(0, 4)))
    c['n'] = [draw(hs.integers(1, 4)), draw(hs.integers(0, 3))]
    return c


def small(c):
    types = comp.types(c)
    states = 1
    for t in types.values():
        states *= t[1] or 2
    return states <= 150 and all(n['kind'] != 'primitive' or n['model'][
        'dist'] == 'categorical' for n in c['foreign'])


class Table(object):
    """Joint probability table of a composed state; continuous outputs are
    cut at a threshold."""

    CUT = .3

    def __init__(self, c, st, gs, row=None):
        self.c, self.st = c, st
        self.own = comp.owner(c)
        self.types = comp.types(c)
        self.J = Joint(st, [(n['outs'], n['ins'], g) for n, g in zip(
            c['foreign'], gs)])
        self.row = row
        self.vars = sorted(self.own)
        self.cut = [v for v in self.vars if self.types[v][1] is None]
        have = self.J.values_in_row(row) if row is not None else {}
        self.p = {}
        spaces = [[have[v]] if v in have else list(range(self.types[v][1]
            or 2)) for v in self.vars]
        for o in itertools.product(*spaces):
            values = dict(zip(self.vars, o))
            fixed = {v: x for v, x in values.items() if v not in self.cut}
            lp = sum(self.J.view(v, {u: x for u, x in fixed.items()
                if self.own[u] is None}, row) for v in set(
                    self.J.z.values()))
            if row is not None:
                pass
            p = math.exp(lp)
            for n, g in zip(c['foreign'], gs):
                p *= self.factor(n, g, values)
            self.p[o] = p
        total = sum(self.p.values())
        if row is None:
            same('total probability', total, 1., 1e-6, 1e-6)
        self.p = {o: p / total for o, p in self.p.items()}

    def factor(self, n, g, values):
        out, = n['outs']
        kw = {'inputs': {u: values[u] for u in n['ins']}} if n['ins'] else {}
        if n['otypes'][0][1] is not None:
            return math.exp(float(np.squeeze(g.logpdf(-1, {out: values[out]},
                None, **kw))))
        t = self.student(n, values)
        p = float(t.cdf(self.CUT))
        return 1 - p if values[out] else p

    def student(self, n, values):
        from vlib import reg
        rows = [reg.code(n['types'], [dict(map(tuple, i))[u] for u in n[
            'ins']], True) for _o, i in n['rows']]
        ys = [o[0][1] for o, _i in n['rows']]
        x = reg.code(n['types'], [values[u] for u in n['ins']], True)
        return reg.nig_predictive(1., 1., np.zeros(len(x)), np.eye(len(x)),
            rows, ys, x)

    def coarse(self, v, x):
        return int(x > self.CUT) if v in self.cut else int(x)

    def law(self, targets, given):
        out, total = {}, 0.
        for o, p in self.p.items():
            values = dict(zip(self.vars, o))
            if any(values[v] != x for v, x in given.items()):
                continue
            key = tuple(int(values[t]) for t in targets)
            out[key] = out.get(key, 0.) + p
            total += p
        return {k: p / total for k, p in out.items()} if total > 0 else None


def prepare(c, leaves=False):
    """(state, table, row, targets, constraints) or None."""
    if not small(c):
        return None
    st, _tokens, _gs = comp.build(c)
    gs = comp.twins(c)
    if c['cond'] is not None:
        col = c16.make_conditional(st, dict(c, which=c['cond']))
        if col is not None:
            st.transition(N=1, kernels=['column_params'], progress=False)
    row = c['row'] if c['row'] is not None and c['row'] < st.n_rows() else \
        None
    rng = np.random.RandomState(c['order'])
    T = Table(c, st, gs, row)
    if row is not None and any(o in T.J.values_in_row(row) and any(p not in
            T.J.values_in_row(row) for p in T.J.parents[o]) for o in
                T.J.cond):
        return None
    # Continuous inputs are not enumerated.
    if any(T.types[u][1] is None for n in c['foreign'] for u in n['ins']):
        return None
    order = [T.vars[k] for k in rng.permutation(len(T.vars))]
    if leaves:
        # Outputs with inputs first.
        order.sort(key=lambda v: not T.J.parents[v])
    have = T.J.values_in_row(row) if row is not None else {}
    C = T.J.close(order[-c['n'][1]:]) if c['n'][1] else set()
    C -= set(T.cut)
    C = set(v for v in C if not any(p in T.cut for p in T.J.close([v])))
    C = T.J.close(C)
    Q = [v for v in order if v not in C and v not in have][:c['n'][0]]
    if not Q:
        return None
    # Values of positive probability.
    law = T.law(sorted(C), {})
    keys = sorted(law)
    pick = keys[rng.choice(len(keys), p=[law[k] for k in keys])]
    given = dict(zip(sorted(C), pick))
    return st, T, row, Q, given


@PROP.sub('simulation', discrete_case(), quick=160, wall=True, timeout=60.)
def simulation(c):
    x = prepare(c)
    if x is None:
        return {'nontrivial': False}
    st, T, row, Q, given = x
    have = T.J.values_in_row(row) if row is not None else {}
    passed = {v: y for v, y in given.items() if v not in have or v % 2}
    law = T.law(Q, given)
    what = 'simulate(%r, %r, %r) of a state composed with %r' % (row, Q,
        passed, [n['kind'] for n in c['foreign']])

    def draw(n):
        out = st.simulate(-1 if row is None else row, list(Q), dict(passed)
            or None, N=n)
        return [tuple(T.coarse(v, r[v]) for v in Q) for r in out]
    stats.discrete(what, draw, law)
    return {'nontrivial': len(law) > 1, 'labels': [n['kind'] for n in
        c['foreign']] + (['conditional'] if T.J.cond else [])
        + (['row'] if row is not None else [])}


@PROP.sub('weights', discrete_case(), quick=160, wall=True, timeout=60.)
def weights(c):
    """Importance weights average to the probability of the evidence."""
    c['n'] = [1 + c['n'][0] // 3, c['n'][1] // 2]
    x = prepare(c, True)
    if x is None:
        return {'nontrivial': False}
    st, T, row, Q, given = x
    have = T.J.values_in_row(row) if row is not None else {}
    passed = {v: y for v, y in given.items() if v not in have or v % 2}
    Q = [v for v in Q if v not in T.cut]
    if not Q or row is not None and T.J.cond:
        return {'nontrivial': False}
    law = T.law(Q, given)
    keys = sorted(law)
    pick = keys[c['order'] % len(keys)]
    targets = dict(zip(Q, pick))
    A = 1 + c['order'] % 3
    what = 'exp of logpdf(%r, %r, %r) of a state composed with %r' % (row,
        targets, passed, [n['kind'] for n in c['foreign']])

    def draw(n):
        return [math.exp(st.logpdf(-1 if row is None else row, dict(
            targets), dict(passed) or None, accuracy=A)) for _ in range(n)]
    stats.mean(what, draw, law[pick], n1=150, n2=3000)
    return {'nontrivial': any(p not in Q and p not in given and p not in
        have for p in T.J.close(Q)), 'labels': [n['kind'] for n in
            c['foreign']] + (['conditional'] if T.J.cond else [])}
