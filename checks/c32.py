"""C32: models written as programs of an external probabilistic runtime."""

import contextlib
import copy
import json
import pickle
import re
import string
import sys
import types

import numpy as np

from vlib.harness import Property, check, equal, fail, hs, raises, same

TECHNIQUE = ('model-based stateful testing with a stand-in runtime: generated '
    'histories are driven through the model, and the directives the runtime '
    'received are compared with a reference of the observed cells')
NOTE = ('Random search with shrinking. venture is not installed; the stand-in '
    'keeps the directives it is given and answers with values computed from '
    'them, so that every argument can be checked.')
PROP = Property('C32',
    'Cases are a program (numbers of outputs and inputs), identifiers, and a '
    'history of observations, removals, queries, inference and reloading. '
    'Non-trivial: at least two rows were observed.',
    ['the runtime accepts any number and refuses duplicate labels and '
     'forgetting unknown ones'])


class Collision(Exception):
    """Two labels drawn within a microsecond may coincide."""


class RuntimeFault(Exception):
    pass


class Ripl(object):
    """Stand-in: keeps directives, answers from them."""

    def __init__(self, seed=None):
        self.seed = seed
        self.directives = {}    # label -> tuple
        self.n = None
        self.log = []
        self.mode = None
        self.made = 0
        self.assumed = {}

    # Programs: '<outputs> <inputs>'.
    def set_mode(self, mode):
        self.mode = mode

    def load_plugin(self, name):
        self.log.append(['plugin', name])

    def execute_program(self, text):
        self.log.append(['program', text, self.mode])
        m = re.match(r'^(\d+) outputs (\d+) inputs (\d+) observers$', text)
        if m:
            self.n = [int(x) for x in m.groups()]

    def numbers(self, tokens):
        return [float(x) for x in tokens]

    def add(self, label, what):
        if label in self.directives:
            raise Collision(label)
        self.directives[label] = what

    def evaluate(self, text):
        if text == '(size inputs)':
            return self.n[1]
        if text == '(size observers)':
            return self.n[2]
        m = re.match(r'^\(\(lookup observers (\d+)\) (.*)\)$', text)
        if m:
            if not 0 <= int(m.group(1)) < self.n[2]:
                raise RuntimeFault(text)
            xs = m.group(2).split()
            if len(xs) != self.n[1] + 3 or not xs[-1].startswith("'"):
                raise RuntimeFault('bad observer call %s' % text)
            self.add(xs[-1][1:], ('observe', int(m.group(1)), self.numbers(
                xs[:-1])))
            return
        m = re.match(r'^\(([a-z_]+)\)$', text)
        if m:
            self.made += 1
            self.maker = m.group(1)
            return
        raise RuntimeFault(text)

    def sample(self, text):
        if text == 'simulators':
            return list(range(self.n[0]))
        raise RuntimeFault(text)

    def predict(self, text, label=None):
        m = re.match(r'^\(\(lookup simulators (\d+)\) (.*)\)$', text)
        if not m or not 0 <= int(m.group(1)) < self.n[0]:
            raise RuntimeFault(text)
        i, args = int(m.group(1)), self.numbers(m.group(2).split())
        if len(args) != self.n[1] + 1:
            raise RuntimeFault('bad simulator call %s' % text)
        self.add(label, ('predict', i, args))
        self.log.append(['predict', i, args, self.observations()])
        return self.answer(i, args)

    def answer(self, i, args):
        """The observed value of the cell, or a value telling the call."""
        for what, j, xs in self.directives.values():
            if what == 'observe' and j == i and xs[:-1] == args:
                return xs[-1]
        return 1000. * (i + 1) + sum((k + 1) * x for k, x in enumerate(
            args))

    def observations(self):
        return sorted((d[1], tuple(d[2])) for d in self.directives.values()
            if d[0] == 'observe')

    def forget(self, label):
        if label not in self.directives:
            raise RuntimeFault('forget unknown label %s' % label)
        del self.directives[label]

    def infer(self, text):
        self.log.append(['infer', text, self.observations()])

    def saves(self):
        return pickle.dumps((self.directives, self.n))

    def loads(self, text):
        self.directives, self.n = pickle.loads(text)


SHORTCUTS = types.ModuleType('venture.shortcuts')


@contextlib.contextmanager
def venture(make):
    """venture.shortcuts.make_lite_ripl is `make`."""
    if 'venture' not in sys.modules:
        root = types.ModuleType('venture')
        root.__path__ = []
        root.shortcuts = SHORTCUTS
        sys.modules['venture'] = root
        sys.modules['venture.shortcuts'] = SHORTCUTS
    SHORTCUTS.make_lite_ripl = make
    try:
        yield
    finally:
        del SHORTCUTS.make_lite_ripl


int_ = hs.integers(0, 60)
number = hs.integers(-16, 16).map(lambda i: i / 4.)


@hs.composite
def program(draw):
    D, P = draw(hs.integers(1, 3)), draw(hs.integers(0, 2))
    names = draw(hs.lists(hs.integers(0, 20), min_size=D + P,
        max_size=D + P, unique=True))
    op = hs.one_of(
        hs.tuples(hs.just('observe'), int_, int_, hs.booleans()),
        hs.tuples(hs.just('observe'), int_, int_, hs.booleans()),
        hs.tuples(hs.just('observe'), int_, int_, hs.booleans()),
        hs.tuples(hs.just('remove'), int_),
        hs.tuples(hs.just('simulate'), int_, int_, int_),
        hs.tuples(hs.just('simulate'), int_, int_, int_),
        hs.tuples(hs.just('infer'), int_),
        hs.tuples(hs.just('density'), int_),
        hs.tuples(hs.just('refuse'), int_, int_),
        hs.tuples(hs.just('reload'), hs.booleans()))
    return {'outs': names[:D], 'ins': names[D:], 'seed': draw(hs.integers(0,
        10**6)), 'mode': draw(hs.sampled_from([None, 'venture_script'])),
        'sp': draw(hs.sampled_from([None, 'other_maker'])),
        'plugins': draw(hs.sampled_from([None, 'a.py', 'a.py, b.py'])),
        'ops': draw(hs.lists(op, min_size=2, max_size=14)),
        'values': draw(hs.lists(number, min_size=8, max_size=8))}


class Program(object):

    def __init__(self, c):
        from cgpm.venturescript.vscgpm import VsCGpm
        self.c, self.cls = c, VsCGpm
        self.rng = np.random.RandomState(c['seed'])
        kw = {'source': '%d outputs %d inputs %d observers' % (len(c['outs']),
            len(c['ins']), len(c['outs']))}
        if c['mode']:
            kw['mode'] = c['mode']
        if c['plugins']:
            kw['plugins'] = c['plugins']
        outs, ins = list(c['outs']), list(c['ins'])
        self.g = VsCGpm(outputs=outs, inputs=ins, rng=np.random.RandomState(
            c['seed']), sp=c['sp'], **kw)
        equal('arguments of VsCGpm', [outs, ins], [c['outs'], c['ins']])
        r = self.g.ripl
        equal('generative process', [r.made, r.maker], [1, c['sp'] or
            'make_cgpm'])
        equal('programs', [x for x in r.log if x[0] == 'program'], [[
            'program', kw['source'], c['mode'] or 'church_prime']])
        equal('plugins', [x[1] for x in r.log if x[0] == 'plugin'],
            [p.strip() for p in (c['plugins'] or '').split(',') if p])
        equal('mode', r.mode, 'church_prime')
        self.rows = {}      # rowid -> [inputs, {output: value}]
        self.done = []

    def value(self):
        return self.c['values'][self.rng.randint(8)]

    def inputs(self):
        return {u: self.value() for u in self.c['ins']}

    def expected(self, extra=()):
        out = list(extra)
        for r, (ins, obs) in self.rows.items():
            for o, x in obs.items():
                out.append(self.cell(r, ins, o) + (x,))
        return sorted((i, xs + (x,)) for i, xs, x in out)

    def cell(self, r, ins, o):
        return (self.c['outs'].index(o), (float(r),) + tuple(float(ins[u])
            for u in self.c['ins']))

    def consistent(self):
        r = self.g.ripl
        what = 'runtime after %s' % '; '.join(self.done)
        equal(what, r.observations(), self.expected())
        equal('directives of the ' + what, len(r.directives),
            len(self.expected()))

    # Operations.

    def do_observe(self, i, j, again):
        r = i % 5
        outs = [o for k, o in enumerate(self.c['outs']) if (j >> k) & 1]
        known = self.rows.get(r)
        if known:
            outs = [o for o in outs if o not in known[1]]
        if not outs:
            return
        obs = {o: self.value() for o in outs}
        if known:
            ins = dict(known[0]) if again else None
        else:
            ins = self.inputs()
        keep = copy.deepcopy([obs, ins])
        if ins is None or not self.c['ins'] and again:
            self.g.incorporate(r, obs)
        else:
            self.g.incorporate(r, obs, ins)
        equal('arguments of incorporate', [obs, ins], keep)
        if known:
            known[1].update(obs)
        else:
            self.rows[r] = [ins or {}, obs]
            if ins:
                # The dictionary stays the caller's.
                self.rows[r] = [dict(ins), dict(obs)]
                ins[list(ins)[0]] = 99.
        return 'observe'

    def do_remove(self, i):
        r = i % 5
        if r not in self.rows:
            raises('removing an absent row', ValueError, lambda:
                self.g.unincorporate(r))
            return 'remove absent'
        self.g.unincorporate(r)
        del self.rows[r]
        return 'remove'

    def do_simulate(self, i, j, k):
        r = i % 7 if i % 2 else -1 - i % 3
        known = self.rows.get(r)
        order = [self.c['outs'][x] for x in self.rng.permutation(len(
            self.c['outs']))]
        free = [o for o in order if not known or o not in known[1]]
        C = {o: self.value() for o in free[:j % 3]}
        T = [o for o in order if o not in C][:1 + k % 3]
        if not T:
            return
        ins = dict(known[0]) if known else self.inputs()
        args = [r, list(T), dict(C) or None]
        if not known or k % 2:
            args.append(dict(ins))
        keep = copy.deepcopy(args)
        ripl = self.g.ripl
        n = len(ripl.log)
        N = [None, None, 1, 3][(i + j) % 4]
        out = self.g.simulate(*args, **({} if N is None else {'N': N}))
        equal('arguments of simulate', args, keep)
        log = ripl.log[n:]
        what = 'simulate(%s, N=%r) after %s' % (', '.join(map(repr, keep)),
            N, '; '.join(self.done))
        rows = [out] if N is None else out
        check(isinstance(rows, list), '%s returned %r', what, out)
        equal('number of samples of ' + what, len(rows), N or 1)
        seen = self.expected([self.cell(r, ins, o) + (x,) for o, x in
            C.items()])
        for s in rows:
            equal('variables of ' + what, sorted(s), sorted(T))
            for o in T:
                i_, a = self.cell(r, ins, o)
                want = 1000. * (i_ + 1) + sum((m + 1) * x for m, x in
                    enumerate(a))
                if known and o in known[1]:
                    want = known[1][o]
                equal('%s: value of %d' % (what, o), s[o], want)
        predicts = [x for x in log if x[0] == 'predict']
        equal('predictions of ' + what, len(predicts), len(T) * (N or 1))
        for x in predicts:
            equal('evidence for a prediction of ' + what, x[3], seen)
        infers = [x for x in log if x[0] == 'infer']
        if C:
            check(infers and all(x[2] == seen for x in infers), '%s did not '
                'condition on the constraints: %r', what, infers)
            check(all('(atom %d)' % r in x[1] for x in infers),
                '%s: inference %r is not local', what, infers)
        else:
            equal('inference of ' + what, infers, [])
        return 'simulate'

    def do_infer(self, i):
        r = self.g.ripl
        n = len(r.log)
        if i % 3 == 0:
            self.g.transition()
            want = '(transition 1)'
        elif i % 3 == 1:
            self.g.transition(N=i)
            want = '(transition %d)' % i
        else:
            self.g.transition(program='some program')
            equal('program run', r.log[n:][0][:2], ['program',
                'some program'])
            return 'program'
        equal('inference', [x[:2] for x in r.log[n:]], [['infer', want]])
        return 'infer'

    def do_density(self, i):
        raises('logpdf_score', NotImplementedError, self.g.logpdf_score)
        return 'density'

    def do_refuse(self, i, j):
        c, g, nan = self.c, self.g, float('nan')
        known = sorted(self.rows)
        fresh = 50 + j
        full = self.inputs()
        o = c['outs'][j % len(c['outs'])]
        tries = [
            lambda: g.incorporate(fresh, {}, full),
            lambda: g.incorporate(fresh, {777: 1.}, full),
            lambda: g.incorporate(fresh, {o: nan}, full),
            lambda: g.simulate(fresh, [o], {o: 1.}, full),
            lambda: g.simulate(fresh, [777], None, full),
            lambda: g.simulate(fresh, [o], {777: 1.}, full),
            lambda: g.simulate(fresh, [o], {c['outs'][0]: nan}, full),
            lambda: g.unincorporate(fresh)]
        if c['ins']:
            u = c['ins'][j % len(c['ins'])]
            short = {k: x for k, x in full.items() if k != u}
            tries += [
                lambda: g.incorporate(fresh, {o: 1.}, short),
                lambda: g.incorporate(fresh, {o: 1.}),
                lambda: g.incorporate(fresh, {o: 1.}, {**full, 888: 1.}),
                lambda: g.incorporate(fresh, {o: 1.}, {**full, u: nan}),
                lambda: g.simulate(fresh, [o], None, short),
                lambda: g.simulate(fresh, [o]),
                lambda: g.simulate(fresh, [o], None, {**full, u: nan}),
                lambda: g.simulate(fresh, [o], None, {**full, 888: 1.})]
        if known:
            r = known[j % len(known)]
            ins, obs = self.rows[r]
            a = sorted(obs)[0]
            b = [x for x in c['outs'] if x != a]
            tries += [lambda: g.incorporate(r, {a: 1.}),
                lambda: g.incorporate(r, {a: 1.}, dict(ins)),
                lambda: g.incorporate(r, {x: 1. for x in c['outs']},
                    dict(ins))]
            if b:
                tries += [lambda: g.simulate(r, b[:1], {a: 1.})]
                free = [x for x in b if x not in obs]
                if free and c['ins']:
                    other = {k: x + 1. for k, x in ins.items()}
                    tries += [lambda: g.incorporate(r, {free[0]: 1.}, other),
                        lambda: g.simulate(r, free[:1], None, other)]
        for k in range(len(tries)):
            raises('refusal %d' % k, ValueError, tries[(k + i) % len(tries)])
        return 'refuse'

    def do_reload(self, js):
        m = self.g.to_metadata()
        keep = copy.deepcopy(m)
        if js:
            m = json.loads(json.dumps(m, default=lambda x: x.decode(
                'latin-1')))
        g = self.cls.from_metadata(m, rng=np.random.RandomState(len(
            self.done)))
        equal('identifiers after loading', [list(g.outputs), list(g.inputs),
            g.source], [list(self.g.outputs), list(self.g.inputs),
                self.g.source])
        check(g.ripl is not self.g.ripl, 'the loaded model shares its '
            'runtime')
        equal('processes made while loading', g.ripl.made, 0)
        if not js:
            equal('metadata after loading', m, keep)
        # The two models are independent.
        old, self.g = self.g, g
        self.consistent()
        for r in sorted(self.rows)[:1]:
            old.unincorporate(r)
        return 'reload'


@PROP.sub('programs', program(), quick=2500)
def programs(c):
    try:
        with venture(Ripl):
            m = Program(c)
            for o in c['ops']:
                what = getattr(m, 'do_' + o[0])(*o[1:])
                if what is not None:
                    m.done.append(what)
                    m.consistent()
            for r in sorted(m.rows):
                m.do_remove(r)
            m.rows = {}
            m.consistent()
    except Collision:
        return {'nontrivial': False}
    return {'nontrivial': m.done.count('observe') > 1,
        'labels': sorted(set(m.done))}


@hs.composite
def signatures(draw):
    D, P = draw(hs.integers(0, 3)), draw(hs.integers(0, 3))
    names = draw(hs.lists(hs.integers(0, 7), min_size=D + P, max_size=D + P,
        unique=draw(hs.booleans())))
    n = [D, P, D]
    if draw(hs.integers(0, 2)) == 0:
        n[draw(hs.integers(0, 2))] = draw(hs.integers(0, 3))
    return {'outs': names[:D], 'ins': names[D:], 'n': n}


@PROP.sub('signatures', signatures(), quick=2500)
def signature(c):
    """A model is accepted exactly if it matches its program."""
    with venture(Ripl):
        from cgpm.venturescript.vscgpm import VsCGpm
        outs, ins = c['outs'], c['ins']
        make = lambda: VsCGpm(outputs=list(outs), inputs=list(ins),
            rng=np.random.RandomState(1),
            source='%d outputs %d inputs %d observers' % tuple(c['n']))
        good = len(set(outs)) == len(outs) and len(set(ins)) == len(ins) \
            and not set(outs) & set(ins) and c['n'] == [len(outs), len(ins),
                len(outs)]
        if good:
            g = make()
            equal('identifiers', [list(g.outputs), list(g.inputs)], [outs,
                ins])
        else:
            raises('outputs %r, inputs %r and a program of %r' % (outs, ins,
                c['n']), ValueError, make)
    return {'nontrivial': good}


# --------------------------------------------------------------------------
# Inline programs: one output, a single expression.

class Text2(str):
    """Text with the translate method of Python 2."""

    def encode(self, *_args):
        return Text2(self)

    def translate(self, table, deletions=''):
        return Text2(''.join(x for x in self if x not in deletions))

    def split(self, *args):
        return [Text2(x) for x in str.split(self, *args)]

    def replace(self, *args):
        return Text2(str.replace(self, *args))


class Inline(object):
    """Stand-in: the density of 'expr (args)' tells its arguments."""

    def __init__(self, seed=None):
        self.seed, self.held, self.log = seed, {}, []
        self.count = 0

    def execute_program(self, text):
        self.log.append(text)

    def hold(self, label, what):
        if label in self.held:
            raise RuntimeFault('duplicate label %r' % label)
        self.held[label] = what

    def assume(self, name, text, label=None):
        if name in [x[0] for x in self.held.values()]:
            raise RuntimeFault('%s is assumed twice' % name)
        self.hold(label, (name, text))

    def args(self, text):
        m = re.match(r'^expr ?\((.*)\)$', text)
        if not m or 'expr' not in [x[0] for x in self.held.values()]:
            raise RuntimeFault(text)
        return [float(x) for x in m.group(1).split(',') if x]

    def score(self, args, x=0.):
        return sum((k + 2) * a for k, a in enumerate(args)) - 7 * x

    def observe(self, text, value, label=None):
        self.hold(label, ('', text))
        return [self.score(self.args(text), value)]

    def sample(self, text):
        self.count += 1
        return self.score(self.args(text)) + 1000 * self.count

    def forget(self, label):
        if label not in self.held:
            raise RuntimeFault('forget unknown label %s' % label)
        del self.held[label]


@hs.composite
def inline_case(draw):
    n = draw(hs.integers(0, 3))
    names = draw(hs.lists(hs.integers(0, 20), min_size=n + 1, max_size=n + 1,
        unique=True))
    sep = draw(hs.sampled_from([',', ', ', ' , ', ',\n']))
    return {'out': names[0], 'ins': names[1:], 'sep': sep,
        'pad': draw(hs.sampled_from(['', ' ', '\n'])),
        'arity': draw(hs.sampled_from([n, n, n, n + 1, max(0, n - 1)])),
        'values': draw(hs.lists(number, min_size=n + 1, max_size=n + 1)),
        'ops': draw(hs.lists(hs.tuples(hs.sampled_from(['logpdf', 'simulate',
            'many', 'incorporate', 'reload', 'refuse']), int_), min_size=1,
            max_size=8))}


@PROP.sub('inline', inline_case(), quick=2500)
def inline(c):
    names = 'abcdefg'[:c['arity']]
    expression = Text2('%s(%s)%s~>%s{normal(1,1)}' % (c['pad'], c['sep'].join(
        names), c['pad'], c['pad']))
    with venture(Inline):
        from cgpm.venturescript.vsinline import InlineVsCGpm
        make = lambda **kw: InlineVsCGpm(**dict(dict(outputs=[c['out']],
            inputs=list(c['ins']), rng=np.random.RandomState(1),
            expression=expression), **kw))
        if c['arity'] != len(c['ins']):
            raises('an expression of %d arguments for %d inputs' % (
                c['arity'], len(c['ins'])), (AssertionError, ValueError),
                make)
            return {'nontrivial': False}
        for kw in [dict(outputs=[]), dict(outputs=[c['out'], 99]),
                dict(inputs=c['ins'] + [c['out']]), dict(inputs=c['ins'] +
                    c['ins'][:1] + [c['out']]), dict(expression=None)]:
            raises('InlineVsCGpm with %r' % kw, ValueError, lambda: make(
                **kw))
        g = make()
        check(expression in g.ripl.log, 'the program was not executed: %r',
            g.ripl.log)
        values = dict(zip(c['ins'], c['values']))
        x = c['values'][-1]
        score = sum((k + 2) * values[u] for k, u in enumerate(c['ins']))
        shuffled = dict(reversed(list(values.items())))
        for o, i in c['ops']:
            args = [None] if not c['ins'] and i % 2 else [None, dict(
                shuffled)]
            if o == 'logpdf':
                same('logpdf of %r given %r' % (x, values), g.logpdf(i, {c[
                    'out']: x}, *args), score - 7 * x)
            elif o == 'simulate':
                r = g.simulate(-1, [c['out']], *args)
                equal('simulate given %r' % values, r, {c['out']: score +
                    1000 * g.ripl.count})
            elif o == 'many':
                r = g.simulate(-1, [c['out']], *args, N=i % 4)
                k = g.ripl.count
                equal('%d samples given %r' % (i % 4, values), r, [{c['out']:
                    score + 1000 * (k - i % 4 + j + 1)} for j in range(
                        i % 4)])
            elif o == 'incorporate':
                g.incorporate(i, {c['out']: x}, values)
                g.unincorporate(i)
                g.transition()
            elif o == 'refuse':
                raises('logpdf with other inputs', AssertionError, lambda:
                    g.logpdf(-1, {c['out']: x}, None, {**values, 77: 1.}))
                raises('simulate of other outputs', AssertionError, lambda:
                    g.simulate(-1, [c['out'], 77], None, values))
            else:
                m = g.to_metadata()
                m2 = dict(json.loads(json.dumps(m)))
                equal('saved expression', m2['expression'], str(expression))
                m2['expression'] = Text2(m2['expression'])
                g = InlineVsCGpm.from_metadata(m2,
                    rng=np.random.RandomState(2))
                equal('identifiers', [list(g.outputs), list(g.inputs),
                    g.expression], [[c['out']], c['ins'], expression])
            check(not g.ripl.held, 'after %s the runtime holds %r', o,
                g.ripl.held)
    return {'nontrivial': len(c['ins']) > 0, 'labels': sorted(set(o for o, _
        in c['ops']))}


@PROP.sub('many-cells', hs.fixed_dictionaries({
    'rows': hs.integers(20, 90), 'D': hs.integers(1, 3),
    'P': hs.integers(0, 2), 'seed': hs.integers(0, 10**6)}), quick=60)
def many_cells(c):
    """Hundreds of cells observed at once remain separate directives."""
    names = list(range(c['D'] + c['P']))
    case = {'outs': names[:c['D']], 'ins': names[c['D']:], 'seed': c['seed'],
        'mode': None, 'sp': None, 'plugins': None,
        'values': [.25 * i for i in range(8)]}
    for attempt in range(4):
        try:
            with venture(Ripl):
                m = Program(dict(case, seed=c['seed'] + attempt))
                for r in range(c['rows']):
                    ins = m.inputs()
                    obs = {o: m.value() for o in case['outs']}
                    m.g.incorporate(r, dict(obs), dict(ins))
                    m.rows[r] = [ins, obs]
                m.done = ['observing %d rows' % c['rows']]
                m.consistent()
                rng = np.random.RandomState(c['seed'])
                for r in rng.permutation(c['rows'])[:c['rows'] // 2]:
                    m.g.unincorporate(int(r))
                    del m.rows[int(r)]
                m.consistent()
                m.do_reload(True)
                m.consistent()
            return {'nontrivial': True}
        except Collision as e:
            label = str(e)
    fail('%d cells cannot be observed: label %s is used twice, in 4 attempts',
        c['rows'] * c['D'], label)
