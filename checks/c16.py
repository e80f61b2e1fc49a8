"""C16: counting, printing and logging of objective evaluations."""
import contextlib
import io
import itertools

import numpy as np

from mc import engine
from mc.util import near

BOUNDS = {
    'histories': 'every history of up to 4 (thorough: 5) operations, then up '
                 'to 6 (thorough: 8) with equal model states merged, out of: '
                 'evaluation at one of 2 points, at an array that the caller '
                 'keeps changing in place, at a point where the objective '
                 'fails; gradient, Hessian and Hessian-vector product; '
                 'setting either period to -1, 0, 1, 2 or 3; the three resets; '
                 'changing a logged argument',
    'objects': 'default construction, every pair of periods -1 to 3 '
               '(positional and keyword), a subclass that overrides what is '
               'printed and logged; a second objective is used in between',
    'values': 'values that are negative, huge, tiny, not finite, integers or '
              'zero-dimensional, 15 kinds of arguments (dictionaries and '
              'lists of arrays among them), 25 pairs of periods; values '
              'that share memory with the argument; '
              'runs of 5000 (thorough: 20000) evaluations',
}
ASSUMPTIONS = ['periods are integers, and none that is not positive prints or '
               'logs; periods and resets take '
               'effect at the next evaluation']


class Fails(Exception):
    pass


# Among them those that `except Exception` does not see.
FAILURES = [Fails, KeyboardInterrupt, StopIteration, SystemExit,
            GeneratorExit]


def objective(x):
    import autograd.numpy as anp
    if not hasattr(x, '_value') and x[0] >= 99.0:
        raise FAILURES[int(x[0]) - 99]()
    return anp.sum(anp.exp(0.3 * x) + x ** 3)


def ref_f(x):
    return float(np.sum(np.exp(0.3 * x) + x ** 3))


def ref_grad(x):
    return 0.3 * np.exp(0.3 * x) + 3 * x ** 2


def ref_hess(x):
    return np.diag(0.09 * np.exp(0.3 * x) + 6 * x)


POINTS = {'p': np.array([0.5, -1.25]), 'q': np.array([1.5, 2.0])}
V = np.array([0.7, -0.2])


class Model:
    def __init__(self, pe, le, custom):
        self.pe, self.le, self.custom = pe, le, custom
        self.count = 0
        self.log = []
        self.out = ''
        self.calls = []
        self.shared = 0
        self.evals = 0

    def evaluate(self, x):
        v = ref_f(x)
        if self.pe > 0 and self.count % self.pe == 0:
            if self.custom:
                self.calls.append(('print', self.count, x.copy(), v))
            else:
                self.out += 'Iter {}: f = {:0.8f}\n'.format(self.count, v)
        if self.le > 0 and self.count % self.le == 0:
            if self.custom:
                self.calls.append(('log', self.count, x.copy(), v))
            else:
                self.log.append((self.count, x.copy(), v))
        self.count += 1
        return v


class Real:
    def __init__(self, obj, other):
        self.obj, self.other = obj, other
        self.shared = np.array([0.0, 1.0])
        self.calls = []


def shared_at(k):
    return np.array([0.25 * k, 1.0 - 0.5 * k])


def same_log(got, want):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if not (isinstance(g, tuple) and len(g) == len(w)):
            return False
        if g[-3] != w[-3] or not np.array_equal(g[-2], w[-2]) or \
                not near(g[-1], w[-1], 1e-12):
            return False
        if len(g) == 4 and g[0] != w[0]:
            return False
    return True


def perform(real, model, op, c):
    kind = op[0]
    if kind == 'f':
        if op[1] == 'shared':
            model.shared += 1
            x = shared_at(model.shared)
            want = model.evaluate(x)
            if real is not None:
                real.shared[:] = x
                got = real.obj.f(real.shared)
                c.expect(np.array_equal(real.shared, x), 'f changed its '
                         'argument to {}', real.shared)
        else:
            want = model.evaluate(POINTS[op[1]])
            if real is not None:
                got = real.obj.f(POINTS[op[1]].copy())
        if real is not None:
            c.expect(near(got, want, 1e-12), 'f returned {}, not {}', got,
                     want)
    elif kind == 'fail':
        if real is not None:
            for i, exc in enumerate(FAILURES):
                c.raises(exc, lambda: real.obj.f(np.array([99.0 + i, 0.0])),
                         'the objective fails')
    elif kind == 'derivatives':
        if real is not None:
            x = POINTS['q'].copy()
            c.expect(near(real.obj.grad(x), ref_grad(x), 1e-10),
                     'the gradient is {}', real.obj.grad(x))
            h = ref_hess(x)
            c.expect(near(real.obj.hessian(x), h, 1e-10), 'the Hessian is {}',
                     real.obj.hessian(x))
            hv = real.obj.hessian_vector_product(x, V)
            c.expect(near(hv, h @ V, 1e-10), 'the product is {}', hv)
    elif kind == 'print every':
        model.pe = op[1]
        if real is not None:
            real.obj.set_print_every(op[1])
    elif kind == 'log every':
        model.le = op[1]
        if real is not None:
            real.obj.set_log_every(op[1])
    elif kind == 'reset':
        model.count = 0
        model.log = []
        if real is not None:
            real.obj.reset()
    elif kind == 'reset count':
        model.count = 0
        if real is not None:
            real.obj.reset_iteration_count()
    elif kind == 'reset log':
        model.log = []
        if real is not None:
            real.obj.reset_log()
    elif kind == 'other':
        if real is not None:
            real.other.set_print_every(0)
            real.other.set_log_every(1)
            real.other.f(np.array([3.0, 4.0]))
            real.other.reset_iteration_count()
            real.other.f(np.array([5.0, 4.0]))


OPS = [('f', 'p'), ('f', 'q'), ('f', 'shared'), ('fail',), ('derivatives',),
       ('print every', 0), ('print every', 1), ('print every', 2),
       ('print every', 3), ('print every', -1), ('log every', 0), ('log every', 1),
       ('log every', 2), ('log every', 3), ('log every', -1), ('reset',),
       ('reset count',),
       ('reset log',), ('other',)]
FEW = [('f', 'p'), ('f', 'shared'), ('fail',), ('derivatives',),
       ('print every', 2), ('log every', 1), ('log every', 3), ('reset',),
       ('reset count',), ('reset log',)]


def machine(ctx, label, build, pe, le, custom, opset, depth, dedup):
    import paragami

    def make():
        other = paragami.OptimizationObjective(objective, 0, 1)
        obj = build()
        real = Real(obj, other)
        if custom:
            real.calls = obj.calls
        return real, Model(pe, le, custom)

    def step(real, model, op, c):
        model.out = ''
        if real is None:
            perform(None, model, op, None)
            return
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            perform(real, model, op, c)
        c.expect(text.getvalue() == model.out, 'printed {}, expected {}',
                 text.getvalue(), model.out)
        c.expect(real.obj.num_iterations() == model.count,
                 'num_iterations() is {}, expected {}',
                 real.obj.num_iterations(), model.count)
        if custom:
            # Whether an evaluation is printed or logged first is free.
            c.expect(all(same_log([g for g in real.calls if g[0] == kind],
                                  [w for w in model.calls if w[0] == kind])
                         for kind in ('print', 'log')), 'printed and logged '
                     '{}, expected {}', real.calls, model.calls)
            c.expect(real.obj.optimization_log == [], 'the log is {}',
                     real.obj.optimization_log)
        else:
            c.expect(same_log(real.obj.optimization_log, model.log),
                     'the log is {}, expected {}', real.obj.optimization_log,
                     model.log)
        c.state(model.pe, model.le, model.count, len(model.log))

    def canon(m):
        return (m.pe, m.le, m.count, len(m.log), m.shared)

    engine.histories(ctx, label, make, lambda m: opset, step, depth, canon,
                     dedup)


class Point:
    """An argument that is not an array."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return isinstance(other, Point) and self.v == other.v


def values(ctx):
    """Every kind of objective value and of argument."""
    import paragami
    kinds = {
        'floats': [0.0, -0.0, 1.5, -2.25, 1e300, -1e300, 1e-300, 5e-324],
        'not finite': [float('nan'), float('inf'), -float('inf')],
        'integers': [0, 3, -7, 10 ** 18],
        'numpy': [np.float64(0.5), np.float32(0.25), np.int64(4),
                  np.array(2.5), np.bool_(True), np.float64('nan')],
        'constant': [1.0, 1.0, 1.0],
    }
    arguments = {
        'scalar': lambda k: 0.5 * k, 'integer': lambda k: k,
        'list': lambda k: [float(k), 1.0], 'tuple': lambda k: (k, -k),
        'array': lambda k: np.array([1.0 * k, 2.0]),
        'integers': lambda k: np.array([k, 2]),
        'matrix': lambda k: np.array([[1.0 * k, 2.0]]),
        'empty': lambda k: np.zeros(0), 'zero d': lambda k: np.array(k / 2),
        'object': lambda k: Point(k), 'dict': lambda k: {'a': k},
        'none': lambda k: None, 'text': lambda k: 'x{}'.format(k),
        'folded': lambda k: {'a': np.array([1.0 * k, 2.0]),
                             'b': {'c': np.eye(2) * k}},
        'arrays': lambda k: [np.array([1.0 * k]), (np.array([k, 2]), k)],
    }

    def same(a, b):
        if type(a) is not type(b):
            return False
        if isinstance(b, np.ndarray):
            return a.dtype == b.dtype and np.array_equal(a, b)
        if isinstance(b, dict):
            return set(a) == set(b) and all(same(a[k], b[k]) for k in b)
        if isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        return a == b

    def spoil(x):
        if isinstance(x, np.ndarray):
            x[...] = -99
        elif isinstance(x, (list, dict, tuple)):
            for v in x.values() if isinstance(x, dict) else x:
                spoil(v)
            if not isinstance(x, tuple):
                x.clear()

    def same_value(a, b):
        return a is b or a == b or type(a) is type(b) and a != a and b != b
    for kind in ctx.each('value', sorted(kinds)):
        for arg in ctx.each('argument', sorted(arguments)):
            for pe, le in ctx.each('periods', itertools.product(
                    (-2, -1, 0, 1, 2), repeat=2)):
                with ctx.case('values'):
                    ctx.state('values', kind, arg, pe, le)
                    todo = list(kinds[kind])
                    seen = []

                    def fun(x):
                        seen.append(x)
                        return todo[len(seen) - 1]
                    o = paragami.OptimizationObjective(fun, pe, le)
                    log = []
                    for i, want in enumerate(todo):
                        x = arguments[arg](i)
                        text = io.StringIO()
                        with contextlib.redirect_stdout(text):
                            got = o.f(x)
                        ctx.op()
                        ctx.expect(got is want or got == want,
                                   'f returned {}, not {}', got, want)
                        ctx.expect(len(seen) == i + 1 and same(seen[i], x),
                                   'the objective was given {}', seen)
                        line = 'Iter {}: f = {:0.8f}\n'.format(i, want) \
                            if pe > 0 and i % pe == 0 else ''
                        ctx.expect(text.getvalue() == line, 'printed {}, '
                                   'expected {}', text.getvalue(), line)
                        if le > 0 and i % le == 0:
                            log.append((i, arguments[arg](i), want))
                        spoil(x)
                        ctx.expect(o.num_iterations() == i + 1, 'the count '
                                   'is {}', o.num_iterations())
                        ctx.expect(len(o.optimization_log) == len(log) and
                                   all(g[0] == w[0] and same(g[1], w[1]) and
                                       same_value(g[2], w[2])
                                       for g, w in zip(o.optimization_log,
                                                       log)),
                                   'the log is {}, expected {}',
                                   o.optimization_log, log)


def views(ctx):
    """Values that share memory with the argument."""
    import paragami
    funs = {'entry': lambda x: x[0], 'part': lambda x: x[0:1],
            'shape': lambda x: x[0].reshape(()), 'itself': lambda x: x,
            'several': lambda x: (x[0:1], x[1:2])}
    for kind in ctx.each('value', sorted(funs)):
        for le in ctx.each('period', (1, 2)):
            with ctx.case('views'):
                ctx.state('views', kind, le)
                o = paragami.OptimizationObjective(funs[kind], 0, le)
                x = np.zeros(2)
                want = []
                for i in range(4):
                    x[:] = i + 1.5
                    got = o.f(x)
                    ctx.op()
                    if i % le == 0:
                        want.append((i, x.copy(), np.array(got)))
                x[:] = -1.0
                log = o.optimization_log
                ctx.expect(len(log) == len(want) and all(
                    g[0] == w[0] and np.array_equal(g[1], w[1]) and
                    np.array_equal(np.array(g[2]), w[2])
                    for g, w in zip(log, want)),
                    'the log is {}, expected {}', log, want)


def many(ctx):
    """Long runs: nothing is dropped or thinned out."""
    import paragami
    n = 20000 if ctx.thorough else 5000
    for pe, le in ctx.each('periods', [(0, 1), (1, 0), (7, 1), (100, 3),
                                       (1000, 1000), (4999, 1)]):
        with ctx.case('many'):
            ctx.state('many', pe, le)
            o = paragami.OptimizationObjective(ref_f, pe, le)
            text, want, log = io.StringIO(), '', []
            x = np.array([0.0, 1.0])
            with contextlib.redirect_stdout(text):
                for i in range(n):
                    x[0] = i % 13 * 0.1
                    v = o.f(x)
                    if pe and i % pe == 0:
                        want += 'Iter {}: f = {:0.8f}\n'.format(i, v)
                    if le and i % le == 0:
                        log.append((i, x.copy(), v))
            ctx.op(n)
            ctx.expect(text.getvalue() == want, 'the output of a long run '
                       'has {} characters, not {}', len(text.getvalue()),
                       len(want))
            ctx.expect(o.num_iterations() == n, 'the count is {}',
                       o.num_iterations())
            ctx.expect(same_log(o.optimization_log, log), 'the log of a '
                       'long run has {} entries, not {}, or they differ',
                       len(o.optimization_log), len(log))


def run(ctx):
    import paragami
    for _ in ctx.shard('values', [0]):
        values(ctx)
    for _ in ctx.shard('views', [0]):
        views(ctx)
    for _ in ctx.shard('many', [0]):
        many(ctx)

    class Custom(paragami.OptimizationObjective):
        def __init__(self, *args, **kw):
            self.calls = []
            super().__init__(*args, **kw)

        def print_value(self, num_f_evals, x, f_val):
            self.calls.append(('print', num_f_evals, np.array(x), f_val))

        def log_value(self, num_f_evals, x, f_val):
            self.calls.append(('log', num_f_evals, np.array(x), f_val))

    class Renamed(Custom):
        def print_value(self, count, point, value):
            Custom.print_value(self, count, point, value)

        def log_value(self, count, point, value):
            Custom.log_value(self, count, point, value)

    O = paragami.OptimizationObjective
    t = ctx.thorough
    machine(ctx, 'default', lambda: O(objective), 1, 0, False, OPS,
            5 if t else 4, 4 if t else 3)
    machine(ctx, 'long', lambda: O(objective, 1, 1), 1, 1, False, FEW,
            8 if t else 6, 5 if t else 4)
    machine(ctx, 'custom', lambda: Custom(objective, 2, 3), 2, 3, True, FEW,
            6 if t else 5, 4 if t else 3)
    machine(ctx, 'renamed', lambda: Renamed(objective, 2, 3), 2, 3, True, FEW,
            5 if t else 4, 3)
    for pe, le in itertools.product(range(-1, 4), repeat=2):
        for tag, build in (
                ('positional', lambda: O(objective, pe, le)),
                ('keyword', lambda: O(objective, log_every=le,
                                      print_every=pe))):
            machine(ctx, '{} {} {}'.format(tag, pe, le), build, pe, le, False,
                    [('f', 'p'), ('f', 'shared'), ('reset count',)],
                    9 if t else 7, 3)
