"""C24: calls that overlap in time, from two threads or by recursion."""
import io
import itertools
import os

import numpy as np
import scipy.sparse
import scipy.sparse.linalg

from mc import sched, spec as S
from mc.spec import D, INF, Num, Psd, Sca, Spx, Arr
from mc.util import near

BOUNDS = {
    'schedules': 'two threads; every schedule with one preemption, at every '
                 'line and return of the library, of every ordered pair of '
                 'operations on one shared object; every schedule with two '
                 'preemptions of the pairs of conversions of the patterns '
                 'without members, of wrapped calls and of preconditioned '
                 'calls (thorough: of every pair of operations on the '
                 'patterns without members, but for JSON, files, random '
                 'values, comparison and printing, and of each conversion of '
                 'arrays with itself), and (thorough) with one preemption at every '
                 'bytecode instruction of all operations on the patterns '
                 'without members, the wrappers and of the pairs of '
                 'conversions of containers',
    'objects': '7 patterns (numeric, simplex, matrix, dictionaries, arrays), '
               '7 function wrappers, 4 preconditioned functions, products, '
               'solvers and sums, each operation with its own arguments',
    'recursion': 'wrapped functions that call their own wrapper, other '
                 'wrappers and the patterns, to depth 3; objectives whose '
                 'printing and logging evaluate other objectives',
}
ASSUMPTIONS = ['autograd and numpy themselves may be used from two threads; '
               'no thread changes an object (setting members, defaults or '
               'preconditioners, counting evaluations) while the other uses '
               'it']

def prefix():
    import paragami
    return os.path.dirname(os.path.abspath(paragami.__file__)) + os.sep


# Operations that take many steps.
LONG = {'save', 'json', 'decode', 'random', 'equal', 'text'}
PATTERNS = [
    Num((2,), 0.0, 1.0), Num((1, 2), -1.0, INF), Spx(3, (1,)), Psd(2, 0.5),
    D(('a', Sca(0.0)), ('b', D(('c', Spx(2, (1,))), ('d', Num((1,)))))),
    Arr((2,), Psd(1)), Arr((2,), Num((1,), -INF, 2.0)),
]


def plain(x):
    """A comparable image of a result."""
    if scipy.sparse.issparse(x):
        return ('sparse', x.toarray())
    if isinstance(x, dict):
        return dict((k, plain(v)) for k, v in x.items())
    if isinstance(x, tuple):
        return tuple(plain(v) for v in x)
    return x


def alike(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(
            alike(a[k], b[k]) for k in b)
    if isinstance(b, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(
            alike(x, y) for x, y in zip(a, b))
    if isinstance(b, (str, type)) or b is None:
        return a == b
    if isinstance(b, np.ndarray) and b.dtype.kind in 'SU':
        return np.array_equal(a, b)
    if hasattr(b, 'to_json'):
        return a == b
    return type(a) is type(b) and near(a, b, 1e-12)


def broken(spec, k):
    """A value of the wrong shape, in each of two ways."""
    if isinstance(S.interior(spec, k), dict):
        v = S.interior(spec, k)
        if k:
            v['another'] = 1.0
        else:
            del v[list(v)[0]]
        return v
    v = S.interior(spec, k)
    return v[:, None] if k else v[None]


def pattern_ops(spec):
    """name -> function of (pattern, variant); heavy ones are marked."""
    import paragami

    def value(k):
        return S.interior(spec, k)

    def free(k):
        return S.free_vec(spec, k)

    def wrong(p, k):
        n = p.flat_length(free=True)
        return p.fold(np.zeros(n + 1 + k), free=True)

    def saved(p, k):
        fh = io.BytesIO()
        paragami.save_folded(fh, value(k), p)
        fh.seek(0)
        return paragami.load_folded(fh)[:2]
    bools = [S.fold(spec, np.arange(S.length(spec, False)) % 2 == k,
                    dtype=bool) for k in (0, 1)]
    if isinstance(spec, Psd):
        bools = [np.eye(spec.n) > 0, np.ones((spec.n, spec.n)) > 0]
    conv = {
        'flatten': lambda p, k: p.flatten(value(k), free=False),
        'flatten free': lambda p, k: p.flatten(value(k), free=True),
        'fold': lambda p, k: p.fold(S.flatten(spec, value(k)), free=False),
        'fold free': lambda p, k: p.fold(free(k), free=True),
    }
    rest = {
        'wrong size': wrong,
        'validate': lambda p, k: p.validate_folded(
            value(k), validate_value=True),
        'validate wrong': lambda p, k: p.validate_folded(
            broken(spec, k), validate_value=True)[0],
        'indices': lambda p, k: p.flat_indices(bools[k], free=False),
        'indices free': lambda p, k: p.flat_indices(bools[k], free=True),
        'empty': lambda p, k: p.empty(valid=True),
        'empty bool': lambda p, k: p.empty_bool(k == 1),
        'jacobian': lambda p, k: p.freeing_jacobian(value(k)),
        'unfreeing jacobian': lambda p, k: p.unfreeing_jacobian(
            value(k), sparse=False),
        'log det': lambda p, k: p.log_abs_det_freeing_jacobian(value(k)),
        'unfreeing log det': lambda p, k: p.log_abs_det_unfreeing_jacobian(
            value(k)),
        'json': lambda p, k: p.to_json(),
        'decode': lambda p, k: paragami.get_pattern_from_json(p.to_json()),
        'random': lambda p, k: p.validate_folded(
            p.random(), validate_value=True),
        'names': lambda p, k: list(p.flat_names(free=k == 1)),
        'equal': lambda p, k: p == (S.build(spec) if k else None),
        'lengths': lambda p, k: p.flat_length(free=k == 1),
        'text': lambda p, k: str(p),
        'save': saved,
    }
    return conv, rest


def function_objects():
    """name -> (build, {operation: function of (object, variant)}, in depth)"""
    import autograd
    import autograd.numpy as anp
    import paragami as pg
    from paragami import autograd_supplement_lib as asl
    va = pg.NumericVectorPattern(2, lb=0.0)
    sim = pg.SimplexArrayPattern(2, ())
    x = [np.array([0.3, -1.1]), np.array([1.2, 0.7])]
    y = [np.array([0.4]), np.array([-0.9])]
    out = {}

    def fun(a, b, scale=1.0):
        return scale * anp.sum(a ** 2) + anp.sum(a * b[0]), a * b[1]

    def call(f, k):
        return f(x[k], y[k], scale=2.0 + k)

    def scalar(f):
        return lambda u, v: f(u, v)[0]
    out['flatten input'] = (
        lambda: pg.FlattenFunctionInput(fun, [va, sim], True, [0, 1]),
        {'call': call,
         'gradient': lambda f, k: autograd.grad(scalar(f), k)(x[k], y[k])})
    out['flatten one input'] = (
        lambda: pg.FlattenFunctionInput(
            lambda u, v: (anp.sum(u * v), u), va, True, 1),
        {'call': lambda f, k: f(2.0 + k, x[k]),
         'gradient': lambda f, k: autograd.grad(
             lambda v: f(2.0 + k, v)[0])(x[k])})
    out['fold input'] = (
        lambda: pg.FoldFunctionInput(
            lambda u, v: (3.0 * u, 2.0 * v), [sim, va], [True, False],
            [1, 0]),
        {'call': lambda f, k: f(np.exp(x[k]), np.array(
            [0.25 + k / 2, 0.75 - k / 2]))})
    out['flatten output'] = (
        lambda: pg.FlattenFunctionOutput(
            lambda k: (k, np.exp(x[k]), np.array([0.5, 0.5])), [va, sim],
            True, [1, 2]),
        {'call': lambda f, k: f(k)})
    out['fold output'] = (
        lambda: pg.FoldFunctionOutput(
            lambda k: (x[k], k, y[k]), [sim, va], True, [2, 0]),
        {'call': lambda f, k: f(k)})
    out['one output'] = (
        lambda: pg.FlattenFunctionOutput(
            lambda k: np.exp(x[k]), va, True),
        {'call': lambda f, k: f(k)})
    out['input and output'] = (
        lambda: pg.FlattenFunctionInputAndOutput(
            lambda a, b: (a * b[0], b), [va, sim], True, [0, 1],
            va, True, 0),
        {'call': lambda f, k: f(x[k], y[k])})
    a = np.array([[2.0, 0.5], [-0.3, 1.5]])

    def objective(v):
        return anp.sum(anp.sin(v) * v) + v[0] * v[1] ** 2

    def pre(setup):
        def build():
            p = pg.PreconditionedFunction(objective)
            setup(p)
            return p
        return build
    uses = {
        'call': lambda p, k: p(x[k]),
        'precondition': lambda p, k: p.precondition(x[k]),
        'unprecondition': lambda p, k: p.unprecondition(x[k]),
        'gradient': lambda p, k: autograd.grad(p)(x[k]),
        'matrix': lambda p, k: (p.get_preconditioner(2),
                                p.get_preconditioner_inv(2)),
        'check': lambda p, k: p.check_preconditioner(x[k]),
    }
    out['preconditioner identity'] = (pre(lambda p: None), uses)
    out['preconditioner matrix'] = (
        pre(lambda p: p.set_preconditioner_matrix(a)), uses)
    out['preconditioner sparse'] = (
        pre(lambda p: p.set_preconditioner_matrix(
            scipy.sparse.csc_matrix(a))), uses)
    out['preconditioner hessian'] = (
        pre(lambda p: p.set_preconditioner_with_hessian(
            x=np.ones(2), ev_min=0.1, ev_max=9.0)), uses)
    out['product'] = (
        lambda: asl.get_sparse_product(scipy.sparse.csr_matrix(a)),
        {'product': lambda f, k: f[0](x[k]),
         'transposed': lambda f, k: f[1](x[k]),
         'gradient': lambda f, k: autograd.grad(
             lambda v: anp.sum(f[k](v) ** 2))(x[k])})
    out['solver'] = (
        lambda: asl.get_differentiable_solver(
            lambda b: np.linalg.solve(a, b),
            lambda b: np.linalg.solve(a.T, b)),
        {'solver': lambda f, k: f[0](x[k]),
         'transposed': lambda f, k: f[1](x[k]),
         'gradient': lambda f, k: autograd.grad(
             lambda v: anp.sum(f[k](v) ** 2))(x[k])})
    from paragami import sparse_preconditioners_lib as spl
    h = scipy.sparse.csc_matrix(np.array(
        [[4.0, 1.0, 0.0], [1.0, 3.0, 0.0], [0.0, 0.0, 2.0]]))
    z = [np.array([0.3, -1.1, 2.0]), np.array([1.2, 0.7, -0.4])]
    out['sparse hessian'] = (
        lambda: spl.get_sym_matrix_inv_sqrt_funcs(h),
        {'root': lambda f, k: f[0](z[k]),
         'inverse': lambda f, k: f[1](z[k]),
         'gradient': lambda f, k: autograd.grad(
             lambda v: anp.sum(f[k](v) ** 2))(z[k]),
         'make': lambda f, k: [g(z[k]) for g in
                               spl.get_sym_matrix_inv_sqrt_funcs(
                                   (1.0 + k) * h)]})
    out['objective'] = (
        lambda: pg.OptimizationObjective(objective, 0, 0),
        {'gradient': lambda o, k: o.grad(x[k]),
         'make': lambda o, k: pg.OptimizationObjective(
             lambda v: objective(v) * (k + 2.0), 0, 0).f(x[k]),
         'iterations': lambda o, k: o.num_iterations()})
    groups = [np.array([1, 0]), np.array([2, 2])]
    out['sums'] = (
        lambda: asl,
        {'sum': lambda m, k: m.grouped_sum(x[k], groups[k], 3 + k),
         'sum gradient': lambda m, k: autograd.grad(lambda v: anp.sum(
             m.grouped_sum(v, groups[k]) ** 2))(x[k]),
         'replace': lambda m, k: m.replace(y[k], x[k], [k]),
         'replace gradient': lambda m, k: autograd.grad(lambda v: anp.sum(
             m.replace(y[k], v, [k]) ** 2))(x[k])})
    from paragami import optimization_lib as ol
    ev = [np.array([-1.0, 3.0]), np.array([0.5, 7.0])]
    out['eigenvalues'] = (
        lambda: ol,
        {'truncate': lambda m, k: m.truncate_eigenvalues(ev[k], k, 5.0 + k),
         'transform': lambda m, k: m.transform_eigenspace(
             np.eye(2), ev[k], lambda e: e + k)(x[k])})
    return out


def attempt(fn):
    try:
        return ('value', plain(fn()))
    except Exception as err:
        return ('error', type(err), str(err))


def pair(ctx, label, build, one, two, preemptions, opcodes):
    """Every schedule of two operations on a fresh shared object."""
    want = [attempt(lambda: one(build(), 0)), attempt(lambda: two(build(), 1))]
    with ctx.case('serial ' + label):
        ctx.expect(want[0][0] == 'value' or want[0][1] in (ValueError, NotImplementedError),
                   '{} gives {}', label, want[0])

    def make():
        shared = build()
        return [lambda: one(shared, 0), lambda: two(shared, 1)]
    for plan, got, _ in sched.explore(make, ctx.prefix, preemptions, opcodes):
        with ctx.case('{} preempted after {}'.format(label, plan)):
            ctx.op(2)
            ctx.state(label, plan)
            for i in (0, 1):
                res = (got[i][0], plain(got[i][1])) \
                    if got[i][0] == 'value' else got[i]
                ctx.expect(res[0] == want[i][0] and (
                    alike(res[1], want[i][1]) if res[0] == 'value' else
                    res[1] is want[i][1]),
                    'with a preemption after {} points the {} operation '
                    'gives {}, not {}', plan, ('first', 'second')[i], res,
                    want[i])


def schedules(ctx):
    ctx.prefix = prefix()
    work = []
    for i, spec in enumerate(PATTERNS):
        conv, rest = pattern_ops(spec)
        ops = dict(conv)
        ops.update(rest)
        for a, b in itertools.product(sorted(ops), repeat=2):
            deep = a in conv and b in conv and (
                i < 4 or ctx.thorough and i != 4 and a == b)
            work.append(('pattern', i, a, b, deep,
                         i < 4 or a in conv and b in conv))
    objs = function_objects()
    for name in sorted(objs):
        ops = objs[name][1]
        for a, b in itertools.product(sorted(ops), repeat=2):
            work.append(('object', name, a, b, name not in (
                'eigenvalues', 'sums') and 'matrix' not in (a, b), True))
    for kind, which, a, b, deep, fine in ctx.shard('pair', work):
        if kind == 'pattern':
            spec = PATTERNS[which]
            conv, rest = pattern_ops(spec)
            ops = dict(conv)
            ops.update(rest)
            label = '{} {} {}'.format(S.name(spec), a, b)

            def build(spec=spec):
                return S.build(spec)
        else:
            build, ops = objs[which]
            label = '{} {} {}'.format(which, a, b)
        two = 2 if deep or ctx.thorough and kind == 'pattern' and \
            which < 4 and not {a, b} & LONG else 1
        pair(ctx, label, build, ops[a], ops[b], two, False)
        if ctx.thorough and fine:
            pair(ctx, label + ' instructions', build, ops[a], ops[b], 1, True)


def recursion(ctx):
    import autograd
    import autograd.numpy as anp
    import paragami as pg
    p = pg.NumericVectorPattern(2, lb=0.0)
    q = pg.PatternDict()
    q['m'] = pg.PSDSymmetricMatrixPattern(1)
    q['v'] = pg.NumericVectorPattern(1, ub=3.0)

    def in_p(x):
        return anp.exp(x)

    def in_q(x):
        return anp.array([anp.exp(2 * x[0]), 3.0 - anp.exp(-x[1])])
    wraps = {
        'flatten input': lambda f: pg.FlattenFunctionInput(f, p, True, 0),
        'flatten dict': lambda f: pg.FlattenFunctionInput(
            lambda v, d: f(q.flatten(v, free=False), d), q, True, 0),
        'flatten second': lambda f: (
            lambda g: lambda x, d: g(d, x))(pg.FlattenFunctionInput(
                lambda d, v: f(v, d), p, True, 1)),
        'two': lambda f: (
            lambda g: lambda x, d: g(x, 0.5 * x, d))(
                pg.FlattenFunctionInput(
                    lambda v, u, d: f(v + q.flatten(u, free=False), d),
                    [p, q], True, [0, 1])),
        'output': lambda f: pg.FlattenFunctionOutput(
            lambda x, d: p.fold(in_p(f(in_p(x), d)), free=False), p, True),
        'fold output': lambda f: (lambda g: lambda x, d: g(x, d)[1])(
            pg.FoldFunctionOutput(
                lambda x, d: (d, anp.tanh(f(in_p(x), d))), p, True, 1)),
        'fold input': lambda f: (
            lambda g: lambda x, d: g(in_p(x), d))(pg.FoldFunctionInput(
                lambda v, d: f(in_p(v), d), p, True, 0)),
        'both': lambda f: (lambda g: lambda x, d: g(d, x)[1])(
            pg.FlattenFunctionInputAndOutput(
                lambda d, v: (d, in_p(f(v, d)), 1), p, True, 1, p, True, 1)),
    }
    inner = {
        'flatten input': in_p, 'flatten dict': in_q,
        'flatten second': in_p,
        'two': lambda x: in_p(x) + in_q(0.5 * x), 'output': in_p,
        'fold output': in_p, 'fold input': in_p, 'both': in_p}
    # What becomes of the results.
    after = {'fold output': lambda y: in_p(anp.tanh(y))}
    for depth in ctx.each('depth', (1, 2, 3)):
        for names in ctx.each('wrappers', itertools.product(
                sorted(wraps), repeat=2)):
            with ctx.case('recursion'):
                ctx.state('recursion', depth, names)
                fs = []

                def body(v, d):
                    # Calls the wrappers again, with a shorter way to go.
                    if d == 0:
                        return anp.sin(v)
                    a = fs[0](0.3 * v, d - 1)
                    b = fs[1](0.2 * v + 0.1, d - 1)
                    return v + a * b + fs[d % 2](0.1 * v, d - 1)
                for k in names:
                    fs.append(wraps[k](body))

                def ref_body(v, d):
                    if d == 0:
                        return anp.sin(v)
                    a = ref(0, 0.3 * v, d - 1)
                    b = ref(1, 0.2 * v + 0.1, d - 1)
                    return v + a * b + ref(d % 2, 0.1 * v, d - 1)

                def ref(i, x, d):
                    return after.get(names[i], lambda y: y)(
                        ref_body(inner[names[i]](x), d))
                x = np.array([0.2, -0.4])
                for i in (0, 1, 0):
                    ctx.expect(near(fs[i](x, depth), ref(i, x, depth), 1e-9),
                               'recursive calls give {}, not {}',
                               fs[i](x, depth), ref(i, x, depth))
                    g = autograd.jacobian(lambda z: fs[i](z, depth))(x)
                    w = autograd.jacobian(lambda z: ref(i, z, depth))(x)
                    ctx.expect(near(g, w, 1e-8), 'the Jacobian of recursive '
                               'calls is {}, not {}', g, w)
                    ctx.op(2)
    for order in ctx.each('objectives', itertools.product((0, 1, 2),
                                                          repeat=3)):
        with ctx.case('objectives'):
            ctx.state('objectives', order)
            objs = []

            class Nested(pg.OptimizationObjective):
                def print_value(self, n, x, v):
                    # Evaluates the next objective.
                    if self.next is not None:
                        objs[self.next].f(x + 1.0)

            def make(k):
                return Nested(lambda x: np.sum(x) * (k + 1.0), 1, 1)
            for k in range(3):
                o = make(k)
                o.next = k + 1 if k < 2 else None
                objs.append(o)
            want = [[], [], []]

            def ref_f(k, x):
                v = np.sum(x) * (k + 1.0)
                if k < 2:
                    ref_f(k + 1, x + 1.0)
                want[k].append((len(want[k]), x.copy(), v))
                return v
            for step, k in enumerate(order):
                x = np.array([1.0 * step, 0.5])
                ctx.expect(near(objs[k].f(x), ref_f(k, x), 1e-12), 'value')
                ctx.op()
                for j in range(3):
                    log = objs[j].optimization_log
                    ctx.expect(objs[j].num_iterations() == len(want[j]) and
                               len(log) == len(want[j]) and all(
                                   g[0] == w[0] and near(g[1], w[1], 0) and
                                   g[2] == w[2]
                                   for g, w in zip(log, want[j])),
                               'objective {} logged {}, not {}', j, log,
                               want[j])


def derivatives_inside(ctx):
    """Objectives whose printing and logging differentiate, objectives of
    objectives, and preconditioned functions that call themselves."""
    import autograd
    import autograd.numpy as anp
    import paragami as pg

    def fun(x):
        return anp.sum(anp.sin(x) * x)

    def ref_grad(x):
        return np.cos(x) * x + np.sin(x)
    for inside in ctx.each('inside', itertools.product(
            ('none', 'grad', 'hessian', 'product'), repeat=2)):
        with ctx.case('derivatives inside'):
            ctx.state('inside', inside)
            # Whether an evaluation is printed or logged first is free.
            seen = {}

            class Careful(pg.OptimizationObjective):
                def note(self, where, x):
                    what = inside[where]
                    seen.setdefault(where, []).append(
                        None if what == 'none' else
                        self.grad(x) if what == 'grad' else
                        np.diag(self.hessian(x)) if what == 'hessian' else
                        self.hessian_vector_product(x, np.ones(len(x))))

                def print_value(self, n, x, v):
                    self.note(0, x)

                def log_value(self, n, x, v):
                    self.note(1, x)
                    super().log_value(n, x, v)
            o = Careful(fun, 1, 2)
            for i in range(4):
                x = np.array([0.3 * i - 0.5, 1.0])
                seen.clear()
                got = o.f(x)
                ctx.op()
                ctx.expect(near(got, np.sum(np.sin(x) * x), 1e-12) and
                           o.num_iterations() == i + 1 and
                           [t[0] for t in o.optimization_log] ==
                           list(range(0, i + 1, 2)) and
                           near(o.optimization_log[-1][1],
                                x if i % 2 == 0 else
                                np.array([0.3 * (i - 1) - 0.5, 1.0]), 0),
                           'with derivatives inside: {} {}',
                           o.num_iterations(), o.optimization_log)
                curve = 2 * np.cos(x) - np.sin(x) * x
                want = {'none': None, 'grad': ref_grad(x), 'hessian': curve,
                        'product': curve}
                ctx.expect(len(seen) == 2 - i % 2 and all(
                    len(got) == 1 and (
                        got[0] is None if want[inside[k]] is None else
                        near(got[0], want[inside[k]], 1e-9))
                    for k, got in seen.items()),
                    'the derivatives inside are {}', seen)
    for depth in ctx.each('depth', (1, 2, 3)):
        with ctx.case('objectives of objectives'):
            ctx.state('objectives of objectives', depth)
            objs = []

            def level(k):
                if k == 0:
                    return fun
                return lambda x: objs[k - 1].f(0.5 * x) + fun(x) + \
                    objs[k - 1].f(x)
            for k in range(depth + 1):
                objs.append(pg.OptimizationObjective(level(k), 0, 1))

            def value(k, x):
                return fun(x) if k == 0 else \
                    value(k - 1, 0.5 * x) + fun(x) + value(k - 1, x)
            x = np.array([0.4, -1.2])
            calls = [0] * (depth + 1)
            for i in range(2):
                got = objs[depth].f(x + i)
                for k in range(depth + 1):
                    calls[k] += 2 ** (depth - k)
                ctx.op()
                ctx.expect(near(got, value(depth, x + i), 1e-12) and
                           [o.num_iterations() for o in objs] == calls and
                           [len(o.optimization_log) for o in objs] == calls,
                           'nested objectives: {} evaluations, not {}',
                           [o.num_iterations() for o in objs], calls)
                for o in objs:
                    ctx.expect([t[0] for t in o.optimization_log] ==
                               list(range(len(o.optimization_log))), 'log')
    mats = {'identity': None, 'dense': np.array([[2.0, 0.5], [-0.3, 1.5]]),
            'sparse': scipy.sparse.csc_matrix([[1.0, 0.5], [0.0, 2.0]])}
    for kinds in ctx.each('preconditioners', itertools.product(
            sorted(mats), repeat=2)):
        for depth in ctx.each('depth', (1, 2, 3)):
            with ctx.case('preconditioned recursion'):
                ctx.state('preconditioned recursion', kinds, depth)
                left = [depth]
                ps = []

                def body(x):
                    if left[0] == 0:
                        return anp.sum(anp.sin(x))
                    left[0] -= 1
                    k = left[0] % 2
                    out = fun(x) + ps[k](0.5 * x) * 0.5 + anp.sum(
                        ps[1 - k].precondition(x))
                    left[0] += 1
                    return out

                def apply(k, x, inverse=False):
                    a = mats[kinds[k]]
                    if a is None:
                        return x
                    a = a.toarray() if scipy.sparse.issparse(a) else a
                    return (np.linalg.inv(a) if inverse else a) @ x

                def ref(d, x):
                    if d == 0:
                        return anp.sum(anp.sin(x))
                    k = (d - 1) % 2
                    return fun(x) + ref(d - 1, apply(k, 0.5 * x)) * 0.5 + \
                        anp.sum(apply(1 - k, x, True))
                for k in kinds:
                    ps.append(pg.PreconditionedFunction(body))
                    if mats[k] is not None:
                        ps[-1].set_preconditioner_matrix(mats[k])
                x = np.array([0.4, -1.2])
                for k in (0, 1, 0):
                    def want(v):
                        return ref(depth, apply(k, v))
                    ctx.expect(near(ps[k](x), want(x), 1e-10),
                               'recursive preconditioned calls give {}, not '
                               '{}', ps[k](x), want(x))
                    ctx.expect(near(autograd.grad(ps[k])(x),
                                    autograd.grad(want)(x), 1e-9),
                               'gradients of recursive preconditioned calls')
                    ctx.op(2)


def run(ctx):
    # Two threads that take turns are faster on one processor.
    cpus = sorted(os.sched_getaffinity(0))
    try:
        os.sched_setaffinity(0, {cpus[(ctx.worker + os.getppid()) % len(cpus)]})
        schedules(ctx)
    finally:
        os.sched_setaffinity(0, cpus)
    for _ in ctx.shard('recursion', [0]):
        recursion(ctx)
    for _ in ctx.shard('derivatives inside', [0]):
        derivatives_inside(ctx)
