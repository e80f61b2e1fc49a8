"""C26: calls that are interrupted or fail half way."""
import contextlib
import gc
import io
import itertools
import os
import sys
import warnings

import numpy as np
import scipy.sparse

from checks import c24
from mc import spec as S
from mc.spec import D, INF, Num, Psd, Sca, Spx, Arr
from mc.util import near

BOUNDS = {
    'points': 'every call, line and return of the library, and of the '
              'functions that it calls back; while saving also those of '
              'numpy and of the archive writer',
    'interrupts': 'KeyboardInterrupt and MemoryError; one per history '
                  '(thorough: two in a row for the patterns without members '
                  'and the wrapped functions)',
    'calls': 'every operation of 8 patterns, 5 wrapped functions, 4 '
             'preconditioned functions, products, solvers, sums and '
             'objectives, by 2 sets of arguments, on new and on used '
             'objects',
    'changes': 'setting, replacing, deleting and nesting members of '
               'dictionaries and locking them, every way of setting a '
               'preconditioner, evaluating, resetting and setting up '
               'objectives, registering a class, saving',
    'afterwards': 'every operation of the object and its patterns, and the '
                  'same operation of a new one',
}
ASSUMPTIONS = ['numpy, scipy and autograd recover from an interruption of '
               'the code that calls them']

PATTERNS = c24.PATTERNS + [Num((1, 2), -1.0, 2.0)]
HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep


def library():
    return (c24.prefix(), HERE)


def interrupted(fn, k, exc, files):
    """Run fn and raise exc at its k-th point.  Returns whether that point
    was reached, and the outcome."""
    left = [k]

    def point():
        left[0] -= 1
        if left[0] == 0:
            raise exc('interrupted')

    def local(frame, event, arg):
        if event in ('line', 'return'):
            point()
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(files):
            point()
            return local
        return None
    try:
        sys.settrace(tracer)
        try:
            out = ('value', fn())
        finally:
            sys.settrace(None)
    except (Exception, KeyboardInterrupt) as err:
        out = ('error', type(err), str(err))
    return left[0] <= 0, out


EXCS = (KeyboardInterrupt, MemoryError)


def points(fn, make, files=None, first=1, step=1):
    """Interrupt fn(make()) at every point; yields the object and how."""
    k = first
    while True:
        exc = EXCS[k % 2]
        obj = make()
        fired, out = interrupted(lambda: fn(obj), k, exc,
                                 files or library())
        if not fired:
            return
        yield k, exc, obj, out
        k += step


# ---- calls that change nothing -------------------------------------------
def wrappers():
    """name -> (build returning (object, patterns), operations)"""
    import autograd
    import autograd.numpy as anp
    import paragami as pg
    out = {}
    x = [np.array([0.3, -1.1]), np.array([1.2, 0.7])]
    y = [np.array([0.4]), np.array([-0.9])]

    def parts():
        d = pg.PatternDict(free_default=True)
        d['v'] = pg.NumericVectorPattern(2, lb=0.0)
        return [d, pg.SimplexArrayPattern(2, (), free_default=False)]

    def value(k):
        return {'v': np.exp(x[k])}

    def fun(a, b, scale=1.0):
        return scale * anp.sum(a['v'] ** 2) + anp.sum(
            a['v'] * b[0]), a['v'] * b[1]

    def inputs():
        p = parts()
        return pg.FlattenFunctionInput(fun, p, True, [0, 1]), p
    out['inputs'] = (inputs, {
        'call': lambda f, k: f(x[k], y[k], scale=1.0 + k),
        'gradient': lambda f, k: autograd.grad(
            lambda u, v: f(u, v)[0], k)(x[k], y[k]),
        'forward': lambda f, k: autograd.make_jvp(
            lambda u: f(u, y[k])[0])(x[k])(x[1 - k]),
        'refused': lambda f, k: f(x[k], np.ones(3 + k)),
        'text': lambda f, k: len(str(f)) > 0})

    def folded():
        p = parts()
        return pg.FoldFunctionInput(
            lambda u, v: (3.0 * u, 2.0 * v), p, [True, False], [1, 0]), p
    out['folded'] = (folded, {
        'call': lambda f, k: f(np.array([0.25 + k / 2, 0.75 - k / 2]),
                               value(k)),
        'refused': lambda f, k: f(np.array([0.25, 0.5 + k]), value(k))})

    def outputs():
        p = parts()
        return pg.FlattenFunctionOutput(
            lambda k: (k, value(k), np.array([0.5, 0.5])), p, True,
            [1, 2]), p
    out['outputs'] = (outputs, {'call': lambda f, k: f(k)})

    def failing():
        p = parts()

        def body(a, b):
            if np.size(b) == 2 and a['v'][0] > 2:
                raise KeyError('user')
            return a['v'], b
        return pg.FoldFunctionOutput(pg.FlattenFunctionInput(
            body, p, [True, True]), p[1:], True, [0]), p
    out['failing'] = (failing, {
        'call': lambda f, k: f(x[0][::1 - 2 * k] - 1.0, y[k]),
        'raises': lambda f, k: f(x[1], y[k])})

    def both():
        p = parts()
        return pg.FlattenFunctionInputAndOutput(
            lambda a, b: (a, b), p, [True, False], [0, 1], p, [False, True],
            [0, 1]), p
    out['both'] = (both, {
        'call': lambda f, k: f(x[k], np.array([0.25 + k / 2,
                                               0.75 - k / 2]))})
    return out


def same(got, want):
    return got[0] == want[0] and (
        c24.alike(got[1], want[1]) if got[0] == 'value' else
        got[1] is want[1])


def attempt(fn):
    try:
        return ('value', c24.plain(fn()))
    except Exception as err:
        return ('error', type(err), str(err))


def calls(ctx):
    """(name, build, parts of an object, operations)"""
    out = []
    for spec in PATTERNS:
        conv, rest = c24.pattern_ops(spec)
        ops = dict(conv)
        ops.update(rest)
        out.append((S.name(spec), lambda spec=spec: (
            S.build(spec), []), lambda p: [p], ops))
    for name, (build, ops) in sorted(wrappers().items()):
        out.append((name, build, lambda f: [], ops))
    for name, (build, ops) in sorted(c24.function_objects().items()):
        if name.startswith(('preconditioner', 'product', 'solver', 'sparse',
                            'objective', 'sums', 'eigenvalues')):
            out.append((name, lambda build=build: (build(), []),
                        lambda f: [], ops))
    return out


def settings():
    """What a call must leave alone in the process."""
    return (sorted(np.geterr().items()), sorted(
        (k, str(v)) for k, v in np.get_printoptions().items()),
        len(warnings.filters), sys.getrecursionlimit(), os.getcwd(),
        os.environ.get('PYTHONWARNINGS'))


def aftermath(ctx, obj, pats, ops, want, images, label):
    for b in sorted(ops):
        for v in (0, 1):
            got = attempt(lambda: ops[b](obj, v))
            ctx.op()
            ctx.expect(same(got, want[b, v]), 'after {}, {} gives {}, not {}',
                       label, (b, v), got, want[b, v])
    for p, (image, default) in zip(pats, images):
        ctx.expect(p.to_json() == image and p.free_default is default,
                   'after {}, a pattern is {}, was {}', label, p.to_json(),
                   image)


def unchanged(ctx):
    work = []
    table = calls(ctx)
    for i, (name, build, own, ops) in enumerate(table):
        for a in sorted(ops):
            for v in (0, 1):
                work.append((i, a, v, False))
            work.append((i, a, 0, True))
    for i, a, v, used in ctx.shard('call', work):
        name, build, own, ops = table[i]
        want = dict(((b, k), attempt(lambda: ops[b](build()[0], k)))
                    for b in ops for k in (0, 1))

        def make():
            obj, pats = build()
            if used:
                attempt(lambda: ops[a](obj, 1 - v))
            pats = pats + own(obj)
            return obj, pats, [(p.to_json(), p.free_default) for p in pats]
        light = len(ops) > 10
        some = dict((b, ops[b]) for b in ops if not light or b in (
            a, 'flatten free', 'fold free', 'fold', 'equal', 'lengths'))
        before = settings()
        for k, exc, (obj, pats, images), out in points(
                lambda t: ops[a](t[0], v), make):
            label = '{} interrupted by {} at point {}'.format(
                a, exc.__name__, k)
            with ctx.case(name + ' ' + label):
                ctx.state(name, a, v, used, k)
                ctx.op()
                ctx.expect(settings() == before, 'after {}, the settings are '
                           '{}, not {}', label, settings(), before)
                if out[0] == 'value':
                    ctx.expect(same(('value', c24.plain(out[1])),
                                    want[a, v]), '{} gives {}', label,
                               out[1])
                # Everything after every fourth point, most of it after the
                # others.
                aftermath(ctx, obj, pats,
                          ops if ctx.thorough or k % 4 == 0 else some, want,
                          images, label)
                got = attempt(lambda: ops[a](build()[0], v))
                ctx.expect(same(got, want[a, v]), 'after {}, a new object '
                           'gives {}, not {}', label, got, want[a, v])


def twice(ctx):
    """Two interruptions in a row, of the same object."""
    table = calls(ctx)
    work = [(i, a) for i, (name, build, own, ops) in enumerate(table)
            for a in sorted(ops)
            if i < 4 and a not in c24.LONG or len(PATTERNS) <= i <
            len(PATTERNS) + 5]
    for i, a in ctx.shard('twice', work):
        name, build, own, ops = table[i]
        want = attempt(lambda: ops[a](build()[0], 0))
        for k, exc, (obj, pats), out in points(
                lambda t: ops[a](t[0], 1), build):
            j = 0
            while True:
                j += 1
                fired, out = interrupted(lambda: ops[a](obj, 0), j,
                                         EXCS[(j + k) % 2], library())
                with ctx.case('{} {} at {} and {}'.format(name, a, k, j)):
                    ctx.state(name, a, k, j)
                    ctx.op(2)
                    got = attempt(lambda: ops[a](obj, 0))
                    ctx.expect(same(got, want), 'after two interruptions of '
                               '{}, it gives {}, not {}', a, got, want)
                if not fired:
                    break


# ---- calls that change an object -----------------------------------------
def dictionaries(ctx):
    import paragami as pg

    def leaf(k):
        return [lambda: pg.NumericVectorPattern(2, lb=0.0),
                lambda: pg.SimplexArrayPattern(3, ()),
                lambda: pg.PSDSymmetricMatrixPattern(2)][k]()

    def nested():
        d = pg.PatternDict()
        d['x'] = leaf(0)
        d['y'] = leaf(2)
        return d

    def make():
        d = pg.PatternDict(free_default=True)
        d['a'], d['b'] = leaf(0), leaf(1)
        return d, nested()
    # What was added is known by its name.
    before = [('a', 0), ('b', 1)]
    changes = {
        'set': (lambda t: t[0].__setitem__('c', leaf(2)),
                before + [('c', 2)]),
        'replace': (lambda t: t[0].__setitem__('a', leaf(2)),
                    [('a', 2), ('b', 1)]),
        'nest': (lambda t: t[0].__setitem__('c', t[1]),
                 before + [('c', 'nested')]),
        'delete': (lambda t: t[0].__delitem__('a'), [('b', 1)]),
        'refused': (lambda t: t[0].__setitem__('c', 3.0), before),
        'missing': (lambda t: t[0].__delitem__('z'), before),
    }
    # Another change, of either kind, brings everything up to date.
    for name, then in ctx.each('change then', itertools.product(
            sorted(changes), ('set', 'replace', 'delete'))):
        change, after = changes[name]
        for k, exc, (d, inner), out in points(change, make):
            with ctx.case('{} at {} then {}'.format(name, k, then)):
                ctx.state('dictionary', name, k, then)

                def again(d):
                    if then == 'delete':
                        del d['b']
                    else:
                        d['z' if then == 'set' else 'b'] = leaf(0)
                ctx.op()
                again(d)
                keys = list(d.keys())
                want = None
                for items in (before, after):
                    w = pg.PatternDict(free_default=True)
                    for key, what in items:
                        w[key] = nested() if what == 'nested' else leaf(what)
                    again(w)
                    if d.to_json() == w.to_json():
                        want = w
                ctx.expect(want is not None, 'after an interrupted {} and '
                           'another change the dictionary is {}', name, d)
                ctx.expect(d == want and keys == list(want.keys()), 'keys')
                for free in (True, False):
                    n = sum(v.flat_length(free) for v in (
                        want[key] for key in keys))
                    ctx.expect(d.flat_length(free) == n, 'the length is {}, '
                               'not {}', d.flat_length(free), n)
                    x = want.flatten(want.empty(valid=True), free=free)
                    ctx.expect(near(d.flatten(d.fold(x, free=free),
                                              free=free), x, 1e-12),
                               'conversions')
                    ctx.op(3)
    for k, exc, (d, inner), out in points(lambda t: t[0].lock(), make):
        with ctx.case('lock at {}'.format(k)):
            ctx.state('lock', k)
            d.lock()
            ctx.raises(ValueError, lambda: d.__setitem__('q', leaf(0)),
                       'a change after locking')
            ctx.expect(list(d.keys()) == ['a', 'b'], 'keys')


def preconditioners(ctx):
    import autograd
    import autograd.numpy as anp
    import paragami as pg
    a0 = np.array([[1.5, 0.5], [-0.2, 1.0]])
    h0 = np.array([[4.0, 1.0], [1.0, 3.0]])
    fail = [False]

    def fun(x):
        if fail[0]:
            raise KeyError('user')
        return 0.5 * anp.dot(x, anp.dot(h0, x)) + anp.sum(x ** 3) / 3
    setters = {
        'identity': lambda p: p.set_identitity_preconditioner(),
        'matrix': lambda p: p.set_preconditioner_matrix(a0),
        'sparse': lambda p: p.set_preconditioner_matrix(
            scipy.sparse.csc_matrix(a0)),
        'functions': lambda p: p.set_preconditioner_functions(
            lambda v: 2.0 * v, lambda v: 0.5 * v),
        'hessian': lambda p: p.set_preconditioner_with_hessian(
            hessian=h0, ev_min=3.5),
        'x': lambda p: p.set_preconditioner_with_hessian(
            x=np.array([0.5, 1.0]), ev_max=5.0)}

    def root(h, lo, hi):
        ev, u = np.linalg.eigh(h)
        return (u / np.sqrt(np.clip(ev, lo, hi))) @ u.T
    mats = {'identity': np.eye(2), 'matrix': a0, 'sparse': a0,
            'functions': 2.0 * np.eye(2), 'hessian': root(h0, 3.5, INF),
            'x': root(h0 + np.diag([1.0, 2.0]), 0, 5.0)}

    def about(p, names, again):
        for get, power in ((p.get_preconditioner, 1),
                           (p.get_preconditioner_inv, -1)):
            got = get(2)
            ctx.op()
            ctx.expect(any(near(got, np.linalg.matrix_power(
                mats[n], power), 1e-9) for n in names),
                'after an interruption the preconditioner of {} is {}',
                names, got)
        if again:
            x = np.array([0.3, -0.7])
            a = mats[names[0]]
            ctx.expect(near(p(x), fun(a @ x), 1e-9) and near(
                autograd.grad(p)(x), a.T @ (h0 @ (a @ x) + (a @ x) ** 2),
                1e-8), 'the value afterwards is {}', p(x))
            ctx.op(2)
    for old, new in ctx.each('from to', itertools.product(
            sorted(setters), repeat=2)):
        def make():
            p = pg.PreconditionedFunction(fun)
            setters[old](p)
            return p
        for k, exc, p, out in points(setters[new], make):
            with ctx.case('{} to {} at {}'.format(old, new, k)):
                ctx.state('preconditioner', old, new, k)
                about(p, (old, new), False)
                setters[new](p)
                about(p, (new,), True)
        with ctx.case('user'):
            # The function fails while its Hessian is evaluated.
            p = make()
            fail[0] = True
            try:
                if new == 'x':
                    ctx.raises(KeyError, lambda: setters[new](p),
                               'a failing function')
                ctx.raises(KeyError, lambda: p(np.ones(2)),
                           'a failing function')
                ctx.raises(KeyError, lambda: autograd.grad(p)(np.ones(2)),
                           'a failing function')
            finally:
                fail[0] = False
            about(p, (old,), True)


def objectives(ctx):
    import autograd.numpy as anp
    import paragami as pg

    def fun(x):
        return anp.sum(x ** 2)
    x = [np.array([0.5, i]) for i in range(6)]

    def make(every=1):
        o = pg.OptimizationObjective(fun, print_every=1, log_every=every)
        o.f(x[0])
        o.f(x[1])
        return o
    changes = {
        'f': lambda o: o.f(x[2]), 'grad': lambda o: o.grad(x[2]),
        'hessian': lambda o: o.hessian(x[2]),
        'product': lambda o: o.hessian_vector_product(x[2], x[1]),
        'reset': lambda o: o.reset(),
        'reset count': lambda o: o.reset_iteration_count(),
        'reset log': lambda o: o.reset_log(),
        'print every': lambda o: o.set_print_every(2),
        'log every': lambda o: o.set_log_every(2)}
    for name, change in ctx.each('objective', sorted(changes.items())):
        with contextlib.redirect_stdout(io.StringIO()):
            todo = list(points(change, make))
        for k, exc, o, out in todo:
            with ctx.case('{} at {}'.format(name, k)):
                ctx.state('objective', name, k)
                counts = {2, 3} if name == 'f' else \
                    {2, 0} if name in ('reset', 'reset count') else {2}
                logs = {2, 3} if name == 'f' else \
                    {2, 0} if name in ('reset', 'reset log') else {2}
                n, log = o.num_iterations(), list(o.optimization_log)
                ctx.expect(n in counts and len(log) in logs,
                           'after an interrupted {} the count is {} and the '
                           'log {}', name, n, log)
                for i, (m, at, val) in enumerate(log):
                    ctx.expect(m == i and near(at, x[i], 0) and
                               near(val, fun(x[i]), 1e-12),
                               'the log is {}', log)
                # Later evaluations go on from there.
                text = io.StringIO()
                with contextlib.redirect_stdout(text):
                    got = o.f(x[3])
                ctx.expect(near(got, fun(x[3]), 1e-12) and
                           o.num_iterations() == n + 1 and
                           len(o.optimization_log) == len(log) + 1 and
                           o.optimization_log[-1][0] == n and
                           'Iter {}: f = 9.25'.format(n) in text.getvalue(),
                           'after an interrupted {} an evaluation gives {} {} '
                           '{}', name, got, o.optimization_log,
                           text.getvalue())
                ctx.expect(near(o.grad(x[3]), 2 * x[3], 1e-12) and
                           near(o.hessian(x[3]), 2 * np.eye(2), 1e-12),
                           'derivatives afterwards')
                o.reset()
                ctx.expect(o.num_iterations() == 0 and
                           len(o.optimization_log) == 0, 'reset')
                ctx.op(5)


class Registered:
    """A stand-in for a class of patterns."""
    @classmethod
    def json_typename(cls):
        return 'registered for interruption'


def registry(ctx):
    import paragami as pg
    p = pg.NumericVectorPattern(2)
    known = [S.build(s) for s in PATTERNS]
    for k, exc, _, out in points(
            lambda _: pg.register_pattern_json(
                Registered, allow_overwrite=True), lambda: None):
        with ctx.case('register at {}'.format(k)):
            ctx.state('register', k)
            for q in known:
                ctx.expect(pg.get_pattern_from_json(q.to_json()) == q,
                           'decoding {}', q)
                ctx.op()
    for make in ctx.each('duplicate', (
            lambda: pg.register_pattern_json(type(p)),
            lambda: pg.get_pattern_from_json('{"pattern": "none"}'),
            lambda: pg.get_pattern_from_json('{}'),
            lambda: pg.get_pattern_from_json('{'))):
        for k, exc, _, out in points(lambda _: make(), lambda: None):
            with ctx.case('refused at {}'.format(k)):
                ctx.state('refused', k)
                ctx.expect(out[0] == 'error', 'refused')
                for q in known:
                    ctx.expect(pg.get_pattern_from_json(q.to_json()) == q,
                               'decoding {}', q)
                    ctx.op()


def saving(ctx):
    import zipfile
    import paragami as pg
    lib = os.path.dirname(np.lib.__file__) + os.sep
    deep = library() + (lib + 'npyio.py', lib + 'format.py',
                        zipfile.__file__)
    spec = D(('a', Num((2,), 0.0)), ('m', Psd(2)))
    p = S.build(spec)
    old, new = S.interior(spec, 0), S.interior(spec, 1)
    path = os.path.join(ctx.scratch, 'interrupted')

    def make():
        pg.save_folded(path, old, p, extra=np.arange(3.0))

    def save(_):
        pg.save_folded(path, new, p, extra=np.arange(7.0), more=1.0)
    hook = sys.unraisablehook
    try:
        # Archives that were not finished complain when they are collected.
        sys.unraisablehook = lambda *args: None
        for k, exc, _, out in points(
                save, make, deep, *(1, 1) if ctx.replay else
                (ctx.worker + 1, ctx.nworkers)):
            with ctx.case('save at {}'.format(k)):
                ctx.state('save', k)
                ctx.op(2)
                judge(ctx, pg, path, p, old, new, out)
    finally:
        gc.collect()
        sys.unraisablehook = hook
        if os.path.exists(path + '.npz'):
            os.remove(path + '.npz')


def judge(ctx, pg, path, p, old, new, out):
    try:
        value, pattern, data = pg.load_folded(path + '.npz')
        extra = np.array(data['extra'])
        data.close()
    except Exception:
        ctx.expect(out[0] == 'error', 'a save that returned left a file that '
                   'cannot be loaded')
        return
    ctx.expect(pattern == p, 'the pattern is {}', pattern)
    # What becomes of extra data inside the archive writer is up to numpy.
    ctx.expect(S.same(value, old) and out[0] == 'error' or
               S.same(value, new) and (
                   out[0] == 'error' or S.same(extra, np.arange(7.0))),
               'after an interrupted save the file holds {} and {}',
               value, extra)


def loading(ctx):
    """Interrupted reads leave the file alone."""
    import paragami as pg
    spec = D(('a', Num((2,), 0.0)), ('s', Spx(2)))
    p, value = S.build(spec), S.interior(spec, 0)
    path = os.path.join(ctx.scratch, 'read')
    try:
        pg.save_folded(path, value, p)
        for k, exc, _, out in points(
                lambda _: pg.load_folded(path + '.npz')[:2], lambda: None):
            with ctx.case('load at {}'.format(k)):
                ctx.state('load', k)
                got, pattern, data = pg.load_folded(path + '.npz')
                data.close()
                ctx.op()
                ctx.expect(S.same(got, value) and pattern == p,
                           'loaded {}', got)
    finally:
        if os.path.exists(path + '.npz'):
            os.remove(path + '.npz')


def run(ctx):
    unchanged(ctx)
    for fn in (dictionaries, preconditioners, objectives, registry, loading):
        for _ in ctx.shard(fn.__name__, [0]):
            fn(ctx)
    saving(ctx)
    if ctx.thorough:
        twice(ctx)
