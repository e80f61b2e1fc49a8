"""C25: patterns, wrappers, preconditioners and objectives as one pipeline."""
import contextlib
import copy
import io
import os

import numpy as np
import scipy.optimize
import scipy.sparse

from mc import engine, jet as J, spec as S
from mc.spec import D, INF, Num, Psd, Sca, Spx, Arr
from mc.util import near

BOUNDS = {
    'machine': 'one pattern, a function of its folded value wrapped into one '
               'of the flat value, preconditioned, as an objective with a '
               'log, and the current point',
    'operations': 'evaluating, differentiating, stepping in place, running '
                  'an optimizer, preconditioning (identity, dense and sparse '
                  'matrices, functions, the Hessian by automatic '
                  'differentiation, given or sparse, with and without limits), storing '
                  'and loading the pattern and the point (JSON, file, stream, '
                  'deep copy), switching the free flag of the wrapper or the '
                  'default of the pattern, logging, printing, resetting, '
                  'refused vectors, overwriting results, sharing the pattern '
                  'with a second wrapper, a two-argument wrapper and an '
                  'output wrapper',
    'histories': 'every history of 2 operations and every extension to 3 '
                 'from distinct states (thorough: every history of 3, '
                 'extensions to 4 for patterns of up to 3 free '
                 'coordinates)',
    'patterns': '6 patterns (thorough: 8) of up to 8 free coordinates',
}
ASSUMPTIONS = ['points stay in the region where the transforms are well '
               'conditioned']

TOL = 1e-7


def patterns(thorough):
    out = [
        D(('a', Sca(0.0)), ('b', Num((2,)))),
        D(('p', Spx(3)), ('c', Num((1,), -1.0, 2.0))),
        Psd(2, 0.5),
        Arr((2,), Num((2,), -INF, 1.0)),
        Num((2, 2), 0.0),
        D(('m', Psd(2)), ('in', D(('s', Spx(2, (2,))), ('x', Sca())))),
    ]
    if thorough:
        out += [Arr((2,), Psd(1)), Spx(3, (2,))]
    return out


# ---- the objective, by autograd on folded values and by jets -------------
def flat_anp(spec, value):
    import autograd.numpy as anp
    if type(spec) is S.Dct:
        return anp.concatenate(
            [flat_anp(s, value[k]) for k, s in spec.items])
    return anp.reshape(value, (-1,))


def weights(n):
    w = [1.5 * S.frac(i, 1) - 1.0 for i in range(n)]
    q = [1.0 + S.frac(i, 2) for i in range(n)]
    return w, q


def objective(spec, n):
    """original function of (scale, value, shift)"""
    import autograd.numpy as anp
    w, q = [np.array(t) for t in weights(n)]

    def f(scale, value, shift=0.0):
        t = flat_anp(spec, value)
        return scale * anp.sum(w * t) + 0.5 * anp.sum(q * t ** 2) + \
            0.3 * t[0] * t[-1] + shift
    return f


def joint(spec, n):
    """A function of the value and of hyperparameters."""
    import autograd.numpy as anp
    w, q = [np.array(t) for t in weights(n)]

    def f(value, lam):
        t = flat_anp(spec, value)
        return lam[0] * anp.sum(w * t) + 0.5 * lam[1] * anp.sum(
            q * t ** 2) + lam[0] * lam[1]
    return f


def jets(spec, x, free):
    return J.fold_free(spec, x) if free else J.Jet.variables(x)


def jet_objective(spec, x, free):
    t = jets(spec, x, free)
    w, q = weights(len(t))
    tot = J.Jet.of(-0.25, len(x))
    for i, ti in enumerate(t):
        tot = tot + 2.0 * w[i] * ti + 0.5 * q[i] * (ti * ti)
    return tot + 0.3 * (t[0] * t[-1])


def widen(j, n, at):
    """The jet as a function of more variables."""
    k = len(j.g)
    g, h = np.zeros(n), np.zeros((n, n))
    g[at:at + k] = j.g
    h[at:at + k, at:at + k] = j.h
    return J.Jet(j.v, g, h)


def jet_joint(spec, x, free, y):
    n = len(x) + 2
    t = [widen(j, n, 0) for j in jets(spec, x, free)]
    lam = [widen(j, n, len(x)) for j in J.fold_free(Num((2,), 0.0), y)]
    w, q = weights(len(t))
    tot = lam[0] * lam[1]
    for i, ti in enumerate(t):
        tot = tot + w[i] * (lam[0] * ti) + 0.5 * q[i] * (lam[1] * (ti * ti))
    return tot


def flat_of(spec, x, free):
    return np.array([j.v for j in jets(spec, x, free)])


def start(spec, free):
    x = S.free_vec(spec, 1, 0.8)
    return x if free else flat_of(spec, x, True)


# ---- the model -----------------------------------------------------------
class Model:
    def __init__(self, spec):
        self.spec, self.free, self.default = spec, True, True
        self.x = start(spec, True)
        self.a = np.eye(len(self.x))
        # How the point and the preconditioner came about.
        self.at, self.by = (), 'identity'
        self.every, self.tally = 1, ''
        self.rebuilt()

    def rebuilt(self):
        self.count, self.log = 0, []

    def jet(self):
        return jet_objective(self.spec, self.x, self.free)

    def xc(self):
        return np.linalg.solve(self.a, self.x)

    def canon(self):
        return (self.free, self.default, self.tally, self.every, self.at,
                self.by)

    def plan(self, op):
        """Which states the search tells apart."""
        if op in ('evaluate', 'print'):
            self.tally += 'e'
        elif op in ('step', 'optimize'):
            # The path depends on the preconditioner.
            self.tally += 'eo'[op == 'optimize']
            self.at = (self.at, op, self.by)
        elif op in SETS:
            self.by = op if op in ('identity',) + FIXED else (
                op, self.at, self.by if op == 'given hessian' else '')
        elif op == 'switch':
            self.free = not self.free
            self.by = 'identity'
        elif op == 'default':
            self.default = not self.default
        elif op == 'log every':
            self.every = 2 if self.every == 1 else 1
            self.tally += '|'
        if op in ROUTES + ('switch',):
            self.every = 1
        if op in ROUTES + ('switch', 'reset'):
            self.tally = ''

    def evaluated(self, value):
        if self.every and self.count % self.every == 0:
            self.log.append((self.count, self.xc(), value))
        self.count += 1


# ---- the real objects ----------------------------------------------------
class Lazy:
    """The search itself needs no real objects."""
    def __init__(self, *args):
        self.args, self.real = args, None

    def get(self):
        if self.real is None:
            self.real = Real(*self.args)
        return self.real


class Real:
    def __init__(self, spec, scratch):
        self.spec = spec
        self.n = S.length(spec, False)
        self.fun = objective(spec, self.n)
        self.scratch = scratch
        self.pattern = S.build(spec)
        self.pattern.free_default = True
        self.free = True
        self.c = None
        self.build()
        self.xc = start(spec, True)

    def build(self):
        """Wrap, precondition and optimize the current pattern again."""
        import paragami
        self.w = paragami.FlattenFunctionInput(
            self.fun, self.pattern, self.free, argnums=1)
        self.flat_fun = lambda x: self.w(2.0, x, shift=-0.25)
        self.c = paragami.PreconditionedFunction(self.flat_fun)
        self.o = paragami.OptimizationObjective(
            self.c, print_every=0, log_every=1)


def matrix(n, k):
    m = np.array([[0.4 * S.frac(i * n + j, k) - 0.2 for j in range(n)]
                  for i in range(n)])
    return m + np.eye(n)


OPS = ['evaluate', 'derivatives', 'step', 'optimize', 'identity', 'matrix',
       'sparse matrix', 'functions', 'hessian at x', 'given hessian',
       'sparse hessian', 'hessian without limits', 'json', 'file', 'stream', 'deep copy',
       'switch', 'default', 'log every', 'print', 'reset', 'refused',
       'overwrite', 'second wrapper', 'joint', 'output']
FIXED = ('matrix', 'sparse matrix', 'functions')
SETS = ('identity', 'hessian at x', 'given hessian', 'sparse hessian',
        'hessian without limits') + FIXED
ROUTES = ('json', 'file', 'stream', 'deep copy')
FREE_ONLY = ('step', 'optimize', 'sparse hessian', 'hessian without limits')


# Rounding in a preconditioned flat value breaks the exact symmetry that
# matrices are checked for, and takes probabilities off the simplex.
SCALED = ('matrix', 'sparse matrix', 'functions', 'hessian at x',
          'given hessian')


def ops(model):
    exact = any(type(comp.spec) in (Psd, Spx)
                for comp in S.components(model.spec))
    return [o for o in OPS if model.free or not (
        o in FREE_ONLY or exact and o in SCALED)]


def root(h, lo, hi):
    ev, u = np.linalg.eigh(0.5 * (h + h.T))
    ev = np.array([min(max(e, lo), hi) for e in ev])
    return (u / np.sqrt(ev)) @ u.T


def expect(c, got, want, what, tol=TOL):
    c.op()
    c.expect(near(got, want, tol), what + ' is {}, not {}', got, want)


def real_derivatives(c, r, m, j):
    import autograd
    import autograd.numpy as anp
    g, h = m.a.T @ j.g, m.a.T @ j.h @ m.a
    expect(c, r.o.grad(r.xc), g, 'the gradient')
    expect(c, r.o.hessian(r.xc), h, 'the Hessian')
    v = np.cos(np.arange(len(g)))
    expect(c, r.o.hessian_vector_product(r.xc, v), h @ v,
           'the Hessian product')
    val, dv = autograd.make_jvp(r.c)(r.xc)(v)
    expect(c, val, j.v, 'the forward-mode value')
    expect(c, dv, g @ v, 'the forward-mode derivative')
    # The chain rule through the Jacobian of the transform.
    if m.free:
        value = r.pattern.fold(r.c.unprecondition(r.xc), free=True)
        flat = flat_of(m.spec, m.x, True)
        jf = jet_objective(m.spec, flat, False)
        jac = r.pattern.unfreeing_jacobian(value, sparse=False)
        expect(c, jac.T @ jf.g, j.g, 'the gradient by the chain rule')


def wrapped_twice(c, r, m):
    """Another wrapper of the same pattern, with the other free flag."""
    import autograd
    import paragami
    other = not m.free
    w2 = paragami.FlattenFunctionInput(
        lambda v: r.fun(2.0, v, shift=-0.25), r.pattern, other)
    value = r.pattern.fold(r.c.unprecondition(r.xc), free=m.free)
    x2 = r.pattern.flatten(value, free=other)
    expect(c, flat_of(m.spec, x2, other), flat_of(m.spec, m.x, m.free),
           'the point of the second wrapper')
    j2 = jet_objective(m.spec, x2, other)
    expect(c, w2(x2), j2.v, 'the value of the second wrapper')
    if other and len(x2) == len(m.x):
        # The same vector as another parameterisation.
        expect(c, w2(r.c.unprecondition(r.xc)), jet_objective(
            m.spec, m.x, other).v, 'the value of the same vector')
    expect(c, autograd.grad(w2)(x2), j2.g,
           'the gradient of the second wrapper')
    # By the default of the pattern.
    w3 = paragami.FlattenFunctionInput(
        lambda v: r.fun(2.0, v, shift=-0.25), r.pattern, None)
    x3 = r.pattern.flatten(value)
    expect(c, x3, np.array(m.x) if m.default == m.free else x2,
           'flattening by default')
    expect(c, w3(x3), j2.v, 'the value of the wrapper by default')
    back = paragami.FoldFunctionInput(r.flat_fun, r.pattern, m.free)
    expect(c, back(value), j2.v, 'the wrapper folded back')


def real_joint(c, r, m):
    import autograd
    import paragami
    hyper = paragami.NumericArrayPattern(shape=(2,), lb=0.0)
    w = paragami.FlattenFunctionInput(
        joint(m.spec, r.n), [r.pattern, hyper], [m.free, True])
    x, y = r.c.unprecondition(r.xc), np.array([0.3, -0.2])
    j = jet_joint(m.spec, m.x, m.free, y)
    n = len(m.x)
    expect(c, w(x, y), j.v, 'the joint value')
    for i, (lo, hi) in enumerate(((0, n), (n, n + 2))):
        expect(c, autograd.grad(w, i)(x, y), j.g[lo:hi],
               'the joint gradient')
        expect(c, autograd.hessian(w, i)(x, y), j.h[lo:hi, lo:hi],
               'the joint Hessian')
    cross = autograd.jacobian(autograd.grad(w, 0), 1)(x, y)
    expect(c, cross, j.h[:n, n:], 'the cross derivatives')
    back = autograd.jacobian(autograd.grad(w, 1), 0)(x, y)
    expect(c, back, j.h[n:, :n], 'the transposed cross derivatives')


def real_output(c, r, m):
    import autograd
    import paragami
    out = paragami.FlattenFunctionInputAndOutput(
        lambda v: v, r.pattern, m.free, 0, r.pattern, False)
    x = r.c.unprecondition(r.xc)
    t = jets(m.spec, m.x, m.free)
    expect(c, out(x), np.array([j.v for j in t]), 'the converted point')
    expect(c, autograd.jacobian(out)(x), np.array([j.g for j in t]),
           'the Jacobian of the conversion')
    same = paragami.FlattenFunctionInputAndOutput(
        lambda v: v, r.pattern, m.free, 0, r.pattern, m.free)
    expect(c, same(x), m.x, 'the point there and back')
    folded = paragami.FoldFunctionInputAndOutput(
        lambda u: u, r.pattern, m.free, 0, r.pattern, m.free)
    value = r.pattern.fold(x, free=m.free)
    c.expect(S.same(folded(value), S.fold(m.spec, flat_of(
        m.spec, m.x, m.free)), False, TOL, TOL), 'the value there and back '
        'is {}', folded(value))


def reroute(c, r, m, op):
    """The pattern and the point through storage."""
    import paragami
    x = r.c.unprecondition(r.xc)
    value = r.pattern.fold(x, free=m.free)
    old = r.pattern
    if op == 'json':
        r.pattern = paragami.get_pattern_from_json(r.pattern.to_json())
    elif op == 'deep copy':
        r.pattern = copy.deepcopy(r.pattern)
    else:
        fh = io.BytesIO() if op == 'stream' else os.path.join(
            r.scratch, 'point')
        paragami.save_folded(fh, value, r.pattern)
        if op == 'stream':
            fh.seek(0)
        else:
            fh += '.npz'
        value, r.pattern = paragami.load_folded(fh)[:2]
        if op == 'file':
            os.remove(fh)
    c.expect(r.pattern == old and old == r.pattern and r.pattern is not old,
             'the stored pattern differs')
    flags(c, r.pattern, old)
    r.build()
    a, ai = np.array(m.a), np.linalg.inv(m.a)
    r.c.set_preconditioner_matrix(a, ai)
    r.xc = r.c.precondition(r.pattern.flatten(value, free=m.free))


def flags(c, new, old):
    c.expect(new.free_default is old.free_default, 'the free default is {}, '
             'was {}', new.free_default, old.free_default)


def step(real, m, op, c):
    if real is None:
        m.plan(op)
        return
    r = real.get()
    expect(c, r.xc, m.xc(), 'the current point')
    perform(r, m, op, c)
    m.plan(op)
    logged(c, r, m)
    if c.hist_pos == c.hist_len:
        probe(c, r, m)


def perform(r, m, op, c):
    j = m.jet()
    x = r.c.unprecondition(r.xc)
    if op in ('evaluate', 'print'):
        text = io.StringIO()
        if op == 'print':
            r.o.set_print_every(1)
        with contextlib.redirect_stdout(text):
            expect(c, r.o.f(r.xc), j.v, 'the value')
        r.o.set_print_every(0)
        want = ['Iter {}: f = {:0.8f}\n'.format(m.count, j.v + e)
                for e in (0, 1e-9, -1e-9)] if op == 'print' else ['']
        c.expect(text.getvalue() in want, 'printed {}', text.getvalue())
        m.evaluated(j.v)
    elif op == 'derivatives':
        real_derivatives(c, r, m, j)
    elif op == 'step':
        g = m.a.T @ j.g
        move = 0.2 * g / (1 + np.linalg.norm(g))
        r.xc = np.array(r.xc)
        r.o.f(r.xc)
        gr = r.o.grad(r.xc)
        # In place: the log must not follow, and later calls must.
        r.xc -= 0.2 * gr / (1 + np.linalg.norm(gr))
        m.evaluated(j.v)
        m.x = m.x - m.a @ move
    elif op == 'optimize':
        before = len(r.o.optimization_log)
        res = scipy.optimize.minimize(
            r.o.f, r.xc, jac=r.o.grad, method='BFGS', options={'maxiter': 2})
        c.op(res.nfev)
        new = r.o.optimization_log[before:]
        want = [k for k in range(m.count, m.count + res.nfev)
                if m.every and k % m.every == 0]
        c.expect([e[0] for e in new] == want, 'logged {}, not {}',
                 [e[0] for e in new], want)
        for k, xc, val in new:
            expect(c, val, jet_objective(m.spec, m.a @ xc, True).v,
                   'a logged value')
        m.log += [(k, np.array(xc), float(v)) for k, xc, v in new]
        m.count += res.nfev
        m.x = m.a @ res.x
        expect(c, res.fun, m.jet().v, 'the optimum')
        c.expect(res.fun <= j.v + 1e-9, 'the optimizer went up')
        r.xc = res.x
    elif op in SETS:
        m.a = precondition(r, m, op, c, j, x)
        if m.free:
            # The same vector is another point now.
            j = jet_objective(m.spec, m.a @ r.xc, True)
            expect(c, r.c(r.xc), j.v, 'the value of the old vector')
            expect(c, r.o.grad(r.xc), m.a.T @ j.g,
                   'the gradient at the old vector')
            expect(c, r.o.hessian(r.xc), m.a.T @ j.h @ m.a,
                   'the Hessian at the old vector')
        r.xc = r.c.precondition(x)
    elif op in ROUTES:
        reroute(c, r, m, op)
        m.rebuilt()
    elif op == 'switch':
        new = not m.free
        value = r.pattern.fold(x, free=m.free)
        r.free = new
        r.build()
        r.xc = r.pattern.flatten(value, free=new)
        m.x = reference_free(m) if new else flat_of(m.spec, m.x, True)
        m.a = np.eye(len(m.x))
        m.rebuilt()
    elif op == 'default':
        r.pattern.free_default = not m.default
    elif op == 'log every':
        r.o.set_log_every(2 if m.every == 1 else 1)
    elif op == 'reset':
        r.o.reset()
        m.count, m.log = 0, []
    elif op == 'refused':
        n = len(m.x)
        bad = np.zeros(n + 1)
        c.raises(ValueError, lambda: r.flat_fun(bad), 'a longer vector')
        c.raises(ValueError, lambda: r.pattern.fold(bad[:n - 1],
                                                    free=m.free),
                 'a shorter vector')
        c.raises(ValueError, lambda: r.o.f(bad), 'a longer vector')
    elif op == 'overwrite':
        overwrite(r, m, x)
    elif op == 'second wrapper':
        wrapped_twice(c, r, m)
    elif op == 'joint':
        real_joint(c, r, m)
    elif op == 'output':
        real_output(c, r, m)
    else:
        raise ValueError(op)


def precondition(r, m, op, c, j, x):
    import autograd
    from paragami import sparse_preconditioners_lib as sp
    n = len(m.x)
    if op == 'identity':
        r.c.set_identitity_preconditioner()
        return np.eye(n)
    if op in FIXED:
        a = matrix(n, OPS.index(op))
        if op == 'matrix':
            r.c.set_preconditioner_matrix(a)
        elif op == 'sparse matrix':
            r.c.set_preconditioner_matrix(scipy.sparse.csc_matrix(a))
        else:
            ai = np.linalg.inv(a)
            r.c.set_preconditioner_functions(
                lambda v: a @ v, lambda v: ai @ v)
        return a
    if op == 'hessian at x':
        r.c.set_preconditioner_with_hessian(x=x, ev_min=0.5, ev_max=20.0)
        return root(j.h, 0.5, 20.0)
    if op == 'given hessian':
        # That of the preconditioned objective.
        r.c.set_preconditioner_with_hessian(
            hessian=r.o.hessian(r.xc), ev_min=0.25, ev_max=30.0)
        return root(m.a.T @ j.h @ m.a, 0.25, 30.0)
    h = j.h + max(0.0, 1.0 - np.linalg.eigvalsh(j.h)[0]) * np.eye(n)
    hr = autograd.hessian(r.flat_fun)(x) + (h - j.h)
    expect(c, hr, h, 'the Hessian of the wrapped function')
    if op == 'hessian without limits':
        r.c.set_preconditioner_with_hessian(hessian=hr)
        return root(h, 0.0, INF)
    r.c.set_preconditioner_functions(*sp.get_sym_matrix_inv_sqrt_funcs(
        scipy.sparse.csc_matrix(hr))[::-1])
    # Any square root will do.
    a = r.c.get_preconditioner(n)
    expect(c, a.T @ h @ a, np.eye(n), 'the preconditioned Hessian')
    expect(c, r.c.get_preconditioner_inv(n) @ a, np.eye(n),
           'the inverse preconditioner')
    return a


def overwrite(r, m, x):
    """Results belong to the caller."""
    value = r.pattern.fold(x, free=m.free)
    flat = r.pattern.flatten(value, free=m.free)
    for v in [value, r.pattern.empty(valid=True), r.pattern.random()]:
        for a in arrays(v):
            a[...] = np.nan
    flat[...] = np.nan
    for a in (r.o.grad(r.xc), r.o.hessian(r.xc), r.c.get_preconditioner(2)
              if len(m.x) == 2 else flat):
        a[...] = np.nan


def arrays(value):
    if isinstance(value, dict):
        return [a for v in value.values() for a in arrays(v)]
    return [value]


def reference_free(m):
    """Free coordinates of the current point, by the inverse transforms."""
    import math
    flat = list(m.x)
    out = [None] * S.length(m.spec, True)
    for comp in S.components(m.spec):
        v = flat[comp.flat0:comp.flat0 + comp.flatn]
        s = comp.spec
        if type(s) is Num:
            if s.lb > -INF and s.ub < INF:
                got = [math.log((v[0] - s.lb) / (s.ub - v[0]))]
            elif s.lb > -INF:
                got = [math.log(v[0] - s.lb)]
            elif s.ub < INF:
                got = [-math.log(s.ub - v[0])]
            else:
                got = v
        elif type(s) is Spx:
            got = [math.log(t / v[0]) for t in v[1:]]
        else:
            low = np.linalg.cholesky(
                np.reshape(v, (s.n, s.n)) - s.lb * np.eye(s.n))
            got = [math.log(low[i, k]) if i == k else low[i, k]
                   for i in range(s.n) for k in range(i + 1)]
        out[comp.free0:comp.free0 + comp.freen] = got
    return np.array(out, dtype=float)


def logged(c, r, m):
    c.expect(r.o.num_iterations() == m.count, '{} iterations, not {}',
             r.o.num_iterations(), m.count)
    log = r.o.optimization_log
    c.expect(len(log) == len(m.log), 'the log is {}, not {}', log, m.log)
    for got, want in zip(log, m.log):
        c.expect(got[0] == want[0] and near(got[1], want[1], TOL) and
                 near(got[2], want[2], TOL), 'logged {}, not {}', got, want)


def probe(c, r, m):
    """The whole pipeline at the end of the history, without counting."""
    j = m.jet()
    expect(c, r.xc, m.xc(), 'the point')
    expect(c, r.c(r.xc), j.v, 'the value at the end')
    expect(c, r.o.grad(r.xc), m.a.T @ j.g, 'the gradient at the end')
    expect(c, r.o.hessian(r.xc), m.a.T @ j.h @ m.a, 'the Hessian at the end')
    x = r.c.unprecondition(r.xc)
    value = r.pattern.fold(x, free=m.free)
    c.expect(S.same(value, S.fold(m.spec, flat_of(m.spec, m.x, m.free)),
                    False, TOL, TOL), 'the value at the end is {}', value)
    c.expect(r.pattern.validate_folded(value, validate_value=True)[0],
             'the value at the end is not valid')
    expect(c, r.pattern.flatten(value, free=m.free), m.x,
           'the flat value at the end')
    logged(c, r, m)


def run(ctx):
    for spec in patterns(ctx.thorough):
        small = S.length(spec, True) <= 3
        for _ in ctx.each('pattern', [S.name(spec)]):
            engine.histories(
                ctx, 'pipeline {}'.format(S.name(spec)),
                lambda spec=spec: (Lazy(spec, ctx.scratch), Model(spec)),
                ops, step,
                4 if ctx.thorough and small else 3,
                lambda m: m.canon(),
                3 if ctx.thorough else 2)
