"""C14: preconditioned objectives as a state machine."""
import itertools
import warnings

import numpy as np
import scipy.sparse
import scipy.sparse.linalg

from mc import engine, spec as S
from mc.util import messy, near, raw

BOUNDS = {
    'histories': 'two preconditioned functions of the same objective; every '
                 'history of up to 2 (thorough: 3) operations out of every '
                 'way of setting a preconditioner (identity, dense or sparse '
                 'matrix with or without a given inverse, functions, Hessian '
                 'given or evaluated, with every combination of limits, the '
                 'deprecated setter), every refused call and evaluations, on '
                 'either of the two; deeper histories up to equal states',
    'probes': 'after every operation both functions are probed at the unit '
              'vectors and two further points, with gradients, Hessians and '
              'forward-mode derivatives',
    'dimensions': '1 to 3, thorough: 1 to 4',
}
ASSUMPTIONS = ['a matrix given as a preconditioner is not modified '
               'while it is in use (but may be modified and given again)']


def mat(dim, k):
    m = np.array([[2.0 * S.frac(i * dim + j, k) - 1 for j in range(dim)]
                  for i in range(dim)])
    return m + 2.0 * np.eye(dim)


def objective(dim):
    import autograd.numpy as anp
    w = np.array([1.0 + 0.3 * i for i in range(dim)])
    q = mat(dim, 4)
    q = q @ q.T * 0.2

    def f(x):
        return anp.sum(w * anp.sin(x)) + 0.5 * anp.dot(x, anp.dot(q, x)) + \
            0.1 * anp.sum(w * x ** 3)

    def grad(x):
        return w * np.cos(x) + q @ x + 0.3 * w * x ** 2

    def hess(x):
        return np.diag(-w * np.sin(x) + 0.6 * w * x) + q
    return f, grad, hess


def truncated(h, lo, hi):
    h = 0.5 * (h + h.T)
    ev, u = np.linalg.eigh(h)
    if lo is not None:
        ev = np.array([max(e, lo) for e in ev])
    if hi is not None:
        ev = np.array([min(e, hi) for e in ev])
    return (u / np.sqrt(ev)) @ u.T, (u * np.sqrt(ev)) @ u.T


def hessians(dim):
    """Symmetric matrices: positive definite, indefinite, repeated
    eigenvalues, and one that is not symmetric."""
    b = mat(dim, 2)
    pos = b @ b.T
    u = np.linalg.eigh(pos)[1]
    ev = np.array([-0.7, 0.5, 6.0, 2.0])[:dim]
    ind = (u * ev) @ u.T
    ind = 0.5 * (ind + ind.T)
    rep = 3.0 * np.eye(dim)
    skew = pos + np.triu(np.ones((dim, dim)), 1) - \
        np.tril(np.ones((dim, dim)), -1)
    return {'positive': pos, 'indefinite': ind, 'scaled identity': rep,
            'not symmetric': skew}


def setters(dim, thorough):
    """name -> (function of the preconditioned function, A, A inverse)."""
    out = {}
    eye = np.eye(dim)
    out['identity'] = (lambda p: p.set_identitity_preconditioner(), eye, eye)

    def inv(a):
        return np.linalg.inv(a)
    a1, a2 = mat(dim, 1), mat(dim, 3)
    wrong = inv(a1) + 0.3
    out['matrix'] = (lambda p: p.set_preconditioner_matrix(a1), a1, inv(a1))
    out['matrix and inverse'] = (
        lambda p: p.set_preconditioner_matrix(a2, inv(a2)), a2, inv(a2))
    out['matrix a_inv='] = (
        lambda p: p.set_preconditioner_matrix(a=a2, a_inv=wrong), a2, wrong)
    out['functions'] = (
        lambda p: p.set_preconditioner_functions(
            lambda v: a2.T @ v, lambda v: inv(a2.T) @ v), a2.T, inv(a2.T))

    def deprecated(p, *args):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            p.set_preconditioner(*args)
        if not any(issubclass(x.category, DeprecationWarning) for x in w):
            raise engine.Mismatch('no deprecation warning')
    out['deprecated'] = (lambda p: deprecated(p, a1.T), a1.T, inv(a1.T))
    out['deprecated and inverse'] = (
        lambda p: deprecated(p, a1, wrong), a1, wrong)
    sp = a1 * (np.abs(a1) > 0.3)
    for fmt in ('csc', 'csr') + (('coo', 'lil', 'dia', 'array')
                                 if thorough or dim == 1 else ()):
        if fmt == 'array':
            s = scipy.sparse.csc_array(sp)
            si = scipy.sparse.csc_array(inv(sp))
        else:
            s = scipy.sparse.csc_matrix(sp).asformat(fmt)
            si = scipy.sparse.csc_matrix(inv(sp)).asformat(fmt)
        out['sparse ' + fmt] = (
            lambda p, s=s: p.set_preconditioner_matrix(s), sp, inv(sp))
        out['sparse and inverse ' + fmt] = (
            lambda p, s=s, si=si: p.set_preconditioner_matrix(s, si), sp,
            inv(sp))
    sc = scipy.sparse.csc_matrix(sp)
    sci = scipy.sparse.csc_matrix(inv(sp))
    out['sparse and dense inverse'] = (
        lambda p: p.set_preconditioner_matrix(sc, inv(sp)), sp, inv(sp))
    out['dense and sparse inverse'] = (
        lambda p: p.set_preconditioner_matrix(sp, sci), sp, inv(sp))
    # An inverse that is given is used as it is.
    scw = scipy.sparse.csc_matrix(wrong)
    out['sparse and approximate inverse'] = (
        lambda p: p.set_preconditioner_matrix(sc, scw), sp, wrong)
    out['sparse and dense approximate inverse'] = (
        lambda p: p.set_preconditioner_matrix(sc, wrong), sp, wrong)
    ints = np.array([[3 if i == j else (1 if i < j else 0)
                      for j in range(dim)] for i in range(dim)])
    out['integers'] = (
        lambda p: p.set_preconditioner_matrix(ints), ints, inv(ints))
    out['small numbers'] = (
        lambda p: p.set_preconditioner_matrix(a1 * 1e-3), a1 * 1e-3,
        inv(a1) * 1e3)
    both = ints @ ints.T
    a, ai = truncated(both, None, None)
    out['hessian of integers'] = (
        lambda p: p.set_preconditioner_with_hessian(hessian=both), a, ai)
    a, ai = truncated(both, 2.5, 7.25)
    out['hessian of integers and limits'] = (
        lambda p: p.set_preconditioner_with_hessian(
            hessian=both, ev_min=2.5, ev_max=7.25), a, ai)
    a, ai = truncated(np.zeros((dim, dim)), 0.25, None)
    out['zero hessian'] = (
        lambda p: p.set_preconditioner_with_hessian(
            hessian=np.zeros((dim, dim)), ev_min=0.25), a, ai)
    a, ai = truncated(both * -1., 0.25, 4.0)
    out['negative hessian'] = (
        lambda p: p.set_preconditioner_with_hessian(
            hessian=-both, ev_min=0.25, ev_max=4.0), a, ai)
    hs = hessians(dim)
    limits = {'positive': [(None, None), (1.0, None), (None, 2.0),
                           (0.9, 1.9)],
              'indefinite': [(0.25, None), (0.6, 3.0)],
              'scaled identity': [(None, None), (4.0, 5.0)],
              'not symmetric': [(None, None)]}
    for hn, lims in limits.items():
        for lo, hi in lims:
            kw = {}
            if lo is not None:
                kw['ev_min'] = lo
            if hi is not None:
                kw['ev_max'] = hi
            a, ai = truncated(hs[hn], lo, hi)
            out['hessian {} {} {}'.format(hn, lo, hi)] = (
                lambda p, h=hs[hn], kw=kw: p.set_preconditioner_with_hessian(
                    hessian=h, **kw), a, ai)
    hess = objective(dim)[2]
    x0 = np.array([0.9, -0.2, 0.4, 0.1])[:dim]
    for lo, hi in ((0.3, None), (0.5, 1.5)):
        a, ai = truncated(hess(x0), lo, hi)
        out['x {} {}'.format(lo, hi)] = (
            lambda p, lo=lo, hi=hi: p.set_preconditioner_with_hessian(
                x=x0, ev_min=lo, ev_max=hi), a, ai)
    a, ai = truncated(hess(np.zeros(dim)), None, None)
    out['x zero'] = (
        lambda p: p.set_preconditioner_with_hessian(x=np.zeros(dim)), a, ai)
    # The caller's own arrays, overwritten between calls: each call must use
    # what they hold at that time, and what they hold later is of no concern.
    def refill(p, what, value):
        bufs = p.__dict__.setdefault('_mc_buffers', {})
        if what not in bufs:
            bufs[what] = value.copy()
        elif scipy.sparse.issparse(value):
            bufs[what].data[...] = value.data
        else:
            bufs[what][...] = value
        return bufs[what]

    def using(method, **values):
        def call(p):
            getattr(p, method)(**{
                k: refill(p, k + str(type(v)), v) if hasattr(v, 'shape')
                else v for k, v in values.items()})
            for buf in p._mc_buffers.values():
                scribble(buf)
        return call
    for k in (0, 1):
        am = mat(dim, 5 + k)
        out['reused matrix {}'.format(k)] = (
            using('set_preconditioner_matrix', a=am), am, inv(am))
        out['reused matrix and inverse {}'.format(k)] = (
            using('set_preconditioner_matrix', a=am, a_inv=inv(am)), am,
            inv(am))
        hm = am @ am.T + 0.5 * np.eye(dim)
        a, ai = truncated(hm, None, None)
        out['reused hessian {}'.format(k)] = (
            using('set_preconditioner_with_hessian', hessian=hm), a, ai)
        xk = x0 + 0.4 * k
        a, ai = truncated(hess(xk), 0.3, None)
        out['reused x {}'.format(k)] = (
            using('set_preconditioner_with_hessian', x=xk, ev_min=0.3), a, ai)
        sm = scipy.sparse.csc_matrix(am)
        out['reused sparse {}'.format(k)] = (
            using('set_preconditioner_matrix', a=sm), am, inv(am))
    return out


def scribble(m):
    """Overwrite an array or the entries of a sparse matrix."""
    if isinstance(m, np.ndarray):
        if m.dtype == object:
            for i in range(m.size):
                m.flat[i][:] = [7] * len(m.flat[i])
        else:
            m[...] = 7
    elif m is not None:
        scribble(m.data)


def refusals(dim):
    h = hessians(dim)['positive']
    x = np.ones(dim)
    out = {
        'both': (ValueError, lambda p: p.set_preconditioner_with_hessian(
            x=x, hessian=h)),
        'neither': (ValueError, lambda p: p.set_preconditioner_with_hessian()),
        'neither with limits': (
            ValueError, lambda p: p.set_preconditioner_with_hessian(
                ev_min=1.0, ev_max=2.0)),
        'sparse hessian': (
            NotImplementedError, lambda p: p.set_preconditioner_with_hessian(
                hessian=scipy.sparse.csc_matrix(h))),
    }
    return out


class Model:
    def __init__(self, dim, keys):
        self.dim = dim
        self.keys = keys
        self.now = ['identity', 'identity']


def probe(ctx, p, f, grad, hess, dim, a, ai, deep, mixed=False):
    import autograd
    pts = [np.eye(dim)[i] for i in range(dim)] + [
        np.array([0.3, -1.2, 0.8, 0.5])[:dim], np.zeros(dim)]
    tol = 1e-9
    for x in pts:
        before = x.copy()
        ctx.expect(near(p.unprecondition(x), a @ x, tol),
                   'unprecondition({}) is {}, not {}', x,
                   p.unprecondition(x), a @ x)
        ctx.expect(near(p.precondition(x), ai @ x, tol),
                   'precondition({}) is {}, not {}', x, p.precondition(x),
                   ai @ x)
        ctx.expect(near(p(x), f(a @ x), tol), 'the value at {} is {}, not {}',
                   x, p(x), f(a @ x))
        ctx.expect(np.array_equal(x, before), 'the argument changed')
        ctx.op(3)
        err = np.linalg.norm(x - a @ (ai @ x))
        for t in (1e-8, 0.9 * err, 1.1 * err):
            if t <= 1e-9:
                continue
            call = (lambda t=t, x=x: p.check_preconditioner(x, t)) \
                if t != 1e-8 else lambda x=x: p.check_preconditioner(x)
            if err > t:
                ctx.raises(ValueError, call, 'check_preconditioner')
            else:
                ctx.expect(call() is None, 'check_preconditioner')
            ctx.op()
    ctx.expect(near(p.get_preconditioner(dim), a, tol),
               'get_preconditioner is {}, not {}', p.get_preconditioner(dim),
               a)
    ctx.expect(near(p.get_preconditioner_inv(dim), ai, tol),
               'get_preconditioner_inv is {}, not {}',
               p.get_preconditioner_inv(dim), ai)
    ctx.op(2)
    if not deep:
        return
    x = pts[-2]
    g = a.T @ grad(a @ x)
    h = a.T @ hess(a @ x) @ a
    ctx.expect(near(autograd.grad(p)(x), g, tol), 'the gradient is {}, not '
               '{}', autograd.grad(p)(x), g)
    ctx.expect(near(autograd.hessian(p)(x), h, tol), 'the Hessian is {}, not '
               '{}', autograd.hessian(p)(x), h)
    v = pts[0]
    val, dv = autograd.make_jvp(p)(x)(v)
    ctx.expect(near(val, f(a @ x), tol) and near(dv, g @ v, tol),
               'forward mode gives {}, {}', val, dv)
    for name, want in (('unprecondition', a), ('precondition', ai)):
        if name == 'precondition' and mixed:
            continue
        jac = autograd.jacobian(getattr(p, name))(x)
        ctx.expect(near(jac, want, tol), 'the Jacobian of {} is {}, not {}',
                   name, jac, want)
    hv = autograd.make_jvp(autograd.grad(p))(x)(v)[1]
    ctx.expect(near(hv, h @ v, tol), 'the forward over reverse product is '
               '{}, not {}', hv, h @ v)
    ctx.op(4)


def tolerances(ctx, dim):
    """The consistency check raises exactly when the error is larger than the
    tolerance: errors that are powers of two are computed without rounding."""
    import paragami
    for k in ctx.each('error', [None, 0, 4, 20, 26, 27, 30, 40, 52, -3]):
        e = 0.0 if k is None else 2.0 ** -k
        for i in range(dim):
            x = np.zeros(dim)
            x[i] = 1.0
            p = paragami.PreconditionedFunction(lambda v: np.sum(v ** 2))
            p.set_preconditioner_functions(lambda v: v + v * e, lambda v: v)
            for tol in ctx.each('tolerance', [
                    None, 0, 0.0, e, e / 2, 2 * e, -1.0, 1e-8, 1e-16, 1, 10.0,
                    float('inf'), np.float64(e), np.float32(e / 2)]):
                with ctx.case('tolerance'):
                    ctx.state('tolerance', dim, k, i, tol)
                    calls = [lambda: p.check_preconditioner(x)] \
                        if tol is None else [
                            lambda: p.check_preconditioner(x, tol),
                            lambda: p.check_preconditioner(x, tol=tol)]
                    for call in calls:
                        if e > (1e-8 if tol is None else tol):
                            ctx.raises(ValueError, call, 'an error of {} '
                                       'with tolerance {}'.format(e, tol))
                        else:
                            ctx.expect(call() is None,
                                       'check_preconditioner')


def machine(ctx, dim, keys, depth, dedup):
    import paragami
    f, grad, hess = objective(dim)
    sets, bad = setters(dim, ctx.thorough), refusals(dim)

    def make():
        return ([paragami.PreconditionedFunction(f) for _ in range(2)],
                Model(dim, keys))

    def ops(model):
        return [(i, k) for i in (0, 1) for k in keys]

    def step(real, model, op, c):
        i, k = op
        if real is None:
            if k in sets:
                model.now[i] = k
            return
        if k in sets:
            sets[k][0](real[i])
            model.now[i] = k
        elif k in bad:
            c.raises(bad[k][0], lambda: bad[k][1](real[i]), k)
        else:
            real[i](np.ones(dim))
        if c.hist_pos < c.hist_len:
            return
        for j in (0, 1):
            _, a, ai = sets[model.now[j]]
            probe(c, real[j], f, grad, hess, dim, a, ai,
                  c.hist_len == 1 or j == i,
                  model.now[j] == 'dense and sparse inverse')

    engine.histories(ctx, 'dim{} {}'.format(dim, len(keys)), make, ops, step,
                     depth, lambda m: tuple(m.now), dedup)


def arguments(ctx):
    """Matrices in any form are used and left as they are, down to the order
    in which their entries are stored."""
    import paragami
    forms = ['dense', 'F', 'integers'] + [
        k + ' ' + h for k in ('csc', 'csr')
        for h in ('descending', 'repeated', 'zeros')] + ['coo', 'lil', 'bsr']

    def make(m, form):
        if form == 'dense':
            return m.copy()
        if form == 'F':
            return np.array(m, order='F')
        if form == 'integers':
            return m.astype(int)
        if ' ' in form:
            return messy(m, *form.split())
        return scipy.sparse.csr_matrix(m).asformat(form)
    for dim, form, other in ctx.shard('arguments', itertools.product(
            (1, 2, 3), forms, [None] + forms)):
        # Both the matrix and its inverse are of integers.
        m = np.eye(dim) + np.triu(np.ones((dim, dim)), 1)
        inv = np.rint(np.linalg.inv(m))
        with ctx.case('arguments'):
            ctx.state('arguments', dim, form, other)
            a = make(m, form)
            ai = None if other is None else make(inv, other)
            keep = raw(a), raw(ai)
            p = paragami.PreconditionedFunction(lambda v: np.sum(v ** 2))
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                p.set_preconditioner_matrix(a, ai)
            ctx.op(3)
            ctx.expect(near(p.get_preconditioner(dim), m, 1e-12) and near(
                p.get_preconditioner_inv(dim), inv, 1e-12), 'the '
                'preconditioner is {}', p.get_preconditioner(dim))
            ctx.expect((raw(a), raw(ai)) == keep, 'an argument changed')
            # The caller's matrices are the caller's to overwrite.
            scribble(a)
            scribble(ai)
            ctx.op(2)
            ctx.expect(near(p.get_preconditioner(dim), m, 1e-12) and near(
                p.get_preconditioner_inv(dim), inv, 1e-12), 'the '
                'preconditioner became {} when the matrices given were '
                'overwritten', p.get_preconditioner(dim))


def changing(ctx):
    """A function of something that its caller changes: the Hessian, the
    value and the derivatives are those of the moment of the call."""
    import autograd
    import autograd.numpy as anp
    import paragami
    weight = [1.0]
    xs = [np.array([0.5, -0.25]), np.array([0.5, 0.75])]

    def f(x):
        return weight[0] * (anp.sum(x ** 4) + x[0] * x[1] + 2 * anp.dot(x, x))

    def grad(x):
        return weight[0] * (4 * x ** 3 + x[::-1] + 4 * x)

    def hess(x):
        return weight[0] * (np.diag(12 * x ** 2 + 4) + np.eye(2)[::-1])
    ops = [(w, i, j) for w in (1.0, 4.0, 0.5) for i in (0, 1)
           for j in ('x', 'hessian')]
    for seq in ctx.shard('changing', list(itertools.product(ops, repeat=(
            3 if ctx.thorough else 2)))):
        with ctx.case('the function changes'):
            ctx.state('changing', seq)
            p = paragami.PreconditionedFunction(f)
            for w, i, how in seq:
                weight[0] = w
                want = truncated(hess(xs[i]), None, None)[0]
                if how == 'x':
                    p.set_preconditioner_with_hessian(x=xs[i])
                else:
                    p.set_preconditioner_with_hessian(hessian=hess(xs[i]))
                got = p.get_preconditioner(2)
                ctx.op(2)
                ctx.expect(near(got, want, 1e-9), 'the preconditioner is {}, '
                           'not {}', got, want)
                for w2 in (w, 3.0):
                    weight[0] = w2
                    y = np.array([0.2, 0.7])
                    ctx.expect(near(p(y), f(want @ y), 1e-9), 'the value is '
                               '{}', p(y))
                    ctx.expect(near(autograd.grad(p)(y), want.T @ grad(
                        want @ y), 1e-9), 'the gradient')
                    ctx.op(2)


def run(ctx):
    arguments(ctx)
    changing(ctx)
    for dim in ctx.shard('tolerances', (1, 2, 3)):
        tolerances(ctx, dim)
    for dim in ((1, 2, 3, 4) if ctx.thorough else (1, 2, 3)):
        sets, bad = setters(dim, ctx.thorough), refusals(dim)
        keys = sorted(sets) + sorted(bad) + ['call']
        machine(ctx, dim, keys, 2 if dim == 2 or ctx.thorough else 1, 2)
    few = ['identity', 'matrix a_inv=', 'functions', 'sparse csc',
           'hessian indefinite 0.6 3.0', 'x 0.3 None', 'both', 'call',
           'reused matrix 0', 'reused matrix 1', 'reused hessian 0',
           'reused hessian 1']
    if ctx.thorough:
        few += ['reused sparse 0', 'reused sparse 1']
    machine(ctx, 2, few, 4 if ctx.thorough else 3,
            3)
