"""C13: automatic differentiation through patterns and wrappers."""
import itertools

import numpy as np

from mc import jet as J
from mc import spec as S
from mc.util import directional, fd_jacobian, near

BOUNDS = {
    'inputs': 'every core pattern (numeric, simplex, PSD, arrays and nested '
              'dictionaries of them), free and not, 2 (thorough: 6) values '
              'each; gradients, Hessians, forward-mode products and '
              'Hessian-vector products (reverse over reverse, forward over '
              'reverse, reverse over forward) along every coordinate',
    'outputs': 'every ordered pair of a small set of patterns as input and '
               'output pattern, all free flags',
    'two arguments': 'every ordered pair of a small set of patterns, both '
                     'diagonal and mixed second derivatives',
}
ASSUMPTIONS = [
    'derivatives are compared with sixth-order central differences (relative '
    'tolerance 2e-6 for first, 2e-5 for second derivatives)',
    'forward mode through the free flattening of a PSD matrix is not claimed '
    '(autograd has no forward rule for the Cholesky decomposition)',
]
T1, T2 = 2e-6, 2e-5


def weights(n, k=0):
    return np.array([S.frac(3 * i + 1, k) * 2 - 1 for i in range(n)])


def objective(spec, k=0):
    """A smooth scalar function of a folded value that treats every entry
    differently, and the same as a function of the reference flat vector."""
    import autograd.numpy as anp
    n = S.length(spec, False)
    w, u = weights(n, k), weights(n, k + 1)

    def of_flat(v):
        return anp.sum(w * anp.sin(v)) + 0.3 * anp.sum(u * v) ** 2 + \
            anp.exp(0.2 * anp.sum(w * v) / n)

    def parts(s, val):
        if type(s) is S.Dct:
            out = []
            for key, sub in s.items:
                out += parts(sub, val[key])
            return out
        return [anp.reshape(val, (S.prod(S.shape(s)),))]

    def of_value(val):
        p = parts(spec, val)
        return of_flat(anp.concatenate(p) if len(p) > 1 else p[0])
    return of_value, of_flat


def values(spec, free, nv):
    real = S.build(spec)
    for variant in range(nv):
        if free:
            yield S.free_vec(spec, variant, 1.2)
        else:
            yield np.array([float(x) for x in
                            S.flatten(spec, S.interior(spec, variant))])


def plain(spec, free, of_value, of_flat):
    """The reference function of the flat vector, without the wrapper."""
    if free:
        real = S.build(spec)
        return lambda x: of_flat(np.array(
            S.flatten(spec, real.fold(x, free=True)), dtype=float))
    return of_flat


def inputs(ctx, spec, free):
    import autograd
    import paragami
    of_value, of_flat = objective(spec)
    real = S.build(spec)
    f = paragami.FlattenFunctionInput(of_value, real, free)
    ref = plain(spec, free, of_value, of_flat)
    n = S.length(spec, free)
    grad, hess = autograd.grad(f), autograd.hessian(f)
    lgrad = autograd.grad(paragami.FlattenFunctionInput(
        of_value, S.build(unvalidated(spec)), free))
    jvp = autograd.make_jvp(f)
    hvp = autograd.hessian_vector_product(f)
    fwd_rev = autograd.make_jvp(grad)

    def rev_fwd(x, v):
        return autograd.grad(lambda y: jvp(y)(v)[1])(x)
    vals = list(values(spec, free, 6 if ctx.thorough else 2))
    for k in ctx.each('value', range(len(vals))):
        x = vals[k]
        with ctx.case('derivatives'):
            ctx.state(S.name(spec), free, x)
            ctx.expect(near(f(x), ref(x), 1e-10), 'f = {} not {}', f(x),
                       ref(x))
            g = grad(x)
            ctx.op(3)
            want = fd_jacobian(ref, x)[0]
            ctx.expect(near(g, want, T1), 'the gradient is {}, finite '
                       'differences give {}', g, want)
            h = hess(x)
            hwant = fd_jacobian(lgrad, x)
            ctx.expect(near(h, hwant, T2), 'the Hessian is {}, finite '
                       'differences give {}', h, hwant)
            ctx.expect(near(h, h.T, 1e-8), 'the Hessian {} is not symmetric',
                       h)
            if k and not ctx.thorough:
                continue
            for i in range(n + 1):
                v = np.zeros(n)
                if i < n:
                    v[i] = 1.0
                else:
                    v = weights(n, 3)
                val, dv = jvp(x)(v)
                ctx.op(4)
                ctx.expect(near(val, f(x), 1e-10) and near(dv, g @ v, 1e-8),
                           'forward mode along {} gives {}, reverse {}', v,
                           dv, g @ v)
                for how, fn in (('reverse over reverse', hvp),
                                ('forward over reverse',
                                 lambda a, b: fwd_rev(a)(b)[1]),
                                ('reverse over forward', rev_fwd)):
                    got = fn(x, v)
                    ctx.expect(near(got, h @ v, 1e-7), 'the {} Hessian '
                               'product along {} is {}, not {}', how, v, got,
                               h @ v)
    if not free:
        return
    with ctx.case('chain rule'):
        x = vals[0]
        flat = real.flatten(real.fold(x, free=True), free=False)
        jac = fd_jacobian(lambda y: np.array(
            S.flatten(spec, real.fold(y, free=True)), dtype=float), x)
        gflat = autograd.grad(
            paragami.FlattenFunctionInput(of_value, real, False))(flat)
        ctx.op(3)
        ctx.expect(near(grad(x), jac.T @ gflat, T1), 'the free gradient is '
                   '{}, the chain rule gives {}', grad(x), jac.T @ gflat)
        rt = autograd.jacobian(
            lambda y: real.flatten(real.fold(y, free=True), free=True))(x)
        ctx.expect(near(rt, np.eye(n), 1e-7), 'the Jacobian of folding and '
                   'flattening is {}', rt)
        h = autograd.hessian(lambda y: np_sum(real.flatten(
            real.fold(y, free=True), free=True)))(x)
        ctx.expect(near(h, np.zeros((n, n)), 1e-7), 'the second derivative '
                   'of folding and flattening is {}', h)


def np_sum(v):
    import autograd.numpy as anp
    return anp.sum(weights(len(v)) * v)


def tangents(spec):
    """Directions along which values of an array pattern may move."""
    out = []
    for comp in S.components(spec):
        n, s = comp.flatn, comp.spec
        if type(s) is S.Num:
            ds = [np.ones(1)]
        elif type(s) is S.Spx:
            ds = [np.eye(n)[i] - np.eye(n)[(i + 1) % n] for i in range(n)]
        else:
            ds = []
            for i in range(s.n):
                for j in range(i + 1):
                    m = np.zeros((s.n, s.n))
                    m[i, j] = m[j, i] = 1.0
                    ds.append(m.flatten())
        for d in ds:
            v = np.zeros(S.length(spec, False))
            v[comp.flat0:comp.flat0 + n] = d
            out.append(v)
    return out


def unvalidated(spec):
    if type(spec) is S.Dct:
        return spec._replace(items=tuple(
            (k, unvalidated(v)) for k, v in spec.items))
    if type(spec) is S.Arr:
        return spec._replace(base=unvalidated(spec.base))
    return spec._replace(dv=False)


def folded_inputs(ctx, spec, free):
    """FoldFunctionInput: derivatives with respect to a folded array."""
    import autograd
    import autograd.numpy as anp
    import paragami
    n = S.length(spec, free)
    w = weights(n, 2)

    def g(x):
        return anp.sum(w * anp.sin(x)) + 0.2 * anp.sum(w * x) ** 2
    f = paragami.FoldFunctionInput(g, S.build(spec), free)
    loose = S.build(unvalidated(spec))
    fl = paragami.FoldFunctionInput(g, loose, free)
    for k in ctx.each('value', range(4 if ctx.thorough else 2)):
        with ctx.case('gradient in the folded value'):
            v = S.interior(spec, k)
            ctx.state('folded', S.name(spec), free, k)
            gr = autograd.grad(f)(v)
            ctx.op()
            ctx.expect(np.shape(gr) == np.shape(v), 'shape {}', np.shape(gr))
            for d in tangents(spec):
                dd = d.reshape(np.shape(v))
                want = directional(fl, v, dd, 1e-4)
                ctx.expect(near(np.sum(gr * dd), want, T1), 'the derivative '
                           'along {} is {}, not {}', dd, np.sum(gr * dd),
                           want)
                hv = autograd.grad(
                    lambda y: anp.sum(autograd.grad(f)(y) * dd))(v)
                ctx.op(2)
                want = directional(
                    lambda y: np.sum(autograd.grad(fl)(y) * dd), v, dd, 1e-4)
                ctx.expect(near(np.sum(hv * dd), want, T2), 'the second '
                           'derivative along {} is {}, not {}', dd,
                           np.sum(hv * dd), want)


SMALL = [S.Num((2,), 0.0, S.INF), S.Num((1, 2), -1.0, 2.0), S.Spx(3, (2,)),
         S.Psd(2, 0.5), S.Arr((2,), S.Spx(2, (1,))),
         S.D(('b', S.Psd(2)), ('a', S.Sca(S.INF * -1, 1.0)))]


def outputs(ctx, pin, pout, fin, fout):
    """x -> flatten(h(fold(x))), where h is linear in flat coordinates."""
    import autograd
    import autograd.numpy as anp
    import paragami
    nf_in, nfree_out = S.length(pin, False), S.length(pout, True)
    m = np.array([[0.8 * S.frac(i * 7 + j, 1) - 0.4 for j in range(nf_in)]
                  for i in range(nfree_out)])
    rin, rout = S.build(pin), S.build(pout)

    def h(v):
        return rout.fold(m @ rin.flatten(v, free=False), free=True)
    f = paragami.FlattenFunctionInputAndOutput(h, rin, fin, 0, rout, fout)
    flat_out = paragami.FlattenFunctionOutput(
        paragami.FlattenFunctionInput(h, rin, fin), rout, fout)
    with ctx.case('jacobian of a wrapped function'):
        ctx.state('out', S.name(pin), S.name(pout), fin, fout)
        x = list(values(pin, fin, 1))[0]

        def ref(y):
            v = rin.fold(y, free=True) if fin else S.fold(pin, y)
            z = m @ np.array(S.flatten(pin, v), dtype=float)
            if fout:
                return z
            return np.array(S.flatten(pout, rout.fold(z, free=True)),
                            dtype=float)
        want = fd_jacobian(ref, x)
        for fn in (f, flat_out):
            got = autograd.jacobian(fn)(x)
            ctx.op()
            ctx.expect(near(got, want, T1), 'the Jacobian is {}, finite '
                       'differences give {}', got, want)
        if type(pout) is not S.Dct:
            fold_out = paragami.FoldFunctionOutput(
                lambda y: m @ rin.flatten(rin.fold(y, free=fin), free=False),
                rout, True)
            got = autograd.jacobian(fold_out)(x)
            loose = S.build(unvalidated(pin))
            w2 = fd_jacobian(lambda y: np.asarray(rout.fold(m @ loose.flatten(
                loose.fold(y, free=fin), free=False), free=True)).flatten(), x)
            ctx.op()
            ctx.expect(near(got, w2.reshape(S.shape(pout) + (len(x),)), T1),
                       'the Jacobian of the folded output is {}', got)


def two_arguments(ctx, p1, p2, f1, f2, order):
    import autograd
    import autograd.numpy as anp
    import paragami
    joint = S.D(('1', p1), ('2', p2))
    of_value, of_flat = objective(joint)

    def fun(a, scale, b, offset=0.0):
        return scale * of_value({'1': a, '2': b}) + offset
    nums = [0, 2] if order else [2, 0]
    pats = [S.build(p1), S.build(p2)]
    if not order:
        pats = pats[::-1]
    frees = [f1, f2] if order else [f2, f1]
    f = paragami.FlattenFunctionInput(fun, pats, frees, nums)
    with ctx.case('two arguments'):
        ctx.state('two', S.name(p1), S.name(p2), f1, f2, order)
        x1 = list(values(p1, f1, 1))[0]
        x2 = list(values(p2, f2, 2))[1]
        n1 = len(x1)

        def flat(spec, x, free):
            v = S.build(spec).fold(x, free=True) if free else S.fold(spec, x)
            return np.array(S.flatten(spec, v), dtype=float)

        def ref(z):
            return 1.7 * of_flat(np.concatenate(
                [flat(p1, z[:n1], f1), flat(p2, z[n1:], f2)])) + 0.5
        z = np.concatenate([x1, x2])
        g = fd_jacobian(ref, z)[0]
        g1 = autograd.grad(f, 0)
        g2 = autograd.grad(f, 2)
        ctx.expect(near(g1(x1, 1.7, x2, offset=0.5), g[:n1], T1),
                   'the gradient in argument 0 is {}, not {}',
                   g1(x1, 1.7, x2), g[:n1])
        ctx.expect(near(g2(x1, 1.7, x2), g[n1:], T1),
                   'the gradient in argument 2 is {}, not {}',
                   g2(x1, 1.7, x2), g[n1:])
        gs = autograd.grad(f, 1)(x1, 1.7, x2)
        ctx.expect(near(gs, (ref(z) - 0.5) / 1.7, T1), 'the derivative in '
                   'argument 1 is {}', gs)
        cross = autograd.jacobian(g1, 2)(x1, 1.7, x2)
        loose = [S.build(unvalidated(p1)), S.build(unvalidated(p2))]
        l1 = autograd.grad(paragami.FlattenFunctionInput(
            fun, loose, [f1, f2], [0, 2]), 0)
        want = fd_jacobian(lambda y: l1(x1, 1.7, y), x2)
        ctx.op(4)
        ctx.expect(near(cross, want, T2), 'the mixed second derivative is '
                   '{}, not {}', cross, want)


def logdets(ctx, spec):
    import autograd
    real = S.build(spec)
    with ctx.case('log determinants'):
        ctx.state('logdet', S.name(spec))
        for k in range(4 if ctx.thorough else 2):
            v = S.interior(spec, k)
            x = real.flatten(v, free=True)

            def un(y):
                return real.log_abs_det_unfreeing_jacobian(
                    real.fold(y, free=True))

            def fr(y):
                return real.log_abs_det_freeing_jacobian(
                    real.fold(y, free=True))
            for fn in (un, fr):
                got = autograd.grad(fn)(x)
                want = fd_jacobian(fn, x)[0]
                ctx.op()
                ctx.expect(near(got, want, T1), 'the gradient of the log '
                           'determinant is {}, not {}', got, want)
                got = autograd.make_jvp(fn)(x)(weights(len(x)))[1]
                ctx.expect(near(got, want @ weights(len(x)), T1), 'the '
                           'derivative of the log determinant is {}', got)


GRID = [0.0, 1.0, -1.0, 5.0, -5.0, 12.0, -12.0]
FAR = [30.0, -30.0, 300.0, -300.0, 800.0, -800.0]


def exact_points(spec, thorough):
    """Free vectors: every pair of coordinates on the grid, the others zero
    or spread out."""
    n = S.length(spec, True)
    kinds = {type(c.spec) for c in S.components(spec)}
    grid = list(GRID)
    if S.Psd in kinds:
        grid = [0.0, 1.0, -1.0, 3.0, -3.0]
    yield np.zeros(n)
    for g in grid[1:]:
        yield np.full(n, g)
    base = S.free_vec(spec, 0, 1.3)
    for i in range(n):
        for g in grid:
            for rest in (np.zeros(n), base):
                x = rest.copy()
                x[i] = g
                yield x
    if thorough or n <= 4:
        for i, j in itertools.combinations(range(n), 2):
            for a, b in itertools.product(grid, repeat=2):
                x = base.copy()
                x[i], x[j] = a, b
                yield x


def exact(ctx, spec):
    """Folding and its derivatives against exact ones, far from the origin
    as well, in every mode and to second order."""
    import autograd
    import autograd.numpy as anp
    import paragami
    real = S.build(spec)
    n, m = S.length(spec, True), S.length(spec, False)

    def parts(s, val):
        if type(s) is S.Dct:
            return [p for key, sub in s.items for p in parts(sub, val[key])]
        return [anp.reshape(val, (S.prod(S.shape(s)),))]

    def f(x):
        return anp.concatenate(parts(spec, real.fold(x, free=True)))
    wrapped = paragami.FlattenFunctionInput(
        lambda v: anp.concatenate(parts(spec, v)), real, True)
    jac = autograd.jacobian(f)
    jac2 = autograd.jacobian(wrapped)
    hess = autograd.jacobian(jac)
    size = np.array([abs(b) if abs(b) < S.INF else 0.0 for c in
                     S.components(spec) for b in bounds(c.spec)] + [1.0])
    for x in ctx.each('point', list(exact_points(spec, ctx.thorough)),
                      ):
        with ctx.case('exact derivatives'):
            ctx.state('exact', S.name(spec), x)
            want = J.fold_free(spec, x)
            val = f(x)
            w0 = np.array([j.v for j in want])
            if not near_entry(val, w0, 1e-9, size.max()):
                # Another parameterisation: finite differences have to do.
                ctx.outcome('other parameterisation')
                continue
            w1 = np.array([j.g for j in want])
            w2 = np.array([j.h for j in want])
            top = max(1.0, np.max(np.abs(w0)))
            for jf in (jac, jac2):
                got = jf(x)
                ctx.op()
                ctx.expect(near_entry(got, w1, 1e-9, top), 'the Jacobian of '
                           'folding at {} is {}, not {}', x, got, w1)
            got = hess(x)
            ctx.expect(near_entry(got, w2, 1e-8, top), 'the second '
                       'derivative of folding at {} is {}, not {}', x, got,
                       w2)
            for i in range(n):
                e = np.eye(n)[i]
                got = autograd.make_jvp(f)(x)(e)[1]
                ctx.expect(near_entry(got, w1[:, i], 1e-9, top,
                                      rows(w1)), 'the '
                           'forward derivative of folding along {} at {} is '
                           '{}, not {}', i, x, got, w1[:, i])
                got = autograd.make_jvp(jac)(x)(e)[1]
                ctx.expect(near_entry(got, w2[:, :, i], 1e-8, top,
                                      rows(w2)), 'the '
                           'forward derivative of the Jacobian of folding '
                           'along {} at {} is {}, not {}', i, x, got,
                           w2[:, :, i])
                ctx.op(2)


def bounds(s):
    return (s.lb, s.ub) if type(s) is S.Num else \
        (s.lb,) if type(s) is S.Psd else (1.0,)


def rows(b):
    """The largest entry in the derivative of each output."""
    b = np.abs(np.asarray(b, dtype=float))
    if b.ndim < 2 or not b.size:
        return b
    return np.max(b, axis=tuple(range(1, b.ndim)))


def near_entry(a, b, tol, top, row=None):
    """Every entry to a relative accuracy, beyond rounding of the largest
    in the derivative of the same output."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    row = rows(b) if row is None else row
    row = np.reshape(row, row.shape + (1,) * (b.ndim - row.ndim))
    return bool(np.all(np.abs(a - b) <= tol * np.abs(b) + 1e-13 * top +
                       2e-15 * row))


def exact_flatten(ctx, spec):
    """Freeing and its derivatives, near the constraint boundary as well."""
    import autograd
    import autograd.numpy as anp
    loose = S.build(unvalidated(spec))
    n = S.length(spec, False)
    shape = S.shape(spec)

    def f(v):
        return loose.flatten(anp.reshape(v, shape), free=True)
    jac = autograd.jacobian(f)
    hess = autograd.jacobian(jac)
    for v in ctx.each('point', list(edge_values(spec))):
        with ctx.case('exact derivatives of freeing'):
            ctx.state('exact freeing', S.name(spec), v)
            want = J.flatten_free(spec, v)
            if not near_entry(f(v), [j.v for j in want], 1e-9, 1.0):
                ctx.outcome('other parameterisation')
                continue
            w1 = np.array([j.g for j in want])
            w2 = np.array([j.h for j in want])
            got = jac(v)
            ctx.expect(near_entry(got, w1, 1e-9, 1.0), 'the Jacobian of '
                       'freeing {} is {}, not {}', v, got, w1)
            got = hess(v)
            ctx.expect(near_entry(got, w2, 1e-9, 1.0), 'the second '
                       'derivative of freeing {} is {}, not {}', v, got, w2)
            for i in range(n):
                e = np.eye(n)[i]
                got = autograd.make_jvp(f)(v)(e)[1]
                ctx.expect(near_entry(got, w1[:, i], 1e-9, 1.0,
                                      rows(w1)), 'the '
                           'forward derivative of freeing {} along {} is {},'
                           ' not {}', v, i, got, w1[:, i])
                got = autograd.make_jvp(jac)(v)(e)[1]
                ctx.expect(near_entry(got, w2[:, :, i], 1e-9, 1.0,
                                      rows(w2)), 'the '
                           'forward derivative of the Jacobian of freeing {} '
                           'along {} is {}, not {}', v, i, got, w2[:, :, i])
                ctx.op(2)


EDGES = [1e-6, 1e-3, 0.04, 0.5, 1.0, 3.0, 40.0, 1e3]


def edge_values(spec):
    """Flat values at many distances from the boundary."""
    comps = S.components(spec)

    def at(c, k):
        s = c.spec
        if type(s) is S.Spx:
            w = [1.0] * s.k
            w[k % s.k] = EDGES[k % len(EDGES)]
            return S.simplex_exact(w)
        d = EDGES[k % len(EDGES)]
        if s.lb > -S.INF and s.ub < S.INF:
            d = min(d / 2, 0.5) * (s.ub - s.lb)
            return [s.lb + d if k % 3 else s.ub - d]
        return [s.lb + d if s.lb > -S.INF else s.ub - d if s.ub < S.INF
                else d * (-1) ** k]
    for first in range(3 * len(EDGES)):
        for step in (0, 1, 5):
            v = []
            for i, c in enumerate(comps):
                v += list(at(c, first + i * step))
            yield np.array([float(t) for t in v])


def exact_logdets(ctx, spec):
    """Log determinants of numeric patterns as functions of the value."""
    import autograd
    import autograd.numpy as anp
    real = S.build(spec)
    shape = S.shape(spec)
    n = S.length(spec, False)
    for v in ctx.each('point', list(edge_values(spec))):
        with ctx.case('exact derivatives of log determinants'):
            ctx.state('exact logdet', S.name(spec), v)
            j = J.logdet_unfreeing(spec, v)
            for sign, fn in (
                    (1.0, real.log_abs_det_unfreeing_jacobian),
                    (-1.0, real.log_abs_det_freeing_jacobian)):
                def f(y):
                    return fn(anp.reshape(y, shape))
                ctx.op(4)
                ctx.expect(near_entry(f(v), sign * j.v, 1e-9, 1.0), 'the log '
                           'determinant at {} is {}, not {}', v, f(v),
                           sign * j.v)
                g, h = autograd.grad(f)(v), autograd.hessian(f)(v)
                ctx.expect(near_entry(g, sign * j.g, 1e-8, 1.0), 'the '
                           'gradient of the log determinant at {} is {}, not '
                           '{}', v, g, sign * j.g)
                ctx.expect(near_entry(h, sign * j.h, 1e-7, 1.0), 'the '
                           'Hessian of the log determinant at {} is {}, not '
                           '{}', v, h, sign * j.h)
                for i in range(n):
                    got = autograd.make_jvp(f)(v)(np.eye(n)[i])[1]
                    ctx.expect(near_entry(got, sign * j.g[i], 1e-8, 1.0),
                               'the forward derivative of the log '
                               'determinant at {} along {} is {}, not {}',
                               v, i, got, sign * j.g[i])


def far_points(ctx, spec):
    """Bounded parameters stay differentiable however large the free
    coordinates are."""
    import autograd
    import autograd.numpy as anp
    real = S.build(spec)
    n = S.length(spec, True)

    def f(x):
        return anp.reshape(real.fold(x, free=True), (-1,))
    for x in ctx.each('point', list(itertools.product(FAR, repeat=n))
                      if n <= 2 else [np.full(n, t) for t in FAR] + [
                          np.array([FAR[(i + j) % 6] for i in range(n)])
                          for j in range(6)]):
        with ctx.case('derivatives far out'):
            x = np.array(x)
            ctx.state('far', S.name(spec), x)
            want = J.fold_free(spec, x)
            if not near_entry(f(x), [j.v for j in want], 1e-9, 10.0):
                ctx.outcome('other parameterisation')
                continue
            w1 = np.array([j.g for j in want])
            w2 = np.array([j.h for j in want])
            got = autograd.jacobian(f)(x)
            ctx.expect(near_entry(got, w1, 1e-9, 10.0), 'the Jacobian of '
                       'folding at {} is {}, not {}', x, got, w1)
            got = autograd.jacobian(autograd.jacobian(f))(x)
            ctx.expect(near_entry(got, w2, 1e-8, 10.0), 'the second '
                       'derivative of folding at {} is {}, not {}', x, got,
                       w2)
            for i in range(n):
                got = autograd.make_jvp(f)(x)(np.eye(n)[i])[1]
                ctx.expect(near_entry(got, w1[:, i], 1e-9, 10.0), 'the '
                           'forward derivative of folding along {} at {} is '
                           '{}, not {}', i, x, got, w1[:, i])
            ctx.op(3)


EXACT = [S.Vec(2), S.Vec(2, lb=-1.0), S.Vec(2, ub=0.5), S.Vec(2, -1.0, 2.0),
         S.Sca(0.0, 1.0), S.Sca(0.0), S.Num((2, 2), -0.5, 0.75),
         S.Spx(2, (2,)), S.Spx(3, (1,)), S.Spx(4, (1,)), S.Spx(3, ()),
         S.Spx(2, (2, 1)), S.Psd(1), S.Psd(2), S.Psd(2, 0.5), S.Psd(3),
         S.Arr((2,), S.Spx(2, (1,))), S.Arr((2,), S.Vec(2, -1.0, 1.0)),
         S.Arr((2, 1), S.Psd(2)), S.Arr((2,), S.Psd(1, 1.0)),
         S.D(('b', S.Sca(0.0, 1.0)), ('a', S.Spx(3, (1,))),
             ('c', S.Psd(2))),
         S.D(('x', S.D(('y', S.Sca(lb=2.0)))), ('a', S.Arr((2,), S.Sca())))]
SMOOTH = [s for s in EXACT if type(s) in (S.Num, S.Spx)] + [
    S.Arr((2,), S.Spx(2, (1,))), S.Arr((2,), S.Vec(2, -1.0, 1.0)),
    S.Vec(3, -1e-3, 1e-3), S.Vec(2, lb=100.0), S.Vec(2, ub=-7.0)]


def run(ctx):
    specs = S_core(ctx)
    for spec in ctx.shard('pattern', specs):
        for free in ctx.each('free', (False, True)):
            inputs(ctx, spec, free)
            if type(spec) is not S.Dct:
                folded_inputs(ctx, spec, free)
    for pin, pout in ctx.shard('input and output', list(
            itertools.product(SMALL, repeat=2))):
        for fin, fout in ctx.each('free', itertools.product(
                (False, True), repeat=2)):
            outputs(ctx, pin, pout, fin, fout)
            for order in ctx.each('order', (True, False)):
                two_arguments(ctx, pin, pout, fin, fout, order)
    for spec in ctx.shard('numeric pattern', [
            s for s in specs if type(s) is S.Num] + [
            S.Num((2,), -1.0, S.INF), S.Vec(2, -2.0, 3.0)]):
        logdets(ctx, spec)
    for spec in ctx.shard('exact', EXACT):
        exact(ctx, spec)
    for spec in ctx.shard('exact freeing', SMOOTH):
        exact_flatten(ctx, spec)
        if type(spec) is S.Num:
            exact_logdets(ctx, spec)
    for spec in ctx.shard('far', [
            s for s in EXACT if type(s) is S.Spx or (
                type(s) is S.Num and s.lb > -S.INF and s.ub < S.INF)]):
        far_points(ctx, spec)


def S_core(ctx):
    from mc import universe as U
    out = U.core()
    if ctx.thorough:
        out = out + [s for s in U.leaves(1) if S.length(s, False) <= 9
                     and not (type(s) is S.Num and s.ub in (2e-3, 1e6))] + \
            [s for s in U.arrays(1) if S.length(s, False) <= 8]
    return out
