"""C19: forward-mode rules for linear algebra and special functions."""
import itertools

import numpy as np
import scipy.special

from mc import spec as S
from mc.util import near

BOUNDS = {
    'matrices': 'every well-conditioned 2x2 matrix over {-1, 0, 1, 2}, every '
                '3x3 matrix over {0, 1} (thorough: {-1, 0, 1}) plus twice the '
                'identity, batches of 1 and 2 extra dimensions',
    'directions': 'every unit direction and one general direction; first '
                  'derivatives, forward over forward, forward over reverse '
                  'and reverse over forward second derivatives',
    'special functions': 'all 8 functions on a grid of positive and negative '
                         'non-integer points from 1e-6 to 1e6, scalars and '
                         'arrays of up to 3 dimensions, orders 0 to 4 of the polygamma function',
}
ASSUMPTIONS = ['both arguments of solve have the same batch dimensions',
               'forward mode of the log determinant is claimed for single '
               'matrices only (it refuses batches)',
               'the arguments of the special functions are not poles; '
               'reverse rules are those of autograd (that of the reciprocal '
               'gamma function overflows above 142, where forward over '
               'reverse is not claimed)']


def units(shape):
    n = S.prod(shape)
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1.0
        yield e.reshape(shape)
    yield gen(shape, 2)


def gen(shape, k):
    n = S.prod(shape)
    return np.array([2.0 * S.frac(i, k) - 1.0 for i in range(n)]).reshape(
        shape)


def second(ctx, fn, x, v, u, want, tol, what, reverse=True):
    """Second derivatives of fn along v and u in all mixed modes."""
    import autograd
    import autograd.numpy as anp

    def d1(y):
        return autograd.make_jvp(fn)(y)(v)[1]
    got = autograd.make_jvp(d1)(x)(u)[1]
    ctx.expect(near(got, want, tol), '{}: forward over forward gives {}, not '
               '{}', what, got, want)
    ctx.op(2)
    if not reverse:
        return
    w = gen(np.shape(want), 5)
    g = autograd.grad(lambda y: anp.sum(w * d1(y)))(x)
    ctx.expect(near(np.sum(g * u), np.sum(w * want), tol),
               '{}: reverse over forward gives {}, not {}', what,
               np.sum(g * u), np.sum(w * want))
    gr = autograd.grad(lambda y: anp.sum(w * fn(y)))
    got = autograd.make_jvp(gr)(x)(u)[1]
    ctx.expect(near(np.sum(got * v), np.sum(w * want), tol),
               '{}: forward over reverse gives {}, not {}', what,
               np.sum(got * v), np.sum(w * want))
    ctx.op(2)


def matmul(a, b):
    """Batched product, one matrix at a time."""
    if a.ndim == 2:
        return a @ b
    return np.array([matmul(x, y) for x, y in zip(a, b)])


def inverse(a):
    if a.ndim == 2:
        return np.linalg.inv(a)
    return np.array([inverse(x) for x in a])


def matrices(ctx):
    for vals in itertools.product((-1.0, 0.0, 1.0, 2.0), repeat=4):
        m = np.array(vals).reshape(2, 2)
        if abs(np.linalg.det(m)) > 0.3:
            yield m
    for vals in itertools.product(
            (-1.0, 0.0, 1.0) if ctx.thorough else (0.0, 1.0), repeat=9):
        m = np.array(vals).reshape(3, 3) + 2.0 * np.eye(3)
        if abs(np.linalg.det(m)) > 0.3:
            yield m
    yield np.array([[1.5]])
    yield np.array([[-0.5]])
    for n in (4, 5, 7):
        yield gen((n, n), 1) + 2.0 * np.eye(n)


def batches():
    for shape in ((1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2)):
        for n in (1, 2, 3):
            b = gen(shape + (n, n), 3)
            eye = np.broadcast_to(2.5 * np.eye(n), b.shape)
            sign = np.where(np.arange(n) % 2, -1.0, 1.0)
            yield (b + eye) * sign


def algebra(ctx, m):
    import autograd
    import autograd.numpy as anp
    import paragami  # noqa: F401  (registers the rules)
    inv = inverse(m)
    n = m.shape[-1]
    batch = m.shape[:-2]
    small = m.size <= 9
    vs = list(units(m.shape)) if small or ctx.thorough else \
        list(units(m.shape))[::5] + [gen(m.shape, 2)]
    with ctx.case('inverse'):
        ctx.state('inv', m)
        for v in vs:
            val, dv = autograd.make_jvp(anp.linalg.inv)(m)(v)
            want = -matmul(matmul(inv, v), inv)
            ctx.op()
            ctx.expect(near(val, inv, 1e-10) and near(dv, want, 1e-10),
                       'the derivative of inv({}) along {} is {}, not {}', m,
                       v, dv, want)
        u, v = gen(m.shape, 4), vs[-1]
        d = matmul(matmul(matmul(matmul(inv, v), inv), u), inv) + \
            matmul(matmul(matmul(matmul(inv, u), inv), v), inv)
        second(ctx, anp.linalg.inv, m, v, u, d, 1e-9, 'inv')
    rhs = [(), (1,), (2,), (3,)] if n < 5 else [(), (2,)]
    for tail in ctx.each('right hand side', rhs):
        with ctx.case('solve'):
            b = gen(batch + (n,) + tail, 6)
            ctx.state('solve', m, tail)

            def mul(a, y):
                if tail:
                    return matmul(a, y)
                return matmul(a, y[..., None])[..., 0]
            sol = mul(inv, b)
            for v in vs:
                val, dv = autograd.make_jvp(
                    lambda a: anp.linalg.solve(a, b))(m)(v)
                want = -mul(matmul(inv, v), sol)
                ctx.op()
                ctx.expect(near(val, sol, 1e-10) and near(dv, want, 1e-10),
                           'the derivative of solve({}, {}) in the matrix '
                           'along {} is {}, not {}', m, b, v, dv, want)
            for v in units(b.shape):
                val, dv = autograd.make_jvp(
                    lambda y: anp.linalg.solve(m, y))(b)(v)
                want = mul(inv, v)
                ctx.op()
                ctx.expect(near(val, sol, 1e-10) and near(dv, want, 1e-10),
                           'the derivative of solve({}, {}) along {} is {}, '
                           'not {}', m, b, v, dv, want)
            u, v = gen(m.shape, 4), vs[-1]
            x1, x2 = matmul(inv, v), matmul(inv, u)
            d = mul(matmul(x1, x2), sol) + mul(matmul(x2, x1), sol)
            second(ctx, lambda a: anp.linalg.solve(a, b), m, v, u, d, 1e-9,
                   'solve in the matrix')
            # Both arguments together.
            w = gen(b.shape, 7)
            both = autograd.make_jvp(lambda t: anp.linalg.solve(
                m + t * v, b + t * w))(0.0)(1.0)[1]
            want = mul(inv, w) - mul(x1, sol)
            ctx.expect(near(both, want, 1e-10), 'the derivative in both '
                       'arguments is {}, not {}', both, want)
            ctx.op()
    with ctx.case('log determinant'):
        if m.ndim > 2:
            ctx.raises(ValueError, lambda: autograd.make_jvp(
                lambda a: anp.linalg.slogdet(a)[1])(m)(m), 'a batch')
        else:
            def ld(a):
                return anp.linalg.slogdet(a)[1]
            for v in vs:
                val, dv = autograd.make_jvp(ld)(m)(v)
                want = np.trace(inv @ v)
                ctx.op()
                ctx.expect(near(val, np.linalg.slogdet(m)[1], 1e-10) and
                           near(dv, want, 1e-10), 'the derivative of the log '
                           'determinant of {} along {} is {}, not {}', m, v,
                           dv, want)
                sgn = autograd.make_jvp(
                    lambda a: anp.linalg.slogdet(a)[0] * anp.sum(a))(m)(v)[1]
                want = np.linalg.slogdet(m)[0] * np.sum(v)
                ctx.expect(near(sgn, want, 1e-10), 'the derivative with the '
                           'sign is {}, not {}', sgn, want)
            u, v = gen(m.shape, 4), vs[-1]
            second(ctx, ld, m, v, u, -np.trace(inv @ v @ inv @ u), 1e-9,
                   'log determinant')


def functions():
    import autograd.scipy as asp
    sp = asp.special
    ref = scipy.special
    out = {
        'psi': (sp.psi, ref.psi, lambda x: ref.polygamma(1, x),
                lambda x: ref.polygamma(2, x)),
        'digamma': (sp.digamma, ref.digamma, lambda x: ref.polygamma(1, x),
                    lambda x: ref.polygamma(2, x)),
        'gamma': (sp.gamma, ref.gamma, lambda x: ref.gamma(x) * ref.psi(x),
                  lambda x: ref.gamma(x) * (
                      ref.psi(x) ** 2 + ref.polygamma(1, x))),
        'gammaln': (sp.gammaln, ref.gammaln, ref.psi,
                    lambda x: ref.polygamma(1, x)),
        'rgamma': (sp.rgamma, ref.rgamma,
                   lambda x: -ref.psi(x) / ref.gamma(x),
                   lambda x: (ref.psi(x) ** 2 - ref.polygamma(1, x)) /
                   ref.gamma(x)),
        'gammasgn': (sp.gammasgn, ref.gammasgn, np.zeros_like,
                     np.zeros_like),
    }
    for n in range(5):
        out['polygamma{}'.format(n)] = (
            lambda x, n=n: sp.polygamma(n, x),
            lambda x, n=n: ref.polygamma(n, x),
            lambda x, n=n: ref.polygamma(n + 1, x),
            lambda x, n=n: ref.polygamma(n + 2, x))
    return out


GRID = [0.1, 0.25, 0.5, 0.9, 1.0, 1.3, 1.75, 2.0, 2.6, 3.0, 4.4, 5.0, 7.3,
        10.0, 20.5]
# Far from one, where the gamma function overflows or underflows.
FAR = [1e-6, 1e-3, 60.0, 150.0, 170.5]
FURTHER = [172.5, 1e3, 1e6]
NEGATIVE = [-0.3, -0.75, -1.25, -1.6, -2.5, -3.3]


def far(ctx, fname):
    import autograd
    fn, ref, d1, d2 = functions()[fname]
    pts = FAR + ([] if fname == 'gamma' else FURTHER)

    def close(a, b):
        return np.isfinite(a) and abs(a - b) <= 1e-9 * abs(b) + 1e-300
    for x in ctx.each('far point', pts):
        with ctx.case(fname + ' far out'):
            ctx.state(fname, x)
            val, dv = autograd.make_jvp(fn)(x)(1.7)
            want = 1.7 * d1(np.array(x))
            ctx.op()
            ctx.expect(close(val, ref(x)), '{}({}) is {}', fname, x, val)
            ctx.expect(close(dv, want), 'the derivative of {} at {} is {}, '
                       'not {}', fname, x, dv, want)
            if fname == 'gammasgn':
                continue
            w2 = d2(np.array(x))
            for what, one in (
                    ('forward over forward', autograd.make_jvp(
                        lambda y: autograd.make_jvp(fn)(y)(1.0)[1])(x)(
                            1.0)[1]),
                    ('forward over reverse', autograd.make_jvp(
                        autograd.grad(fn))(x)(1.0)[1]),
                    ('reverse over forward', autograd.grad(
                        lambda y: autograd.make_jvp(fn)(y)(1.0)[1])(x))):
                ctx.op()
                if fname == 'rgamma' and x > 100 and \
                        what == 'forward over reverse':
                    # The reverse rule of autograd divides by the gamma
                    # function, which overflows.
                    continue
                ctx.expect(close(one, w2), 'the second derivative ({}) of {} '
                           'at {} is {}, not {}', what, fname, x, one, w2)


def special(ctx, fname):
    import autograd
    import paragami  # noqa: F401
    fn, ref, d1, d2 = functions()[fname]
    pts = GRID + (NEGATIVE if fname in (
        'gamma', 'gammaln', 'rgamma', 'gammasgn') else [])
    for x in ctx.each('point', pts):
        with ctx.case(fname):
            ctx.state(fname, x)
            val, dv = autograd.make_jvp(fn)(x)(1.7)
            want = 1.7 * d1(np.array(x))
            ctx.op()
            ctx.expect(near(val, ref(x), 1e-12), '{}({}) is {}', fname, x,
                       val)
            ctx.expect(near(dv, want, 1e-10), 'the derivative of {} at {} is '
                       '{}, not {}', fname, x, dv, want)
            if x < 0:
                continue
            w2 = d2(np.array(x))
            if fname != 'gammasgn':
                scale = max(1.0, abs(float(w2)))
                for what, one in (
                        ('forward over forward', autograd.make_jvp(
                            lambda y: autograd.make_jvp(fn)(y)(1.0)[1])(x)(
                                1.0)[1]),
                        ('forward over reverse', autograd.make_jvp(
                            autograd.grad(fn))(x)(1.0)[1]),
                        ('reverse over forward', autograd.grad(
                            lambda y: autograd.make_jvp(fn)(y)(1.0)[1])(x))):
                    ctx.expect(abs(one - w2) < 1e-9 * scale, 'the second '
                               'derivative ({}) of {} at {} is {}, not {}',
                               what, fname, x, one, w2)
                    ctx.op()
    for shape in ctx.each('shape', [(1,), (4,), (2, 3), (1, 1), (2, 2, 2)]):
        with ctx.case(fname + ' of arrays'):
            x = 0.4 + 3.0 * (1 + gen(shape, 1))
            v = gen(shape, 2)
            ctx.state(fname, shape)
            for tag, xl in S.layouts(x):
                val, dv = autograd.make_jvp(fn)(xl)(v)
                ctx.op()
                ctx.expect(near(val, ref(x), 1e-12) and
                           near(dv, d1(x) * v, 1e-10),
                           'the derivative of {} at {} along {} is {}', fname,
                           x, v, dv)


def run(ctx):
    for m in ctx.shard('matrix', matrices(ctx)):
        algebra(ctx, m)
    for m in ctx.shard('batch', batches()):
        algebra(ctx, m)
    for fname in ctx.shard('function', [
            'psi', 'digamma', 'gamma', 'gammaln', 'rgamma', 'gammasgn'] +
            ['polygamma{}'.format(n) for n in range(5)]):
        special(ctx, fname)
        far(ctx, fname)
