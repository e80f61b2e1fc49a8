"""C15: eigenvalue limits and Hessian preconditioners."""
import itertools
import math

import numpy as np

from mc.util import near

BOUNDS = {
    'truncation': 'every vector of length 0 to 4 (thorough: 5) over 7 values '
                  'around the limits, every pair of limits out of 7 '
                  'including none, zero and negative ones, as floats, '
                  'integers, read-only, strided and complex arrays; every kind of unusable limit',
    'eigenspaces': 'orthonormal bases of dimension 1 to 4 from all products '
                   'of rotations on a grid of 6 angles, every non-empty '
                   'subset of columns, 6 transformations',
    'hessians': 'every symmetric matrix with entries from {-1, 0, 1, 2} of '
                'size 2, {-1, 0, 2} (thorough: {-1, 0, 1, 2}) of size 3, and '
                'every non-symmetric one of size 2, with 6 pairs of limits',
}
ASSUMPTIONS = ['the lower limit does not exceed the upper limit',
               'numpy.linalg.eigh of small symmetric matrices is correct']
VALUES = [-1.0, 0.0, 0.25, 1.0, 1.75, 2.0, 5.0]
LIMITS = [None, -0.5, 0.0, 0.25, 1.0, 1.75, 3.5]


def truncation(ctx, n):
    from paragami.optimization_lib import truncate_eigenvalues
    for vec in ctx.shard('values {}'.format(n),
                         itertools.product(VALUES, repeat=n)):
        for lo, hi in itertools.product(LIMITS, repeat=2):
            if lo is not None and hi is not None and lo > hi:
                continue
            with ctx.case('truncate {} {}'.format(lo, hi)):
                want = []
                for e in vec:
                    if lo is not None and e < lo:
                        e = lo
                    if hi is not None and e > hi:
                        e = hi
                    want.append(e)
                forms = [('float', np.array(vec, dtype=float))]
                big = np.zeros(2 * n + 1)
                big[0:2 * n:2] = vec
                forms.append(('strided', big[0:2 * n:2]))
                forms.append(('complex', np.array(vec, dtype=complex)))
                ro = np.array(vec, dtype=float)
                ro.flags.writeable = False
                forms.append(('readonly', ro))
                forms.append(('float32', np.array(vec, dtype='float32')))
                if all(v == int(v) for v in vec):
                    forms.append(('int32', np.array(vec, dtype='int32')))
                    forms.append(('int', np.array(vec, dtype=int)))
                for tag, a in forms:
                    before = a.copy()
                    for kw in (dict(ev_min=lo, ev_max=hi),) + (
                            (dict(ev_min=lo),) if hi is None else ()) + (
                            (dict(ev_max=hi),) if lo is None else ()):
                        got = truncate_eigenvalues(a, **kw)
                        ctx.op()
                        ctx.expect(isinstance(got, np.ndarray) and
                                   got.shape == (n,) and
                                   all(g == w for g, w in zip(got, want)),
                                   '{} {} became {}, not {}', tag, a, got,
                                   want)
                        ctx.expect(np.array_equal(a, before) and
                                   not np.shares_memory(got, a),
                                   'the argument changed or was returned')
                got = truncate_eigenvalues(np.array(vec, dtype=float), lo, hi)
                ctx.expect(list(got) == want, 'positional limits give {}',
                           got)
                ctx.state(vec, lo, hi)


def limit_types(ctx):
    from paragami.optimization_lib import truncate_eigenvalues
    inf = float('inf')
    vec = [-2.0, -0.5, 0.0, 0.5, 1.0, 2.0, 3.0, 1e-300, -1e-300, 1e300]
    kinds = [('int', int), ('float', float), ('float32', np.float32),
             ('int64', np.int64), ('float64', np.float64), ('bool', bool),
             ('0-d', np.array)]
    lims = [0, 1, 2, -1]
    for kname, kind in ctx.shard('limit type', kinds):
        for lo, hi in ctx.each('limits', itertools.product(
                lims + [None], lims + [None])):
            if kind is bool and any(x not in (0, 1, None) for x in (lo, hi)):
                continue
            if lo is not None and hi is not None and lo > hi:
                continue
            with ctx.case('limit type'):
                ctx.state('type', kname, lo, hi)
                want = [min(max(e, -inf if lo is None else lo),
                            inf if hi is None else hi) for e in vec]
                got = truncate_eigenvalues(
                    np.array(vec), None if lo is None else kind(lo),
                    None if hi is None else kind(hi))
                ctx.op()
                ctx.expect(list(got) == want, 'became {}, not {}', got, want)
    for lo, hi in ctx.shard('infinite limits', itertools.product(
            (None, -inf, 0.0), (None, inf, 0.5))):
        with ctx.case('infinite limits'):
            want = [min(max(e, -inf if lo is None else lo),
                        inf if hi is None else hi) for e in vec]
            got = truncate_eigenvalues(np.array(vec), lo, hi)
            ctx.op()
            ctx.expect(list(got) == want, 'became {}, not {}', got, want)
    # Long vectors, with and without everything being cut.
    for n in ctx.shard('long', [17, 100, 1000]):
        with ctx.case('long vectors'):
            v = np.array([((i * 37) % n) / 10.0 - 3 for i in range(n)])
            for lo, hi in ((0.0, 5.0), (None, -1.0), (50.0, None),
                           (-4.0, 1e9)):
                got = truncate_eigenvalues(v, lo, hi)
                want = [min(max(e, -inf if lo is None else lo),
                            inf if hi is None else hi) for e in v]
                ctx.op()
                ctx.expect(list(got) == want, 'became {}', got)


def errors(ctx):
    from paragami.optimization_lib import \
        truncate_eigenvalues, transform_eigenspace
    ev = np.array([1.0, 2.0])
    for bad in ctx.each('bad limit', [1j, 2 + 1j, np.complex128(1 + 2j)]):
        with ctx.case('bad limit'):
            ctx.raises(ValueError, lambda: truncate_eigenvalues(ev, bad),
                       'lower limit')
            ctx.raises(ValueError, lambda: truncate_eigenvalues(
                ev, None, bad), 'upper limit')
            ctx.raises(ValueError, lambda: truncate_eigenvalues(
                ev, 0.5, bad), 'both limits')
    for vshape in ctx.each('eigenvector shape', [
            (), (3,), (3, 2), (2, 3), (3, 3), (1, 1), (2, 2, 2), (3, 1),
            (1, 3), (3, 0)]):
        for eshape in ctx.each('eigenvalue shape', [
                (), (1,), (2,), (3,), (1, 2), (2, 1), (2, 2), (0,)]):
            with ctx.case('shapes'):
                v, e = np.ones(vshape), np.ones(eshape)
                ok = len(vshape) == 2 and len(eshape) == 1 and \
                    vshape[1] == eshape[0]
                if ok:
                    got = transform_eigenspace(v, e, lambda x: x)(
                        np.ones(vshape[0]))
                    ctx.expect(np.shape(got) == (vshape[0],), 'shape {}',
                               np.shape(got))
                else:
                    ctx.raises(ValueError, lambda: transform_eigenspace(
                        v, e, lambda x: x), 'mismatched shapes')


def rotations(n, angles):
    planes = list(itertools.combinations(range(n), 2))
    for ang in itertools.product(angles, repeat=len(planes)):
        q = np.eye(n)
        for (i, j), t in zip(planes, ang):
            g = np.eye(n)
            g[i, i] = g[j, j] = math.cos(t)
            g[i, j], g[j, i] = -math.sin(t), math.sin(t)
            q = q @ g
        yield q


TRANSFORMS = [('sqrt', np.sqrt), ('inv sqrt', lambda e: 1 / np.sqrt(e)),
              ('same', lambda e: e), ('one', np.ones_like),
              ('zero', np.zeros_like), ('negated square', lambda e: -e ** 2)]


def whole_numbers(ctx, q, cols, k):
    """Eigenvalues of other number types are not rounded."""
    from paragami.optimization_lib import transform_eigenspace
    n = len(q)
    vecs = np.array(q[:, list(cols)])
    x = np.array([0.4, -2.0, 1.1, 0.7])[:n]
    for dtype in ('int64', 'int32', 'float32'):
        vals = np.array([3, 2, 5, 7][:k], dtype=dtype)
        for tname, t in TRANSFORMS[:2]:
            with ctx.case('whole numbers'):
                ctx.state('whole', n, q.tobytes(), cols, dtype, tname)
                got = transform_eigenspace(vecs, vals, t)(x)
                new = t(vals.astype(float))
                want = x + vecs @ ((new - 1) * (vecs.T @ x))
                ctx.op()
                ctx.expect(near(got, want, 1e-12 if dtype != 'float32'
                                else 1e-5),
                           'eigenvalues {} give {}, not {}', vals, got, want)


def eigenspaces(ctx, n):
    import autograd
    from paragami.optimization_lib import transform_eigenspace
    angles = [0.0, math.pi / 2, 0.7, -1.1, math.pi, 2.9]
    if n == 3:
        angles = angles if ctx.thorough else angles[:4]
    if n == 4:
        angles = [0.3, math.pi / 2] + ([-0.9] if ctx.thorough else [])
    evs = np.array([0.3, 4.0, 1.0, 2.5])
    for q in ctx.shard('basis {}'.format(n), rotations(n, angles)):
        for k in range(0, n + 1):
            for cols in itertools.permutations(range(n), k) if n < 4 else \
                    itertools.combinations(range(n), k):
                vecs = np.array(q[:, list(cols)])
                vals = evs[:k].copy()
                whole_numbers(ctx, q, cols, k)
                for tname, t in TRANSFORMS:
                    with ctx.case('{} {}'.format(cols, tname)):
                        ctx.state(n, q.tobytes(), cols, tname)
                        seen = []

                        def tr(e):
                            seen.append(np.array(e))
                            return t(e)
                        a = transform_eigenspace(vecs, vals, tr)
                        new = t(evs[:k])
                        xs = list(np.eye(n)) + [np.array(
                            [0.4, -2.0, 1.1, 0.7])[:n]]
                        for x in xs:
                            # Expand in the full basis: selected directions
                            # are scaled, the others are left alone.
                            want = np.zeros(n)
                            for c in range(n):
                                w = float(np.dot(q[:, c], x))
                                if c in cols:
                                    w *= new[cols.index(c)]
                                want = want + w * q[:, c]
                            got = a(x)
                            ctx.op()
                            ctx.expect(near(got, want, 1e-12),
                                       'a({}) is {}, not {}', x, got, want)
                        ctx.expect(all(
                            np.array_equal(s, evs[:k]) for s in seen),
                            'the transformation was applied to {}', seen)
                        ctx.expect(np.array_equal(vecs, q[:, list(cols)]) and
                                   np.array_equal(vals, evs[:k]),
                                   'the arguments changed')
                        jac = autograd.jacobian(a)(xs[-1])
                        ctx.op()
                        ctx.expect(near(jac, np.array(
                            [a(e) for e in np.eye(n)]).T, 1e-12),
                            'the Jacobian is {}', jac)
                        # The caller's arrays are overwritten.
                        vecs[...] = 7.0
                        vals[...] = 7.0
                        ctx.expect(near(a(xs[-1]), want, 1e-12),
                                   'overwriting the arguments changed the '
                                   'function')
                        vecs[...] = q[:, list(cols)]
                        vals[...] = evs[:k]


def hessians(ctx, n, entries, symmetric):
    import autograd
    import autograd.numpy as anp
    import paragami
    m = n * (n + 1) // 2 if symmetric else n * n
    label = 'hessian {}{}'.format(n, '' if symmetric else ' not symmetric')
    for vals in ctx.shard(label, itertools.product(entries, repeat=m)):
        h = np.zeros((n, n))
        it = iter(vals)
        for i in range(n):
            for j in range(i + 1 if symmetric else n):
                h[i, j] = next(it)
                if symmetric:
                    h[j, i] = h[i, j]
        hs = (h + h.T) / 2
        ev, u = np.linalg.eigh(hs)
        for lo, hi in [(None, None), (0.5, None), (1.0, None), (None, 1.5),
                       (0.5, 1.5), (2.0, 2.0)]:
            if lo is None and ev[0] <= 1e-6:
                continue
            with ctx.case('limits {} {}'.format(lo, hi)):
                ctx.state(n, vals, symmetric, lo, hi)
                new = [min(max(e, -math.inf if lo is None else lo),
                           math.inf if hi is None else hi) for e in ev]
                ht = (u * np.array(new)) @ u.T

                def f(x):
                    return 0.5 * anp.dot(x, anp.dot(h, x))
                if len(set(vals)) % 2:
                    p = paragami.PreconditionedFunction(f)
                    hc = h.copy()
                    p.set_preconditioner_with_hessian(hessian=hc, ev_min=lo,
                                                      ev_max=hi)
                    ctx.expect(np.array_equal(hc, h), 'the Hessian changed')
                    hc[:] = 7.0
                else:
                    p = paragami.PreconditionedFunction(f)
                    p.set_preconditioner_with_hessian(
                        x=np.ones(n), ev_min=lo, ev_max=hi)
                a = p.get_preconditioner(n)
                ai = p.get_preconditioner_inv(n)
                ctx.op(3)
                ctx.expect(near(a, a.T, 1e-12), 'A = {} is not symmetric', a)
                ctx.expect(near(a @ ht @ a.T, np.eye(n), 1e-10),
                           'A H A^T is {}', a @ ht @ a.T)
                ctx.expect(near(ai @ ai.T, ht, 1e-10),
                           'the inverse squared is {}, not {}', ai @ ai.T, ht)
                ctx.expect(near(ai @ a, np.eye(n), 1e-10), 'inverse {}', ai)
                ctx.expect(np.linalg.eigvalsh(a)[0] > 0, 'A = {} is not '
                           'positive definite', a)
                hc = autograd.hessian(p)(0.3 * np.ones(n))
                ctx.op()
                ctx.expect(near(hc, a @ hs @ a, 1e-10), 'the preconditioned '
                           'Hessian is {}', hc)
                if lo is None and hi is None:
                    ctx.expect(near(hc, np.eye(n), 1e-9), 'the '
                               'preconditioned Hessian is {}', hc)


def run(ctx):
    for n in range(0, 6 if ctx.thorough else 5):
        truncation(ctx, n)
    limit_types(ctx)
    for _ in ctx.shard('errors', [0]):
        errors(ctx)
    for n in (1, 2, 3, 4):
        eigenspaces(ctx, n)
    hessians(ctx, 1, [-1.0, 0.0, 0.5, 2.0], True)
    hessians(ctx, 2, [-1.0, 0.0, 1.0, 2.0], True)
    hessians(ctx, 2, [-1.0, 0.0, 1.0, 2.0], False)
    hessians(ctx, 3, [-1.0, 0.0, 1.0, 2.0] if ctx.thorough
             else [-1.0, 0.0, 2.0], True)
    if ctx.thorough:
        hessians(ctx, 3, [0.0, 1.0], False)
