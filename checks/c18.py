"""C18: differentiable sparse products and solvers."""
import itertools

import numpy as np
import scipy.sparse
import scipy.sparse.linalg

from mc import spec as S
from mc.util import messy, near, raw, snapshot

BOUNDS = {
    'products': 'every sparsity pattern of matrices up to 3x3 (thorough: '
                'also 2x4, 4x2, 3x4), 5 sparse formats and dense arrays, '
                'vectors, one-column and two-column matrices in several '
                'memory layouts, integer arguments, lists, tuples and '
                'numbers',
    'solvers': 'every sparsity pattern of invertible matrices of size 1 to 3 '
               'with sparse LU, dense, and product-based solvers, vectors',
    'together': 'two (thorough: three) products or solvers of 4 kinds alive '
                'at once, used before and after the others are made, in '
                'every order',
    'derivatives': 'Jacobians, gradients and Hessians in both modes, and '
                   'compositions of the two returned functions',
}
ASSUMPTIONS = ['solvers are linear; derivatives are of real matrices']


def entries(r, c, bits, k=0):
    m = np.zeros((r, c))
    for i in range(r * c):
        if bits >> i & 1:
            m[i // c, i % c] = 3.0 * S.frac(i, k) - 1.2
    return m


def column(n, cols, k):
    shape = (n,) if cols is None else (n, cols)
    m = S.prod(shape)
    return np.array([4.0 * S.frac(i, k) - 2.0 for i in range(m)]).reshape(
        shape)


def linear_map(ctx, fn, mat, b, what, deriv):
    """fn is b -> mat @ b; compare values and derivatives."""
    import autograd
    import autograd.numpy as anp
    want = mat @ b
    keep = snapshot(b)
    got = fn(b)
    ctx.op()
    ctx.expect(near(np.asarray(got), want, 1e-11), '{}: f({}) is {}, not {}',
               what, b, got, want)
    ctx.expect(snapshot(b) == keep, 'the argument changed')
    if not deriv:
        return
    r, n = mat.shape
    cols = 1 if b.ndim == 1 else b.shape[1]
    full = np.kron(mat, np.eye(cols))
    v = column(n, None if b.ndim == 1 else cols, 3)
    jac = autograd.jacobian(fn)(b).reshape(r * cols, n * cols)
    ctx.expect(near(jac, full, 1e-11), '{}: the Jacobian is {}, not {}', what,
               jac, full)
    val, dv = autograd.make_jvp(fn)(b)(v)
    ctx.expect(near(val, want, 1e-11) and near(dv, mat @ v, 1e-11),
               '{}: forward mode gives {}, not {}', what, dv, mat @ v)
    w = column(r, None if b.ndim == 1 else cols, 4)

    def f(z):
        y = fn(z)
        return anp.sum(w * y ** 3) + anp.sum(w * y) ** 2
    y, wf = want.flatten(), w.flatten()
    g1 = full.T @ (3 * wf * y ** 2 + 2 * np.sum(wf * y) * wf)
    h1 = full.T @ (np.diag(6 * wf * y) + 2 * np.outer(wf, wf)) @ full
    g = autograd.grad(f)(b).flatten()
    ctx.expect(near(g, g1, 1e-9), '{}: the gradient is {}, not {}', what, g,
               g1)
    h = autograd.hessian(f)(b).reshape(n * cols, n * cols)
    ctx.expect(near(h, h1, 1e-9), '{}: the Hessian is {}, not {}', what, h,
               h1)
    hv = autograd.make_jvp(autograd.grad(f))(b)(v)[1].flatten()
    ctx.expect(near(hv, h1 @ v.flatten(), 1e-9), '{}: forward over reverse '
               'gives {}', what, hv)
    hv = autograd.make_jvp(lambda z: autograd.make_jvp(f)(z)(v)[1])(b)(v)[1]
    ctx.expect(near(hv, v.flatten() @ h1 @ v.flatten(), 1e-9),
               '{}: forward over forward gives {}', what, hv)
    ctx.op(6)


FORMATS = ['csc', 'csr', 'coo', 'lil', 'bsr', 'dia', 'dok']


def products(ctx, r, c):
    import autograd
    from paragami.autograd_supplement_lib import get_sparse_product
    for bits in ctx.shard('pattern {}x{}'.format(r, c), range(2 ** (r * c))):
        m = entries(r, c, bits)
        forms = [f for f in (FORMATS if ctx.thorough else FORMATS[:5])]
        for fi, fmt in enumerate(forms + ['dense', 'csc repeated',
                                          'csr zeros', 'csr descending']):
            with ctx.case('product ' + fmt):
                ctx.state(r, c, bits, fmt)
                z = m.copy() if fmt == 'dense' else \
                    messy(m, *fmt.split()) if ' ' in fmt else \
                    scipy.sparse.csr_matrix(m).asformat(fmt)
                keep = raw(z)
                mult, tmult = get_sparse_product(z)
                deriv = fi in (0, 1) or fmt == 'dense' or ctx.thorough
                for cols in (None, 1, 2):
                    for fn, mm, what in ((mult, m, 'product'),
                                         (tmult, m.T, 'transposed product')):
                        b = column(mm.shape[1], cols, 1)
                        linear_map(ctx, fn, mm, b, what,
                                   deriv and (cols != 1 or r * c <= 4))
                        plain = [b.tolist()]
                        if b.ndim == 1:
                            plain.append(tuple(b.tolist()))
                            if len(b) == 1:
                                plain += [float(b[0]), np.array(b[0])]
                        for pb in plain:
                            got = fn(pb)
                            ctx.op()
                            ctx.expect(isinstance(got, np.ndarray) and
                                       near(got, mm @ b, 1e-11),
                                       '{}({}) is {}', what, pb, got)
                        if fi < 2:
                            for tag, bl in S.layouts(b):
                                linear_map(ctx, fn, mm, bl, what + tag,
                                           False)
                            linear_map(ctx, fn, mm, (3 * b).astype(int),
                                       what + ' int', False)
                x = column(c, None, 2)
                both = autograd.jacobian(lambda y: tmult(mult(y)))(x)
                ctx.expect(near(both, m.T @ m, 1e-11), 'the Jacobian of the '
                           'composition is {}', both)
                both = autograd.make_jvp(lambda y: mult(tmult(y)))(
                    column(r, None, 2))(np.ones(r))[1]
                ctx.expect(near(both, m @ m.T @ np.ones(r), 1e-11), 'forward '
                           'mode of the composition is {}', both)
                ctx.op(2)
                ctx.expect(raw(z) == keep, 'the matrix changed')
                for fn, k in ((mult, c), (tmult, r)):
                    ctx.raises(ValueError, lambda: fn(np.ones((k, 1, 1))),
                               'a 3d argument')
                    for wrong in (k + 1, k + 2):
                        ctx.raises(ValueError, lambda: fn(np.ones(wrong)),
                                   'a wrong length')


def solvers(ctx, n):
    import autograd
    from paragami.autograd_supplement_lib import get_differentiable_solver
    for bits in ctx.shard('invertible {}'.format(n), range(2 ** (n * n))):
        m = entries(n, n, bits, 1)
        if abs(np.linalg.det(m)) < 0.05:
            continue
        inv = np.linalg.inv(m)
        csc = scipy.sparse.csc_matrix(m)
        makers = {
            'factorized': lambda: (
                scipy.sparse.linalg.factorized(csc),
                scipy.sparse.linalg.factorized(
                    scipy.sparse.csc_matrix(csc.T))),
            'dense': lambda: (lambda b: np.linalg.solve(m, b),
                              lambda b: np.linalg.solve(m.T, b)),
            'product': lambda: (lambda b: inv @ b, lambda b: inv.T @ b),
        }
        for kind in ctx.each('solver', sorted(makers)):
            with ctx.case('solver'):
                ctx.state('solve', n, bits, kind)
                solve, tsolve = get_differentiable_solver(*makers[kind]())
                for fn, mm, what in ((solve, inv, 'solver'),
                                     (tsolve, inv.T, 'transposed solver')):
                    linear_map(ctx, fn, mm, column(n, None, 1), what, True)
                    if kind != 'factorized':
                        linear_map(ctx, fn, mm, column(n, 2, 1), what, True)
                    for tag, bl in S.layouts(column(n, None, 2)):
                        if kind != 'factorized' or tag in ('C', 'F'):
                            linear_map(ctx, fn, mm, bl, what + tag, False)
                both = autograd.jacobian(lambda y: tsolve(solve(y)))(
                    np.ones(n))
                ctx.expect(near(both, inv.T @ inv, 1e-9), 'the Jacobian of '
                           'the composition is {}', both)
                both = autograd.make_jvp(lambda y: solve(tsolve(y)))(
                    np.ones(n))(np.ones(n))[1]
                ctx.expect(near(both, inv @ inv.T @ np.ones(n), 1e-9),
                           'forward mode of the composition is {}', both)
                ctx.op(2)


def rules(ctx):
    from paragami.autograd_supplement_lib import get_sparse_product
    for shape in ctx.each('shape', [(), (3,), (2, 2, 2), (1, 1, 1, 1)]):
        with ctx.case('not a matrix'):
            ctx.raises(ValueError, lambda: get_sparse_product(
                np.ones(shape)), 'not a matrix')
    with ctx.case('independent'):
        a, b = entries(2, 3, 63), entries(2, 3, 63, 2)
        fa = get_sparse_product(scipy.sparse.csr_matrix(a))
        fb = get_sparse_product(scipy.sparse.csr_matrix(b))
        x, y = np.ones(3), np.ones(2)
        for f, m in ((fa, a), (fb, b), (fa, a)):
            linear_map(ctx, f[0], m, x, 'interleaved', True)
            linear_map(ctx, f[1], m.T, y, 'interleaved transposed', True)
    with ctx.case('large'):
        n = 200
        i = np.arange(n)
        m = scipy.sparse.csr_matrix(
            (1.0 + 0.01 * i, (i, (7 * i) % 150)), (n, 150))
        f, t = get_sparse_product(m)
        d = m.toarray()
        linear_map(ctx, f, d, column(150, None, 1), 'large', False)
        linear_map(ctx, t, d.T, column(n, None, 1), 'large', False)


def together(ctx):
    """Several products and solvers alive at once: every order of making two
    of three kinds for different matrices and using them."""
    from paragami.autograd_supplement_lib import (
        get_differentiable_solver, get_sparse_product)
    mats = [entries(2, 2, 15, k) + 2.0 * (k + 1) * np.eye(2)
            for k in range(3)]

    def product(m):
        f, t = get_sparse_product(scipy.sparse.csr_matrix(m))
        return (f, m), (t, m.T)

    def dense(m):
        f, t = get_sparse_product(m.copy())
        return (f, m), (t, m.T)

    def solver(m):
        f, t = get_differentiable_solver(
            lambda b: np.linalg.solve(m, b), lambda b: np.linalg.solve(m.T, b))
        return (f, np.linalg.inv(m)), (t, np.linalg.inv(m).T)

    def factorized(m):
        f, t = get_differentiable_solver(
            scipy.sparse.linalg.factorized(scipy.sparse.csc_matrix(m)),
            scipy.sparse.linalg.factorized(scipy.sparse.csc_matrix(m.T)))
        return (f, np.linalg.inv(m)), (t, np.linalg.inv(m).T)
    kinds = [product, dense, solver, factorized]
    n = 3 if ctx.thorough else 2
    for made in ctx.each('made', itertools.product(range(4), repeat=n)):
        for before in (False, True):
            with ctx.case('together'):
                ctx.state('together', made, before)
                fns = []
                for i, k in enumerate(made):
                    fns.append(kinds[k](mats[i]))
                    if before:
                        for f, m in fns[-1]:
                            linear_map(ctx, f, m, column(2, None, i), 'made',
                                       True)
                for order in itertools.permutations(range(n)):
                    for i in order:
                        for f, m in fns[i]:
                            linear_map(ctx, f, m, column(2, None, 1),
                                       'used together', True)


def complex_numbers(ctx):
    from paragami.autograd_supplement_lib import get_sparse_product
    for r, c in ((1, 1), (2, 2), (2, 3)):
        m = entries(r, c, 2 ** (r * c) - 1) + \
            1j * entries(r, c, 2 ** (r * c) - 1, 2)
        for fmt in ctx.each('format', FORMATS + ['dense']):
            with ctx.case('complex'):
                z = m if fmt == 'dense' else \
                    scipy.sparse.csr_matrix(m).asformat(fmt)
                f, t = get_sparse_product(z)
                for fn, mm in ((f, m), (t, m.T)):
                    n = mm.shape[1]
                    for b in (column(n, None, 1), column(n, 2, 1),
                              column(n, None, 1) * 1j + column(n, None, 2)):
                        got = fn(b)
                        ctx.op()
                        ctx.expect(near(np.asarray(got), mm @ b, 1e-12),
                                   'a complex product is {}, not {}', got,
                                   mm @ b)


def run(ctx):
    for _ in ctx.shard('together', [0]):
        together(ctx)
    for _ in ctx.shard('complex', [0]):
        complex_numbers(ctx)
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2),
              (3, 3)]
    if ctx.thorough:
        shapes += [(2, 4), (4, 2), (3, 4)]
    for r, c in shapes:
        products(ctx, r, c)
    for n in (1, 2, 3):
        solvers(ctx, n)
    for _ in ctx.shard('rules', [0]):
        rules(ctx)
