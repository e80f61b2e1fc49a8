"""C22: preconditioners from sparse Hessians."""
import itertools

import numpy as np
import scipy.sparse

from mc import spec as S
from mc.util import messy, near, raw

BOUNDS = {
    'matrices': 'every symmetric sparsity pattern of size 2 to 5 (thorough: '
                '6), diagonally dominant with distinct entries, negative and '
                'positive, 2 scales; larger band, arrow and block matrices up '
                'to size 120',
    'formats': 'CSC; CSR for the sizes up to 4; explicitly stored zeros',
    'use': 'both functions on unit vectors and general vectors, derivatives '
           'in both modes, as the preconditioner of an objective; refused '
           'arguments; every ordered selection of 2 (thorough: 3) of 10 '
           'Hessians made and used in turn, one matrix filled again',
    'scales': 'every pattern of size 3 with rows scaled by 1e-4, 1 or 1e6; '
              'weak entries from 1e-13 beside diagonals up to 1e12',
}
ASSUMPTIONS = ['size one is left to the dense preconditioner',
               'scikit-sparse is installed']


def spd(n, bits, k=0, scale=1.0):
    m = np.zeros((n, n))
    for b, (i, j) in enumerate(itertools.combinations(range(n), 2)):
        if bits >> b & 1:
            m[i, j] = m[j, i] = (S.frac(b, k) - 0.45) or 0.1
    for i in range(n):
        m[i, i] = np.sum(np.abs(m[i])) + 0.5 + S.frac(i, k + 1)
    return scale * m


def matrix_of(fn, n):
    return np.array([np.asarray(fn(e)) for e in np.eye(n)]).T


def check(ctx, m, sparse, deep):
    import autograd
    import autograd.numpy as anp
    import paragami
    from paragami.sparse_preconditioners_lib import \
        get_sym_matrix_inv_sqrt_funcs
    n = len(m)
    keep = raw(sparse)
    sqrt, inv = get_sym_matrix_inv_sqrt_funcs(sparse)
    ctx.op()
    ctx.expect(raw(sparse) == keep, 'the Hessian changed')
    r, a = matrix_of(sqrt, n), matrix_of(inv, n)
    ctx.op(2)
    eye = np.eye(n)
    ctx.expect(near(r.T @ r, m, 1e-10), 'the square root R gives R^T R = {}, '
               'not {}', r.T @ r, m)
    ctx.expect(near(r @ a, eye, 1e-9) and near(a @ r, eye, 1e-9),
               'the two functions are not inverse: {}', r @ a)
    ctx.expect(near(a.T @ m @ a, eye, 1e-9), 'A^T H A = {}', a.T @ m @ a)
    x = np.array([4 * S.frac(i, 2) - 2 for i in range(n)])
    xk = x.copy()
    ctx.expect(near(sqrt(x), r @ x, 1e-10) and near(inv(x), a @ x, 1e-9) and
               near(inv(sqrt(x)), x, 1e-9) and np.array_equal(x, xk),
               'not linear, not inverse, or the argument changed')
    ctx.op(4)
    if not deep:
        return
    for fn, mm, what in ((sqrt, r, 'square root'), (inv, a, 'inverse')):
        jac = autograd.jacobian(fn)(x)
        ctx.expect(near(jac, mm, 1e-9), 'the Jacobian of the {} is {}, not '
                   '{}', what, jac, mm)
        v = eye[n - 1] - 0.5 * eye[0]
        val, dv = autograd.make_jvp(fn)(x)(v)
        ctx.expect(near(dv, mm @ v, 1e-9), 'forward mode of the {} gives {}',
                   what, dv)
        ctx.op(2)
    w = 1.0 + 0.3 * np.arange(n)

    def f(y):
        return 0.5 * anp.dot(y, anp.dot(m, y)) + anp.sum(w * anp.sin(y))
    p = paragami.PreconditionedFunction(f)
    p.set_preconditioner_functions(inv, sqrt)
    p.check_preconditioner(x)
    ctx.expect(near(p.precondition(x), r @ x, 1e-9) and
               near(p.unprecondition(x), a @ x, 1e-9) and
               near(p(x), f(a @ x), 1e-9), 'the preconditioned function is '
               'wrong')
    y = a @ x
    g = a.T @ (m @ y + w * np.cos(y))
    ctx.expect(near(autograd.grad(p)(x), g, 1e-8), 'the gradient is {}, not '
               '{}', autograd.grad(p)(x), g)
    h = eye + a.T @ np.diag(-w * np.sin(y)) @ a
    ctx.expect(near(autograd.hessian(p)(x), h, 1e-8), 'the Hessian is {}, '
               'not {}', autograd.hessian(p)(x), h)
    hv = autograd.make_jvp(autograd.grad(p))(x)(eye[0])[1]
    ctx.expect(near(hv, h[:, 0], 1e-8), 'forward over reverse gives {}', hv)
    q = paragami.PreconditionedFunction(
        lambda z: 0.5 * anp.dot(z, anp.dot(m, z)))
    q.set_preconditioner_functions(inv, sqrt)
    ctx.expect(near(autograd.hessian(q)(x), eye, 1e-8), 'the preconditioned '
               'Hessian is {}', autograd.hessian(q)(x))
    ctx.op(5)


def large():
    for n in (10, 37, 120):
        for width in (1, 3):
            m = np.zeros((n, n))
            for i in range(n):
                for j in range(max(0, i - width), i):
                    m[i, j] = m[j, i] = S.frac(i * 3 + j) - 0.5
            yield n, 'band', m
        m = np.zeros((n, n))
        m[0, 1:] = m[1:, 0] = [S.frac(i) - 0.5 for i in range(1, n)]
        yield n, 'arrow', m
        m = np.zeros((n, n))
        for i in range(0, n - 1, 2):
            m[i, i + 1] = m[i + 1, i] = 0.7
        m[0, n - 1] = m[n - 1, 0] = -0.4
        yield n, 'blocks', m


def rules(ctx):
    from paragami.sparse_preconditioners_lib import \
        get_sym_matrix_inv_sqrt_funcs
    for bad in ctx.each('refused', [np.eye(2), np.eye(3).tolist(), 1.0,
                                    np.matrix(np.eye(2)), None]):
        with ctx.case('refused'):
            ctx.raises(ValueError, lambda: get_sym_matrix_inv_sqrt_funcs(bad),
                       'not sparse')

def in_turn(ctx):
    """Hessians one after another, made and used in every order: of different
    sizes, of equal sparsity, with equal traces, equal entries in another
    order, and the same matrix object filled again."""
    from paragami.sparse_preconditioners_lib import \
        get_sym_matrix_inv_sqrt_funcs
    base = spd(3, 7)
    swap = base[::-1, ::-1]
    mats = [base, swap, spd(3, 7, 2), spd(4, 45, 2), spd(3, 3),
            np.diag(np.diag(base)), np.diag(np.diag(swap)),
            base * 4.0, spd(4, 18), spd(3, 0, 4)]
    n = 3 if ctx.thorough else 2
    for picked in ctx.each('hessians', itertools.permutations(
            range(len(mats)), n)):
        with ctx.case('in turn'):
            ctx.state('in turn', picked)
            fns = [get_sym_matrix_inv_sqrt_funcs(
                scipy.sparse.csc_matrix(mats[k])) for k in picked]
            for k, (s, i) in list(zip(picked, fns)) * 2:
                m = mats[k]
                r, a = matrix_of(s, len(m)), matrix_of(i, len(m))
                ctx.op(2)
                ctx.expect(near(r.T @ r, m, 1e-10) and
                           near(r @ a, np.eye(len(m)), 1e-10), 'of several '
                           'preconditioners, that of {} gives {}', m,
                           r.T @ r)
    for picked in ctx.each('refilled', itertools.permutations(range(4), 2)):
        with ctx.case('refilled'):
            fill = [spd(3, 7, k) for k in range(4)]
            full = scipy.sparse.csc_matrix(fill[picked[0]])
            fns = []
            for k in picked:
                full.data[...] = scipy.sparse.csc_matrix(fill[k]).data
                fns.append(get_sym_matrix_inv_sqrt_funcs(full))
            for k, (s, i) in list(zip(picked, fns)) * 2:
                r, a = matrix_of(s, 3), matrix_of(i, 3)
                ctx.op(2)
                ctx.expect(near(r.T @ r, fill[k], 1e-10) and
                           near(r @ a, np.eye(3), 1e-10), 'after the Hessian '
                           'was filled again, that of {} gives {}', fill[k],
                           r.T @ r)


def scaled(ctx):
    """Badly scaled Hessians D H D: compared after scaling back, so that
    small entries beside large ones count as much."""
    from paragami.sparse_preconditioners_lib import \
        get_sym_matrix_inv_sqrt_funcs
    powers = (-4, 0, 3, 6) if ctx.thorough else (-4, 0, 6)
    n = 3
    for bits in range(8):
        for exps in ctx.each('scales', itertools.product(powers, repeat=n)):
            with ctx.case('scaled'):
                ctx.state('scaled', bits, exps)
                d = np.array([10.0 ** e for e in exps])
                h = spd(n, bits, 1)
                m = h * np.outer(d, d)
                m = 0.5 * (m + m.T)
                s, i = get_sym_matrix_inv_sqrt_funcs(
                    scipy.sparse.csc_matrix(m))
                r, a = matrix_of(s, n), matrix_of(i, n)
                ctx.op(2)
                back = (r.T @ r) / np.outer(d, d)
                ctx.expect(near(back, h, 1e-9), 'scaled by {}, R^T R is {}, '
                           'not {}', d, back, h)
                a0 = a / d[:, None] ** -1
                ctx.expect(near(a0.T @ h @ a0, np.eye(n), 1e-8), 'scaled by '
                           '{}, A^T H A is {}', d, a0.T @ h @ a0)
    # Weak connections beside strong entries.
    for big, small in ctx.each('entries', itertools.product(
            (1e4, 1e8, 1e12, 1e-8), (1e-7, -1e-10, 1e-13, 1e-3))):
        for place in range(3):
            with ctx.case('weak'):
                m = np.diag([2.0, 3.0, 5.0])
                m[place, place] = big
                i, j = [k for k in range(3) if k != place]
                m[i, j] = m[j, i] = small
                s, inv = get_sym_matrix_inv_sqrt_funcs(
                    scipy.sparse.csc_matrix(m))
                r, a = matrix_of(s, 3), matrix_of(inv, 3)
                ctx.op(2)
                d = np.sqrt(np.diag(m))
                back = (r.T @ r) / np.outer(d, d)
                ctx.expect(near(back, m / np.outer(d, d), 1e-12) and
                           abs((r.T @ r)[i, j] - small) <=
                           1e-9 * abs(small), 'a weak entry of {} '
                           'became {}', m, r.T @ r)
                p = a @ a.T
                want = np.linalg.inv(m[np.ix_([i, j], [i, j])])
                ctx.expect(near(p[np.ix_([i, j], [i, j])], want, 1e-12) and
                           abs(p[i, j] - want[0, 1]) <=
                           1e-9 * abs(want[0, 1]) + 1e-16,
                           'the inverse of {} is {}', m, p)


def run(ctx):
    for n in range(2, 7 if ctx.thorough else 6):
        for bits in ctx.shard('size {}'.format(n),
                              range(2 ** (n * (n - 1) // 2))):
            for k, scale in ctx.each('values', (
                    [(0, 1.0), (3, 1e-3), (5, 1e4)] if n < 6 else [(0, 1.0)])):
                forms = ['csc', 'csr'] if n < 5 else ['csc']
                for form in ctx.each('format', forms):
                    with ctx.case('sparse'):
                        ctx.state(n, bits, k, form)
                        m = spd(n, bits, k, scale)
                        sm = scipy.sparse.csc_matrix(m).asformat(form)
                        check(ctx, m, sm, scale == 1.0)
                    for how in ('descending', 'repeated', 'zeros'):
                        if form == 'csr' and k:
                            continue
                        with ctx.case('entries ' + how):
                            ctx.state(n, bits, k, form, how)
                            check(ctx, m, messy(m, form, how), False)
                if n < 5:
                    with ctx.case('explicit zeros'):
                        m = spd(n, bits, k, scale)
                        full = scipy.sparse.csc_matrix(np.ones((n, n)))
                        full.data[:] = m.T.flatten()
                        check(ctx, m, full, False)
    for n, kind, m in ctx.shard('large', large()):
        with ctx.case('large'):
            m = m + np.diag(np.sum(np.abs(m), axis=0) + 1.0)
            ctx.state(n, kind, m)
            check(ctx, m, scipy.sparse.csc_matrix(m), n < 50)
    for _ in ctx.shard('rules', [0]):
        rules(ctx)
    for _ in ctx.shard('in turn', [0]):
        in_turn(ctx)
    for _ in ctx.shard('scaled', [0]):
        scaled(ctx)
