"""C17: differentiable grouped sums and replacement."""
import itertools

import numpy as np

from mc import spec as S
from mc.util import fd_jacobian, near

BOUNDS = {
    'grouped_sum': 'every vector of 1 to 5 (thorough: 6) groups out of 0..3, '
                   'every number of groups up to 6 or none, group containers '
                   'and integer types, arguments with 1 to 4 dimensions in '
                   'several memory layouts; derivatives of every order and '
                   'mode up to three; group numbers up to 70000; every kind of '
                   'refused argument',
    'replace': 'every sequence of distinct indices of vectors of length 1 to '
               '4 (thorough: 5), including the empty one, as lists, arrays '
               'and boolean masks; derivatives in both arguments, up to '
               'second order, both modes',
}
ASSUMPTIONS = ['groups are non-negative integers; the indices replaced are '
               'distinct']


def data(shape, k=0):
    n = S.prod(shape)
    return np.array([4.0 * S.frac(i, k) - 2.0 for i in range(n)]).reshape(
        shape)


def ref_grouped(x, groups, num):
    n = num if num is not None else max(groups) + 1
    out = np.zeros((n,) + x.shape[1:])
    for ind in itertools.product(*[range(i) for i in x.shape[1:]]):
        for i, g in enumerate(groups):
            out[(g,) + ind] += x[(i,) + ind]
    return out


TAILS = [(), (1,), (2,), (2, 3), (1, 2, 2)]


def grouped(ctx, groups):
    import autograd
    import autograd.numpy as anp
    from paragami.autograd_supplement_lib import grouped_sum
    n, top = len(groups), max(groups)
    nums = [None] + [m for m in range(top + 1, 7)
                     if ctx.thorough or m <= top + 2]
    for num in ctx.each('num_groups', nums):
        kws = [dict(num_groups=num)] + ([{}] if num is None else [])
        for tail in ctx.each('shape', TAILS if n <= 4 else TAILS[:3]):
            with ctx.case('grouped sum'):
                x = data((n,) + tail)
                ctx.state(groups, num, tail)
                want = ref_grouped(x, groups, num)
                forms = [np.array(groups), list(groups),
                         np.array(groups, dtype='int32'),
                         np.array(groups, dtype=float), tuple(groups),
                         np.array(groups, dtype='uint8'),
                         np.array(groups, dtype=object)]
                if top <= 1:
                    forms.append(np.array(groups).astype(bool))
                w3 = data(want.shape, 5)
                for gi, g in enumerate(forms):
                    lays = S.layouts(x) if gi == 0 else [('C', x)]
                    for tag, xl in lays:
                        keep = np.array(xl)
                        gk = np.array(g)
                        got = grouped_sum(xl, g, **kws[-1])
                        ctx.op()
                        ctx.expect(isinstance(got, np.ndarray) and
                                   near(got, want, 1e-12),
                                   'grouped_sum({}, {}) is {}, not {}', xl, g,
                                   got, want)
                        ctx.expect(np.array_equal(xl, keep) and
                                   np.array_equal(g, gk),
                                   'the arguments changed')
                    if gi:
                        gr = autograd.grad(lambda z: anp.sum(
                            w3 * grouped_sum(z, g, **kws[-1]) ** 2))(x)
                        ctx.expect(near(gr, (2 * w3 * want)[list(groups)],
                                        1e-12), 'the gradient with groups {} '
                                   'is {}', g, gr)
                        ctx.op()
                for kind in (np.float32, bool):
                    xk = (x > 0) if kind is bool else x.astype(kind)
                    got = grouped_sum(xk, np.array(groups), num)
                    ctx.expect(near(got, ref_grouped(
                        xk.astype(float), groups, num), 1e-6),
                        '{}: {}', kind, got)
                    ctx.op()
                got = grouped_sum(x, np.array(groups), num)
                ctx.expect(near(got, want, 1e-12), 'positional: {}', got)
                ints = (10 * x).astype(int)
                got = grouped_sum(ints, np.array(groups), num)
                ctx.expect(np.array_equal(got, ref_grouped(
                    ints, groups, num)), 'integers: {}', got)
                if x.size > 12 and not ctx.thorough:
                    continue
                # Derivatives: the map is linear with this matrix.
                garr = np.array(groups)
                eye = np.eye(x.size)
                mat = np.array([ref_grouped(e.reshape(x.shape), groups,
                                            num).flatten() for e in eye]).T

                def lin(z):
                    return grouped_sum(z, garr, num)
                jac = autograd.jacobian(lin)(x).reshape(mat.shape)
                ctx.expect(near(jac, mat, 1e-12), 'the Jacobian is {}', jac)
                v = data(x.shape, 3)
                val, dv = autograd.make_jvp(lin)(x)(v)
                ctx.expect(near(val, want, 1e-12) and near(
                    dv, ref_grouped(v, groups, num), 1e-12),
                    'forward mode gives {}, {}', val, dv)

                def f(z):
                    return anp.sum(anp.sin(lin(z)) * (1.0 + lin(z)))
                y = mat @ x.flatten()
                d1 = np.cos(y) * (1 + y) + np.sin(y)
                d2 = -np.sin(y) * (1 + y) + 2 * np.cos(y)
                g1 = autograd.grad(f)(x)
                ctx.expect(near(g1.flatten(), mat.T @ d1, 1e-10),
                           'the gradient is {}', g1)
                h = autograd.hessian(f)(x).reshape(x.size, x.size)
                hw = mat.T @ np.diag(d2) @ mat
                ctx.expect(near(h, hw, 1e-10), 'the Hessian is {}, not {}', h,
                           hw)
                hv = autograd.make_jvp(autograd.grad(f))(x)(v)[1]
                ctx.expect(near(hv.flatten(), hw @ v.flatten(), 1e-10),
                           'forward over reverse gives {}', hv)
                # Third order: the derivative of v' H v.
                d3 = -np.cos(y) * (1 + y) - 3 * np.sin(y)
                t3 = mat.T @ (d3 * (mat @ v.flatten()) ** 2)
                third = autograd.grad(lambda z: autograd.make_jvp(
                    lambda u: autograd.make_jvp(f)(u)(v)[1])(z)(v)[1])(x)
                ctx.expect(near(third.flatten(), t3, 1e-10), 'third order '
                           'derivatives are {}, not {}', third, t3)
                third = autograd.grad(lambda z: anp.sum(
                    v * autograd.make_jvp(autograd.grad(f))(z)(v)[1]))(x)
                ctx.expect(near(third.flatten(), t3, 1e-10), 'third order '
                           'derivatives are {}, not {}', third, t3)
                hv = autograd.grad(
                    lambda z: autograd.make_jvp(f)(z)(v)[1])(x)
                ctx.expect(near(hv.flatten(), hw @ v.flatten(), 1e-10),
                           'reverse over forward gives {}', hv)
                hv = autograd.make_jvp(
                    lambda z: autograd.make_jvp(f)(z)(v)[1])(x)(v)[1]
                ctx.expect(near(hv, v.flatten() @ hw @ v.flatten(), 1e-10),
                           'forward over forward gives {}', hv)
                ctx.op(7)


def grouped_rules(ctx):
    from paragami.autograd_supplement_lib import grouped_sum
    x = np.arange(4.0)
    g = np.array([0, 1, 1, 3])
    bad = {
        'groups too short': lambda: grouped_sum(x, g[:3]),
        'groups too long': lambda: grouped_sum(x[:3], g),
        'groups 2d': lambda: grouped_sum(x, np.array([g])),
        'groups 2d column': lambda: grouped_sum(x, g[:, None]),
        'x transposed': lambda: grouped_sum(np.ones((2, 4)), g),
        'scalar group': lambda: grouped_sum(x, 0),
    }
    for m in range(0, 4):
        bad['num_groups {}'.format(m)] = lambda m=m: grouped_sum(
            x, g, num_groups=m)
        bad['num_groups {} 2d'.format(m)] = lambda m=m: grouped_sum(
            np.ones((4, 2)), g, m)
    for k in ctx.each('refused', sorted(bad)):
        with ctx.case('refused'):
            ctx.raises(ValueError, bad[k], k)
    with ctx.case('scalars'):
        ctx.expect(near(grouped_sum(2.5, 1), [0.0, 2.5], 0),
                   'scalars give {}', grouped_sum(2.5, 1))
    for gs in ctx.each('large groups', [
            [300], [0, 300], [255, 256], [128, 127, 128], [70000, 3],
            [65535, 65536, 65535], [32767, 32768], [40000, 1, 40000]]):
        for num in (None, 70010):
            with ctx.case('large groups'):
                import autograd
                y = data((len(gs),))
                want = ref_grouped(y, gs, num)
                for g in (np.array(gs), gs, tuple(gs),
                          np.array(gs, dtype='uint32'),
                          np.array(gs, dtype=float)):
                    got = grouped_sum(y, g, num)
                    ctx.expect(near(got, want, 1e-12), 'groups {}', g)
                    gr = autograd.grad(
                        lambda z: (grouped_sum(z, g, num) ** 2).sum())(y)
                    ctx.expect(near(gr, 2 * want[gs], 1e-12),
                               'the gradient with groups {} is {}', g, gr)
                    ctx.op(2)
    with ctx.case('many groups'):
        n = 300
        gs = [(7 * i) % 41 for i in range(n)]
        y = data((n, 3))
        ctx.expect(near(grouped_sum(y, np.array(gs)),
                        ref_grouped(y, gs, None), 1e-12), 'many groups')
        ctx.op()


def replacement(ctx, n):
    import autograd
    import autograd.numpy as anp
    from paragami.autograd_supplement_lib import replace
    w = np.array([0.5, -1.0, 2.0, 0.25, 1.5])[:n]

    def q(z):
        return anp.sum(w * z ** 3) + anp.sum(w * z) ** 2
    for inds in ctx.shard('indices {}'.format(n), [
            p for k in range(n + 1)
            for p in itertools.permutations(range(n), k)]):
        k = len(inds)
        forms = [('array', np.array(inds, dtype=int), inds),
                 ('list', list(inds), inds) if k else
                 ('int32', np.array(inds, dtype='int32'), inds)]
        if list(inds) == sorted(inds):
            mask = np.zeros(n, dtype=bool)
            mask[list(inds)] = True
            forms.append(('mask', mask, inds))
        if k:
            forms.append(('negative', np.array(inds) - n, inds))
        for tag, form, _ in ctx.each('form', forms):
            with ctx.case('replace'):
                ctx.state('replace', n, inds, tag)
                x, sub = data((n,), 1), data((k,), 2)
                want = x.copy()
                for j, i in enumerate(inds):
                    want[i] = sub[j]
                for lt, xl in S.layouts(x):
                    xk, sk = np.array(xl), sub.copy()
                    got = replace(sub, xl, form)
                    ctx.op()
                    ctx.expect(np.array_equal(got, want),
                               'replace({}, {}, {}) is {}, not {}', sub, xl,
                               form, got, want)
                    ctx.expect(np.array_equal(xl, xk) and
                               np.array_equal(sub, sk) and
                               not np.shares_memory(got, xl),
                               'the arguments changed or were returned')
                xi = np.arange(n)
                got = replace(sub, xi, form)
                wi = xi.astype(float)
                for j, i in enumerate(inds):
                    wi[i] = sub[j]
                ctx.expect(np.array_equal(got, wi), 'replacing in integers '
                           'gives {}, not {}', got, wi)
                for xo, so in ((x.astype('float32'), sub),
                               (x, (10 * sub).astype(int)),
                               (x > 0, sub > 0)):
                    wo = xo.astype(float)
                    for j, i in enumerate(inds):
                        wo[i] = so[j]
                    got = replace(so, xo, form)
                    ctx.expect(np.array_equal(got, wo), 'replace({}, {}, {}) '
                               'is {}, not {}', so, xo, form, got, wo)
                    ctx.op()
                # The selection matrices.
                s = np.zeros((n, k))
                for j, i in enumerate(inds):
                    s[i, j] = 1.0
                t = np.eye(n) - s @ s.T
                for arg, m in ((0, s), (1, t)):
                    if not k and arg == 0:
                        continue
                    args = [sub, x]

                    def fun(z):
                        a = list(args)
                        a[arg] = z
                        return replace(a[0], a[1], form)
                    z0 = args[arg]
                    v = data(z0.shape, 3)
                    jac = autograd.jacobian(fun)(z0)
                    ctx.expect(near(jac, m, 0), 'the Jacobian in argument {} '
                               'is {}, not {}', arg, jac, m)
                    val, dv = autograd.make_jvp(fun)(z0)(v)
                    ctx.expect(near(val, want, 0) and near(dv, m @ v, 1e-14),
                               'forward mode in argument {} gives {}, not {}',
                               arg, dv, m @ v)
                    g1 = 3 * w * want ** 2 + 2 * np.sum(w * want) * w
                    h1 = np.diag(6 * w * want) + 2 * np.outer(w, w)
                    f = lambda z: q(fun(z))
                    g = autograd.grad(f)(z0)
                    ctx.expect(near(g, m.T @ g1, 1e-10), 'the gradient is {}',
                               g)
                    h = autograd.hessian(f)(z0)
                    hw = m.T @ h1 @ m
                    ctx.expect(near(h, hw, 1e-10), 'the Hessian is {}, not '
                               '{}', h, hw)
                    hv = autograd.make_jvp(autograd.grad(f))(z0)(v)[1]
                    ctx.expect(near(hv, hw @ v, 1e-10), 'forward over '
                               'reverse gives {}', hv)
                    hv = autograd.make_jvp(
                        lambda z: autograd.make_jvp(f)(z)(v)[1])(z0)(v)[1]
                    ctx.expect(near(hv, v @ hw @ v, 1e-10), 'forward over '
                               'forward gives {}', hv)
                    third = autograd.grad(lambda z: anp.sum(
                        v * autograd.make_jvp(autograd.grad(f))(z)(v)[1]))(z0)
                    ctx.expect(near(third, m.T @ (6 * w * (m @ v) ** 2),
                                    1e-10), 'third order derivatives are {}',
                               third)
                    ctx.op(6)
                if k:
                    cross = autograd.jacobian(autograd.grad(
                        lambda a, b: q(replace(a, b, form)), 0), 1)(sub, x)
                    h1 = np.diag(6 * w * want) + 2 * np.outer(w, w)
                    ctx.expect(near(cross, s.T @ h1 @ t, 1e-10), 'the mixed '
                               'second derivative is {}', cross)
                    both = autograd.grad(
                        lambda z: q(replace(z[:k], z[k:], form)))(
                            np.concatenate([sub, x]))
                    g1 = 3 * w * want ** 2 + 2 * np.sum(w * want) * w
                    ctx.expect(near(both, np.concatenate(
                        [s.T @ g1, t.T @ g1]), 1e-10), 'the joint gradient '
                        'is {}', both)
                    ctx.op(2)


def run(ctx):
    for n in range(1, 7 if ctx.thorough else 6):
        for groups in ctx.shard('groups {}'.format(n), itertools.product(
                range(4 if n < 5 or ctx.thorough else 3), repeat=n)):
            grouped(ctx, groups)
    for _ in ctx.shard('rules', [0]):
        grouped_rules(ctx)
    for n in range(1, 6 if ctx.thorough else 5):
        replacement(ctx, n)
