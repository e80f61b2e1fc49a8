"""C06: Jacobians are the derivatives of the free <-> non-free maps."""
import math

import numpy as np
import scipy.sparse as sp

from mc import spec as S, universe as U
from checks.c02 import DELTAS, deep_edge
from mc.util import fd_jacobian, directional, near, max_err, scale_of

BOUNDS = {
    'patterns': 'every pattern of the universe plus size representatives',
    'values': '4 interior variants, values at distances 1e-3 ... 1e-290 '
              'from the constraints and 1e4 ... 1e12 from them, memory '
              'layouts, the same array object '
              'changed in place between calls; free vectors at 3 scales',
    'directions': 'every free coordinate (every pair product for the inverse '
                  'identity); for simplexes and bounded arrays also every '
                  'non-free coordinate',
}
ASSUMPTIONS = ['sixth-order central differences, tolerance 1e-6 of the '
               'largest entry of each component block']


def unfree_map(pat):
    def f(x):
        return np.asarray(pat.flatten(pat.fold(x, free=True), free=False,
                                      validate_value=False), dtype=float)
    return f


def dense(ctx, m, what):
    ctx.expect(isinstance(m, np.ndarray) and not isinstance(m, np.matrix) and
               m.ndim == 2, '{} is not a 2-d array: {}', what, m)
    return m


def jacobians(ctx, spec, pat, value):
    """Both Jacobians, sparse and dense, which must agree."""
    nf, n = S.length(spec, True), S.length(spec, False)
    out = []
    for mname, shape in (('freeing_jacobian', (nf, n)),
                         ('unfreeing_jacobian', (n, nf))):
        fn = getattr(pat, mname)
        a = fn(value, sparse=True)
        ctx.op()
        ctx.expect(sp.issparse(a), '{} sparse=True gave a {}', mname,
                   type(a).__name__)
        b = dense(ctx, fn(value, sparse=False), mname)
        d = fn(value)
        ctx.op(2)
        ctx.expect(sp.issparse(d), '{} by default gave a {}', mname,
                   type(d).__name__)
        ctx.expect(a.shape == shape and b.shape == shape and d.shape == shape,
                   '{} has shape {} / {} / {}, expected {}', mname, a.shape,
                   b.shape, d.shape, shape)
        ad, dd = a.toarray(), d.toarray()
        ctx.expect(near(ad, b, 1e-13) and near(dd, b, 1e-13),
                   '{}: sparse {} and dense {} differ', mname, ad, b)
        out.append(np.array(b, dtype=float))
    return out


def check_at(ctx, spec, pat, value, full=True, logdet=True):
    jf, ju = jacobians(ctx, spec, pat, value)
    nf, n = S.length(spec, True), S.length(spec, False)
    ctx.expect(bool(np.all(np.isfinite(jf)) and np.all(np.isfinite(ju))),
               'Jacobian is not finite')
    # Entries outside the diagonal blocks are exactly zero.
    mask = np.ones((nf, n), dtype=bool)
    comps = S.components(spec)
    for c in comps:
        mask[c.free0:c.free0 + c.freen, c.flat0:c.flat0 + c.flatn] = False
    ctx.expect(not np.any(jf[mask]), 'freeing Jacobian is not block diagonal:'
               ' {}', jf)
    ctx.expect(not np.any(ju.T[mask]), 'unfreeing Jacobian is not block '
               'diagonal: {}', ju)
    prod = jf @ ju
    ctx.expect(max_err(prod, np.eye(nf)) <= 1e-7,
               'freeing x unfreeing is not the identity: {}', prod)
    free = np.asarray(pat.flatten(value, free=True), dtype=float)
    f = unfree_map(pat)
    if full:
        num = fd_jacobian(f, free, 1e-2)
        ctx.op(nf)
        for c in comps:
            a = ju[c.flat0:c.flat0 + c.flatn, c.free0:c.free0 + c.freen]
            b = num[c.flat0:c.flat0 + c.flatn, c.free0:c.free0 + c.freen]
            tol = 1e-6 * max(1e-6, np.max(np.abs(b)))
            # Rounding of the difference quotient.
            tol += 1e-12 * bound_scale(c.spec)
            ctx.expect(max_err(a, b) <= tol,
                       'unfreeing Jacobian of {} is {}, the derivative is {}',
                       (c.keys, c.index), a, b)
        ambient(ctx, spec, pat, value, jf)
    else:
        for k in (1, 2, 3):
            v = np.array([((i * k) % 7 - 3) / 3.0 for i in range(nf)])
            num = directional(f, free, v, 1e-2)
            ctx.op()
            ctx.expect(near(ju @ v, num, 1e-6),
                       'unfreeing Jacobian is wrong along {}', v)
    if logdet:
        log_dets(ctx, spec, pat, value, jf, ju)
    ctx.state(S.name(spec), np.array(S.flatten(spec, value)))


def exact_blocks(comp, value):
    """The Jacobians of one component by hand: (unfreeing, freeing, and a
    bound on the cancellation in each)."""
    s = comp.spec
    v = np.asarray(S.get(value, comp.keys))[comp.index]
    if type(s) is S.Num:
        lo, hi = s.lb > -S.INF, s.ub < S.INF
        d = 1.0
        if lo and hi:
            d = (v - s.lb) * (s.ub - v) / (s.ub - s.lb)
        elif lo:
            d = v - s.lb
        elif hi:
            d = s.ub - v
        return np.array([[d]]), np.array([[1.0 / d]])
    if type(s) is S.Spx:
        p = np.array(v, dtype=float)
        k = s.k
        u = np.array([[p[i] * ((i == j) - p[j]) for j in range(1, k)]
                      for i in range(k)])
        # 1 - p without cancellation.
        for j in range(1, k):
            u[j, j - 1] = p[j] * math.fsum(
                p[i] for i in range(k) if i != j)
        f = np.zeros((k - 1, k))
        for j in range(1, k):
            f[j - 1, 0] = -1.0 / p[0]
            f[j - 1, j] = 1.0 / p[j]
        return u, f
    n = s.n
    chol = np.linalg.cholesky(np.array(v, dtype=float) - s.lb * np.eye(n))
    cols = []
    for i in range(n):
        for j in range(i + 1):
            dl = np.zeros((n, n))
            dl[i, j] = chol[i, i] if i == j else 1.0
            dm = dl @ chol.T
            cols.append((dm + dm.T).flatten())
    return np.array(cols).T, None


def exact(ctx, spec, pat, value):
    """Entry by entry against the formulas, to relative precision, in the
    sparse and in the dense form."""
    for sparse in (True, False):
        ju = pat.unfreeing_jacobian(value, sparse=sparse)
        jf = pat.freeing_jacobian(value, sparse=sparse)
        ctx.op(2)
        if sparse:
            ju, jf = ju.toarray(), jf.toarray()
        for c in S.components(spec):
            u, f = exact_blocks(c, value)
            flat = slice(c.flat0, c.flat0 + c.flatn)
            free = slice(c.free0, c.free0 + c.freen)
            rel = 1e-8 if type(c.spec) is S.Num else 1e-9
            # Rounding of 1 - p, and of the distance from a bound.
            slack = 0.0
            if type(c.spec) is S.Spx:
                slack = 1e-15
            elif type(c.spec) is S.Psd:
                # Reverse accumulation may add and take away a cotangent of
                # order one, depending on how the map is written.
                slack = 2e-15 * max(1.0, np.max(np.abs(u)))
            elif type(c.spec) is S.Num and (c.spec.lb and c.spec.ub):
                b = bound_scale(c.spec) * 1e-15
                slack = min(b, abs(u[0, 0]))
            a = ju[flat, free]
            ctx.expect(a.shape == u.shape and bool(np.all(
                np.abs(a - u) <= rel * np.abs(u) + slack)),
                'unfreeing Jacobian (sparse={}) of {} at {} is {}, not {}',
                sparse, (c.keys, c.index), value, a, u)
            a = jf[free, flat]
            if f is not None:
                tol = rel * np.abs(f)
                if slack and type(c.spec) is S.Num:
                    tol = tol + np.abs(f) * min(1.0, slack / abs(u[0, 0]))
                ctx.expect(a.shape == f.shape and bool(np.all(
                    np.abs(a - f) <= tol)),
                    'freeing Jacobian (sparse={}) of {} at {} is {}, not {}',
                    sparse, (c.keys, c.index), value, a, f)
            else:
                prod = a @ u
                ctx.expect(max_err(prod, np.eye(c.freen)) <= 1e-8,
                           'freeing x unfreeing (sparse={}) is {} for {}',
                           sparse, prod, value)
    ctx.state(S.name(spec), 'exact', np.array(S.flatten(spec, value)))


def far(spec, d):
    """Values at distance d from the bounds that they have, and in the corner
    of the others."""
    out = S.flatten(spec, S.interior(spec, 0))
    for c in S.components(spec):
        s = c.spec
        if type(s) is S.Num:
            lo, hi = s.lb > -S.INF, s.ub < S.INF
            if not (lo and hi):
                out[c.flat0] = (-1.0 if hi else 1.0) * d + (
                    s.lb if lo else s.ub if hi else 0.0)
        elif type(s) is S.Psd:
            m = np.array(out[c.flat0:c.flat0 + c.flatn]).reshape(s.n, s.n)
            m = d * (m - s.lb * np.eye(s.n)) + s.lb * np.eye(s.n)
            out[c.flat0:c.flat0 + c.flatn] = list(m.flatten())
    return S.fold(spec, out)


def bound_scale(s):
    m = 1.0
    for b in (getattr(s, 'lb', 0.0), getattr(s, 'ub', 0.0)):
        if abs(b) < S.INF:
            m = max(m, abs(b))
    return m


def ambient(ctx, spec, pat, value, jf):
    """For arrays and simplexes the freeing map is defined off the
    constraint set, and its Jacobian covers those directions too."""
    comps = [c for c in S.components(spec) if type(c.spec) is not S.Psd]
    flat = np.array(S.flatten(spec, value), dtype=float)
    for c in comps:
        for j in range(c.flatn):
            h = 1e-3 * max(1e-12, min(
                abs(flat[c.flat0 + j] - b) for b in
                (([0.0] if type(c.spec) is S.Spx else
                  [x for x in (c.spec.lb, c.spec.ub) if abs(x) < S.INF])
                 or [flat[c.flat0 + j] + 1.0])))

            def g(t):
                x = flat.copy()
                x[c.flat0 + j] += t[0]
                v = pat.fold(x, free=False, validate_value=False)
                return pat.flatten(v, free=True, validate_value=False)
            num = directional(g, np.zeros(1), np.ones(1), h)
            ctx.op()
            got = jf[:, c.flat0 + j]
            tol = 1e-6 * max(1e-9, np.max(np.abs(num))) + \
                1e-14 * bound_scale(c.spec) / h * max(
                    1.0, np.max(np.abs(num)))
            ctx.expect(max_err(got, num) <= tol,
                       'freeing Jacobian of {} column {} is {}, the '
                       'derivative is {}', (c.keys, c.index), j, got, num)


def numeric_only(spec):
    """The patterns for which log determinants are implemented."""
    t = type(spec)
    if t is S.Dct:
        return all(numeric_only(s) for _, s in spec.items)
    return t is S.Num


def log_dets(ctx, spec, pat, value, jf, ju):
    for mname, jac in (('log_abs_det_freeing_jacobian', jf),
                       ('log_abs_det_unfreeing_jacobian', ju)):
        if not numeric_only(spec):
            continue
        got = getattr(pat, mname)(value)
        ctx.op()
        ref = float(np.sum(np.log(np.abs(np.diag(jac))))) if jac.size else 0.0
        ctx.expect(np.ndim(got) == 0 and abs(got - ref) <= 1e-8 * max(
            1.0, abs(ref)), '{} is {}, expected {}', mname, got, ref)


def one_pattern(ctx, spec, big=False):
    pat = S.build(spec)
    for v in ctx.each('interior', [0] if big else [0, 1, 2, 3]):
        with ctx.case('interior value'):
            check_at(ctx, spec, pat, S.interior(spec, v), full=not big and (
                v < 2 or ctx.thorough))
    if big:
        return
    for v in ctx.each('formula', [0, 3]):
        with ctx.case('formula'):
            exact(ctx, spec, pat, S.interior(spec, v))
    for w in ctx.each('deep edge', range(2 * len(DELTAS))):
        with ctx.case('close to the constraints'):
            exact(ctx, spec, pat, S.fold(spec, deep_edge(spec, w)[0]))
    for d in ctx.each('far', [1e4, 1e9, 1e12]):
        with ctx.case('far from the constraints'):
            exact(ctx, spec, pat, far(spec, d))
    for sc in ctx.each('free scale', [0.5, 2.0, 3.5]):
        with ctx.case('folded free vector'):
            vec = S.free_vec(spec, 2, sc)
            check_at(ctx, spec, pat, pat.fold(vec, free=True),
                     full=sc == 2.0 or ctx.thorough)
    for tag, val in ctx.each('layout', S.vlayouts(S.interior(spec, 2))):
        with ctx.case('memory layout'):
            check_at(ctx, spec, pat, val, full=False)
    # The same objects, changed in place between calls.
    with ctx.case('changed in place'):
        val = S.interior(spec, 0)
        for variant in (0, 1, 2, 0):
            new = S.interior(spec, variant)
            for keys, s in S.arrays(spec):
                S.get(val, keys)[...] = S.get(new, keys)
            a = jacobians(ctx, spec, pat, val)
            b = jacobians(ctx, spec, S.build(spec), new)
            ctx.expect(near(a[0], b[0], 1e-12) and near(a[1], b[1], 1e-12),
                       'the Jacobian does not follow a change in place')


def run(ctx):
    level = 2 if ctx.thorough else 1
    for spec in ctx.shard('pattern', U.universe(level)):
        one_pattern(ctx, spec)
    for spec in ctx.shard('large pattern', U.scale()):
        if S.length(spec, False) > 1100 or spec == S.Psd(33):
            continue
        one_pattern(ctx, spec, big=True)
