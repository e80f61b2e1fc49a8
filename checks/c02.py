"""C02: free flattening and free folding are mutual inverses, block by block."""
import itertools

import numpy as np

from mc import spec as S, universe as U

BOUNDS = {
    'patterns': 'every pattern of the universe plus size representatives',
    'values': 'interior values, values at distances 1e-6 and 1e-3 ... '
              '1e-290 from the constraints, all '
              'memory layouts; free vectors at 4 scales, coordinates up to '
              '300 as far as doubles can represent their images, and, for free length '
              '<= 3, the full product of 7 (thorough: 11) letters per '
              'coordinate; for longer ones every single and double deviation',
}
ASSUMPTIONS = ['relative tolerance 1e-7 against the scale of each component']


def comp_spec(comp):
    s = comp.spec
    if type(s) is S.Num:
        return S.Num((1,), s.lb, s.ub, s.dv)
    if type(s) is S.Spx:
        return S.Spx(s.k, (1,), s.dv)
    return s


def comp_value(comp, value):
    v = np.asarray(S.get(value, comp.keys))[comp.index]
    return np.array(v, dtype=float).reshape(S.shape(comp_spec(comp)))


def tolerance(spec, value):
    """Per-entry tolerance of a folded value (flat)."""
    tol = np.empty(S.length(spec, False))
    flat = np.array(S.flatten(spec, value), dtype=float)
    for c in S.components(spec):
        sl = slice(c.flat0, c.flat0 + c.flatn)
        m = 1.0
        if flat[sl].size:
            m = max(1e-3, np.max(np.abs(flat[sl])))
        if type(c.spec) is S.Num:
            for b in (c.spec.lb, c.spec.ub):
                if abs(b) < S.INF:
                    m = max(m, abs(b))
        elif type(c.spec) is S.Psd:
            m = max(m, c.spec.lb)
        tol[sl] = 1e-8 * m
    return tol


def near_edge(spec, which):
    """Valid values close to (but inside) the constraints."""
    flat = [None] * S.length(spec, False)
    for c, comp in enumerate(S.components(spec)):
        s = comp.spec
        if type(s) is S.Num:
            lo, hi = s.lb > -S.INF, s.ub < S.INF
            if lo and hi:
                w = s.ub - s.lb
                v = [s.lb + 1e-6 * w if (c + which) % 2 else s.ub - 1e-6 * w]
            elif lo:
                v = [s.lb + (1e-6 if (c + which) % 2 else 1e6)]
            elif hi:
                v = [s.ub - (1e-6 if (c + which) % 2 else 1e6)]
            else:
                v = [1e-9 if (c + which) % 2 else -1e9]
        elif type(s) is S.Spx:
            w = [1e-7] * s.k
            w[(c + which) % s.k] = 1.0
            v = S.simplex_exact(w)
        else:
            m = S.pd_matrix(s.n, 0.0, c, which)
            d = np.array([10.0 ** (2 * ((i + which) % 3 - 1))
                          for i in range(s.n)])
            m = m * d[:, None] * d[None, :]
            m = 0.5 * (m + m.T) + s.lb * np.eye(s.n)
            v = list(m.flatten())
        flat[comp.flat0:comp.flat0 + comp.flatn] = list(v)
    return S.fold(spec, flat)


def round_trip(ctx, spec, pat, value, decomp):
    flat = pat.flatten(value, free=True)
    ctx.op()
    n = S.length(spec, True)
    ctx.expect(isinstance(flat, np.ndarray) and flat.shape == (n,),
               'free vector {} does not have length {}', flat, n)
    ctx.expect(bool(np.all(np.isfinite(flat))),
               'free vector {} is not finite for {}', flat, value)
    back = pat.fold(flat, free=True)
    ctx.op()
    a = np.array(S.flatten(spec, back), dtype=float)
    b = np.array(S.flatten(spec, value), dtype=float)
    ctx.expect(S.same(S.fold(spec, a), back),
               'free fold gave the wrong shape or keys: {}', back)
    ctx.expect(bool(np.all(np.abs(a - b) <= tolerance(spec, value))),
               'value {} became {}', value, back)
    if decomp:
        for comp in S.components(spec):
            cp = S.build(comp_spec(comp))
            cf = cp.flatten(comp_value(comp, value), free=True)
            ctx.op()
            mine = flat[comp.free0:comp.free0 + comp.freen]
            ctx.expect(S.close(mine, cf, 1e-9, 1e-9),
                       'component {} has free coordinates {}, alone it has {}',
                       (comp.keys, comp.index), mine, cf)
            cb = cp.fold(mine, free=True)
            ctx.op()
            ctx.expect(S.close(
                comp_value(comp, back), cb, 1e-9, 1e-12 + 1e-9 * np.max(np.abs(cb))),
                'component {} folds to {}, alone to {}',
                (comp.keys, comp.index), comp_value(comp, back), cb)
    return flat


def free_round_trip(ctx, spec, pat, vec):
    ref = np.array(vec, dtype=float)
    value = pat.fold(vec, free=True)
    ctx.op()
    # Rounding (a simplex sum may be one ulp off) must not make this fail.
    back = pat.flatten(value, free=True)
    ctx.op()
    ctx.expect(isinstance(back, np.ndarray) and back.shape == ref.shape,
               'free vector {} came back as {}', ref, back)
    ctx.expect(S.close(back, ref, 1e-6, 1e-6),
               'free vector {} came back as {} (folded {})', ref, back, value)


EPS = 2.0 ** -52
DELTAS = [1e-3, 1e-5, 1e-8, 1e-11, 1e-14, 1e-20, 1e-60, 1e-150, 1e-290]
WIDE = [-8.0, 12.0, -20.0, 25.0, -34.0, 45.0, -90.0, 150.0, -300.0, 300.0]


def deep_edge(spec, which):
    """Valid values at distance delta from the constraints, where delta
    steps through DELTAS as far as the bound's own magnitude lets the
    distance be represented; returns (flat values, per-entry tolerance)."""
    flat = [None] * S.length(spec, False)
    tol = [None] * len(flat)
    for c, comp in enumerate(S.components(spec)):
        s = comp.spec
        delta = DELTAS[(c + which) % len(DELTAS)]
        if type(s) is S.Num:
            lo, hi = s.lb > -S.INF, s.ub < S.INF
            side = -1 if hi and (not lo or (c + which // 2) % 2) else 1
            if not lo and not hi:
                v = [delta if (c + which) % 2 else -1.0 / max(delta, 1e-150)]
                t = [0.0]
            else:
                b = s.lb if side > 0 else s.ub
                w = s.ub - s.lb if lo and hi else 1.0
                d = max(delta * w, 1e-9 * abs(b))
                if lo and hi:
                    # The other bound takes part in the arithmetic.
                    d = max(d, 1e-290)
                    t = [1e-10 * d + (64 * EPS * max(
                        abs(s.lb), abs(s.ub)) if b != 0 else 0.0)]
                else:
                    t = [1e-10 * d + 16 * EPS * abs(b)]
                v = [b + side * d]
        elif type(s) is S.Spx:
            d = min(delta, 1e-3)
            v = [d * (1 + 0.25 * j) for j in range(s.k)]
            k = (c + which) % s.k
            v[k] = 0.0
            v[k] = 1.0 - sum(v)
            t = [1e-10 * x for x in v]
        else:
            d = [DELTAS[(c + which + 2 * i) % len(DELTAS)]
                 for i in range(s.n)]
            if s.lb:
                d = [max(x, 1e-9 * s.lb) for x in d]
            m = np.diag([s.lb + x for x in d])
            v = list(m.flatten())
            t = list((np.diag([1e-10 * x + 16 * EPS * s.lb
                               for x in d])).flatten())
        flat[comp.flat0:comp.flat0 + comp.flatn] = v
        tol[comp.flat0:comp.flat0 + comp.flatn] = t
    return flat, np.array(tol, dtype=float)


def wide_free(spec, which):
    """A free vector with large coordinates and the precision to which the
    folded value, being a double, can give each of them back."""
    n = S.length(spec, True)
    vec, tol = np.zeros(n), np.full(n, 1e-9)
    for c, comp in enumerate(S.components(spec)):
        s = comp.spec
        sl = slice(comp.free0, comp.free0 + comp.freen)
        x = WIDE[(c + which) % len(WIDE)]
        if type(s) is S.Num:
            lo, hi = s.lb > -S.INF, s.ub < S.INF
            if lo and hi:
                # Representable only near a bound that is zero.
                b = s.lb if x < 0 else s.ub
                while abs(x) > 12 and b != 0:
                    x /= 2
                d = (s.ub - s.lb) * np.exp(-abs(x))
                tol[sl] += 0 if b == 0 else \
                    64 * EPS * max(abs(s.lb), abs(s.ub)) / d
            elif lo or hi:
                b, e = (s.lb, x) if lo else (s.ub, -x)
                while e < -12 and b != 0:
                    x, e = x / 2, e / 2
                tol[sl] += 16 * EPS * abs(b) / np.exp(e)
            vec[sl] = x
        elif type(s) is S.Spx:
            vec[sl] = [WIDE[(c + which + 3 * j) % len(WIDE)]
                       for j in range(comp.freen)]
        else:
            k = 0
            for i in range(s.n):
                for j in range(i + 1):
                    if i == j:
                        x = WIDE[(c + which + i) % len(WIDE)]
                        while x < -6 and s.lb:
                            x /= 2
                        vec[comp.free0 + k] = x
                        tol[comp.free0 + k] += \
                            16 * EPS * s.lb / np.exp(2 * x)
                    k += 1
    return vec, tol


def extremes(ctx, spec, pat):
    for w in ctx.each('deep edge', range(len(DELTAS) * 2)):
        with ctx.case('very close to the constraints'):
            flat, tol = deep_edge(spec, w)
            val = S.fold(spec, flat)
            ctx.state(S.name(spec), 'edge', val)
            free = pat.flatten(val, free=True)
            ctx.op()
            ctx.expect(bool(np.all(np.isfinite(free))),
                       'free vector {} is not finite for {}', free, val)
            back = pat.fold(free, free=True)
            ctx.op()
            b = np.array(S.flatten(spec, back), dtype=float)
            ctx.expect(bool(np.all(np.abs(b - np.array(flat)) <= tol)),
                       'value {} became {}', val, back)
    for w in ctx.each('wide', range(len(WIDE))):
        with ctx.case('large free coordinates'):
            vec, tol = wide_free(spec, w)
            ctx.state(S.name(spec), 'wide', vec)
            back = pat.flatten(pat.fold(vec, free=True), free=True)
            ctx.op(2)
            ctx.expect(back.shape == vec.shape and bool(np.all(
                np.abs(back - vec) <= tol * (1 + np.abs(vec)))),
                'free vector {} came back as {}', vec, back)


def one_pattern(ctx, spec, big=False):
    pat = S.build(spec)
    n = S.length(spec, True)
    ctx.state(S.name(spec))
    for v in ctx.each('interior', [0] if big else [0, 1, 2, 3]):
        with ctx.case('interior value'):
            val = S.interior(spec, v)
            ctx.state(S.name(spec), val)
            round_trip(ctx, spec, pat, val, v < 2 and not (big and n > 1500))
    if not big:
        for tag, val in ctx.each('layout', S.vlayouts(S.interior(spec, 1))):
            with ctx.case('memory layout'):
                f = round_trip(ctx, spec, pat, val, False)
                g = pat.flatten(S.interior(spec, 1), free=True)
                ctx.expect(S.close(f, g, 1e-9, 1e-9),
                           'layout changes the free vector {} to {}', g, f)
        for w in ctx.each('near edge', [0, 1, 2]):
            with ctx.case('near the constraints'):
                val = near_edge(spec, w)
                ctx.state(S.name(spec), val)
                round_trip(ctx, spec, pat, val, w == 0)
    for sc in ctx.each('scale', [0.1, 1.5] if big else [0.1, 1.0, 2.5, 4.0]):
        for tag, vec in ctx.each('free layout', S.layouts(
                S.free_vec(spec, 1, sc)) + [
                    ('list', list(S.free_vec(spec, 2, sc)))]):
            with ctx.case('free vector'):
                ctx.state(S.name(spec), 'f', np.array(vec, dtype=float))
                free_round_trip(ctx, spec, pat, vec)
    if big:
        return
    extremes(ctx, spec, pat)
    letters = [0.0, -4.0, 0.5, 3.0, -1.0, 1.0, -0.25]
    if ctx.thorough:
        letters += [2.0, -2.5, 5.0, 1e-7]
    if 0 < n <= (4 if ctx.thorough else 3):
        for vec in ctx.each('free product',
                            itertools.product(letters, repeat=n)):
            with ctx.case('free vector'):
                ctx.state(S.name(spec), 'f', vec)
                free_round_trip(ctx, spec, pat, np.array(vec))
    elif n <= 40:
        base = S.free_vec(spec, 0, 0.7)
        devs = [((i, a),) for i in range(n) for a in letters]
        if n <= 12:
            devs += [((i, a), (j, b)) for i in range(n) for j in range(i)
                     for a in letters[1:4] for b in letters[1:4]]
        for dev in ctx.each('deviation', devs):
            with ctx.case('free vector'):
                vec = base.copy()
                for i, a in dev:
                    vec[i] = a
                ctx.state(S.name(spec), 'f', vec)
                free_round_trip(ctx, spec, pat, vec)


def run(ctx):
    level = 2 if ctx.thorough else 1
    for spec in ctx.shard('pattern', U.universe(level)):
        one_pattern(ctx, spec)
    for spec in ctx.shard('large pattern', U.scale()):
        one_pattern(ctx, spec, big=True)
