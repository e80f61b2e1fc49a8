"""C03: every finite free vector folds to a value inside the constraints."""
import itertools
import math

import numpy as np

from mc import spec as S, universe as U

BOUNDS = {
    'patterns': 'every pattern of the universe plus size representatives',
    'free vectors': 'free length <= 2 (thorough: 3): full product of the '
                    'extreme-value alphabet; longer: constant, alternating, '
                    'every single and (length <= 8) double deviation; random '
                    'draws with every corner answer of the generator',
}
ASSUMPTIONS = [
    'free coordinates of positive-definite matrices are bounded by 300 in '
    'absolute value, so that no entry overflows double precision',
    'positive semi-definiteness is judged by eigenvalues to 1e-9 relative']

TINY = 2.2e-308
NUM = [0.0, 1.0, -1.0, 20.0, -20.0, 36.7, -36.7, 37.5, -37.5, 100.0, -100.0,
       709.7, -709.7, 710.5, -710.5, 746.0, -746.0, 1e4, -1e4, 1e308, -1e308,
       TINY, -TINY, 1e-16, -1e-16]
PSDL = [0.0, 1.0, -1.0, 5.0, -5.0, 37.0, -37.0, 150.0, -150.0, 300.0, -300.0,
        TINY, -1e-16]
SHORT = [0.0, 37.5, -37.5, 746.0, -746.0, 1.0, -1e308]
SHORTP = [0.0, 37.0, -37.0, 300.0, -300.0, 1.0]


def has_psd(spec):
    return any(type(c.spec) is S.Psd for c in S.components(spec))


def inside(ctx, spec, pat, value, what):
    ref = S.valid(spec, value, True, psd_check=True, simplex_tol=1e-12)
    if not ref:
        ctx.expect(False, '{} gave {}, outside the constraints', what, value)
    ok, msg = pat.validate_folded(value, validate_value=True)
    ctx.op()
    ctx.expect(bool(ok), '{} gave {}, which the pattern itself rejects: {}',
               what, value, msg)
    if has_psd(spec):
        for c in S.components(spec):
            if type(c.spec) is S.Psd:
                m = np.asarray(S.get(value, c.keys))[c.index]
                ctx.expect(bool(np.all(np.isfinite(m))),
                           '{} gave a matrix that is not finite: {}', what, m)


def fold_and_check(ctx, spec, pat, vec):
    ctx.state(S.name(spec), vec)
    value = pat.fold(vec, free=True)
    ctx.op()
    inside(ctx, spec, pat, value, 'folding free')
    # Values that saturate still flatten (non-free) and fold with validation.
    flat = pat.flatten(value, free=False, validate_value=True)
    back = pat.fold(flat, free=False, validate_value=True)
    ctx.op(2)
    ctx.expect(S.same(back, value), 'validated round trip of {} gave {}',
               value, back)


class Answers:
    """Stand-in for the random number generator: every call is answered with
    one of the corners of its range."""
    def __init__(self, kind):
        self.kind = kind
        self.count = 0

    def random(self, size=None):
        n = 1 if size is None else int(np.prod(size))
        hi = 1.0 - 2.0 ** -53
        out = np.empty(n)
        for i in range(n):
            k = self.kind
            out[i] = 0.0 if k == 'low' else hi if k == 'high' else \
                [0.0, hi][(i + self.count) % 2] if k == 'alternate' else \
                S.frac(i + self.count, 1)
        self.count += n
        return float(out[0]) if size is None else out.reshape(size)


def one_pattern(ctx, spec, big=False):
    pat = S.build(spec)
    n = S.length(spec, True)
    psd = has_psd(spec)
    letters = PSDL if psd else NUM
    if big and n > 3000 and not ctx.thorough:
        letters = [0.0, 1.0, 37.5, -37.5, -746.0, 1e308]
    for a in ctx.each('constant', letters):
        with ctx.case('constant free vector'):
            fold_and_check(ctx, spec, pat, np.full(n, a))
    for a, b in ctx.each('alternating', [(x, y) for x in letters[3:]
                                         for y in (0.0, -letters[3], x / 2)]):
        with ctx.case('alternating free vector'):
            vec = np.array([a if i % 2 else b for i in range(n)])
            fold_and_check(ctx, spec, pat, vec)
    with ctx.case('empty value'):
        v = pat.empty(valid=True)
        ctx.op()
        inside(ctx, spec, pat, v, 'empty(valid=True)')
        free = pat.flatten(v, free=True)
        ctx.op()
        ctx.expect(bool(np.all(np.isfinite(S.flatten(spec, v)))) and
                   bool(np.all(np.isfinite(free))), 'empty(valid=True) gave '
                   '{} with free vector {}', v, free)
        e = pat.empty(valid=False)
        ctx.op()
        ctx.expect(S.same(S.fold(spec, [0.0] * S.length(spec, False)),
                          zero_like(e)),
                   'empty(valid=False) has the wrong shape or keys: {}', e)
    for kind in ctx.each('random', ['low', 'high', 'alternate', 'spread', 1,
                                    2, 3]):
        with ctx.case('random value'):
            saved = np.random.random
            try:
                if isinstance(kind, str):
                    np.random.random = Answers(kind).random
                else:
                    np.random.seed(kind)
                v = pat.random()
            finally:
                np.random.random = saved
            ctx.op()
            inside(ctx, spec, pat, v, 'random()')
            ctx.expect(S.same(zero_like(v), S.fold(
                spec, [0.0] * S.length(spec, False))),
                'random() has the wrong shape or keys: {}', v)
    if big or n == 0:
        return
    if n <= (3 if ctx.thorough else 2):
        for vec in ctx.each('product', itertools.product(letters, repeat=n)):
            with ctx.case('extreme free vector'):
                fold_and_check(ctx, spec, pat, np.array(vec))
        return
    short = SHORTP if psd else SHORT
    if n <= 3:
        for vec in ctx.each('short product',
                            itertools.product(short, repeat=n)):
            with ctx.case('extreme free vector'):
                fold_and_check(ctx, spec, pat, np.array(vec))
    base = S.free_vec(spec, 0, 0.7)
    use = letters if n <= 12 else short
    devs = [((i, a),) for i in range(n) for a in use]
    if n <= 8:
        devs += [((i, a), (j, b)) for i in range(n) for j in range(i)
                 for a in short[1:5] for b in short[1:5]]
    for dev in ctx.each('deviation', devs):
        with ctx.case('extreme free vector'):
            vec = base.copy()
            for i, a in dev:
                vec[i] = a
            fold_and_check(ctx, spec, pat, vec)


def bound_grid():
    b = [0.0, 1e-9, 1e-3, 0.1, 1.0, 2.9, 8.0, 16.0, 100.0, 1e6, 1e9, 1e15]
    b = sorted([-x for x in b[1:]] + b)
    out = [(lo, hi) for lo, hi in itertools.combinations(b, 2)]
    out += [(x, S.INF) for x in b] + [(-S.INF, x) for x in b]
    # Neighbouring doubles, the ends of the range, integers.
    out += [(1.0, 1.0 + 2.0 ** -52), (-1e-300, 1e-300), (0.0, 5e-324),
            (1e300, 1e301), (-8e307, 8e307), (-1e308, S.INF),
            (-S.INF, 1e308), (0, 2 ** 31), (3, 4), (-7, -3), (0, 1)]
    # Bounds that adding one does not change.
    for x in (2.0 ** 52, 2.0 ** 53, 1e17, 1e30, 1e300, 10 ** 17):
        out += [(x, S.INF), (-x, S.INF), (-S.INF, x), (-S.INF, -x)]
    return out


def matrix_bound(ctx, lb):
    for spec in ctx.each('kind', [S.Psd(1, lb), S.Psd(3, lb),
                                  S.Arr((2,), S.Psd(2, lb)),
                                  S.D(('a', S.Psd(2, lb)))]):
        with ctx.case('empty value'):
            pat = S.build(spec)
            ctx.state(S.name(spec), 'bound')
            v = pat.empty(valid=True)
            inside(ctx, spec, pat, v, 'empty(valid=True)')
            ctx.expect(bool(np.all(np.isfinite(pat.flatten(v, free=True)))),
                       'empty(valid=True) gave {}', v)


def grid_pattern(ctx, lb, ub):
    for spec in ctx.each('kind', [S.Num((2,), lb, ub), S.Vec(1, lb, ub),
                                  S.Sca(lb, ub),
                                  S.Arr((2,), S.Sca(lb, ub)),
                                  S.D(('a', S.Vec(2, lb, ub)))]):
        pat = S.build(spec)
        with ctx.case('empty value'):
            ctx.state(S.name(spec), 'grid')
            v = pat.empty(valid=True)
            inside(ctx, spec, pat, v, 'empty(valid=True)')
            ctx.expect(bool(np.all(np.isfinite(S.flatten(spec, v)))),
                       'empty(valid=True) gave {}', v)
            # Unless no number is between the bounds.
            ctx.expect(np.nextafter(lb, ub) >= ub or bool(np.all(np.isfinite(
                pat.flatten(v, free=True)))), 'empty(valid=True) gave {}, '
                'whose free vector is not finite', v)
        for kind in ctx.each('random', ['low', 'high', 'alternate']):
            with ctx.case('random value'):
                saved = np.random.random
                try:
                    np.random.random = Answers(kind).random
                    v = pat.random()
                finally:
                    np.random.random = saved
                ctx.op()
                inside(ctx, spec, pat, v, 'random()')
        for a in ctx.each('constant', NUM):
            with ctx.case('constant free vector'):
                fold_and_check(ctx, spec, pat,
                               np.full(S.length(spec, True), a))


def zero_like(v):
    if isinstance(v, dict):
        import collections
        return collections.OrderedDict((k, zero_like(x)) for k, x in v.items())
    return np.zeros(np.asarray(v).shape)


def run(ctx):
    level = 2 if ctx.thorough else 1
    with np.errstate(all='ignore'):
        for spec in ctx.shard('pattern', U.universe(level)):
            one_pattern(ctx, spec)
        for lb, ub in ctx.shard('bounds', bound_grid()):
            grid_pattern(ctx, lb, ub)
        for lb in ctx.shard('matrix bound', [
                0.0, 1e-300, 0.5, 3, 1e15, 2.0 ** 52, 2.0 ** 53, 1e17,
                10 ** 17, 1e30, 1e300]):
            matrix_bound(ctx, lb)
        for spec in ctx.shard('large pattern', U.scale()):
            one_pattern(ctx, spec, big=True)
