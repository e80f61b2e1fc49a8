"""C11: functions with transformed inputs."""
import copy
import itertools

import numpy as np

from mc import spec as S
from mc.util import snapshot

BOUNDS = {
    'wrappers': '1 to 3 patterns at every choice and order of argument '
                'positions 0..3 (40 arrangements), every combination of free '
                'flags, both directions, 0 to 7 further arguments of 11 '
                'kinds, keyword arguments, up to 6 patterns at positions up '
                'to 12, every container type for argnums; the '
                'convenience subclasses; nested wrappers',
    'histories': 'each wrapper is called 3 times with different arguments, '
                 'with a failing call in between; all histories of 3 '
                 '(thorough 4) operations on two wrappers of one function: '
                 'calls, arguments changed in place, the lists given at '
                 'construction changed, refused calls, equal copies',
}
ASSUMPTIONS = ['argument positions are non-negative']

PATS = [S.Num((2,), 0.0, S.INF), S.Psd(2, 0.5),
        S.D(('b', S.Sca(0.0, 1.0)), ('a', S.Spx(3, (1,))))]


TOL = 1e-12     # repeated floating point evaluation may differ in the last bit


class Sentinel:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return '<arg {}>'.format(self.n)


def other(n):
    """Something to pass through untouched: its identity is checked."""
    if not isinstance(n, int):
        return Sentinel(n)
    return [Sentinel(n), None, np.array([1.0, 2.0]), (), [], 0, {}, 'text',
            np.array([[0.5]]), (1, 2), False][n % 11]


# Names that the library uses itself are no different from others.
KEYWORDS = ('kwarg', 'free', 'validate_value', 'patterns', 'argnums',
            'original_fun', 'original_is_flat', 'fun', 'retnums', 'x', 'args',
            'kwargs', 'flat_val', 'folded_val', 'default', 'sparse', 'argnum')


def recorder(*args, **kwargs):
    return ('called', args, kwargs)


def expected(real, spec, orig_flat, free, arg):
    return real.flatten(arg, free=free) if orig_flat else real.fold(
        arg, free=free)


def argument(real, spec, orig_flat, free, variant):
    v = S.interior(spec, variant)
    return v if orig_flat else real.flatten(v, free=free)


def same_arg(spec, orig_flat, got, want):
    if orig_flat:
        return isinstance(got, np.ndarray) and S.close(got, want, TOL, TOL)
    return S.same(got, want, False, TOL, TOL)


def check_call(ctx, wrapped, specs, real, frees, argnums, orig_flat, nargs,
               variant, kw):
    args, want = [], []
    at = {a: i for i, a in enumerate(argnums)}
    for pos in range(nargs):
        if pos in at:
            i = at[pos]
            a = argument(real[i], specs[i], orig_flat, frees[i], variant + i)
            args.append(a)
            want.append(expected(real[i], specs[i], orig_flat, frees[i], a))
        else:
            s = other(pos + variant)
            args.append(s)
            want.append(s)
    before = [snapshot(a) for a in args]
    ret = wrapped(*args, **kw)
    ctx.op()
    ctx.expect(isinstance(ret, tuple) and len(ret) == 3 and
               ret[0] == 'called', 'the call returned {}', ret)
    got = ret[1]
    ctx.expect(len(got) == nargs, 'called with {} arguments, not {}',
               len(got), nargs)
    ctx.expect(set(ret[2]) == set(kw) and all(ret[2][k] is kw[k] for k in kw),
               'keyword arguments became {}', ret[2])
    for pos in range(nargs):
        if pos in at:
            i = at[pos]
            ctx.expect(same_arg(specs[i], orig_flat, got[pos], want[pos]),
                       'argument {} became {}, expected {}', pos, got[pos],
                       want[pos])
        else:
            ctx.expect(got[pos] is args[pos],
                       'argument {} became {}, expected {}', pos, got[pos],
                       args[pos])
    ctx.expect(before == [snapshot(a) for a in args],
               'the call changed its arguments')


def make(kind, specs, frees, argnums, orig_flat, fun=recorder):
    import paragami
    # Free defaults that agree with, contradict or say nothing about the flags.
    real = [S.build(s._replace(fd=(None, False, True)[(kind + i) % 3]))
            for i, s in enumerate(specs)]
    pats = real if len(real) > 1 or kind % 2 else real[0]
    nums = [list(argnums), tuple(argnums), np.array(argnums, dtype=int),
            list(argnums)][kind % 4]
    if len(argnums) == 1 and kind % 2 == 0:
        nums = argnums[0]
    fr = list(frees) if len(set(frees)) > 1 or kind % 3 else frees[0]
    if kind % 3 == 2:
        fr = np.array(frees)
    cls = paragami.FoldFunctionInput if orig_flat else \
        paragami.FlattenFunctionInput
    if kind % 4 < 2:
        w = paragami.TransformFunctionInput(
            original_fun=fun, patterns=pats, free=fr, argnums=nums,
            original_is_flat=orig_flat)
    else:
        w = cls(fun, pats, fr, nums)
    return w, real


def arrangements(maxpos):
    for n in (1, 2, 3):
        for nums in itertools.permutations(range(maxpos), n):
            yield nums


def run(ctx):
    import paragami
    maxpos = 5 if ctx.thorough else 4
    for nums in ctx.shard('argnums', arrangements(maxpos)):
        n = len(nums)
        for pats in ctx.each('patterns', itertools.product(range(3), repeat=n)
                             if n < 3 or ctx.thorough
                             else itertools.permutations(range(3))):
            specs = [PATS[i] for i in pats]
            for frees in ctx.each('free', itertools.product(
                    (False, True), repeat=n)):
                for orig_flat in ctx.each('original_is_flat', (False, True)):
                    for kind in ctx.each('construction', range(
                            12 if n < 3 or ctx.thorough else 4)):
                        with ctx.case('calls'):
                            ctx.state(nums, pats, frees, orig_flat, kind)
                            w, real = make(kind, specs, frees, nums,
                                           orig_flat)
                            top = max(nums) + 1
                            kw = {k: Sentinel(k) for k in KEYWORDS}
                            for extra, k in ((0, {}), (1, kw), (2, {}),
                                             (7, kw)):
                                check_call(ctx, w, specs, real, frees, nums,
                                           orig_flat, top + extra, extra, k)
                            # Too few arguments.
                            ctx.raises(Exception, lambda: w(
                                *[Sentinel(i) for i in range(top - 1)]),
                                'too few arguments')
                            check_call(ctx, w, specs, real, frees, nums,
                                       orig_flat, top, 3, kw)
                            str(w)
    # More patterns and positions farther apart.
    far = [(7, 2), (0, 9), (3, 11, 6), (8, 0, 5, 2), (5, 4, 3, 2, 1, 0),
           (0, 1, 2, 3, 4, 5), (10, 0, 9, 1, 8, 2), (12,), (1, 0, 3, 2, 5, 4),
           (2, 0, 1, 5, 3, 4)]
    for nums in ctx.shard('far positions', far):
        for frees in ctx.each('free', itertools.product(
                (False, True), repeat=len(nums))):
            for orig_flat in ctx.each('original_is_flat', (False, True)):
                for rot in ctx.each('patterns', range(3)):
                    with ctx.case('far positions'):
                        specs = [PATS[(i + rot) % 3]
                                 for i in range(len(nums))]
                        ctx.state('far', nums, frees, orig_flat, rot)
                        w, real = make(3, specs, frees, nums, orig_flat)
                        top = max(nums) + 1
                        for extra in (0, 1, 9):
                            kw = {'k{}'.format(i): other(i)
                                  for i in range(extra)}
                            check_call(ctx, w, specs, real, frees, nums,
                                       orig_flat, top + extra, extra, kw)
    for p in ctx.shard('rules', [0]):
        rules(ctx)
    for pair in ctx.shard('histories', itertools.product(range(3), range(3),
                                                         (False, True))):
        for frees in ctx.each('free', itertools.product((False, True),
                                                        repeat=2)):
            for hist in ctx.each('history', itertools.product(
                    range(7), repeat=4 if ctx.thorough else 3)):
                for arrays in ctx.each(
                        'arrays', (False, True) if 4 in hist else (False,)):
                    with ctx.case('histories'):
                        ctx.state('history', pair, frees, hist, arrays)
                        history(ctx, pair, frees, hist, arrays)
    for spec in ctx.shard('composition', PATS):
        compose(ctx, spec)
    for k in ctx.shard('default positions', (1, 2, 3)):
        for frees in ctx.each('free', itertools.product((False, True),
                                                        repeat=k)):
            for orig_flat in ctx.each('original_is_flat', (False, True)):
                with ctx.case('default positions'):
                    specs = PATS[:k]
                    real = [S.build(s) for s in specs]
                    cls = paragami.FoldFunctionInput if orig_flat else \
                        paragami.FlattenFunctionInput
                    for w in (cls(recorder, real, list(frees)),
                              cls(recorder, real, list(frees), None),
                              paragami.TransformFunctionInput(
                                  recorder, real, list(frees), orig_flat)):
                        for extra in (0, 2):
                            check_call(ctx, w, specs, real, frees,
                                       tuple(range(k)), orig_flat, k + extra,
                                       extra, {})


def nudge(x):
    """Change a valid value in place to another valid value."""
    if isinstance(x, dict):
        for v in x.values():
            nudge(v)
    elif x.ndim == 2 and x.shape[-1] == 2:
        x += 0.25 * np.eye(2)
    elif x.shape[-1:] == (3,):
        x[...] = x[..., ::-1].copy()
    elif x.size == 1:
        x[...] = 0.5 * x + 0.25
    else:
        x += 0.25


def stored(items, arrays):
    """A list of the items, or a numpy array of them."""
    if not arrays:
        return list(items)
    kind = type(items[0]) if isinstance(items[0], (bool, int)) else object
    out = np.empty(len(items), kind)
    for k, item in enumerate(items):
        out[k] = item
    return out


def history(ctx, pair, frees, hist, arrays):
    """Two wrappers of one function share arguments that change in place."""
    import paragami
    i, j, orig_flat = pair
    cls = paragami.FoldFunctionInput if orig_flat else \
        paragami.FlattenFunctionInput
    specs = (PATS[i], PATS[j])
    lists = [stored([S.build(s)], arrays) for s in specs]
    flags = [stored([f], arrays) for f in frees]
    nums = [stored([n], arrays) for n in (0, 1)]
    ws = [cls(recorder, lists[k], flags[k], nums[k]) for k in (0, 1)]
    fresh = [S.build(s) for s in specs]
    vals = [S.interior(s, k) for k, s in enumerate(specs)]
    args = [v if orig_flat else fresh[k].flatten(v, free=frees[k])
            for k, v in enumerate(vals)]
    kws = {'a': 1, 'none': None}
    for op in hist:
        if op == 0 or op == 1:
            at = [args[op], Sentinel(0)][::1 if op == 0 else -1]
            want = expected(fresh[op], specs[op], orig_flat, frees[op],
                            args[op])
            got = ws[op](*at, **kws)
            ctx.expect(same_arg(specs[op], orig_flat, got[1][op], want),
                       'argument {} became {}, expected {}', op, got[1][op],
                       want)
            ctx.expect(got[1][1 - op] is at[1 - op] and len(got[1]) == 2 and
                       got[2] == kws, 'called with {}', got)
        elif op == 2 or op == 3:
            # The argument changes in place.
            k = op - 2
            if orig_flat:
                nudge(args[k])
            else:
                v = fresh[k].fold(args[k], free=frees[k])
                nudge(v)
                args[k][:] = fresh[k].flatten(v, free=frees[k])
        elif op == 4:
            # The lists (or arrays) given at construction change.
            for k in (0, 1):
                flags[k][0] = not flags[k][0]
                nums[k][0] = 1 - nums[k][0]
                lists[k][0] = S.build(S.Vec(7))
        elif op == 5:
            ctx.raises(Exception, lambda: ws[0](np.full((2, 3, 5), 0.5), 1),
                       'an argument of the wrong shape')
            ctx.raises(Exception, lambda: ws[1](1), 'too few arguments')
        else:
            # Another array that holds the same numbers.
            args = [copy.deepcopy(a) for a in args]
        ctx.op()
    # Both wrappers around each other, with one object in both places.
    if i == j and frees[0] == frees[1]:
        one = args[0]
        both = cls(recorder, [fresh[0], fresh[1]], list(frees), [2, 0])
        want = expected(fresh[0], specs[0], orig_flat, frees[0], one)
        got = both(one, one, one)[1]
        ctx.expect(same_arg(specs[0], orig_flat, got[0], want) and
                   same_arg(specs[0], orig_flat, got[2], want) and
                   got[1] is one, 'the same argument thrice became {}', got)


def rules(ctx):
    """Refused constructions, and errors that must reach the caller."""
    import paragami
    p = [S.build(s) for s in PATS]
    T = paragami.TransformFunctionInput
    bad = {
        'duplicate argnums': lambda: T(recorder, p[:2], True, False, [1, 1]),
        'duplicate argnums 3': lambda: T(recorder, p, True, False, [0, 2, 0]),
        'too few argnums': lambda: T(recorder, p, True, False, [0, 1]),
        'too many argnums': lambda: T(recorder, p[:1], True, False, [0, 1]),
        'scalar argnums': lambda: T(recorder, p[:2], True, False, 0),
        '2d patterns': lambda: T(recorder, [p[:2], p[:2]], True, False,
                                 [0, 1]),
        '2d argnums': lambda: T(recorder, p[:2], True, False, [[0], [1]]),
        'too many free': lambda: T(recorder, p[:2], [True] * 3, False, [0, 1]),
        'too few free': lambda: T(recorder, p, [True] * 2, False, [0, 1, 2]),
        'fold': lambda: paragami.FoldFunctionInput(recorder, p[:2], True,
                                                   [2, 2]),
        'flatten': lambda: paragami.FlattenFunctionInput(recorder, p[:2], True,
                                                         [2]),
    }
    for k in ctx.each('refused', sorted(bad)):
        with ctx.case('refused'):
            ctx.raises(ValueError, bad[k], k)

    class Own(Exception):
        pass

    def failing(*args, **kw):
        raise Own()
    for orig_flat in ctx.each('original_is_flat', (False, True)):
        with ctx.case('errors of the function'):
            w = T(failing, p[0], True, orig_flat, 0)
            ctx.raises(Own, lambda: w(np.array([0.5, 2.0])), 'the function')
    for q in ctx.each('positions', [(0, 1, 0), (1, 0, 2, 1), (3, 1, 2, 3),
                                    (2, 0, 1, 0), (5, 5), (0, 9, 0)]):
        with ctx.case('repeated positions'):
            for nums in (list(q), q, np.array(q)):
                ctx.raises(ValueError, lambda: T(
                    recorder, [p[0]] * len(q), True, False, nums),
                    'repeated positions')
    with ctx.case('invalid values'):
        calls = []

        def noted(*a):
            calls.append(a)
        w = T(noted, p[0], False, False, 0)
        ctx.raises(ValueError, lambda: w(np.array([-1.0, 2.0])),
                   'folding an invalid value')
        ctx.raises(ValueError, lambda: w(np.array([1.0])), 'wrong length')
        w = T(noted, p[0], False, True, 0)
        ctx.raises(ValueError, lambda: w(np.array([-1.0, 2.0])),
                   'flattening an invalid value')
        ctx.expect(calls == [], 'the function was called with {}', calls)
    for fd in ctx.each('free_default', (True, False)):
        with ctx.case('default free'):
            q = S.build(PATS[0]._replace(fd=fd))
            w = T(recorder, q, None, False, 0)
            x = np.array([0.5, 2.0])
            ctx.expect(S.close(w(x)[1][0], q.fold(x), TOL, TOL),
                       'free=None gave {}', w(x))


def compose(ctx, spec):
    """Flattening then folding the input is the original function."""
    import paragami
    for free in ctx.each('free', (False, True)):
        for pos in ctx.each('position', (0, 1, 2)):
            with ctx.case('composition'):
                p = S.build(spec)
                ctx.state('compose', S.name(spec), free, pos)
                flat_f = paragami.FlattenFunctionInput(recorder, p, free, pos)
                fold_f = paragami.FoldFunctionInput(flat_f, p, free, pos)
                v = S.interior(spec, 2)
                args = [Sentinel(i) for i in range(4)]
                args[pos] = v
                got = fold_f(*args, q=1)[1]
                ctx.op(2)
                ctx.expect(len(got) == 4 and S.same(got[pos], v, False, 1e-9,
                                                    1e-9),
                           'composition passed {}', got)
                ctx.expect(all(got[i] is args[i] for i in range(4)
                               if i != pos), 'composition passed {}', got)
