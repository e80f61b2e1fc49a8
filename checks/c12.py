"""C12: functions with transformed outputs, and both ends transformed."""
import itertools

import numpy as np

from checks.c11 import KEYWORDS
from mc import spec as S
from mc.util import snapshot

BOUNDS = {
    'wrappers': '1 to 3 patterns at every choice and order of return positions'
                ' 0..3 and up to 6 at positions up to 12, every combination of '
                'free flags, both directions, 0 to 9 further return values of '
                '11 kinds, single (non-tuple) results, every'
                ' container type for retnums; the convenience subclasses',
    'combined': 'input and output transformed together: every placement of '
                'one or two inputs and one or two outputs',
    'histories': 'each wrapper is called 3 times with different results; all '
                 'histories of 3 (thorough 4) operations on two wrappers of '
                 'one function: calls, results changed in place, the lists '
                 'given at construction changed, missing results',
    'callables': '9 kinds (functions, partials, methods, objects, wrappers), '
                 '0 to 5 results',
}
ASSUMPTIONS = ['return positions are non-negative']

PATS = [S.Num((2,), 0.0, S.INF), S.Psd(2, 0.5),
        S.D(('b', S.Sca(0.0, 1.0)), ('a', S.Spx(3, (1,))))]
TOL = 1e-12


class Sentinel:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return '<value {}>'.format(self.n)


def other(n):
    """Something to pass through untouched: its identity is checked."""
    return [Sentinel(n), None, np.array([1.0, 2.0]), (), [], 0, {}, 'text',
            np.array([[0.5]]), (1, 2), False][n % 11]


class Fun:
    """A function whose next result is set by the check."""

    def __init__(self):
        self.result = None
        self.seen = None

    def __call__(self, *args, **kw):
        self.seen = (args, kw)
        return self.result


class Named(Fun):
    __name__ = 'Named'


def matches(flat_result, got, want):
    if flat_result:
        return isinstance(got, np.ndarray) and S.close(got, want, TOL, TOL)
    return S.same(got, want, False, TOL, TOL)


def result_for(real, spec, orig_flat, free, variant):
    v = S.interior(spec, variant)
    return real.flatten(v, free=free) if orig_flat else v


def transformed(real, orig_flat, free, r):
    return real.fold(r, free=free) if orig_flat else real.flatten(r, free=free)


def check_call(ctx, w, fun, specs, real, frees, retnums, orig_flat, nret,
               variant, single=False):
    at = {a: i for i, a in enumerate(retnums)}
    res, want = [], []
    for pos in range(nret):
        if pos in at:
            i = at[pos]
            r = result_for(real[i], specs[i], orig_flat, frees[i],
                           variant + i)
            res.append(r)
            want.append(transformed(real[i], orig_flat, frees[i], r))
        else:
            s = other(pos + variant)
            res.append(s)
            want.append(s)
    fun.result = res[0] if single else tuple(res)
    before = snapshot(res)
    a, k = Sentinel('arg'), Sentinel('kwarg')
    names = {n: k for n in KEYWORDS}
    got = w(a, 3, **names)
    ctx.op()
    ctx.expect(len(fun.seen[0]) == 2 and fun.seen[0][0] is a and
               fun.seen[0][1] == 3 and list(fun.seen[1]) == list(KEYWORDS) and
               all(v is k for v in fun.seen[1].values()),
               'the function was called with {}', fun.seen)
    ctx.expect(snapshot(res) == before, 'the results were changed')
    if single:
        got = (got,)
    else:
        ctx.expect(isinstance(got, tuple), 'the wrapper returned {}', got)
    ctx.expect(len(got) == nret, 'returned {} values, not {}', len(got), nret)
    for pos in range(nret):
        if pos in at:
            ctx.expect(matches(not orig_flat, got[pos], want[pos]),
                       'return value {} is {}, expected {}', pos, got[pos],
                       want[pos])
        else:
            ctx.expect(got[pos] is res[pos],
                       'return value {} is {}, expected {}', pos, got[pos],
                       res[pos])


def make(kind, specs, frees, nums, orig_flat):
    import paragami
    # Free defaults that agree with, contradict or say nothing about the flags.
    real = [S.build(s._replace(fd=(None, False, True)[(kind + i) % 3]))
            for i, s in enumerate(specs)]
    fun = Fun() if kind % 2 else Named()
    pats = real if len(real) > 1 or kind % 2 else real[0]
    rn = [list(nums), tuple(nums), np.array(nums, dtype=int),
          list(nums)][kind % 4]
    if len(nums) == 1 and kind % 2 == 0:
        rn = nums[0]
    fr = list(frees) if len(set(frees)) > 1 or kind % 3 else frees[0]
    if kind % 3 == 2:
        fr = np.array(frees)
    cls = paragami.FoldFunctionOutput if orig_flat else \
        paragami.FlattenFunctionOutput
    if kind % 4 < 2:
        from paragami import TransformFunctionOutput as T
        w = T(original_fun=fun, patterns=pats, free=fr, retnums=rn,
              original_is_flat=orig_flat)
    else:
        w = cls(fun, pats, fr, rn)
    return w, fun, real


def arrangements(maxpos):
    for n in (1, 2, 3):
        for nums in itertools.permutations(range(maxpos), n):
            yield nums


def run(ctx):
    import paragami
    maxpos = 5 if ctx.thorough else 4
    for nums in ctx.shard('retnums', arrangements(maxpos)):
        n = len(nums)
        for pats in ctx.each('patterns', itertools.product(range(3), repeat=n)
                             if n < 3 or ctx.thorough
                             else itertools.permutations(range(3))):
            specs = [PATS[i] for i in pats]
            for frees in ctx.each('free', itertools.product(
                    (False, True), repeat=n)):
                for orig_flat in ctx.each('original_is_flat', (False, True)):
                    for kind in ctx.each('construction', range(
                            12 if n < 3 or ctx.thorough else 4)):
                        with ctx.case('calls'):
                            ctx.state(nums, pats, frees, orig_flat, kind)
                            w, fun, real = make(kind, specs, frees, nums,
                                                orig_flat)
                            top = max(nums) + 1
                            for extra in (0, 1, 2, 7):
                                check_call(ctx, w, fun, specs, real, frees,
                                           nums, orig_flat, top + extra,
                                           extra)
                            # Too few results.
                            fun.result = tuple(
                                result_for(
                                    real[nums.index(i)],
                                    specs[nums.index(i)], orig_flat,
                                    frees[nums.index(i)], 0)
                                if i in nums else Sentinel(i)
                                for i in range(top - 1))
                            ctx.raises(ValueError, w, 'too few results')
                            # A single result that is not a tuple.
                            if nums == (0,):
                                for v in (0, 1):
                                    check_call(ctx, w, fun, specs, real,
                                               frees, nums, orig_flat, 1, v,
                                               single=True)
                            else:
                                fun.result = result_for(
                                    real[0], specs[0], orig_flat, frees[0], 0)
                                ctx.raises(ValueError, w, 'a single result')
                            check_call(ctx, w, fun, specs, real, frees, nums,
                                       orig_flat, top, 3)
                            str(w)
    for k in ctx.shard('default positions', (1, 2, 3)):
        for frees in ctx.each('free', itertools.product((False, True),
                                                        repeat=k)):
            for orig_flat in ctx.each('original_is_flat', (False, True)):
                with ctx.case('default positions'):
                    specs = PATS[:k]
                    real = [S.build(s) for s in specs]
                    cls = paragami.FoldFunctionOutput if orig_flat else \
                        paragami.FlattenFunctionOutput
                    fun = Fun()
                    for w in (cls(fun, real, list(frees)),
                              cls(fun, real, list(frees), None)):
                        for extra in (0, 2):
                            check_call(ctx, w, fun, specs, real, frees,
                                       tuple(range(k)), orig_flat, k + extra,
                                       extra)
    # More patterns, positions farther apart, every kind of other result in
    # every place.
    far = [(7, 2), (0, 9), (3, 11, 6), (8, 0, 5, 2), (5, 4, 3, 2, 1, 0),
           (0, 1, 2, 3, 4, 5), (10, 0, 9, 1, 8, 2), (12,), (1, 0, 3, 2, 5, 4),
           (2, 0, 1, 5, 3, 4), (0,), (1,), (0, 2)]
    for nums in ctx.shard('far positions', far):
        for frees in ctx.each('free', itertools.product(
                (False, True), repeat=len(nums))):
            for orig_flat in ctx.each('original_is_flat', (False, True)):
                for rot in ctx.each('patterns', range(3)):
                    with ctx.case('far positions'):
                        specs = [PATS[(i + rot) % 3]
                                 for i in range(len(nums))]
                        ctx.state('far', nums, frees, orig_flat, rot)
                        w, fun, real = make(3, specs, frees, nums, orig_flat)
                        top = max(nums) + 1
                        for variant in range(11):
                            for extra in (0, 1, 9):
                                check_call(ctx, w, fun, specs, real, frees,
                                           nums, orig_flat, top + extra,
                                           variant)
    for _ in ctx.shard('rules', [0]):
        rules(ctx)
        unnamed(ctx)
    for pair in ctx.shard('histories', itertools.product(range(3), range(3),
                                                         (False, True))):
        for frees in ctx.each('free', itertools.product((False, True),
                                                        repeat=2)):
            for hist in ctx.each('history', itertools.product(
                    range(6), repeat=4 if ctx.thorough else 3)):
                for arrays in ctx.each(
                        'arrays', (False, True) if 4 in hist else (False,)):
                    with ctx.case('histories'):
                        ctx.state('history', pair, frees, hist, arrays)
                        history(ctx, pair, frees, hist, arrays)
    for ins in ctx.shard('combined', [
            p for n in (1, 2) for p in itertools.permutations(range(3), n)]):
        combined(ctx, ins)


def stored(items, arrays):
    """A list of the items, or a numpy array of them."""
    if not arrays:
        return list(items)
    kind = type(items[0]) if isinstance(items[0], (bool, int)) else object
    out = np.empty(len(items), kind)
    for k, item in enumerate(items):
        out[k] = item
    return out


def history(ctx, pair, frees, hist, arrays):
    """Two wrappers of one function whose results change in place."""
    import paragami
    i, j, orig_flat = pair
    cls = paragami.FoldFunctionOutput if orig_flat else \
        paragami.FlattenFunctionOutput
    specs = (PATS[i], PATS[j])
    lists = [stored([S.build(s)], arrays) for s in specs]
    flags = [stored([f], arrays) for f in frees]
    nums = [stored([n], arrays) for n in (0, 1)]
    fun = Fun()
    ws = [cls(fun, lists[k], flags[k], nums[k]) for k in (0, 1)]
    fresh = [S.build(s) for s in specs]
    res = [result_for(fresh[k], specs[k], orig_flat, frees[k], k)
           for k in (0, 1)]
    kept = []
    for op in hist:
        if op < 2:
            fun.result = (res[0], res[1])
            want = transformed(fresh[op], orig_flat, frees[op], res[op])
            got = ws[op](op, none=None)
            ctx.expect(fun.seen == ((op,), {'none': None}),
                       'the function was called with {}', fun.seen)
            ctx.expect(isinstance(got, tuple) and len(got) == 2 and
                       got[1 - op] is res[1 - op], 'returned {}', got)
            ctx.expect(matches(not orig_flat, got[op], want),
                       'return value {} is {}, expected {}', op, got[op],
                       want)
            kept.append((got[op], snapshot(got[op])))
        elif op < 4:
            # The object that the function returns changes in place.
            k = op - 2
            if orig_flat:
                v = fresh[k].fold(res[k], free=frees[k])
                nudge(v)
                res[k][:] = fresh[k].flatten(v, free=frees[k])
            else:
                nudge(res[k])
        elif op == 4:
            for k in (0, 1):
                flags[k][0] = not flags[k][0]
                nums[k][0] = 1 - nums[k][0]
                lists[k][0] = S.build(S.Vec(7))
        else:
            fun.result = ()
            ctx.raises(ValueError, ws[0], 'too few results')
            fun.result = (res[0],)
            ctx.raises(ValueError, ws[1], 'too few results')
            fun.result = (np.full((2, 3, 5), 0.5), 1)
            ctx.raises(Exception, ws[0], 'a result of the wrong shape')
        ctx.op()
    for v, was in kept:
        ctx.expect(snapshot(v) == was, 'an earlier result changed to {}', v)


def unnamed(ctx):
    """Functions without a name are wrapped like any other."""
    import functools
    import paragami
    p = S.build(PATS[0])

    def plain(n, x=0.5):
        v = [np.array([x, 2.0]) for _ in range(max(n, 1))]
        return tuple(v) if n else v[0]

    class Holder:
        def method(self, n):
            return plain(n)

        def __call__(self, n):
            return plain(n)

        @staticmethod
        def static(n):
            return plain(n)
    class Pair(tuple):
        """A class is callable as well, and makes a kind of tuple."""
        def __new__(cls, n):
            return plain(0) if n == 0 else super().__new__(cls, plain(n))
    funs = {
        'function': plain, 'lambda': lambda n: plain(n),
        'partial': functools.partial(plain, x=0.5),
        'method': Holder().method, 'static method': Holder.static,
        'callable object': Holder(),
        'wrapped input': paragami.FlattenFunctionInput(
            lambda n: plain(int(n[0])), paragami.NumericScalarPattern(),
            False, 0),
        'wrapped output': paragami.FoldFunctionOutput(
            paragami.FlattenFunctionOutput(plain, p, False, 0), p, False, 0),
        'class': Pair,
    }
    for k in ctx.each('function', sorted(funs)):
        for flat in ctx.each('original_is_flat', (False, True)):
            for nums in ctx.each('retnums', [(0,), (1,), (0, 1), (2, 0),
                                             (3, 1, 0)]):
                with ctx.case('callables'):
                    ctx.state('callable', k, nums, flat)
                    cls = paragami.FoldFunctionOutput if flat else \
                        paragami.FlattenFunctionOutput
                    w = cls(funs[k], [p] * len(nums), False, list(nums))
                    for n in range(6):
                        if max(nums) >= max(n, 1):
                            ctx.raises(ValueError, lambda: w(n),
                                       'missing results')
                        elif n > 0 or nums == (0,):
                            got = w(n) if n else (w(n),)
                            ctx.expect(len(got) == max(n, 1) and all(
                                list(v) == [0.5, 2.0] for v in got),
                                'returned {}', got)
                        ctx.op()


def nudge(x):
    """Change a valid value in place to another valid value."""
    if isinstance(x, dict):
        for v in x.values():
            nudge(v)
    elif x.ndim == 2 and x.shape[-1] == 2:
        x += 0.25 * np.eye(2)
    elif x.shape[-1:] == (3,):
        x[...] = x[..., ::-1].copy()
    elif x.size == 1:
        x[...] = 0.5 * x + 0.25
    else:
        x += 0.25


def rules(ctx):
    import paragami
    p = [S.build(s) for s in PATS]
    T = paragami.TransformFunctionOutput
    f = Fun()
    bad = {
        'duplicate retnums': lambda: T(f, p[:2], True, False, [1, 1]),
        'duplicate retnums 3': lambda: T(f, p, True, False, [0, 2, 0]),
        'too few retnums': lambda: T(f, p, True, False, [0, 1]),
        'too many retnums': lambda: T(f, p[:1], True, False, [0, 1]),
        'scalar retnums': lambda: T(f, p[:2], True, False, 0),
        '2d patterns': lambda: T(f, [p[:2], p[:2]], True, False, [0, 1]),
        '2d retnums': lambda: T(f, p[:2], True, False, [[0], [1]]),
        'too many free': lambda: T(f, p[:2], [True] * 3, False, [0, 1]),
        'too few free': lambda: T(f, p, [True] * 2, False, [0, 1, 2]),
    }
    for k in ctx.each('refused', sorted(bad)):
        with ctx.case('refused'):
            ctx.raises(ValueError, bad[k], k)

    class Own(Exception):
        pass

    def failing(*args, **kw):
        raise Own()
    with ctx.case('errors of the function'):
        w = T(failing, p[0], True, False, 0)
        ctx.raises(Own, lambda: w(1), 'the function')
    with ctx.case('invalid results'):
        w = T(f, p[0], False, False, 0)
        f.result = np.array([-1.0, 2.0])
        ctx.raises(ValueError, w, 'flattening an invalid result')
        f.result = np.array([1.0])
        ctx.raises(ValueError, w, 'a result of the wrong shape')
        w = T(f, p[0], False, True, 0)
        f.result = np.array([-1.0, 2.0])
        ctx.raises(ValueError, w, 'folding an invalid result')
    for r in ctx.each('list result', [[0.5, 2.0]]):
        with ctx.case('a list is one value'):
            f.result = r
            got = T(f, p[0], False, True, 0)()
            ctx.expect(S.same(got, np.array([0.5, 2.0])), 'gave {}', got)


def combined(ctx, ins):
    """Both ends: the wrapper equals transforming by hand."""
    import paragami
    ni = len(ins)
    for ip in ctx.each('input patterns', itertools.product(range(3),
                                                           repeat=ni)):
        for outs in ctx.each('outputs', [
                p for n in (1, 2) for p in itertools.permutations(range(3), n)]
                + ['single']):
            op = [(ip[0] + 1 + j) % 3 for j in range(
                1 if outs == 'single' else len(outs))]
            rn = (0,) if outs == 'single' else outs
            for fl in ctx.each('free', itertools.product((False, True),
                                                         repeat=2)):
                for flat_orig in ctx.each('original_is_flat',
                                          (False, True)):
                    with ctx.case('combined'):
                        ctx.state('combined', ins, ip, outs, fl, flat_orig)
                        both(ctx, ins, ip, rn, op, fl, flat_orig,
                             outs == 'single')


def both(ctx, ins, ip, rn, op, fl, flat_orig, single):
    import paragami
    # Free defaults that contradict the flags, or say nothing.
    fds = (None, not fl[0], not fl[1])
    pi = [S.build(PATS[i]._replace(fd=fds[j % 2])) for j, i in enumerate(ip)]
    po = [S.build(PATS[i]._replace(fd=fds[2 - j % 2]))
          for j, i in enumerate(op)]
    fi = [fl[0] if j == 0 else not fl[0] for j in range(len(pi))]
    fo = [fl[1] if j == 0 else not fl[1] for j in range(len(po))]
    cls = paragami.FoldFunctionInputAndOutput if flat_orig else \
        paragami.FlattenFunctionInputAndOutput
    last = [list(rn) if len(rn) > 1 else rn[0]]
    if tuple(rn) == tuple(range(len(rn))):
        last.append(None)
    if len(rn) == 1:
        last.append(list(rn))
    for k, nums in enumerate(last):
        fun = Named() if k else Fun()
        w = cls(fun, pi if len(pi) > 1 or k else pi[0],
                fi if len(pi) > 1 or k else fi[0],
                list(ins) if len(ins) > 1 or k else ins[0],
                po if len(po) > 1 or k else po[0],
                fo if len(po) > 1 or k else fo[0], nums)
        both_calls(ctx, w, fun, ins, ip, rn, op, flat_orig, single, pi, po,
                   fi, fo)
        if not k and not single:
            args = [pi[ins.index(i)].flatten(
                S.interior(PATS[ip[ins.index(i)]], 0),
                free=fi[ins.index(i)]) if i in ins and not flat_orig else
                S.interior(PATS[ip[ins.index(i)]], 0) if i in ins else 0
                for i in range(max(ins) + 1)]
            fun.result = tuple(
                result_for(po[rn.index(i)], PATS[op[rn.index(i)]], flat_orig,
                           fo[rn.index(i)], 0) if i in rn else 0
                for i in range(max(rn)))
            ctx.raises(ValueError, lambda: w(*args), 'too few results')


def both_calls(ctx, w, fun, ins, ip, rn, op, flat_orig, single, pi, po, fi,
               fo):
    for variant in (0, 1):
        nargs = max(ins) + 2
        args = [Sentinel(i) for i in range(nargs)]
        want_args = list(args)
        for j, pos in enumerate(ins):
            v = S.interior(PATS[ip[j]], variant + j)
            if flat_orig:
                args[pos] = v
                want_args[pos] = pi[j].flatten(v, free=fi[j])
            else:
                args[pos] = pi[j].flatten(v, free=fi[j])
                want_args[pos] = pi[j].fold(args[pos], free=fi[j])
        nret = 1 if single else max(rn) + 2
        res = [Sentinel('r{}'.format(i)) for i in range(nret)]
        want = list(res)
        for j, pos in enumerate(rn):
            res[pos] = result_for(po[j], PATS[op[j]], flat_orig, fo[j],
                                  variant + j)
            want[pos] = transformed(po[j], flat_orig, fo[j], res[pos])
        fun.result = res[0] if single else tuple(res)
        got = w(*args, k=5)
        ctx.op()
        seen = fun.seen
        ctx.expect(len(seen[0]) == nargs and seen[1] == {'k': 5},
                   'the function was called with {}', seen)
        for pos in range(nargs):
            if pos in ins:
                ctx.expect(matches(flat_orig, seen[0][pos], want_args[pos]),
                           'argument {} became {}, expected {}', pos,
                           seen[0][pos], want_args[pos])
            else:
                ctx.expect(seen[0][pos] is args[pos],
                           'argument {} became {}', pos, seen[0][pos])
        got = (got,) if single else got
        ctx.expect(isinstance(got, tuple) and len(got) == nret,
                   'returned {}', got)
        for pos in range(nret):
            if pos in rn:
                ctx.expect(matches(not flat_orig, got[pos], want[pos]),
                           'return value {} is {}, expected {}', pos,
                           got[pos], want[pos])
            else:
                ctx.expect(got[pos] is res[pos], 'return value {} is {}',
                           pos, got[pos])
