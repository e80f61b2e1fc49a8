"""C04: folded values are accepted exactly when shape and constraints hold."""
import collections
import itertools
import math

import numpy as np

from mc import spec as S, universe as U

BOUNDS = {
    'patterns': 'every pattern of the universe, with the default validation '
                'flag on and off',
    'values': 'valid values with every single entry moved to, just inside and '
              'just outside each constraint; compensating pairs of changes; '
              'every wrong shape of a list; missing keys; all flat lengths '
              'near the right one and non-vector inputs; numeric values also '
              'as lists and numbers',
    'entry points': 'validate_folded, flatten (both), fold; validate_value '
                    'None / True / False',
}
ASSUMPTIONS = ['simplex sums are judged to 1e-12 as in the code; the '
               'alphabet stays away from that threshold by a factor of 5']


def set_dv(spec, dv):
    t = type(spec)
    if t is S.Dct:
        return S.Dct(tuple((k, set_dv(s, dv)) for k, s in spec.items), spec.fd,
                     spec.share)
    if t is S.Arr:
        return spec._replace(base=set_dv(spec.base, dv))
    return spec._replace(dv=dv)


def deviations(spec):
    """[(name, [(flat index, new value)], free_ok)]; free_ok says that free
    flattening is defined there if the value is valid."""
    base = S.interior(spec, 1)
    flat = S.flatten(spec, base)
    out = []
    for ci, c in enumerate(S.components(spec)):
        s, o = c.spec, c.flat0
        tag = '{}{}'.format(list(c.keys), list(c.index))
        if type(s) is S.Num:
            for b, sgn in ((s.lb, -1), (s.ub, 1)):
                if abs(b) == S.INF:
                    out.append((tag + ' huge', [(o, sgn * 1e300)], True))
                    continue
                b = float(b)
                out += [
                    (tag + ' at bound', [(o, b)], False),
                    (tag + ' one ulp out',
                     [(o, np.nextafter(b, sgn * S.INF))], False),
                    (tag + ' one ulp in',
                     [(o, np.nextafter(b, -sgn * S.INF))], False),
                    (tag + ' far out', [(o, b + sgn * 1e5)], False),
                    (tag + ' little out', [(o, b + sgn * 1e-9)], False)]
        elif type(s) is S.Spx:
            k = s.k
            row = [float(x) for x in flat[o:o + k]]
            for j in range(k):
                out += [
                    (tag + ' sum 5e-12 off', [(o + j, row[j] + 5e-12)], False),
                    (tag + ' sum 1e-13 off', [(o + j, row[j] + 1e-13)], True),
                    (tag + ' sum small', [(o + j, row[j] * 0.5)], False),
                    (tag + ' one hot', [(o + i, float(i == j))
                                        for i in range(k)], False)]
                jj = (j + 1) % k
                out += [
                    (tag + ' negative, sum one',
                     [(o + j, -0.25), (o + jj, row[j] + row[jj] + 0.25)],
                     False),
                    (tag + ' tiny negative', [(o + j, -1e-15), (
                        o + jj, row[j] + row[jj] + 1e-15)], False),
                    (tag + ' mass moved',
                     [(o + j, row[j] * 0.5), (o + jj, row[jj] + row[j] * 0.5)],
                     True)]
            out.append((tag + ' all zero', [(o + i, 0.0) for i in range(k)],
                        False))
            # Mass moved to another simplex: totals stay, rows do not.
            others = [d for d in S.components(spec) if d is not c and
                      type(d.spec) is S.Spx][:3]
            for d in others:
                out.append((tag + ' mass leaks', [
                    (o, row[0] * 0.5),
                    (d.flat0, float(flat[d.flat0]) + row[0] * 0.5)], False))
        else:
            n = s.n
            m = np.array(flat[o:o + n * n], dtype=float).reshape(n, n)
            for i in range(n):
                p = o + i * n + i
                out += [
                    (tag + ' diagonal at bound', [(p, float(s.lb))], False),
                    (tag + ' diagonal below bound',
                     [(p, np.nextafter(float(s.lb), -S.INF))], False),
                    (tag + ' diagonal far below', [(p, s.lb - 3.0)], False),
                    (tag + ' diagonal large', [(p, m[i, i] + 5.0)], True)]
                for j in range(n):
                    if i == j:
                        continue
                    q = o + i * n + j
                    for d in (1e-9, 0.5):
                        out.append((tag + ' asymmetric',
                                    [(q, m[i, j] + d)], False))
                    if i < j:
                        out.append((tag + ' antisymmetric', [
                            (q, 0.25), (o + j * n + i, -0.25)], False))
                        out.append((tag + ' symmetric change', [
                            (q, 0.0), (o + j * n + i, 0.0)], True))
    return flat, out


def wrong_shapes(shape):
    size = S.prod(shape)
    out = [tuple(shape) + (1,), (1,) + tuple(shape), tuple(shape)[1:],
           tuple(shape)[:-1], tuple(reversed(shape)), (size,), (size + 1,),
           (size, 1), (1, size), (), (0,), (2, 0)]
    for i in range(len(shape)):
        for d in (-1, 1):
            s = list(shape)
            s[i] += d
            out.append(tuple(s))
    if len(shape) >= 3:
        out.append((shape[1], shape[0]) + tuple(shape[2:]))
    res = []
    for s in out:
        if s != tuple(shape) and s not in res and min(s + (0,)) >= 0:
            res.append(s)
    return res


def check_verdict(ctx, pat, value, vv, want, how):
    got = pat.validate_folded(value, validate_value=vv) if how == 'kw' else \
        pat.validate_folded(value, vv) if how == 'pos' else \
        pat.validate_folded(value)
    ctx.op()
    ctx.expect(isinstance(got, tuple) and len(got) == 2,
               'validate_folded returned {}', got)
    ok, msg = got
    ctx.expect(isinstance(ok, (bool, np.bool_)) and isinstance(msg, str),
               'validate_folded returned {}', got)
    ctx.expect(bool(ok) == want,
               'validate_folded({}, {}) says {}, expected {}', value, vv, got,
               want)
    ctx.expect((msg == '') == bool(ok),
               'validate_folded returned an inconsistent message: {}', got)
    ctx.outcome('accepted' if ok else 'rejected: ' + msg.split(' ')[0][:20])


def plain(spec, value, scalar):
    """The value with numeric arrays as lists, or numbers where there is one
    entry."""
    if type(spec) is S.Dct:
        return {k: plain(s, value[k], scalar) for k, s in spec.items}
    if type(spec) is not S.Num:
        return value
    if scalar and spec.shape == (1,):
        return value[0].item()
    return np.asarray(value).tolist()


def numeric(spec):
    return type(spec) is S.Num or type(spec) is S.Dct and any(
        numeric(s) for _, s in spec.items)


def check_plain(ctx, spec, pat, value, vec, vv, want):
    forms = [plain(spec, value, False)]
    forms += [f for f in [plain(spec, value, True)] if f != forms[0]] \
        if type(spec) is not S.Dct else [plain(spec, value, True)]
    for form in forms:
        check_verdict(ctx, pat, form, vv, want, 'kw')
        if want:
            got = pat.flatten(form, free=False, validate_value=vv)
            ctx.op()
            ctx.expect(list(got) == vec, 'flatten gave {}', got)
        else:
            ctx.raises(ValueError, lambda: pat.flatten(
                form, free=False, validate_value=vv), 'flatten')
    if len(vec) == 1:
        if want:
            got = pat.fold(vec[0], free=False, validate_value=vv)
            ctx.expect(S.same(got, value), 'fold gave {}', got)
        else:
            ctx.raises(ValueError, lambda: pat.fold(
                vec[0], free=False, validate_value=vv), 'fold')


def check_value(ctx, spec, pat, flat, changed, free_ok):
    lists = numeric(spec) and len(flat) < 100
    vec = [float(x) for x in flat]
    for i, x in changed:
        vec[i] = float(x)
    value = S.fold(spec, vec)
    for vv in (None, True, False):
        want = S.valid(spec, value, vv)
        ctx.state(S.name(spec), vec, vv)
        check_verdict(ctx, pat, value, vv, want, 'kw')
        if vv is None:
            check_verdict(ctx, pat, value, None, want, 'none')
        else:
            check_verdict(ctx, pat, value, vv, want, 'pos')
        if lists:
            check_plain(ctx, spec, pat, value, vec, vv, want)
        arr = np.array(vec)
        for form in forms(vv):
            if want:
                got = pat.flatten(value, **form(False))
                ctx.op()
                ctx.expect(list(got) == vec, 'flatten gave {}', got)
                got = pat.fold(arr, **form(False))
                ctx.op()
                ctx.expect(S.same(got, value), 'fold gave {}', got)
                if free_ok:
                    pat.flatten(value, **form(True))
                    ctx.op()
            else:
                ctx.raises(ValueError, lambda: pat.flatten(
                    value, **form(False)), 'flatten non-free')
                ctx.raises(ValueError, lambda: pat.flatten(
                    value, **form(True)), 'flatten free')
                ctx.raises(ValueError, lambda: pat.fold(
                    arr, **form(False)), 'fold')


def forms(vv):
    """No flag given means the same as None."""
    out = [lambda free: {'free': free, 'validate_value': vv}]
    if vv is None:
        out.append(lambda free: {'free': free})
    return out


def with_part(value, keys, part):
    """Copy of the value with the part at ``keys`` replaced."""
    if not keys:
        return part
    out = collections.OrderedDict(value)
    out[keys[0]] = with_part(value[keys[0]], keys[1:], part)
    return out


def without_key(value, keys):
    out = collections.OrderedDict(value)
    if len(keys) == 1:
        del out[keys[0]]
    else:
        out[keys[0]] = without_key(value[keys[0]], keys[1:])
    return out


def dict_paths(spec, keys=()):
    if type(spec) is not S.Dct:
        return []
    out = []
    for k, s in spec.items:
        out.append(keys + (k,))
        out += dict_paths(s, keys + (k,))
    return out


def reject(ctx, pat, value):
    for vv in (None, True, False):
        check_verdict(ctx, pat, value, vv, False, 'kw')
        for free in (False, True):
            ctx.raises(ValueError, lambda: pat.flatten(
                value, free=free, validate_value=vv), 'flatten')
            if vv is None:
                ctx.raises(ValueError, lambda: pat.flatten(
                    value, free=free), 'flatten')


def one_pattern(ctx, spec):
    pat = S.build(spec)
    flat, devs = deviations(spec)
    for variant in ctx.each('valid', [0, 1, 2]):
        with ctx.case('valid value'):
            v = S.flatten(spec, S.interior(spec, variant))
            check_value(ctx, spec, pat, v, [], True)
    limit = None if ctx.thorough else 60
    if limit and len(devs) > limit:
        # All kinds on the first, middle and last component; every component
        # gets at least its first kinds (thorough takes them all).
        step = len(devs) / float(limit)
        keep = sorted({int(i * step) for i in range(limit)} |
                      set(range(14)) | set(range(len(devs) - 14, len(devs))))
        devs = [devs[i] for i in keep]
    for dname, changed, free_ok in ctx.each('deviation', devs):
        with ctx.case('deviation'):
            check_value(ctx, spec, pat, flat, changed, free_ok)
    # Two deviations in different places.
    bad = [d for d in devs if 'out' in d[0] or 'asymmetric' in d[0]][:6]
    for d1, d2 in ctx.each('two deviations', itertools.combinations(bad, 2)):
        with ctx.case('two deviations'):
            check_value(ctx, spec, pat, flat, d1[1] + d2[1], False)
    value = S.interior(spec, 0)
    for keys, s in ctx.each('part', S.arrays(spec)):
        for sh in ctx.each('wrong shape', wrong_shapes(S.shape(s))):
            if type(s) is S.Num and sh == () and s.shape == (1,):
                continue        # a scalar is a valid value for shape (1,)
            with ctx.case('wrong shape'):
                part = np.full(sh, 0.5)
                ctx.state(S.name(spec), keys, sh)
                reject(ctx, pat, with_part(value, keys, part))
    for keys in ctx.each('missing key', dict_paths(spec)):
        with ctx.case('missing key'):
            ctx.state(S.name(spec), 'missing', keys)
            reject(ctx, pat, without_key(value, keys))
    for free in ctx.each('free', [False, True]):
        n = S.length(spec, free)
        lens = sorted({0, 1, 2, n - 1, n + 1, n + 2, 2 * n, n * n,
                       S.length(spec, not free)} - {n, -1})
        for m in ctx.each('wrong length', lens):
            for vv in ctx.each('validate', [None, True, False]):
                with ctx.case('wrong length'):
                    ctx.state(S.name(spec), free, m, vv)
                    vec = np.full(m, 0.5)
                    ctx.raises(ValueError, lambda: pat.fold(
                        vec, free=free, validate_value=vv), 'fold')
        for sh in ctx.each('not a vector', [(n, 1), (1, n), (n, n),
                                            (1, 1, n)]):
            for vv in ctx.each('validate', [None, False]):
                with ctx.case('not a vector'):
                    ctx.state(S.name(spec), free, sh, vv)
                    arr = np.full(sh, 0.5)
                    ctx.raises(ValueError, lambda: pat.fold(
                        arr, free=free, validate_value=vv), 'fold')


DTYPES = ['int64', 'int32', 'int8', 'uint8', 'bool', 'float32', 'float16',
          '>f8', 'longdouble']


def small_integers(spec):
    """Flat vectors of small integers, valid and not."""
    def vec(shift, hot):
        flat = [0] * S.length(spec, False)
        for ci, c in enumerate(S.components(spec)):
            s = c.spec
            if type(s) is S.Num:
                lo = math.ceil(s.lb) if s.lb > -S.INF else None
                hi = math.floor(s.ub) if s.ub < S.INF else None
                x = lo if lo is not None else hi if hi is not None else 1
                v = [x + (shift if ci == hot or hot < 0 else 0)]
            elif type(s) is S.Spx:
                v = [int(j == ci % s.k) for j in range(s.k)]
                if shift and (ci == hot or hot < 0):
                    v = [1] * s.k
            else:
                v = list(((math.ceil(s.lb) + abs(shift)) * np.eye(
                    s.n, dtype=int)).flatten())
                if shift and (ci == hot or hot < 0) and s.n > 1:
                    v[1] = 1
            flat[c.flat0:c.flat0 + c.flatn] = v
        return flat
    m = len(S.components(spec))
    out = [vec(0, 0), vec(1, -1), vec(-1, -1)]
    for hot in (0, m // 2, m - 1):
        out += [vec(1, hot), vec(-1, hot), vec(-3, hot)]
    res = []
    for v in out:
        if v not in res:
            res.append([int(x) for x in v])
    return res


def number_types(ctx, spec):
    pat = S.build(spec)
    for vec in ctx.each('integers', small_integers(spec)):
        value = S.fold(spec, [float(x) for x in vec])
        for dt in ctx.each('number type', DTYPES):
            with np.errstate(all='ignore'):
                arr = np.array(vec).astype(dt)
            if arr.astype(float).tolist() != [float(x) for x in vec]:
                continue            # not representable
            typed = S.fold(spec, list(arr), dtype=dt)
            with ctx.case('number type'):
                for vv in (None, True, False):
                    want = S.valid(spec, value, vv)
                    ctx.state(S.name(spec), vec, dt, vv)
                    check_verdict(ctx, pat, typed, vv, want, 'kw')
                    if vv is not None:
                        check_verdict(ctx, pat, typed, np.bool_(vv), want,
                                      'kw')
                    if want:
                        got = pat.flatten(typed, free=False,
                                          validate_value=vv)
                        ctx.expect(np.asarray(got, dtype=float).tolist() ==
                                   [float(x) for x in vec],
                                   'flatten gave {}', got)
                        got = pat.fold(arr, free=False, validate_value=vv)
                        ctx.expect(S.same(got, value), 'fold gave {}', got)
                        ctx.op(2)
                    else:
                        ctx.raises(ValueError, lambda: pat.flatten(
                            typed, free=False, validate_value=vv), 'flatten')
                        ctx.raises(ValueError, lambda: pat.fold(
                            arr, free=False, validate_value=vv), 'fold')


def constructors(ctx):
    """Impossible patterns are refused."""
    import paragami
    bad = [(lb, ub) for lb, ub in [
        (0.0, 0.0), (1.0, 0.0), (S.INF, S.INF), (-S.INF, -S.INF), (3, 3),
        (1e-300, 0.0), (-1.0, -1.0000001), (S.INF, -S.INF)]]
    for lb, ub in ctx.each('bounds', bad):
        for mk in ctx.each('kind', [
                lambda: paragami.NumericArrayPattern((2,), lb=lb, ub=ub),
                lambda: paragami.NumericVectorPattern(2, lb=lb, ub=ub),
                lambda: paragami.NumericScalarPattern(lb=lb, ub=ub)]):
            with ctx.case('bad bounds'):
                ctx.raises(ValueError, mk, 'constructor')
    for k in ctx.each('simplex size', [1, 0, -1]):
        with ctx.case('bad simplex size'):
            ctx.raises(ValueError, lambda: paragami.SimplexArrayPattern(
                k, (2,)), 'constructor')
    for lb in ctx.each('diag_lb', [-1e-9, -1, -S.INF]):
        with ctx.case('bad diagonal bound'):
            ctx.raises(ValueError, lambda: paragami.PSDSymmetricMatrixPattern(
                2, diag_lb=lb), 'constructor')


def run(ctx):
    level = 2 if ctx.thorough else 1
    specs = U.universe(level)
    specs = specs + [set_dv(s, False) for s in specs[::1 if ctx.thorough
                                                     else 3]]
    with np.errstate(all='ignore'):
        for spec in ctx.shard('pattern', specs):
            one_pattern(ctx, spec)
        for spec in ctx.shard('number types of', specs):
            number_types(ctx, spec)
        for spec in ctx.shard('large pattern', U.scale()):
            if S.length(spec, False) > 5000 and not ctx.thorough:
                continue
            pat = S.build(spec)
            flat, devs = deviations(spec)
            k = 6 if S.length(spec, False) <= 2000 else 2
            for d in ctx.each('deviation', devs[:k] + devs[-k:] +
                              devs[len(devs) // 2:][:k]):
                with ctx.case('deviation'):
                    check_value(ctx, spec, pat, flat, d[1], d[2])
        for _ in ctx.shard('constructors', [0]):
            constructors(ctx)
