"""C01: non-free flattening and folding are exact inverses, documented layout."""
import collections
import itertools

import numpy as np

from mc import spec as S, universe as U
from mc.util import is_int

BOUNDS = {
    'patterns': 'every pattern of the universe (leaves, arrays of patterns, '
                'arrays of arrays, dictionaries to nesting depth 5) plus size '
                'representatives up to 70000 entries',
    'values': 'entry-labelled values, valid values, special floating point '
              'values; 7 memory layouts; 8 number types (integers beyond 2**53 exactly); plain dictionaries '
              'with reordered and extra keys',
    'histories': 'all alternating flatten/fold histories of length 4 over '
                 '3 vectors on one live pattern',
}
ASSUMPTIONS = ['numpy element access by index tuple is correct']

SPECIAL = [0.0, -0.0, 5e-324, -1e-308, 1.0, 1.0 + 2 ** -52, -1e308,
           1.7976931348623157e308, float('inf'), -float('inf'), 1 / 3.0, 1e16]


def bits(x):
    return np.asarray(x, dtype=float).tobytes()


def exactly(got, ref):
    """Equality of numbers of any type, without converting either."""
    return len(got) == len(ref) and all(
        (int(a) == b if isinstance(b, int) else a == b)
        for a, b in zip(got, ref))


def no_members(spec):
    """Whether the pattern has an empty dictionary in it, which has no
    number type of its own."""
    return type(spec) is S.Dct and (not spec.items or any(
        no_members(s) for _, s in spec.items))


def all_dv_false(spec):
    t = type(spec)
    if t is S.Dct:
        return S.Dct(tuple((k, all_dv_false(s)) for k, s in spec.items),
                     spec.fd, spec.share)
    if t is S.Arr:
        return spec._replace(base=all_dv_false(spec.base))
    return spec._replace(dv=False)


def check_lengths(ctx, spec, pat):
    for free in (False, True, np.bool_(False), np.bool_(True)):
        n = pat.flat_length(free)
        ctx.op()
        ctx.expect(is_int(n) and n == S.length(spec, bool(free)),
                   'flat_length({}) is {}, expected {}', free, n,
                   S.length(spec, bool(free)))


def check_flatten(ctx, spec, pat, value, vv, free=False):
    ref = S.flatten(spec, value)
    flat = pat.flatten(value, free=free, validate_value=vv)
    ctx.op()
    ctx.expect(isinstance(flat, np.ndarray) and flat.ndim == 1,
               'flatten returned {}', flat)
    ctx.expect(flat.shape[0] == len(ref), 'flat vector has length {}, not {}',
               flat.shape[0], len(ref))
    ctx.expect(bits(flat) == bits(ref), 'flatten gave {}, expected {}', flat,
               ref)
    return flat


def check_fold(ctx, spec, pat, flat, ref_flat, vv, free=False):
    value = pat.fold(flat, free=free, validate_value=vv)
    ctx.op()
    ref = S.fold(spec, ref_flat)
    ctx.expect(S.same(value, ref), 'fold gave {}, expected {}', value, ref)
    ctx.expect(bits(S.flatten(spec, value)) == bits(ref_flat),
               'fold gave {}, expected {}', value, ref)
    return value


def plain(value, order):
    if not isinstance(value, dict):
        return value
    keys = list(value)
    if order == 'reversed':
        keys = keys[::-1]
    elif order == 'sorted':
        keys = sorted(keys)
    out = {k: plain(value[k], order) for k in keys}
    if order == 'extra':
        out['not a member'] = np.array([1.0, 2.0])
    return out


def one_pattern(ctx, spec, big=False):
    pat = S.build(spec)
    n = S.length(spec, False)
    with ctx.case('lengths'):
        check_lengths(ctx, spec, pat)
    lab = S.labelled(spec)
    ctx.state(S.name(spec))
    for tag, val in ctx.each('layout', S.vlayouts(lab)):
        with ctx.case('flatten layout'):
            ctx.state(S.name(spec), 'val', val)
            check_flatten(ctx, spec, pat, val, False)
    flat = np.arange(1.0, n + 1)
    for tag, vec in ctx.each('vector layout', S.layouts(flat) + [
            ('list', list(flat)), ('tuple', tuple(flat))]):
        if n == 0 and tag in ('list', 'tuple'):
            pass
        with ctx.case('fold layout'):
            ctx.state(S.name(spec), 'vec', tag)
            check_fold(ctx, spec, pat, vec, list(flat), False)
    for dt in ctx.each('dtype', ['int64', 'float32', 'int8', 'bool']):
        with ctx.case('number type'):
            m = 100 if dt == 'int8' else 2 if dt == 'bool' else 10 ** 6
            ref = [float((7 * i + 1) % m) for i in range(n)]
            vec = np.array(ref, dtype=dt)
            check_fold(ctx, spec, pat, vec, ref, False)
            val = S.fold(spec, list(vec), dtype=dt)
            check_flatten(ctx, spec, pat, val, False)
    for dt in ctx.each('exact dtype', ['int64', 'uint64', 'complex128',
                                       'longdouble']):
        with ctx.case('exact number type'):
            if dt == 'complex128':
                ref = [complex(i, -3.0 * i - 1) for i in range(n)]
            elif dt == 'longdouble':
                ref = [np.longdouble(i) + np.longdouble(2.0) ** -60
                       for i in range(1, n + 1)]
            else:
                ref = [2 ** 61 + 3 + 8 * i if dt == 'uint64' or i % 2
                       else -2 ** 61 - 5 - 8 * i for i in range(n)]
            if no_members(spec):
                continue
            vec = np.array(ref, dtype=dt)
            ctx.state(S.name(spec), dt)
            got = pat.fold(vec, free=False, validate_value=False)
            ctx.op()
            ctx.expect(exactly(S.flatten(spec, got), ref),
                       'folding {} gave {}', vec, got)
            got = pat.flatten(S.fold(spec, ref, dtype=dt), free=False,
                              validate_value=False)
            ctx.op()
            ctx.expect(exactly(list(got), ref), 'flattening {} gave {}',
                       ref, got)
    for variant in ctx.each('valid value', [0, 1, 2] if not big else [0]):
        for vv in ctx.each('validate', [None, True, False]):
            with ctx.case('valid round trip'):
                val = S.interior(spec, variant)
                ctx.state(S.name(spec), 'valid', val)
                f = check_flatten(ctx, spec, pat, val, vv)
                check_fold(ctx, spec, pat, f, list(f), vv)
    with ctx.case('special values'):
        vals = [SPECIAL[(i * 5 + 3) % len(SPECIAL)] for i in range(n)]
        val = S.fold(spec, vals)
        check_flatten(ctx, spec, pat, val, False)
        check_fold(ctx, spec, pat, np.array(vals), vals, False)
    if S.depth(spec) and type(spec) is S.Dct:
        for order in ctx.each('key order', ['same', 'reversed', 'sorted',
                                            'extra']):
            with ctx.case('plain dictionary'):
                val = plain(lab, order)
                ctx.state(S.name(spec), 'order', order)
                check_flatten(ctx, spec, pat, val, False)
    # The pattern's defaults, with validation switched off in the pattern.
    spec2 = all_dv_false(spec)
    with ctx.case('no validation by default'):
        p2 = S.build(spec2)
        check_flatten(ctx, spec2, p2, lab, None)
        check_fold(ctx, spec2, p2, flat, list(flat), None)


def history(ctx, spec):
    """All histories of four operations; the result of each operation is
    available to the later ones, on one live pattern."""
    n = S.length(spec, False)
    vecs = [np.arange(1.0, n + 1), -np.arange(n, 0.0, -1) * 0.5,
            np.array([SPECIAL[(i * 7) % len(SPECIAL)] for i in range(n)])]
    names = ['flatten latest', 'fold latest'] + [
        'fold v{}'.format(i) for i in range(3)] + [
        'flatten v{}'.format(i) for i in range(3)]
    for ops in ctx.each('ops', itertools.product(
            range(len(names)), repeat=4 if ctx.thorough else 3)):
        with ctx.case('history'):
            pat = S.build(spec)
            latest = list(vecs[0])
            fl, vl = vecs[0].copy(), S.fold(spec, latest)
            old = []
            for o in ops:
                if o == 0:
                    fl = check_flatten(ctx, spec, pat, vl, False)
                    old.append((fl, latest, 'flat'))
                elif o == 1:
                    latest = list(fl)
                    vl = check_fold(ctx, spec, pat, fl, latest, False)
                    old.append((vl, latest, 'val'))
                elif o < 5:
                    latest = list(vecs[o - 2])
                    vl = check_fold(ctx, spec, pat, vecs[o - 2].copy(),
                                    latest, False)
                    fl = np.array(latest)
                    old.append((vl, latest, 'val'))
                else:
                    latest = list(vecs[o - 5])
                    vl = S.fold(spec, latest)
                    fl = check_flatten(ctx, spec, pat, vl, False)
                    old.append((fl, latest, 'flat'))
            # Results handed out earlier are still what they were.
            for got, ref, kind in old:
                f = got if kind == 'flat' else S.flatten(spec, got)
                ctx.expect(bits(f) == bits(ref),
                           'an earlier result changed to {}', got)
            ctx.state(S.name(spec), ops)


def run(ctx):
    level = 2 if ctx.thorough else 1
    for spec in ctx.shard('pattern', U.universe(level)):
        one_pattern(ctx, spec)
    for spec in ctx.shard('large pattern', U.scale()):
        one_pattern(ctx, spec, big=True)
    for spec in ctx.shard('history of', U.core()):
        history(ctx, spec)
