"""C07: flat_indices selects exactly the right coordinates."""
import itertools

import numpy as np

from checks.c04 import dict_paths, numeric, plain, without_key
from mc import spec as S, universe as U

BOUNDS = {
    'patterns': 'every pattern of the universe plus size representatives',
    'selections': 'every subset of entries when there are at most 8 (thorough:'
                  ' 11); otherwise all single entries, all pairs up to 20 '
                  'entries, every contiguous run, every component, every '
                  'dictionary member, their complements; boolean arrays in '
                  '7 memory layouts; selections of wrong shapes and with '
                  'missing members; of numeric parts also as lists and '
                  'plain booleans',
}
ASSUMPTIONS = ['the free coordinates of a matrix may all be reported for any '
               'of its entries (documented as conservative)']


def selections(spec, cap):
    n = S.length(spec, False)
    out = []
    if n <= cap:
        for r in range(n + 1):
            for c in itertools.combinations(range(n), r):
                out.append(frozenset(c))
        return out
    everything = frozenset(range(n))
    singles = range(n) if n <= 60 else sorted(
        set(range(8)) | set(range(n - 8, n)) | set(range(0, n, n // 20)))
    out = [frozenset(), everything]
    out += [frozenset([i]) for i in singles]
    out += [everything - frozenset([i]) for i in singles]
    if n <= 20:
        out += [frozenset(p) for p in itertools.combinations(range(n), 2)]
    for a in range(0, n, max(1, n // 10)):
        for b in range(a + 2, n + 1, max(1, n // 10)):
            out.append(frozenset(range(a, b)))
    out += [frozenset(range(0, n, 2)), frozenset(range(1, n, 2)),
            frozenset(range(0, n, 3))]
    for c in S.components(spec)[:30]:
        b = frozenset(range(c.flat0, c.flat0 + c.flatn))
        out += [b, everything - b]
    seen, res = set(), []
    for s in out:
        if s not in seen:
            seen.add(s)
            res.append(s)
    return res


def needed_free(spec, comps, sel):
    """(must, may): coordinates that the selected entries really depend on,
    and coordinates that may be reported."""
    must, may = set(), set()
    for c in comps:
        mine = [i - c.flat0 for i in range(c.flat0, c.flat0 + c.flatn)
                if i in sel]
        if not mine:
            continue
        block = range(c.free0, c.free0 + c.freen)
        may |= set(block)
        if type(c.spec) is not S.Psd:
            must |= set(block)
            continue
        # Entry (i, j) of L L^T depends on rows i and j of L up to min(i, j)
        # (all of the diagonal entry's row when i == j).
        n = c.spec.n
        for p in mine:
            i, j = divmod(p, n)
            for r in (i, j):
                for k in range(min(i, j) + 1):
                    must.add(c.free0 + r * (r + 1) // 2 + k)
    return must, may


def check_sel(ctx, spec, pat, comps, sel, layout=None):
    n = S.length(spec, False)
    vec = [i in sel for i in range(n)]
    fb = S.fold(spec, vec, dtype=bool)
    if layout is not None:
        fb = dict(S.vlayouts(fb)).get(layout, fb)
    got = pat.flat_indices(fb, free=False)
    ctx.op()
    ctx.expect(isinstance(got, np.ndarray) and got.ndim == 1 and
               got.dtype.kind in 'iu', 'flat_indices returned {}', got)
    ctx.expect(list(got) == sorted(sel),
               'selected {}, flat_indices(free=False) gave {}', sorted(sel),
               got)
    fr = pat.flat_indices(fb, free=True)
    ctx.op()
    ctx.expect(isinstance(fr, np.ndarray) and fr.ndim == 1 and
               fr.dtype.kind in 'iu', 'flat_indices returned {}', fr)
    lst = [int(i) for i in fr]
    must, may = needed_free(spec, comps, sel)
    ctx.expect(lst == sorted(set(lst)),
               'free indices are not increasing and distinct: {}', lst)
    ctx.expect(must <= set(lst),
               'selected {}: free coordinates {} are missing from {}',
               sorted(sel), sorted(must - set(lst)), lst)
    ctx.expect(set(lst) <= may,
               'selected {}: free coordinates {} belong to other components',
               sorted(sel), sorted(set(lst) - may))
    if n <= 11 and numeric(spec):
        # Selections of numeric parts may be lists, or plain booleans.
        for scalar in (False, True):
            form = plain(spec, fb, scalar)
            for free, ref in ((False, got), (True, fr)):
                ans = pat.flat_indices(form, free=free)
                ctx.op()
                ctx.expect(list(ans) == list(ref),
                           'flat_indices({}, free={}) gave {}, not {}', form,
                           free, ans, ref)
    ctx.state(S.name(spec), sel)
    return got, fr


def one_pattern(ctx, spec, big=False):
    pat = S.build(spec)
    comps = S.components(spec)
    cap = 11 if ctx.thorough else 8
    for value in ctx.each('empty_bool', [True, False]):
        with ctx.case('empty_bool'):
            e = pat.empty_bool(value)
            ctx.op()
            ref = S.fold(spec, [value] * S.length(spec, False), dtype=bool)
            ctx.expect(S.same(e, ref) and all(
                S.get(e, k).dtype == bool for k, _ in S.arrays(spec)),
                'empty_bool({}) is {}', value, e)
    sels = selections(spec, cap)
    if big and S.length(spec, False) > 3000:
        sels = sels[:24]
    for sel in ctx.each('selection', sels):
        with ctx.case('selection'):
            check_sel(ctx, spec, pat, comps, sel)
    if big:
        return
    n = S.length(spec, False)
    for layout in ctx.each('layout', ['F', 'strided', 'reversed',
                                      'transposed', 'offset', 'readonly']):
        for sel in ctx.each('selection', [
                frozenset(i for i in range(n) if i % 3 == r)
                for r in range(3)] + [frozenset([0]), frozenset([n - 1])]
                if n else []):
            with ctx.case('layout'):
                check_sel(ctx, spec, pat, comps, sel, layout)
    # The selection is usable: it picks the flattened entries.
    with ctx.case('selects entries'):
        lab = S.labelled(spec)
        flat = pat.flatten(lab, free=False, validate_value=False)
        for r in range(2):
            sel = frozenset(i for i in range(n) if i % 2 == r)
            got, _ = check_sel(ctx, spec, pat, comps, sel)
            fb = S.fold(spec, [i in sel for i in range(n)], dtype=bool)
            want = []
            for keys, _s in S.arrays(spec):
                want += list(S.get(lab, keys)[S.get(fb, keys)])
            ctx.expect(list(flat[got]) == want,
                       'the indices select {}, not {}', flat[got], want)
    # Wrong shapes are refused, as long as something is selected.
    for keys, s in ctx.each('part', [
            a for a in S.arrays(spec) if S.prod(S.shape(a[1]))]):
        for sh in ctx.each('wrong shape', [
                S.shape(s) + (1,), (1,) + S.shape(s),
                tuple(x + 1 for x in S.shape(s)) or (2,)]):
            with ctx.case('wrong shape'):
                fb = S.fold(spec, [True] * n, dtype=bool)
                bad = replace(fb, keys, np.ones(sh, dtype=bool))
                for free in (False, True):
                    ctx.raises(ValueError, lambda: pat.flat_indices(
                        bad, free=free), 'flat_indices')
    # So are missing members.
    for keys in ctx.each('member', dict_paths(spec)):
        with ctx.case('missing member'):
            fb = S.fold(spec, [True] * n, dtype=bool)
            bad = without_key(fb, keys)
            for free in (False, True):
                ctx.raises(ValueError, lambda: pat.flat_indices(
                    bad, free=free), 'flat_indices')


def replace(value, keys, part):
    if not keys:
        return part
    import collections
    out = collections.OrderedDict(value)
    out[keys[0]] = replace(value[keys[0]], keys[1:], part)
    return out


def run(ctx):
    level = 2 if ctx.thorough else 1
    for spec in ctx.shard('pattern', U.universe(level)):
        one_pattern(ctx, spec)
    for spec in ctx.shard('large pattern', U.scale()):
        one_pattern(ctx, spec, big=True)
