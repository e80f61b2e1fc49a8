"""C20: operations have no hidden effects."""
import collections
import copy
import itertools

import numpy as np

from mc import engine, spec as S, universe as U
from mc.util import arrays_in, shares, snapshot

BOUNDS = {
    'sequences': 'for every core pattern, every ordered pair (and, for the '
                 'smaller patterns, triple; thorough: all triples) of about '
                 '40 operations on one object, with the results of the '
                 'earlier operations overwritten in place in between; every '
                 'result is compared with the result on a fresh object',
    'aliasing': 'every operation of every pattern of the universe: arguments '
                'unchanged, results independent of arguments and of each '
                'other, arguments changed in place between calls are read '
                'afresh',
    'instances': 'operations on a second pattern of the same specification, '
                 'and of containers sharing one member, in between',
}
ASSUMPTIONS = ['repeated floating point results agree to 1e-12 (relative)']


class Op:
    def __init__(self, name, args, call):
        self.name, self.args, self.call = name, args, call

    def __repr__(self):
        return self.name


def operations(spec, jac=True):
    """Operations as functions of (pattern, argument)."""
    out = []
    fresh = S.build(spec)
    v1, v2 = S.interior(spec, 0), S.interior(spec, 1)
    n = S.length(spec, False)
    bools = S.fold(spec, [(i % 3) != 1 for i in range(n)], bool)
    flat1 = np.array(S.flatten(spec, v1), dtype=float)
    flat2 = np.array(S.flatten(spec, v2), dtype=float)
    x1, x2 = S.free_vec(spec, 0), S.free_vec(spec, 1)
    invalid = S.labelled(spec)

    def add(name, arg, call):
        out.append(Op(name, arg, call))
    for tag, v in (('1', v1), ('2', v2)):
        add('flatten' + tag, v, lambda p, a: p.flatten(a, free=False))
        add('free flatten' + tag, v, lambda p, a: p.flatten(a, free=True))
        add('validate' + tag, v, lambda p, a: p.validate_folded(a)[0])
    add('flatten unchecked', invalid, lambda p, a: p.flatten(
        a, free=False, validate_value=False))
    add('validate labelled', invalid, lambda p, a: p.validate_folded(
        a, validate_value=True)[0])
    for tag, x in (('1', flat1), ('2', flat2)):
        add('fold' + tag, x, lambda p, a: p.fold(a, free=False))
    add('fold unchecked', flat1, lambda p, a: p.fold(
        a, free=False, validate_value=False))
    for tag, x in (('1', x1), ('2', x2)):
        add('free fold' + tag, x, lambda p, a: p.fold(a, free=True))
    add('bad fold', np.zeros(n + 1), lambda p, a: failure(
        lambda: p.fold(a, free=False)))
    add('bad free fold', np.zeros(S.length(spec, True) + 1),
        lambda p, a: failure(lambda: p.fold(a, free=True)))
    add('empty', None, lambda p, a: p.empty(valid=True))
    add('empty shape', None, lambda p, a: shapes(p.empty(valid=False)))
    add('random', None, lambda p, a: p.validate_folded(p.random())[0])
    for free in (False, True):
        add('indices {}'.format(free), bools,
            lambda p, a, free=free: p.flat_indices(a, free=free))
        add('names {}'.format(free), None,
            lambda p, a, free=free: p.flat_names(free))
        add('length {}'.format(free), None,
            lambda p, a, free=free: p.flat_length(free))
    add('json', None, lambda p, a: p.to_json())
    add('as_dict', None, lambda p, a: p.as_dict())
    add('empty bool True', None, lambda p, a: p.empty_bool(True))
    add('empty bool False', None, lambda p, a: p.empty_bool(False))
    add('str', None, lambda p, a: str(p))
    if type(spec) is S.Dct:
        add('keys', None, lambda p, a: list(p.keys()))
        add('refused set', None, lambda p, a: failure(
            lambda: locked(p, spec)))
    elif type(spec) is S.Num:
        add('shape', None, lambda p, a: (p.shape(), p.bounds()))
    else:
        add('shape', None, lambda p, a: p.shape())
    if plain(spec):
        for tag, v in (('1', v1), ('2', v2)):
            add('log det' + tag, v, lambda p, a: [
                float(p.log_abs_det_freeing_jacobian(a)),
                float(p.log_abs_det_unfreeing_jacobian(a))])
    add('equal', None, lambda p, a: p == S.build(spec))
    # Arguments on the boundary, integers, far away.
    edge = S.at_edge(spec)
    add('flatten edge', edge, lambda p, a: p.flatten(a, free=False))
    add('free flatten edge', edge, lambda p, a: tried(
        lambda: p.flatten(a, free=True)))
    add('validate edge', edge, lambda p, a: p.validate_folded(a)[0])
    add('fold edge', np.array(S.flatten(spec, edge), dtype=float),
        lambda p, a: p.fold(a, free=False))
    add('flatten integers', S.labelled(spec, 1, int), lambda p, a: p.flatten(
        a, free=False, validate_value=False))
    add('fold integers', np.arange(n), lambda p, a: p.fold(
        a, free=False, validate_value=False))
    add('free fold integers', np.arange(S.length(spec, True)) % 3 - 1,
        lambda p, a: p.fold(a, free=True))
    add('free fold far', np.array([(-1) ** i * 45.0 for i in range(
        S.length(spec, True))]), lambda p, a: p.fold(a, free=True))
    if jac:
        for sp in (True, False):
            add('unfreeing jacobian {}'.format(sp), v1,
                lambda p, a, sp=sp: p.unfreeing_jacobian(a, sparse=sp))
            add('freeing jacobian {}'.format(sp), v1,
                lambda p, a, sp=sp: p.freeing_jacobian(a, sparse=sp))
        add('unfreeing jacobian 2', v2,
            lambda p, a: p.unfreeing_jacobian(a))
    return out


def plain(spec):
    """Whether the log determinants are implemented."""
    if type(spec) is S.Dct:
        return all(plain(s) for _, s in spec.items)
    return type(spec) is S.Num


def locked(p, spec):
    p.lock()
    p['another'] = S.build(S.Vec(2))


def tried(fn):
    try:
        return fn()
    except Exception as err:
        return type(err).__name__


def failure(fn):
    try:
        fn()
    except ValueError:
        return 'ValueError'
    return 'accepted'


def shapes(v):
    if isinstance(v, dict):
        return [(k, shapes(x)) for k, x in v.items()]
    return np.shape(v)


def agree(a, b):
    if hasattr(a, 'tocoo') and hasattr(b, 'tocoo'):
        return a.shape == b.shape and agree(a.toarray(), b.toarray())
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and \
            list(a) == list(b) and all(agree(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return S.close(a, b, 1e-12, 1e-12)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.kind in 'OUS' or b.dtype.kind in 'OUS':
            return a.tolist() == b.tolist()
        if a.shape != b.shape:
            return False
        if a.dtype.kind == 'f' and not np.all(np.isfinite(b)):
            # Freeing the boundary: infinities and nan in the same places.
            odd = ~np.isfinite(b)
            if not np.array_equal(a[odd], b[odd], equal_nan=True):
                return False
            a, b = a[~odd], b[~odd]
        return S.close(a, b, 1e-12, 1e-12) if a.size else True
    return type(a) == type(b) and a == b


def spoil(x):
    """Overwrite a result in place, where it can be."""
    for a in arrays_in(x):
        if a.flags.writeable and a.dtype.kind in 'bif':
            a[...] = 1 if a.dtype == bool else -77
    if isinstance(x, list):
        del x[:]
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        for k in list(x)[1:]:
            del x[k]
        x['spoilt'] = -77


def run_op(ctx, pat, op):
    arg = copy.deepcopy(op.args)
    keep = snapshot(arg)
    got = op.call(pat, arg)
    ctx.op()
    ctx.expect(snapshot(arg) == keep, '{} changed its argument to {}', op,
               arg)
    ctx.expect(not shares(got, arg), '{} returned part of its argument', op)
    # Later changes of the argument must not reach the result.
    snap = snapshot(got)
    spoil(arg)
    ctx.expect(snapshot(got) == snap, 'the result of {} follows its argument',
               op)
    return got


def sequence(ctx, spec, ops, base, seq):
    pat = S.build(spec)
    other = S.build(spec)
    results = []
    for i in seq:
        op = ops[i]
        # The second instance does something else in between.
        if len(results) == 1:
            run_op(ctx, other, ops[(i + 7) % len(ops)])
        got = run_op(ctx, pat, op)
        ctx.expect(agree(got, base[i]), '{} after {} gives {}, not {}', op,
                   [ops[j] for j in seq[:len(results)]], got, base[i])
        for (j, r, snap) in results:
            ctx.expect(snapshot(r) == snap, '{} changed the earlier result '
                       'of {} to {}', op, ops[j], r)
            ctx.expect(not shares(r, got), 'the results of {} and {} share '
                       'memory', ops[j], op)
        results.append((i, got, snapshot(got)))
        if len(seq) > 2 and len(results) == 2:
            for k, (j, r, snap) in enumerate(results):
                spoil(r)
                results[k] = (j, r, snapshot(r))
    for j, r, snap in results:
        spoil(r)
    i = seq[-1]
    again = run_op(ctx, pat, ops[i])
    ctx.expect(agree(again, base[i]), '{} gives {}, not {}, after the caller '
               'changed earlier results', ops[i], again, base[i])
    i = seq[0]
    again = run_op(ctx, other, ops[i])
    ctx.expect(agree(again, base[i]), '{} on another pattern gives {}, not '
               '{}', ops[i], again, base[i])
    ctx.expect(pat == other and pat == S.build(spec), 'the patterns are no '
               'longer equal')


def layouts_of(spec, op):
    """The argument as views of larger arrays, read-only, and so on."""
    if op.args is None:
        return []
    out = []
    for tag, a in S.vlayouts(op.args) if isinstance(op.args, dict) or \
            isinstance(op.args, np.ndarray) else []:
        out.append((tag, a))
    if isinstance(op.args, dict) and op.args:
        # Keys in another order, in every kind of dictionary, and more keys
        # than the pattern has.
        for kind in (dict, collections.OrderedDict):
            out.append(('reversed ' + kind.__name__,
                        reordered(op.args, kind, False)))
            out.append(('extended ' + kind.__name__,
                        reordered(op.args, kind, True)))
    return out


def reordered(v, kind, extra):
    if not isinstance(v, dict):
        return np.array(v)
    out = kind()
    if extra:
        out['an extra key'] = np.arange(3.0)
    for k in reversed(list(v)):
        out[k] = reordered(v[k], kind, extra)
    return out


def aliasing(ctx, spec):
    jac = S.length(spec, False) <= 12
    ops = operations(spec, jac)
    pat = S.build(spec)
    for op in ctx.each('operation', ops):
        with ctx.case('aliasing'):
            ctx.state('alias', S.name(spec), op.name)
            want = op.call(S.build(spec), copy.deepcopy(op.args))
            for tag, a in layouts_of(spec, op):
                keep = snapshot(a)
                got = op.call(pat, a)
                ctx.op()
                ctx.expect(agree(got, want), '{} of a {} argument gives {}, '
                           'not {}', op, tag, got, want)
                ctx.expect(snapshot(a) == keep, '{} changed its argument',
                           op)
                ctx.expect(not shares(got, a), '{} returned part of its {} '
                           'argument', op, tag)
            a, b = run_op(ctx, pat, op), run_op(ctx, pat, op)
            ctx.expect(not shares(a, b), 'two results of {} share memory', op)
            spoil(a)
            ctx.expect(agree(b, want), '{} gives {}, not {}', op, b, want)
    with ctx.case('arguments changed in place'):
        pat = S.build(spec)
        v = S.interior(spec, 0)
        for k in (0, 1, 2, 1):
            new = S.interior(spec, k)
            for (_, dst), (_, src) in zip(leaves(v), leaves(new)):
                dst[...] = src
            for free in (False, True):
                got = pat.flatten(v, free=free)
                want = S.build(spec).flatten(new, free=free)
                ctx.op()
                ctx.expect(agree(got, want), 'flatten gives {}, not {}', got,
                           want)
            ctx.expect(pat.validate_folded(v)[0], 'refused')
        for free in (False, True):
            x = np.zeros(S.length(spec, free))
            for k in (0, 1, 2):
                x[:] = S.flatten(spec, S.interior(spec, k)) if not free \
                    else S.free_vec(spec, k)
                got = pat.fold(x, free=free)
                want = S.build(spec).fold(x.copy(), free=free)
                ctx.op()
                ctx.expect(agree(got, want), 'fold gives {}, not {}', got,
                           want)


def leaves(v, keys=()):
    if isinstance(v, dict):
        out = []
        for k, x in v.items():
            out += leaves(x, keys + (k,))
        return out
    return [(keys, v)]


def shared_member(ctx, spec):
    """Two containers that share one member object."""
    import paragami
    with ctx.case('shared member'):
        ctx.state('shared', S.name(spec))
        m = S.build(spec)
        d1, d2 = paragami.PatternDict(), paragami.PatternDict()
        d1['a'] = m
        d1['z'] = S.build(S.Sca(0.0, 1.0))
        d2['y'] = S.build(S.Vec(2))
        d2['b'] = m
        s1 = S.D(('a', spec), ('z', S.Sca(0.0, 1.0)))
        s2 = S.D(('y', S.Vec(2)), ('b', spec))
        todo = [(d1, s1), (d2, s2), (m, spec)]
        if type(spec) is not S.Dct:
            todo.append((paragami.PatternArray((2,), m), S.Arr((2,), spec)))
        for _ in range(2):
            for pat, s in todo:
                for op in operations(s, False):
                    got = run_op(ctx, pat, op)
                    want = op.call(S.build(s), copy.deepcopy(op.args))
                    ctx.expect(agree(got, want), '{} gives {}, not {}', op,
                               got, want)
                    spoil(got)


def run(ctx):
    specs = U.core() + [S.D(), S.D(('a', S.Num((2, 2), 0.0, 1.0)),
                                   ('b', S.Spx(2, (2,))))]
    for n, spec in enumerate(specs):
        ops = operations(spec, True)
        base = None
        k = len(ops)
        seqs = list(itertools.product(range(k), repeat=2))
        if S.length(spec, False) <= 2 or ctx.thorough:
            seqs += itertools.product(range(k), repeat=3)
        for seq in ctx.shard('sequence {}'.format(S.name(spec)), seqs):
            with ctx.case('sequence'):
                if base is None:
                    base = [op.call(S.build(spec), copy.deepcopy(op.args))
                            for op in ops]
                ctx.state(S.name(spec), seq)
                sequence(ctx, spec, ops, base, seq)
    for spec in ctx.shard('pattern', U.universe(2 if ctx.thorough else 1)):
        aliasing(ctx, spec)
    for spec in ctx.shard('member', U.core()):
        shared_member(ctx, spec)
