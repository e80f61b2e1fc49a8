"""C21: names of the flat coordinates."""
import itertools

import numpy as np

from mc import spec as S, universe as U
from mc.util import snapshot

BOUNDS = {
    'patterns': 'every pattern of the universe (thorough: the large one) plus '
                'size representatives, free and not',
    'delimiters': '5 delimiters for dictionaries of up to 3 members, keys '
                  'that contain the delimiter, empty keys',
    'perturbation': 'every flat coordinate of every small pattern is moved '
                    'by itself; the entry that its name points to moves',
}
ASSUMPTIONS = ['the delimiter argument is claimed for the outermost level '
               'only']


def as_list(x):
    return [str(v) for v in list(x)]


def check(ctx, spec):
    real = S.build(spec)
    for free in ctx.each('free', (False, True)):
        with ctx.case('names'):
            ctx.state(S.name(spec), free)
            got = real.flat_names(free)
            ctx.op()
            want = S.names(spec, free)
            ctx.expect(as_list(got) == want, 'the names are {}, not {}',
                       as_list(got), want)
            ctx.expect(np.ndim(got) == 1 and
                       len(got) == real.flat_length(free),
                       '{} names for {} coordinates', len(got),
                       real.flat_length(free))
            if len(want) < 3000:
                ctx.expect(len(set(as_list(got))) == len(want) or
                           len(set(want)) < len(want), 'names repeat: {}',
                           got)
            ctx.expect(as_list(real.flat_names(free=free)) == want and
                       as_list(real.flat_names(np.bool_(free))) == want,
                       'repeated names differ')


def parse(spec, name):
    """Follow a name to the array entry it describes: (keys, index)."""
    keys = []
    while type(spec) is S.Dct:
        for k, s in spec.items:
            if name.startswith(k + '_') and (
                    name[len(k) + 1:] in S.names(s, False)):
                keys.append(k)
                name = name[len(k) + 1:]
                spec = s
                break
        else:
            raise ValueError(name)
    if type(spec) is S.Num:
        return keys, tuple(int(i) for i in name.strip('[]').split(','))
    return keys, np.unravel_index(int(name), S.shape(spec))


def perturb(ctx, spec):
    """Names point at the entries that the coordinates control."""
    real = S.build(spec)
    with ctx.case('named entry'):
        flat = np.arange(1.0, S.length(spec, False) + 1)
        names = as_list(real.flat_names(False))
        base = real.fold(flat, free=False, validate_value=False)
        for i, name in enumerate(names):
            moved = flat.copy()
            moved[i] += 0.5
            v = real.fold(moved, free=False, validate_value=False)
            ctx.op()
            changed = []
            for keys, s in S.arrays(spec):
                d = np.argwhere(S.get(v, keys) != S.get(base, keys))
                changed += [(list(keys), tuple(int(j) for j in ind))
                            for ind in d]
            want = parse(spec, name)
            want = (want[0], tuple(int(j) for j in want[1]))
            ctx.expect(changed == [want], 'coordinate {} is called {} but '
                       'moves {}', i, name, changed)


def delimiters(ctx, spec):
    real = S.build(spec)
    for delim in ctx.each('delimiter', ('_', '', '.', '::', 'a_')):
        for free in ctx.each('free', (False, True)):
            with ctx.case('delimiter'):
                want = []
                for k, s in spec.items:
                    want += [k + delim + x for x in S.names(s, free)]
                got = [as_list(real.flat_names(free, delim)),
                       as_list(real.flat_names(free, delim=delim))]
                ctx.op(2)
                ctx.state(S.name(spec), delim, free)
                ctx.expect(got == [want, want], 'the names are {}, not {}',
                           got, want)


def run(ctx):
    specs = U.universe(2 if ctx.thorough else 1) + U.scale()
    for spec in ctx.shard('pattern', specs):
        check(ctx, spec)
        if S.length(spec, False) <= 30 and not (
                type(spec) is S.Dct and any(k == '' for k, _ in spec.items)):
            perturb(ctx, spec)
    for spec in ctx.shard('dictionary', [
            s for s in U.dicts(2 if ctx.thorough else 1)
            if all(type(x) is not S.Dct for _, x in s.items)]):
        delimiters(ctx, spec)
