"""C08: PatternDict is an ordered, lockable mapping of patterns."""
import collections

import numpy as np

from mc import spec as S
from mc.engine import histories
from mc.util import is_int

BOUNDS = {
    'machine 1': 'one dictionary, 3 keys x 5 patterns: set, overwrite, delete,'
                 ' lock, missing deletes, 6 things that are not patterns; all histories of length 3 (thorough:'
                 ' 4), then breadth-first over distinct model states to depth '
                 '6 (thorough: 8); the same one level less deep with one object '
                 'per pattern, stored under several keys',
    'machine 2': 'two dictionaries that may be nested in one another (auto '
                 'lock), same depths; the same with classes derived from '
                 'PatternDict, one level less deep',
    'probe': 'after every step: keys, members, lengths, layout of fold and '
             'flatten, indices, names, equality, JSON, Jacobian shape, '
             'refused reads',
}
ASSUMPTIONS = []

KEYS = ['b', 'a', 'c']
# Chosen so that patterns agree in their free length but not in the other,
# and the other way around.
PATS = [S.Vec(3, 0.0, S.INF), S.Spx(3, (1,)), S.Psd(2), S.Sca(),
        S.Num((2, 2), -1.0, 1.0)]


class Model:
    def __init__(self):
        self.items = collections.OrderedDict()
        self.locked = False

    def spec(self):
        return S.Dct(tuple((k, self.sub(v)) for k, v in self.items.items()),
                     None)

    @staticmethod
    def sub(v):
        return v.spec() if isinstance(v, Model) else v

    def canon(self):
        return (self.locked, tuple(
            (k, v.canon() if isinstance(v, Model) else S.name(v))
            for k, v in self.items.items()))


def probe(c, pat, model, members, deep=True, alike=True):
    spec = model.spec()
    c.expect(list(pat.keys()) == list(model.items),
             'keys are {}, expected {}', list(pat.keys()), list(model.items))
    for k in model.items:
        c.expect(pat[k] is members[k], 'member {} is {}', k, pat[k])
    for k in KEYS + ['nope']:
        if k not in model.items:
            c.raises(KeyError, lambda: pat[k], 'reading a missing key')
    for free in (False, True):
        n = pat.flat_length(free)
        c.op()
        c.expect(is_int(n) and n == S.length(spec, free),
                 'flat_length({}) is {}, expected {}', free, n,
                 S.length(spec, free))
    lab = S.labelled(spec)
    flat = pat.flatten(lab, free=False, validate_value=False)
    c.op()
    c.expect([float(x) for x in flat] == [float(x) for x in S.flatten(
        spec, lab)], 'flatten gave {}', flat)
    back = pat.fold(np.array(flat, dtype=float), free=False,
                    validate_value=False)
    c.op()
    c.expect(S.same(back, lab), 'fold gave {}', back)
    val = S.interior(spec)
    ok, msg = pat.validate_folded(val)
    c.expect(ok, 'valid value refused: {}', msg)
    if not deep:
        return
    fr = pat.flatten(val, free=True)
    c.op()
    c.expect(fr.shape == (S.length(spec, True),) and S.same(
        pat.fold(fr, free=True), val, False, 1e-9, 1e-9),
        'free round trip gave {}', fr)
    e = pat.empty(valid=True)
    c.expect(S.valid(spec, e, True) and list(e) == list(model.items),
             'empty gave {}', e)
    t = pat.empty_bool(True)
    c.expect(list(pat.flat_indices(t, free=False)) == list(
        range(S.length(spec, False))), 'flat_indices gave {}',
        pat.flat_indices(t, free=False))
    c.expect([str(x) for x in pat.flat_names(False)] == S.names(spec, False),
             'flat_names gave {}', pat.flat_names(False))
    j = pat.unfreeing_jacobian(val, sparse=False)
    c.expect(j.shape == (S.length(spec, False), S.length(spec, True)),
             'Jacobian has shape {}', j.shape)
    c.op(5)
    for bad in (S.length(spec, False) + 1, S.length(spec, False) - 1):
        if bad >= 0:
            c.raises(ValueError, lambda: pat.fold(
                np.full(bad, 0.5), free=False, validate_value=False),
                'fold of length {}'.format(bad))
    str(pat)
    if not alike:
        return
    # A dictionary built directly in the final order is the same pattern.
    fresh = S.build(spec)
    c.expect(pat == fresh and fresh == pat and not (pat != fresh),
             'not equal to a dictionary built directly: {} and {}',
             pat.to_json(), fresh.to_json())
    c.expect(pat.to_json() == fresh.to_json(), 'JSON differs: {}',
             pat.to_json())
    if len(model.items) > 1:
        order = S.Dct(tuple(reversed(spec.items)), None)
        c.expect(not (pat == S.build(order)),
                 'equal to a dictionary in another order')


def machine1(ctx, pool=False):
    """With ``pool`` every pattern is one object, which may be stored under
    several keys at once."""
    ops_all = [('set', k, i) for k in KEYS for i in range(len(PATS))] + \
        [('del', k) for k in KEYS] + [('lock',)] + \
        [('bad', KEYS[i % 2], i) for i in range(len(NOT_PATTERNS))]

    def make():
        import paragami
        return ({'d': paragami.PatternDict(), 'm': {},
                 'pool': [S.build(p) for p in PATS]}, Model())

    def step(real, model, op, c):
        act, raises = apply_model(model, op)
        if real is None:
            return
        d = real['d']
        if op[0] == 'lock':
            d.lock()
        elif op[0] == 'bad':
            def do():
                d[op[1]] = not_patterns()[op[2]]
            c.raises(ValueError if model.locked else Exception, do,
                     'storing what is not a pattern')
        elif op[0] == 'set':
            p = real['pool'][op[2]] if pool else S.build(PATS[op[2]])

            def do():
                d[op[1]] = p
            if raises:
                c.raises(raises, do, 'setting an item')
            else:
                do()
                real['m'][op[1]] = p
        else:
            def do():
                del d[op[1]]
            if raises:
                c.raises(raises, do, 'deleting an item')
            else:
                do()
                real['m'].pop(op[1])
        c.outcome('{} {}'.format(op[0], raises.__name__ if raises else 'ok'))
        probe(c, d, model, real['m'],
              deep=c.hist_len <= 3 or c.hist_pos == c.hist_len)

    if pool:
        ops_all = [o for o in ops_all if o[0] in ('set', 'del')]
    histories(ctx, 'one object' if pool else 'dict', make, lambda m: ops_all,
              step, (6 if pool else 8) if ctx.thorough else 4 if pool else 5,
              canon=lambda m: m.canon(),
              dedup_from=(4 if ctx.thorough else 3) - pool)


NOT_PATTERNS = ['number', 'None', 'dictionary', 'array', 'class', 'value']


def not_patterns():
    import paragami
    return [3, None, {'a': paragami.NumericVectorPattern(2)},
            np.ones(2), paragami.NumericVectorPattern,
            [paragami.NumericVectorPattern(2)]]


def apply_model(model, op):
    """(changed, exception type or None)"""
    if op[0] == 'bad':
        return False, ValueError
    if op[0] == 'lock':
        model.locked = True
        return True, None
    if op[0] == 'set':
        if model.locked:
            return False, ValueError
        model.items[op[1]] = PATS[op[2]] if not isinstance(
            op[2], Model) else op[2]
        return True, None
    if model.locked:
        return False, ValueError
    if op[1] not in model.items:
        return False, KeyError
    del model.items[op[1]]
    return True, None


def machine2(ctx, own=False):
    """Two dictionaries; p may be put into q and q into r.  With ``own`` they
    are of classes derived from PatternDict."""
    names = ['p', 'q', 'r']
    ops_all = []
    for n in names[:2]:
        ops_all += [('set', n, 'a', 0), ('set', n, 'b', 2), ('del', n, 'a'),
                    ('lock', n)]
    ops_all += [('put', 'q', 'b', 'p'), ('put', 'q', 'c', 'p'),
                ('put', 'r', 'x', 'q'), ('put', 'r', 'y', 'p'),
                ('set', 'r', 'y', 1), ('del', 'r', 'x'), ('lock', 'r'),
                ('put array', 'q', 'arr')]

    def make():
        import paragami
        real = {n: paragami.PatternDict() for n in names}
        if own:
            class Own(paragami.PatternDict):
                pass

            class Further(Own):
                def __str__(self):
                    return 'Further'
            real = {'p': Own(), 'q': Further(), 'r': paragami.PatternDict()}
        return ({'d': real, 'm': {n: {} for n in names}},
                {n: Model() for n in names})

    def step(real, model, op, c):
        kind, n = op[0], op[1]
        m = model[n]
        exc = None
        if kind == 'lock':
            m.locked = True
        elif m.locked:
            exc = ValueError
        elif kind == 'del':
            if op[2] not in m.items:
                exc = KeyError
            else:
                del m.items[op[2]]
        elif kind == 'put':
            m.items[op[2]] = model[op[3]]
            model[op[3]].locked = True
        elif kind == 'put array':
            m.items[op[2]] = S.Arr((2,), PATS[2])
        else:
            m.items[op[2]] = PATS[op[3]]
        if real is None:
            return
        d, mem = real['d'][n], real['m'][n]
        if kind == 'lock':
            d.lock()
        elif kind == 'del':
            def do():
                del d[op[2]]
            if exc:
                c.raises(exc, do, 'deleting')
            else:
                do()
                mem.pop(op[2])
        else:
            p = real['d'][op[3]] if kind == 'put' else S.build(
                S.Arr((2,), PATS[2]) if kind == 'put array' else PATS[op[3]])

            def do():
                d[op[2]] = p
            if exc:
                c.raises(exc, do, 'setting')
            else:
                do()
                mem[op[2]] = p
        c.outcome('nested {} {}'.format(kind, exc.__name__ if exc else 'ok'))
        for k in names:
            probe(c, real['d'][k], model[k], real['m'][k],
                  deep=c.hist_pos == c.hist_len, alike=not own)

    histories(ctx, 'nested own' if own else 'nested', make,
              lambda m: ops_all, step,
              (5 if own else 7) if ctx.thorough else (3 if own else 4),
              canon=lambda m: tuple(m[k].canon() for k in names),
              dedup_from=(4 if ctx.thorough else 3) - own)


def run(ctx):
    machine1(ctx)
    machine1(ctx, pool=True)
    machine2(ctx)
    machine2(ctx, own=True)
    # Growing large: lengths and order stay right at every step.
    for n in ctx.shard('grow', [40]):
        with ctx.case('growing'):
            import paragami
            d, m, mem = paragami.PatternDict(), Model(), {}
            for i in range(n):
                k = 'k{}'.format((i * 7) % n)
                p = S.build(PATS[i % 4])
                d[k] = p
                m.items[k] = PATS[i % 4]
                mem[k] = p
                probe(ctx, d, m, mem, deep=i % 8 == 0)
            for i in range(0, n, 3):
                k = 'k{}'.format(i)
                del d[k]
                del m.items[k], mem[k]
                probe(ctx, d, m, mem, deep=False)
            d.lock()

            def do():
                d['new'] = S.build(PATS[0])
            ctx.raises(ValueError, do, 'locked set')
            probe(ctx, d, m, mem)
