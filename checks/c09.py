"""C09: JSON round trips, equality and the pattern registry."""
import copy
import itertools
import json

import numpy as np

from mc import spec as S, universe as U
from mc.engine import histories

BOUNDS = {
    'round trip': 'every pattern of the universe, built with default, '
                  'named and positional arguments and numpy numbers, with every validation flag '
                  'and free default, and all single-attribute mutants of it',
    'copies': 'a deep copy of every pattern of the universe',
    'equality': 'all pairs of a cross-section of patterns and of each pattern '
                'with its mutants; non-patterns',
    'registry': 'all histories of length 4 (thorough: 5) of registering, '
                'overwriting and decoding with three custom pattern classes '
                '(two of which share a name)',
}
ASSUMPTIONS = ['dictionary keys are strings']


def mutants(spec):
    """Specs that differ from spec in exactly one attribute."""
    t = type(spec)
    out = []
    fds = [f for f in (None, True, False) if f is not spec.fd]
    out += [spec._replace(fd=f) for f in fds]
    if t in (S.Num, S.Spx, S.Psd):
        out.append(spec._replace(dv=not spec.dv))
    if t is S.Num:
        for d in (1.0, 1e-12):
            if spec.lb > -S.INF and spec.lb + d < spec.ub and \
                    spec.lb + d != spec.lb:
                out.append(spec._replace(lb=spec.lb + d))
            if spec.ub < S.INF and spec.ub + d != spec.ub:
                out.append(spec._replace(ub=spec.ub + d))
        if spec.lb == -S.INF:
            out.append(spec._replace(lb=(spec.ub - 1.0) if spec.ub < S.INF
                                     else -7.5))
        else:
            out.append(spec._replace(lb=-S.INF))
        if spec.ub == S.INF:
            out.append(spec._replace(ub=(spec.lb + 1.0) if spec.lb > -S.INF
                                     else 7.5))
        else:
            out.append(spec._replace(ub=S.INF))
        if spec.kind == 'array':
            sh = spec.shape
            out += [spec._replace(shape=sh + (1,)),
                    spec._replace(shape=(sh[0] + 1,) + sh[1:]),
                    spec._replace(shape=sh[:-1] + (sh[-1] + 1,))]
            if len(sh) > 1 and sh != sh[::-1]:
                out.append(spec._replace(shape=sh[::-1]))
            if len(sh) == 1:
                out.append(spec._replace(kind='vector'))
        elif spec.kind == 'vector':
            out += [spec._replace(shape=(spec.shape[0] + 1,)),
                    spec._replace(kind='array')]
            if spec.shape == (1,):
                out.append(spec._replace(kind='scalar'))
        else:
            out += [spec._replace(kind='vector'), spec._replace(kind='array')]
    elif t is S.Spx:
        out += [spec._replace(k=spec.k + 1),
                spec._replace(ashape=spec.ashape + (1,)),
                spec._replace(ashape=(2,) + spec.ashape)]
        if spec.ashape != spec.ashape[::-1]:
            out.append(spec._replace(ashape=spec.ashape[::-1]))
    elif t is S.Psd:
        out += [spec._replace(n=spec.n + 1), spec._replace(lb=spec.lb + 0.5),
                spec._replace(lb=spec.lb + 1e-12)]
    elif t is S.Arr:
        out += [spec._replace(ashape=spec.ashape + (1,)),
                spec._replace(ashape=(2,) + spec.ashape)]
        if spec.ashape != spec.ashape[::-1]:
            out.append(spec._replace(ashape=spec.ashape[::-1]))
        out += [spec._replace(base=b) for b in mutants(spec.base)]
    else:
        items = spec.items
        for i, (k, s) in enumerate(items):
            out.append(spec._replace(items=items[:i] + items[i + 1:]))
            out.append(spec._replace(
                items=items[:i] + ((k + 'x', s),) + items[i + 1:]))
            for m in mutants(s)[:6 if len(items) < 4 else 2]:
                out.append(spec._replace(
                    items=items[:i] + ((k, m),) + items[i + 1:]))
        for i in range(len(items) - 1):
            sw = list(items)
            sw[i], sw[i + 1] = sw[i + 1], sw[i]
            out.append(spec._replace(items=tuple(sw)))
            sw = list(items)
            sw[i], sw[i + 1] = ((items[i][0], items[i + 1][1]),
                                (items[i + 1][0], items[i][1]))
            if items[i][1] != items[i + 1][1]:
                out.append(spec._replace(items=tuple(sw)))
        out.append(spec._replace(items=items + (('new', S.Sca()),)))
    return out


def eq(ctx, a, b, want, what):
    r = a == b
    n = a != b
    ctx.op(2)
    ctx.expect(isinstance(r, (bool, np.bool_)) and bool(r) == want,
               '{}: == is {}', what, r)
    ctx.expect(bool(n) != want, '{}: != is {}', what, n)


def behaves_alike(ctx, spec, p, q):
    """q (decoded) does everything like p."""
    ctx.expect(q.free_default is p.free_default or
               q.free_default == p.free_default,
               'free_default became {}', q.free_default)
    for free in (False, True):
        ctx.expect(q.flat_length(free) == S.length(spec, free),
                   'flat_length({}) became {}', free, q.flat_length(free))
        ctx.expect([str(x) for x in q.flat_names(free)] ==
                   [str(x) for x in p.flat_names(free)],
                   'flat_names became {}', q.flat_names(free))
    v = S.interior(spec, 1)
    for free in (False, True):
        fp, fq = p.flatten(v, free=free), q.flatten(v, free=free)
        tol = 1e-12 if free else 0.0
        ctx.expect(S.close(fp, fq, tol, tol), 'flatten({}) became {}, was {}',
                   free, fq, fp)
        ctx.expect(S.same(p.fold(fp, free=free), q.fold(fq, free=free),
                          not free, 1e-9, 1e-9), 'fold({}) changed', free)
    # Validation verdicts, with the default flag too.
    bad = S.fold(spec, [-1e7 + i for i in range(S.length(spec, False))])
    for vv in (None, True, False):
        for val in (v, bad):
            want = S.valid(spec, val, vv)
            ok, _ = q.validate_folded(val, validate_value=vv)
            ctx.expect(bool(ok) == want, 'validate_folded({}) became {}', vv,
                       ok)
    ctx.op(14)


def round_trip(ctx, spec, full, style='short'):
    import paragami
    p = S.build(spec, style=style)
    js = p.to_json()
    ctx.op()
    ctx.expect(isinstance(js, str), 'to_json gave {}', js)
    json.loads(js)
    q = paragami.get_pattern_from_json(js)
    r = type(p).from_json(js)
    ctx.op(2)
    for o in (q, r):
        ctx.expect(type(o) is type(p), 'decoded to a {}', type(o).__name__)
        eq(ctx, o, p, True, 'decoded and original')
        eq(ctx, p, o, True, 'original and decoded')
        ctx.expect(o.to_json() == js, 'JSON changed to {} from {}',
                   o.to_json(), js)
        if full:
            behaves_alike(ctx, spec, p, o)
    if full:
        # The JSON text survives reformatting and key reordering.
        alt = json.dumps(json.loads(js), sort_keys=True, indent=1)
        eq(ctx, paragami.get_pattern_from_json(alt), p, True,
           'decoded from reordered JSON')
        if type(spec) is S.Dct:
            q2 = paragami.get_pattern_from_json(alt)
            ctx.expect(list(q2.keys()) == [k for k, _ in spec.items],
                       'key order became {}', list(q2.keys()))
    ctx.state(S.name(spec), spec)
    return p, q


ODD = [0.1 + 0.2, 1 / 3.0, 1e22, 1e23, 123456789.123456789, 2.0 ** 53 + 2,
       1e301, 1e308, -1e308, 1.7976931348623157e308, 5e-324, -5e-324, 1e-310,
       1e-20, -1e-20, -0.0, 0, 7, 2 ** 53 + 1, 10 ** 20, -10 ** 20, 1e5, 1e16,
       100000, 123456, 1.5, 0.5, 1 + 2 ** -52, 1 - 2 ** -53, 2.5e-8]


def odd_specs():
    out = []
    for b in ODD:
        out += [S.Num((2,), b, S.INF), S.Vec(2, -S.INF, b), S.Sca(b, S.INF),
                S.Num((1, 2), b, 1.7e308) if b < 1.7e308 else S.Sca(),
                S.Arr((2,), S.Vec(1, b)), S.D(('a', S.Sca(-S.INF, b)))]
        if b >= 0:
            out += [S.Psd(2, b), S.D(('a', S.Arr((2,), S.Psd(1, b))))]
    return out


def exact_attributes(ctx, spec):
    """Bounds of every size survive exactly, and neighbours differ."""
    p, q = round_trip(ctx, spec, False)

    def inner(s, pat):
        if type(s) is S.Dct:
            return inner(s.items[0][1], pat['a'])
        if type(s) is S.Arr:
            return inner(s.base, pat.base_pattern())
        return s, pat
    s, pp = inner(spec, p)
    _, qq = inner(spec, q)
    if type(s) is S.Num:
        for a, b, w in zip(qq.bounds(), pp.bounds(), (s.lb, s.ub)):
            ctx.expect(a == b == w and float(a) == float(w),
                       'the bound {} became {}', w, a)

        def near(field, to):
            v = float(getattr(s, field))
            m = s._replace(**{field: float(np.nextafter(v, to))})
            return m if m.lb < m.ub and abs(v) < S.INF else None
        others = [near(f, t) for f in ('lb', 'ub') for t in (S.INF, -S.INF)]
        others += [s._replace(lb=-S.INF), s._replace(ub=S.INF),
                   s._replace(lb=-s.ub, ub=-s.lb)]
    else:
        v = float(s.lb)
        others = [s._replace(lb=float(np.nextafter(v, S.INF)))]
        if v > 0:
            others.append(s._replace(lb=float(np.nextafter(v, 0.0))))
        others.append(s._replace(lb=v + 1 if v + 1 != v else 2 * v))
    # Integers have nearer neighbours than floating point numbers.
    for field in ('lb', 'ub'):
        v = getattr(s, field, None)
        if isinstance(v, int):
            others += [s._replace(**{field: v + d}) for d in (-1, 1)
                       if type(s) is S.Num or v + d >= 0]
    for m in others:
        if m is None or m == s:
            continue
        eq(ctx, S.build(m), qq, False, 'decoded and neighbour')
        eq(ctx, qq, S.build(m), False, 'neighbour and decoded')


CLASSES = ('NumericArrayPattern', 'NumericVectorPattern',
           'NumericScalarPattern', 'SimplexArrayPattern',
           'PSDSymmetricMatrixPattern', 'PatternArray', 'PatternDict')


def one_pattern(ctx, spec):
    import paragami
    with ctx.case('round trip'):
        p, _ = round_trip(ctx, spec, True)
        eq(ctx, p, S.build(spec), True, 'two built alike')
        for style in ('keywords', 'positional'):
            eq(ctx, S.build(spec, style=style), p, True,
               'built with ' + style)
        for style in ('numpy', 'numpy small', 'numpy integers'):
            eq(ctx, S.build(spec, style=style), p, True,
               'built with ' + style)
            round_trip(ctx, spec, True, style)
        # Copies are equal, behave alike, and are separate patterns.
        d = copy.deepcopy(p)
        ctx.expect(type(d) is type(p) and d is not p, 'copied to {}', d)
        eq(ctx, d, p, True, 'deep copy and original')
        behaves_alike(ctx, spec, p, d)
        other = not bool(p.free_default)
        d.free_default = other
        ctx.expect(p.free_default is spec.fd, 'changing a copy changed the '
                   'original')
        eq(ctx, d, p, False, 'changed copy and original')
        d.free_default = spec.fd
        if type(spec) is S.Dct and not spec.share:
            d['one more member'] = paragami.NumericScalarPattern()
            eq(ctx, d, p, False, 'extended copy and original')
            eq(ctx, p, S.build(spec), True, 'original after extending a copy')
        js = p.to_json()
        for cname in CLASSES:
            cls = getattr(paragami, cname)
            if cls is not type(p):
                ctx.raises(ValueError, lambda: cls.from_json(js),
                           cname + '.from_json')
        for other in (None, 0, 'x', js, p.as_dict(), [], object()):
            ctx.expect(not (p == other) and p != other,
                       'equal to {}', other)
    for m in ctx.each('mutant', mutants(spec)):
        with ctx.case('mutant'):
            pm, qm = round_trip(ctx, m, ctx.thorough)
            eq(ctx, S.build(spec), pm, False, 'pattern and mutant')
            eq(ctx, pm, S.build(spec), False, 'mutant and pattern')
            eq(ctx, qm, S.build(spec), False, 'decoded mutant and pattern')


def pairs(ctx):
    specs = U.core() + U.leaves(0) + U.arrays(0)[:20] + U.dicts(0)[:40]
    uniq = []
    for s in specs:
        if s not in uniq:
            uniq.append(s)
    built = None
    for i in ctx.shard('left', range(len(uniq))):
        if built is None:
            built = [S.build(s) for s in uniq]
        for j in ctx.each('right', range(len(uniq))):
            with ctx.case('pair'):
                eq(ctx, built[i], built[j], i == j, 'pair')


def registry(ctx):
    """Three custom classes: A, A2 (same name as A), B."""
    import paragami
    ops_all = [('register', c, ow) for c in ('A', 'A2', 'B')
               for ow in (False, True)] + \
        [('decode', c) for c in ('A', 'B', 'inside dict', 'inside array',
                                 'builtin', 'nothing')]
    counter = [0]

    def make():
        counter[0] += 1
        uid = 'h{}_{}'.format(ctx.worker, counter[0])

        class A(paragami.NumericVectorPattern):
            pass

        class A2(paragami.NumericVectorPattern):
            pass

        class B(paragami.SimplexArrayPattern):
            pass
        A.__name__ = A2.__name__ = 'A' + uid
        B.__name__ = 'B' + uid
        return {'A': A, 'A2': A2, 'B': B}, {'A': None, 'B': None}

    def step(real, model, op, c):
        if op[0] == 'register':
            slot = op[1][0]
            exc = ValueError if model[slot] is not None and not op[2] else None
            if exc is None:
                model[slot] = op[1]
            if real is None:
                return

            def do():
                if op[2]:
                    paragami.register_pattern_json(
                        real[op[1]], allow_overwrite=True)
                else:
                    paragami.register_pattern_json(real[op[1]])
            if exc:
                c.raises(exc, do, 'registering twice')
            else:
                do()
            c.outcome('register ' + ('refused' if exc else 'ok'))
            return
        if real is None:
            return
        kind = op[1]
        if kind == 'nothing':
            c.raises(KeyError, lambda: paragami.get_pattern_from_json(
                json.dumps({'lb': 0})), 'JSON without a pattern name')
            return
        if kind == 'builtin':
            p = paragami.NumericVectorPattern(2, lb=0.0)
        elif kind == 'B':
            p = real['B'](3, (2,))
        else:
            p = real['A'](2, lb=0.0)
        slot = 'B' if kind == 'B' else 'A'
        if kind == 'inside dict':
            d = paragami.PatternDict()
            d['v'] = paragami.NumericScalarPattern()
            d['x'] = p
            p = d
        elif kind == 'inside array':
            p = paragami.PatternArray((2,), p)
        js = p.to_json()
        cls = None if kind == 'builtin' else model[slot]
        if kind != 'builtin' and cls is None:
            c.raises(KeyError, lambda: paragami.get_pattern_from_json(js),
                     'decoding an unregistered pattern')
            c.outcome('decode refused')
            return
        q = paragami.get_pattern_from_json(js)
        inner = q['x'] if kind == 'inside dict' else \
            q.base_pattern() if kind == 'inside array' else q
        want = paragami.NumericVectorPattern if kind == 'builtin' else \
            real[cls]
        c.expect(type(inner) is want, 'decoded to {}, expected {}',
                 type(inner), want)
        if cls != 'A2':
            c.expect(q == p, 'decoded pattern differs')
        c.outcome('decode ok')

    histories(ctx, 'registry', make, lambda m: ops_all, step,
              5 if ctx.thorough else 4,
              canon=lambda m: (m['A'], m['B']))


def run(ctx):
    level = 2 if ctx.thorough else 1
    specs = U.universe(level)
    extra = []
    for s in U.core():
        for dv in (True, False):
            for fd in (None, True, False):
                if hasattr(s, 'dv'):
                    extra.append(s._replace(dv=dv, fd=fd))
                else:
                    extra.append(s._replace(fd=fd))
    for spec in ctx.shard('pattern', specs + extra):
        one_pattern(ctx, spec)
    for spec in ctx.shard('large', U.scale()):
        if S.length(spec, False) < 5000:
            with ctx.case('round trip'):
                round_trip(ctx, spec, spec not in (S.Psd(33),))
    for spec in ctx.shard('odd numbers', odd_specs()):
        with ctx.case('odd numbers'):
            exact_attributes(ctx, spec)
    pairs(ctx)
    registry(ctx)
