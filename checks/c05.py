"""C05: the free argument and the free_default attribute."""
import itertools

import numpy as np

from mc import spec as S, universe as U
from mc.engine import histories

BOUNDS = {
    'patterns': 'a cross-section of every pattern type; containers over every '
                'combination of container and member defaults (None/True/'
                'False), to nesting depth 3',
    'members': 'the defaults of the members themselves before and after '
               'they join, leave and are shared by containers',
    'calls': 'fold, flatten, flat_length, flat_indices, flat_names with free '
             'omitted / None / True / False / '
             'numpy booleans / 1 / 0',
    'histories': 'all histories of attribute assignments to the container '
                 'and its members of length 3 (thorough: 4), every call '
                 'probed after each step',
}
ASSUMPTIONS = []

OMIT = 'omitted'
FDS = [None, True, False]


def probe(ctx, spec, pat, fd, ref_free, ref_flat, value):
    """Every call with every free argument; fd is the effective default."""
    for arg in (OMIT, None, True, False, np.bool_(True), np.bool_(False), 1, 0):
        eff = fd if (arg is None or (isinstance(arg, str) and arg == OMIT)) \
            else bool(arg)
        kw = {} if isinstance(arg, str) else {'free': arg}
        calls = {
            'flat_length': lambda: pat.flat_length(**kw),
            'flatten': lambda: pat.flatten(value, **kw),
            'fold': lambda: pat.fold(
                ref_free if eff else ref_flat, **kw),
            'flat_indices': lambda: pat.flat_indices(ctx.all_true, **kw),
        }
        if eff is None and S.length(spec, False) == 0:
            del calls['flat_indices']   # nothing to select: no lookup needed
        if kw:
            if not isinstance(spec, S.Num):
                calls['flat_names'] = lambda: pat.flat_names(arg)
        for cname, call in calls.items():
            if eff is None:
                ctx.raises(ValueError, call, '{} with free={}, '
                           'free_default=None'.format(cname, arg))
                ctx.outcome('refused')
                continue
            got = call()
            ctx.op()
            ctx.outcome('{} {}'.format(cname, eff))
            n = S.length(spec, eff)
            if cname == 'flat_length':
                ctx.expect(got == n, 'flat_length(free={}) is {}, default {}',
                           arg, got, fd)
            elif cname == 'flatten':
                ctx.expect(S.close(got, ref_free if eff else ref_flat,
                                   1e-9, 1e-9),
                           'flatten(free={}) with default {} is {}', arg, fd,
                           got)
            elif cname == 'fold':
                ctx.expect(S.same(got, value, False, 1e-8, 1e-8),
                           'fold(free={}) with default {} is {}', arg, fd, got)
            elif cname == 'flat_indices':
                ctx.expect(list(got) == list(range(n)),
                           'flat_indices(free={}) with default {} is {}', arg,
                           fd, got)
            else:
                ctx.expect(len(got) == n,
                           'flat_names({}) with default {} has length {}',
                           arg, fd, len(got))


def reference(spec):
    """(free, flat, value) from patterns that have no defaults at all."""
    plain = strip(spec)
    p = S.build(plain)
    v = S.interior(plain, 1)
    return p.flatten(v, free=True), p.flatten(v, free=False), v


def strip(spec):
    t = type(spec)
    if t is S.Dct:
        return S.Dct(tuple((k, strip(s)) for k, s in spec.items), None,
                     spec.share)
    if t is S.Arr:
        return S.Arr(spec.ashape, strip(spec.base), None)
    return spec._replace(fd=None)


def static_specs(thorough):
    out = []
    for s in U.CORE_LEAVES:
        for fd in FDS:
            out.append(s._replace(fd=fd))
    bases = [S.Num((2,), 0.0, S.INF), S.Spx(3, (2,)), S.Psd(2, 0.5)]
    for b in bases:
        for f1, f2 in itertools.product(FDS, FDS):
            out.append(S.Arr((2,), b._replace(fd=f1), f2))
            out.append(S.D(('b', b._replace(fd=f1)), fd=f2))
    for f in itertools.product(FDS, repeat=3):
        out.append(S.Arr((2,), S.Arr((2,), S.Spx(2, (1,), True, f[0]), f[1]),
                         f[2]))
        out.append(S.D(('y', S.Psd(2, 0.0, True, f[0])),
                       ('x', S.Spx(3, (1,), True, f[1])), fd=f[2]))
        out.append(S.D(('i', S.D(('p', S.Psd(2, 0.0, True, f[0])), fd=f[1])),
                       ('v', S.Vec(2, 0.0, S.INF)), fd=f[2]))
    for f in itertools.product(FDS, repeat=4):
        out.append(S.D(
            ('i', S.D(('p', S.Arr((2,), S.Psd(2, 0.0, True, f[0]), f[1])),
                      fd=f[2])), ('s', S.Sca(0.0, 1.0, True, f[0])), fd=f[3]))
    return out


def assignments(ctx):
    """Histories of assignments to free_default; every object is probed."""
    leaf = S.Spx(3, (2,))
    num = S.Num((2,), 0.0, S.INF)
    psd = S.Psd(2)
    arr = S.Arr((2,), psd)
    dct = S.D(('z', leaf), ('a', arr), ('n', num))
    top = S.D(('d', dct))
    specs = {'leaf': leaf, 'num': num, 'psd': psd, 'arr': arr, 'dct': dct,
             'top': top}
    refs = {k: reference(s) for k, s in specs.items()}
    trues = {}

    def make():
        import paragami
        real = {'leaf': S.build(leaf), 'num': S.build(num),
                'psd': S.build(psd)}
        real['arr'] = paragami.PatternArray((2,), real['psd'])
        d = paragami.PatternDict()
        d['z'] = real['leaf']
        d['a'] = real['arr']
        d['n'] = real['num']
        real['dct'] = d
        t = paragami.PatternDict()
        t['d'] = d
        real['top'] = t
        return real, {k: None for k in real}

    names = ['leaf', 'psd', 'arr', 'dct', 'top']
    all_ops = [(n, v) for n in names for v in (True, False, None)]

    def step(real, model, op, c):
        n, v = op
        model[n] = v
        if real is None:
            return
        real[n].free_default = v
        for k in real:
            if k not in trues:
                trues[k] = S.build(specs[k]).empty_bool(True)
            c.all_true = trues[k]
            c.expect(real[k].free_default is model[k],
                     'free_default of {} is {}', k, real[k].free_default)
            probe(c, specs[k], real[k], model[k], *refs[k])

    histories(ctx, 'assign', make, lambda m: all_ops, step,
              4 if ctx.thorough else 3,
              canon=lambda m: tuple(sorted(m.items(), key=str)),
              dedup_from=3)


def late_members(ctx, old, new):
    """Members added before and after the default of a dictionary changes,
    members shared by two containers, and members taken out again."""
    import paragami
    for m_fd in FDS:
        s = S.Spx(3, (2,), True, m_fd)
        real = [S.build(s) for _ in range(3)]
        d = paragami.PatternDict(free_default=old)
        other = paragami.PatternDict(free_default=new)
        d['first'] = real[0]
        d.free_default = new
        d['second'] = real[1]
        d['gone'] = real[2]
        del d['gone']
        other['shared'] = real[0]
        arr = paragami.PatternArray((2,), real[1], free_default=old)
        ds = S.D(('first', s), ('second', s), fd=new)
        todo = [(ds, d, new), (S.D(('shared', s), fd=new), other, new),
                (S.Arr((2,), s, old), arr, old)] + [(s, p, m_fd) for p in real]
        for sp, p, fd in todo + todo:
            ctx.expect(p.free_default is fd, 'free_default of {} is {}, not '
                       '{}', S.name(sp), p.free_default, fd)
            ctx.all_true = S.build(strip(sp)).empty_bool(True)
            probe(ctx, sp, p, fd, *reference(sp))
        ctx.state('late', old, new, m_fd)


def members(spec, pat):
    """The patterns a container is made of, at any depth."""
    if type(spec) is S.Dct:
        subs = [(s, pat[k]) for k, s in spec.items]
    elif type(spec) is S.Arr:
        subs = [(spec.base, pat.base_pattern())]
    else:
        subs = []
    return subs + [m for s, p in subs for m in members(s, p)]


def run(ctx):
    for spec in ctx.shard('pattern', static_specs(ctx.thorough) +
                          U.universe(0)):
        with ctx.case('defaults'):
            ctx.state(S.name(spec))
            pat = S.build(spec)
            ctx.expect(pat.free_default is spec.fd, 'free_default is {}',
                       pat.free_default)
            ctx.all_true = S.build(strip(spec)).empty_bool(True)
            probe(ctx, spec, pat, spec.fd, *reference(spec))
            # The members keep their own defaults when asked directly.
            for s, p in members(spec, pat):
                ctx.expect(p.free_default is s.fd, 'free_default of member '
                           '{} is {}, not {}', S.name(s), p.free_default,
                           s.fd)
                ctx.all_true = S.build(strip(s)).empty_bool(True)
                probe(ctx, s, p, s.fd, *reference(s))
            ctx.all_true = S.build(strip(spec)).empty_bool(True)
            probe(ctx, spec, pat, spec.fd, *reference(spec))
    assignments(ctx)
    for old, new in ctx.shard('late members', itertools.product(FDS, FDS)):
        with ctx.case('late members'):
            late_members(ctx, old, new)
