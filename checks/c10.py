"""C10: saving and loading folded values."""
import io
import itertools
import os
import pathlib
import shutil

import numpy as np

from mc import spec as S, universe as U
from mc.engine import histories

BOUNDS = {
    'round trip': 'every pattern of the universe x targets (path with and '
                  'without .npz, pathlib, open files, memory buffer) x extra '
                  'data, bit-exact values including special floats',
    'histories': 'all histories of length 3 (thorough: 4) of saving three '
                 'contents to two files, refused saves, loading, deleting',
    'faults': 'every truncation length of the saved file; every 32-byte '
              '(thorough: 8-byte) window of its data overwritten; every '
              'missing or foreign entry; values that break a constraint, of '
              'another length or shape, or pickled',
}
ASSUMPTIONS = ['a damaged file may fail with any exception type; it must '
               'not load as something else']

SPECIAL = S.SPECIAL


def bits(x):
    return np.asarray(x, dtype=float).tobytes()


def check_loaded(ctx, spec, p, value, loaded, extra):
    ctx.expect(isinstance(loaded, tuple) and len(loaded) == 3,
               'load_folded returned {}', loaded)
    v, q, data = loaded
    ctx.expect(S.same(v, S.fold(spec, S.flatten(spec, value))),
               'loaded {}, saved {}', v, value)
    ctx.expect(bits(S.flatten(spec, v)) == bits(S.flatten(spec, value)),
               'loaded {}, saved {}', v, value)
    ctx.expect(q == p and type(q) is type(p), 'loaded pattern {}', q)
    for k, x in extra.items():
        ctx.expect(k in data, 'additional value {} is missing', k)
        ctx.expect(np.array_equal(data[k], np.asarray(x)),
                   'additional value {} is {}', k, data[k])


EXTRAS = [{}, {'note': 'hello'}, {'x': np.arange(6).reshape(2, 3), 'b': True,
                                  'y': [1.5, -2.0], 'n': 3}]
def more_extras():
    """Extra data of every kind numpy stores without pickling."""
    rec = np.zeros(3, dtype=[('a', 'i4'), ('b', 'f8', (2,))])
    rec['a'] = [3, 1, 2]
    out = {
        'zero': np.zeros(0), 'zero2': np.zeros((3, 0, 2)),
        'empty_text': '', 'text': 'a \u03b8 b\n"', 'bytes': b'ab\x00c',
        'scalar': np.float64(1 / 3.0), 'd0': np.array(7), 'neg0': -0.0,
        'big': 2 ** 62 + 1, 'i8': np.arange(5, dtype='i1'),
        'u8': np.array([2 ** 64 - 1], dtype='u8'), 'flag': np.bool_(False),
        'none_selected': np.zeros(4, dtype=bool),
        'c': np.array([1 + 2j, -0.5j]), 'f4': np.array([0.1], dtype='f4'),
        'f2': np.array([0.1], dtype='f2'), 'strings': np.array(['x', 'yy', '']),
        'fort': np.asfortranarray(np.arange(6.0).reshape(2, 3)),
        'stride': np.arange(10.0)[::-3], 'high': np.arange(24).reshape(
            2, 3, 1, 4), 'rec': rec, 'when': np.array('2020-01-01',
                                                      dtype='M8[D]'),
        'be': np.arange(3, dtype='>f8'), 'nested': [[1, 2], [3, 4]],
        'nan': np.array([np.nan, np.inf, -np.inf]), 'tup': (1, 2.5),
        'value': 5, 'json': 6, 'folded': 7, 'flat': 8, 'data': 9,
        'x' * 60: 10, '_private': 11, 'free': 12, 'key.with.dots': 13}
    return out


def more_extra(ctx, spec):
    import paragami
    p = S.build(spec)
    value = S.interior(spec, 1)
    items = list(more_extras().items())
    for pick in ctx.each('extras', [[i] for i in items] + [items] +
                         [[a, b] for a, b in zip(items, items[7:] +
                                                 items[:7])]):
        with ctx.case('extra data'):
            extra = dict(pick)
            ctx.state(S.name(spec), 'extra', sorted(extra))
            for target in ('buffer', 'plain'):
                base = fresh_dir(ctx)
                if target == 'buffer':
                    f = io.BytesIO()
                    paragami.save_folded(f, value, p, **extra)
                    f.seek(0)
                else:
                    f = os.path.join(base, 'e.npz')
                    paragami.save_folded(f, value, p, **extra)
                got = paragami.load_folded(f)
                ctx.op(2)
                v, q, data = got
                ctx.expect(q == p and bits(S.flatten(spec, v)) ==
                           bits(S.flatten(spec, value)), 'loaded {}', got)
                for k, x in extra.items():
                    ctx.expect(k in data, 'additional value {} is missing', k)
                    w, y = np.asarray(x), data[k]
                    ctx.expect(y.dtype == w.dtype and y.shape == w.shape and
                               y.tobytes() == w.tobytes(),
                               'additional value {} is {}, not {}', k, y, w)
                data.close()


def tampered(ctx, spec):
    """Archives whose value does not belong to their pattern."""
    import json
    import paragami
    p = S.build(spec)
    value = S.interior(spec, 1)
    buf = io.BytesIO()
    paragami.save_folded(buf, value, p)
    buf.seek(0)
    with np.load(buf) as d:
        entries = {k: d[k] for k in d.files}
    flat = np.array(S.flatten(spec, value))
    vkeys = [k for k, v in entries.items() if v.dtype.kind == 'f' and
             v.size == flat.size and np.array_equal(v.ravel(), flat)]
    pkeys = []
    for k, v in entries.items():
        try:
            js = json.loads(str(v))
            if isinstance(js, dict) and 'pattern' in js:
                pkeys.append(k)
        except ValueError:
            pass

    def load(mod):
        b = io.BytesIO()
        np.savez(b, **dict(entries, **mod))
        b.seek(0)
        return paragami.load_folded(b)
    # Values that break a constraint, of the wrong length or shape.
    bad = []
    for c in S.components(spec):
        s = c.spec
        if not s.dv:
            continue
        if type(s) is S.Num:
            bad += [(c.flat0, float(b) + sgn * 1.0)
                    for b, sgn in ((s.lb, -1), (s.ub, 1)) if abs(b) < S.INF]
        elif type(s) is S.Spx:
            bad += [(c.flat0 + j, x) for j in range(s.k)
                    for x in (-0.5, flat[c.flat0 + j] + 1e-6)]
        else:
            bad += [(c.flat0, s.lb - 1.0)]
            bad += [(c.flat0 + 1, 0.77)] if s.n > 1 else []
    for key in ctx.each('entry', vkeys):
        for i, x in ctx.each('broken constraint', bad):
            with ctx.case('broken constraint'):
                ctx.state(S.name(spec), 'tampered', i, x)
                new = flat.copy()
                new[i] = x
                ctx.raises(ValueError, lambda: load({key: new}),
                           'loading a value that breaks a constraint')
        for n in ctx.each('length', [m for m in (
                0, 1, flat.size - 1, flat.size + 1, 2 * flat.size,
                S.length(spec, True)) if 0 <= m != flat.size]):
            with ctx.case('wrong length'):
                ctx.state(S.name(spec), 'cut value', n)
                ctx.raises(ValueError, lambda: load(
                    {key: np.resize(flat, n) if flat.size else np.ones(n)}),
                    'loading a value of the wrong length')
        if flat.size:
            with ctx.case('pickled'):
                # Archives with pickled contents are not from save_folded.
                ctx.state(S.name(spec), 'pickled')
                ctx.raises(Exception, lambda: load(
                    {key: flat.astype(object)}), 'loading a pickled value')
            for sh in ctx.each('shape', [(1, flat.size), (flat.size, 1)]):
                with ctx.case('wrong shape'):
                    ctx.raises(ValueError, lambda: load(
                        {key: flat.reshape(sh)}), 'loading a matrix')
    for key in ctx.each('pattern entry', pkeys):
        with ctx.case('pickled pattern'):
            ctx.raises(Exception, lambda: load({key: np.array(
                str(entries[key]), dtype=object)}),
                'loading a pickled pattern')
        with ctx.case('unknown pattern'):
            js = json.loads(str(entries[key]))
            js['pattern'] = 'NoSuchPattern'
            ctx.raises((ValueError, KeyError), lambda: load(
                {key: json.dumps(js)}), 'loading an unknown pattern')
            for text in ('', '{}', 'x', '[]'):
                ctx.raises(Exception, lambda: load({key: text}),
                           'loading without a pattern')


TARGETS = ['plain', 'npz', 'dotted', 'pathlib', 'buffer', 'handle',
           'other handle']


def save_load(ctx, spec, p, value, target, extra, base):
    import paragami
    if target == 'buffer':
        buf = io.BytesIO()
        paragami.save_folded(buf, value, p, **extra)
        buf.seek(0)
        got = paragami.load_folded(buf)
        check_loaded(ctx, spec, p, value, got, extra)
        return
    name = {'plain': 'value', 'npz': 'value.npz', 'dotted': 'va.l.ue',
            'pathlib': 'value_p', 'handle': 'value_h.npz',
            'other handle': 'value.dat'}[target]
    path = os.path.join(base, name)
    final = path if path.endswith('.npz') or 'handle' in target \
        else path + '.npz'
    if 'handle' in target:
        with open(path, 'wb') as fh:
            paragami.save_folded(fh, value, p, **extra)
    elif target == 'pathlib':
        paragami.save_folded(pathlib.Path(path), value, p, **extra)
    else:
        paragami.save_folded(path, value, p, **extra)
    ctx.expect(os.path.exists(final), '{} was not written', final)
    for how in ('path', 'pathlib', 'handle'):
        if how == 'handle':
            with open(final, 'rb') as fh:
                check_loaded(ctx, spec, p, value, paragami.load_folded(fh),
                             extra)
        else:
            arg = final if how == 'path' else pathlib.Path(final)
            got = paragami.load_folded(arg)
            check_loaded(ctx, spec, p, value, got, extra)
            got[2].close()
        ctx.op()
    os.unlink(final)
    ctx.expect(not os.listdir(base), 'left {} behind', os.listdir(base))


def fresh_dir(ctx):
    base = os.path.join(ctx.scratch, 'files')
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    return base


def one_pattern(ctx, spec, big=False):
    p = S.build(spec)
    for variant in ctx.each('value', ['interior', 'edge', 'raw']):
        if variant == 'raw' and not no_validation(spec):
            continue
        if variant == 'interior':
            value = S.interior(spec, 1)
        elif variant == 'edge':
            value = S.at_edge(spec)
        else:
            n = S.length(spec, False)
            value = S.fold(spec, [SPECIAL[(i * 3 + 1) % len(SPECIAL)]
                                  for i in range(n)])
        for target in ctx.each('target', TARGETS if not big else
                               ['plain', 'buffer']):
            for i in ctx.each('extra', [0, 1, 2] if target in
                              ('plain', 'buffer') else [2]):
                with ctx.case('save and load'):
                    ctx.state(S.name(spec), variant, target, i)
                    save_load(ctx, spec, p, value, target, EXTRAS[i],
                              fresh_dir(ctx))
                    ctx.op(2)


def no_validation(spec):
    if type(spec) is S.Dct:
        return all(no_validation(s) for _, s in spec.items)
    if type(spec) is S.Arr:
        return no_validation(spec.base)
    return not spec.dv


# ---- histories -----------------------------------------------------------
CONTENT = [
    (S.D(('b', S.Num((2,), 0.0, S.INF)), ('a', S.Psd(2))), 0, {}),
    (S.Num((2,), 0.0, S.INF), 1, {'note': 'v1'}),
    (S.D(('b', S.Num((2,), 0.0, S.INF)), ('a', S.Psd(2))), 2,
     {'k': np.arange(3)}),
]


def file_machine(ctx):
    import paragami
    ops_all = [('save', f, i) for f in (0, 1) for i in range(3)] + \
        [('bad save', f) for f in (0, 1)] + \
        [('reserved name', f) for f in (0, 1)] + \
        [('bad shape', 0), ('delete', 0), ('load', 0), ('load', 1)]

    def make():
        return {}, {0: None, 1: None}

    def path(base, f):
        return os.path.join(base, 'f{}.npz'.format(f))

    def step(real, model, op, c):
        kind, f = op[0], op[1]
        if kind == 'save':
            model[f] = op[2]
        elif kind == 'delete':
            model[f] = None
        if real is None:
            return
        if 'dir' not in real:
            real['dir'] = fresh_dir(ctx)
        base = real['dir']
        if kind == 'save':
            spec, variant, extra = CONTENT[op[2]]
            paragami.save_folded(path(base, f), S.interior(spec, variant),
                                 S.build(spec), **extra)
        elif kind == 'bad save':
            spec = S.Vec(2, 0.0, 1.0)
            c.raises(ValueError, lambda: paragami.save_folded(
                path(base, f), np.array([0.5, 1.5]), S.build(spec)),
                'saving an invalid value')
        elif kind == 'reserved name':
            for n in paragami_files():
                spec = S.Vec(2)
                c.raises((TypeError, ValueError), lambda: paragami.save_folded(
                    path(base, f), np.zeros(2), S.build(spec), **{n: 1}),
                    'saving extra data named ' + n)
        elif kind == 'bad shape':
            c.raises(ValueError, lambda: paragami.save_folded(
                path(base, f), np.zeros((2, 3)), S.build(S.Psd(2))),
                'saving a value of the wrong shape')
        elif kind == 'delete':
            if os.path.exists(path(base, f)):
                os.unlink(path(base, f))
        # Both files hold exactly what the model says.
        for g in (0, 1):
            if model[g] is None:
                c.raises(OSError, lambda: paragami.load_folded(
                    path(base, g)), 'loading a missing file')
                continue
            spec, variant, extra = CONTENT[model[g]]
            got = paragami.load_folded(path(base, g))
            check_loaded(c, spec, S.build(spec), S.interior(spec, variant),
                         got, extra)
            c.expect(set(got[2].files) - set(extra) == set(
                paragami_files()), 'unexpected entries {}', got[2].files)
            got[2].close()
            c.op()
        c.outcome('{} {}'.format(kind, sorted(
            'absent' if v is None else 'present' for v in model.values())))

    names = []

    def paragami_files():
        """The entries that a save without extras writes."""
        if not names:
            buf = io.BytesIO()
            paragami.save_folded(buf, np.zeros(1), S.build(S.Sca()))
            buf.seek(0)
            names.extend(np.load(buf).files)
        return names

    histories(ctx, 'files', make, lambda m: ops_all, step,
              5 if ctx.thorough else 4,
              canon=lambda m: (m[0], m[1]),
              dedup_from=4 if ctx.thorough else 3)


# ---- faults ----------------------------------------------------------------
FAULT_SPECS = [S.D(('b', S.Num((2,), -S.INF, S.INF)), ('a', S.Psd(2))),
               S.Num((3, 2)), S.Spx(3, (2,))]


def outcome_of(ctx, spec, p, value, raw, how):
    """Load damaged bytes: an error, or exactly what was saved."""
    import paragami
    try:
        got = paragami.load_folded(io.BytesIO(raw))
    except Exception:
        ctx.op()
        ctx.outcome(how + ': refused')
        return
    ctx.op()
    ctx.outcome(how + ': harmless')
    check_loaded(ctx, spec, p, value, got, {})


def faults(ctx, spec):
    import paragami
    import zipfile
    p = S.build(spec)
    value = S.interior(spec, 1)
    buf = io.BytesIO()
    paragami.save_folded(buf, value, p, extra=np.arange(4))
    raw = buf.getvalue()
    for n in ctx.each('truncated to', range(len(raw))):
        with ctx.case('truncated'):
            ctx.state(S.name(spec), 'cut', n)
            outcome_of(ctx, spec, p, value, raw[:n], 'cut')
    # Overwritten windows of the stored payload.
    with zipfile.ZipFile(io.BytesIO(raw)) as z:
        spans = []
        for info in z.infolist():
            if info.filename.startswith('extra'):
                continue
            # After the local header, the name and the extra field.
            at = info.header_offset
            start = at + 30 + sum(int.from_bytes(raw[at + k:at + k + 2],
                                                 'little') for k in (26, 28))
            spans.append((start, start + info.compress_size))
    w = 8 if ctx.thorough else 32
    for lo, hi in ctx.each('member', spans):
        for a in ctx.each('window', range(lo, hi, w)):
            for fill in ctx.each('fill', [0, 0xff, 'invert']):
                with ctx.case('overwritten'):
                    seg = raw[a:min(a + w, hi)]
                    new = bytes(x ^ 0xff for x in seg) if fill == 'invert' \
                        else bytes([fill]) * len(seg)
                    if new == seg:
                        continue
                    ctx.state(S.name(spec), 'torn', a, fill)
                    outcome_of(ctx, spec, p, value,
                               raw[:a] + new + raw[a + len(seg):], 'torn')
    # Entries missing, or of another pattern.
    with np.load(io.BytesIO(raw)) as d:
        entries = {k: d[k] for k in d.files}
    for drop in ctx.each('missing entry', [k for k in entries
                                           if k != 'extra']):
        with ctx.case('missing entry'):
            b = io.BytesIO()
            np.savez(b, **{k: v for k, v in entries.items() if k != drop})
            ctx.raises(Exception, lambda: paragami.load_folded(
                io.BytesIO(b.getvalue())), 'loading without ' + drop)
    for other in ctx.each('foreign pattern', [
            S.Vec(2), S.Vec(60), S.Psd(5), S.Spx(2, (7,)),
            S.D(('b', S.Vec(1)))]):
        with ctx.case('foreign pattern'):
            b = io.BytesIO()
            ov = S.interior(other)
            paragami.save_folded(b, ov, S.build(other))
            b.seek(0)
            with np.load(b) as d:
                alien = {k: d[k] for k in d.files}
            for mix in ctx.each('mix', list(alien)):
                b = io.BytesIO()
                merged = dict(entries)
                merged[mix] = alien[mix]
                np.savez(b, **merged)
                ctx.raises(ValueError, lambda: paragami.load_folded(
                    io.BytesIO(b.getvalue())),
                    'loading mismatched pattern and value')


def run(ctx):
    level = 2 if ctx.thorough else 1
    for spec in ctx.shard('pattern', U.universe(level) + [
            S.Num((2, 3), dv=False), S.Psd(2, dv=False),
            S.D(('a', S.Vec(3, dv=False)), ('b', S.Psd(2, dv=False)))]):
        one_pattern(ctx, spec)
    for spec in ctx.shard('large', U.scale()):
        one_pattern(ctx, spec, big=True)
    for spec in ctx.shard('extra data of', U.core() if ctx.thorough else [
            U.core()[0], U.core()[-2], S.Vec(1), S.D()]):
        more_extra(ctx, spec)
    for spec in ctx.shard('tampered', U.universe(level)):
        tampered(ctx, spec)
    file_machine(ctx)
    for spec in ctx.shard('faults of', FAULT_SPECS):
        faults(ctx, spec)
