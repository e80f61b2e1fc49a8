"""Independent reference model of paragami's patterns.

Nothing here imports paragami except ``build``; the reference functions are
deliberately boring loops over indices, so that they share no code path (and
no numpy reshape trick) with the implementation.
"""
import collections
import itertools
import math

import numpy as np

INF = float('inf')

Num = collections.namedtuple('Num', 'shape lb ub dv fd kind')
Num.__new__.__defaults__ = (-INF, INF, True, None, 'array')
Spx = collections.namedtuple('Spx', 'k ashape dv fd')
Spx.__new__.__defaults__ = ((1,), True, None)
Psd = collections.namedtuple('Psd', 'n lb dv fd')
Psd.__new__.__defaults__ = (0.0, True, None)
Arr = collections.namedtuple('Arr', 'ashape base fd')
Arr.__new__.__defaults__ = (None,)
# ``share``: equal specifications anywhere inside are one pattern object.
Dct = collections.namedtuple('Dct', 'items fd share')
Dct.__new__.__defaults__ = (None, False)


def Vec(n, lb=-INF, ub=INF, dv=True, fd=None):
    return Num((n,), lb, ub, dv, fd, 'vector')


def Sca(lb=-INF, ub=INF, dv=True, fd=None):
    return Num((1,), lb, ub, dv, fd, 'scalar')


def D(*items, fd=None, share=False):
    return Dct(tuple(items), fd, share)


# ---- building the real thing ------------------------------------------
def build(spec, memo=None, style='short'):
    if memo is not None:
        if spec not in memo:
            memo[spec] = _build(spec, memo, style)
        return memo[spec]
    return _build(spec, {} if type(spec) is Dct and spec.share else None,
                  style)


def numpy_scalars(x, style='numpy'):
    small = style == 'numpy small'
    if isinstance(x, tuple):
        return tuple(numpy_scalars(i, style) for i in x)
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, int):
        if abs(x) > 2 ** 62:
            return x
        return np.int16(x) if small and abs(x) < 2 ** 14 else np.int64(x)
    if isinstance(x, float) and style == 'numpy integers' and \
            abs(x) < 2 ** 53 and x == int(x):
        return np.int64(x)
    if isinstance(x, float):
        return np.float32(x) if small and float(np.float32(x)) == x \
            else np.float64(x)
    return x


DEFAULTS = dict(lb=-INF, ub=INF, default_validate=True, free_default=None,
                diag_lb=0.0)


def _build(spec, memo, style='short'):
    """``short`` leaves out the arguments that have their documented default,
    ``keywords`` names all of them and ``positional`` none; ``numpy`` gives
    numpy integers, floating point numbers and booleans."""
    import paragami
    t = type(spec)
    convert = numpy_scalars if style.startswith('numpy') else lambda x, s: x

    def make(cls, required, **kw):
        required = {k: convert(v, style) for k, v in required.items()}
        kw = {k: convert(v, style) for k, v in kw.items()}
        if style == 'positional':
            return cls(*required.values(), *kw.values())
        if style == 'keywords':
            return cls(**required, **kw)
        return cls(*required.values(), **{
            k: v for k, v in kw.items()
            if style != 'short' or not (v is DEFAULTS[k] or type(v) is float and
                    v == DEFAULTS[k])})
    if t is Num:
        kw = dict(lb=spec.lb, ub=spec.ub, default_validate=spec.dv,
                  free_default=spec.fd)
        if spec.kind == 'vector':
            return make(paragami.NumericVectorPattern,
                        dict(length=spec.shape[0]), **kw)
        if spec.kind == 'scalar':
            return make(paragami.NumericScalarPattern, {}, **kw)
        return make(paragami.NumericArrayPattern, dict(shape=spec.shape),
                    **kw)
    if t is Spx:
        return make(paragami.SimplexArrayPattern,
                    dict(simplex_size=spec.k, array_shape=spec.ashape),
                    default_validate=spec.dv, free_default=spec.fd)
    if t is Psd:
        return make(paragami.PSDSymmetricMatrixPattern, dict(size=spec.n),
                    diag_lb=spec.lb, default_validate=spec.dv,
                    free_default=spec.fd)
    if t is Arr:
        return make(paragami.PatternArray,
                    dict(array_shape=spec.ashape,
                         base_pattern=build(spec.base, memo, style)),
                    free_default=spec.fd)
    if t is Dct:
        d = make(paragami.PatternDict, {}, free_default=spec.fd)
        for k, s in spec.items:
            d[k] = build(s, memo, style)
        return d
    raise TypeError(spec)


def name(spec):
    """A short printable form."""
    t = type(spec)
    extra = ''
    if t is not Dct and t is not Arr and not spec.dv:
        extra += ' dv=0'
    if spec.fd is not None:
        extra += ' fd={}'.format(spec.fd)
    if t is Num:
        return '{}{}[{},{}]{}'.format(
            spec.kind[:3], list(spec.shape), spec.lb, spec.ub, extra)
    if t is Spx:
        return 'spx{}x{}{}'.format(list(spec.ashape), spec.k, extra)
    if t is Psd:
        return 'psd{}>={}{}'.format(spec.n, spec.lb, extra)
    if t is Arr:
        return 'arr{}({}){}'.format(list(spec.ashape), name(spec.base), extra)
    if spec.share:
        extra += ' shared'
    return '{' + ', '.join(
        '{!r}: {}'.format(k, name(s)) for k, s in spec.items) + '}' + extra


# ---- shape and length ---------------------------------------------------
def prod(t):
    p = 1
    for x in t:
        p *= x
    return p


def shape(spec):
    t = type(spec)
    if t is Num:
        return tuple(spec.shape)
    if t is Spx:
        return tuple(spec.ashape) + (spec.k,)
    if t is Psd:
        return (spec.n, spec.n)
    if t is Arr:
        return tuple(spec.ashape) + shape(spec.base)
    raise TypeError(spec)


def length(spec, free):
    t = type(spec)
    if t is Num:
        return prod(spec.shape)
    if t is Spx:
        return prod(spec.ashape) * (spec.k - 1 if free else spec.k)
    if t is Psd:
        return spec.n * (spec.n + 1) // 2 if free else spec.n ** 2
    if t is Arr:
        return prod(spec.ashape) * length(spec.base, free)
    return sum(length(s, free) for _, s in spec.items)


def depth(spec):
    if type(spec) is Dct:
        return 1 + max([depth(s) for _, s in spec.items] or [0])
    if type(spec) is Arr:
        return 1 + depth(spec.base)
    return 0


Leaf = collections.namedtuple(
    'Leaf', 'keys index spec flat0 flatn free0 freen')
# One independent component: the value found by following ``keys`` through
# dictionaries and then indexing the array with ``index``; its flat and free
# coordinates are contiguous.


def components(spec, keys=(), index=(), flat0=0, free0=0):
    """All independent components in documented order: dictionary insertion
    order, then C order of array items, then C order of entries."""
    t = type(spec)
    out = []
    if t is Dct:
        for k, s in spec.items:
            sub = components(s, keys + (k,), (), flat0, free0)
            out += sub
            flat0 += length(s, False)
            free0 += length(s, True)
        return out
    if t is Arr:
        for item in itertools.product(*[range(i) for i in spec.ashape]):
            out += components(spec.base, keys, index + item, flat0, free0)
            flat0 += length(spec.base, False)
            free0 += length(spec.base, True)
        return out
    if t is Num:
        for j, item in enumerate(
                itertools.product(*[range(i) for i in spec.shape])):
            out.append(Leaf(keys, index + item, spec, flat0 + j, 1,
                            free0 + j, 1))
        return out
    if t is Spx:
        k = spec.k
        for j, item in enumerate(
                itertools.product(*[range(i) for i in spec.ashape])):
            out.append(Leaf(keys, index + item, spec, flat0 + j * k, k,
                            free0 + j * (k - 1), k - 1))
        return out
    n = spec.n
    return [Leaf(keys, index, spec, flat0, n * n, free0, n * (n + 1) // 2)]


def arrays(spec, keys=()):
    """(keys, spec) of every maximal numpy-array-valued part."""
    if type(spec) is Dct:
        out = []
        for k, s in spec.items:
            out += arrays(s, keys + (k,))
        return out
    return [(keys, spec)]


def get(value, keys):
    for k in keys:
        value = value[k]
    return value


# ---- reference folding --------------------------------------------------
def flatten(spec, value):
    """Non-free flattening as a python list."""
    t = type(spec)
    if t is Dct:
        out = []
        for k, s in spec.items:
            out += flatten(s, value[k])
        return out
    value = np.asarray(value)
    return [value[ind] for ind in
            itertools.product(*[range(i) for i in shape(spec)])]


def fold(spec, flat, dtype=None):
    """Non-free folding of a list into fresh arrays / OrderedDicts."""
    flat = list(flat)

    def rec(s, pos):
        if type(s) is Dct:
            d = collections.OrderedDict()
            for k, sub in s.items:
                d[k], pos = rec(sub, pos)
            return d, pos
        a = np.empty(shape(s), dtype=dtype if dtype is not None else float)
        for ind in itertools.product(*[range(i) for i in shape(s)]):
            a[ind] = flat[pos]
            pos += 1
        return a, pos
    val, pos = rec(spec, 0)
    if pos != len(flat):
        raise ValueError('reference fold: wrong length')
    return val


def same(a, b, exact=True, rtol=0.0, atol=0.0):
    """Structural equality of two folded values (key order included)."""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return False
        if list(a.keys()) != list(b.keys()):
            return False
        return all(same(a[k], b[k], exact, rtol, atol) for k in a)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if exact:
        return bool(np.array_equal(a, b))
    return close(a, b, rtol, atol)


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return bool(np.array_equal(a, b))
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def vcopy(value):
    """Independent deep copy of a folded value."""
    if isinstance(value, dict):
        return collections.OrderedDict(
            (k, vcopy(v)) for k, v in value.items())
    return np.array(value)


# ---- reference validity -------------------------------------------------
def valid(spec, value, vv=None, psd_check=False, simplex_tol=1e-12):
    """Reference verdict of validate_folded.  ``vv`` is validate_value.
    With ``psd_check`` the matrix must also be positive semi-definite (which
    paragami documents that it does not check)."""
    t = type(spec)
    if t is Dct:
        for k, s in spec.items:
            if k not in value:
                return False
            if not valid(s, value[k], vv, psd_check, simplex_tol):
                return False
        return True
    value = np.asarray(value)
    if t is Num and value.ndim == 0:
        value = value.reshape((1,))     # scalars may be given for shape (1,)
    if value.shape != shape(spec):
        return False
    if t is Arr:
        return all(
            valid(spec.base, value[item], vv, psd_check, simplex_tol)
            for item in itertools.product(*[range(i) for i in spec.ashape]))
    if not (spec.dv if vv is None else vv):
        return True
    if t is Num:
        return all(spec.lb <= x <= spec.ub for x in value.flat)
    if t is Spx:
        for item in itertools.product(*[range(i) for i in spec.ashape]):
            row = [float(x) for x in value[item]]
            if any(x < 0 for x in row):
                return False
            if abs(math.fsum(row) - 1.0) > simplex_tol:
                return False
        return True
    for i in range(spec.n):
        if value[i, i] < spec.lb:
            return False
        for j in range(i):
            if value[i, j] != value[j, i]:
                return False
    if psd_check and spec.n:
        m = np.array(value, dtype=float)
        ev = np.linalg.eigvalsh(m)
        if ev[0] < -1e-9 * max(1.0, abs(ev[-1])):
            return False
    return True


# ---- value generators ---------------------------------------------------
def labelled(spec, start=1, dtype=float):
    """A value whose entries are all distinct (usually not valid)."""
    n = length(spec, False)
    return fold(spec, range(start, start + n), dtype)


_IRR = [0.137, 0.71, 0.293, 0.889, 0.431, 0.577, 0.05, 0.963, 0.349, 0.641,
        0.218, 0.802, 0.489]


def frac(i, variant=0):
    """A deterministic spread of numbers in (0, 1)."""
    return (_IRR[(i * 5 + variant * 3) % 13] + 0.618034 * (i + 1) * (variant + 1)) % 1.0


def interior_num(lb, ub, u, variant=0):
    """A value strictly inside the bounds; u in (0, 1)."""
    if lb > -INF and ub < INF:
        return lb + (ub - lb) * (0.05 + 0.9 * u)
    if lb > -INF:
        return lb + 0.1 + 3.0 * u
    if ub < INF:
        return ub - 0.1 - 3.0 * u
    return 6.0 * u - 3.0


def interior(spec, variant=0):
    """A valid value well inside the constraints, with no two components
    alike.  Different variants give different values."""
    flat = [None] * length(spec, False)
    for c, comp in enumerate(components(spec)):
        s = comp.spec
        if type(s) is Num:
            vals = [interior_num(s.lb, s.ub, frac(c, variant))]
        elif type(s) is Spx:
            w = [0.15 + frac(c * s.k + j, variant) for j in range(s.k)]
            vals = simplex_exact(w)
        else:
            vals = pd_matrix(s.n, s.lb, c, variant).flatten()
        flat[comp.flat0:comp.flat0 + comp.flatn] = list(vals)
    return fold(spec, flat)


def simplex_exact(w):
    """Normalise so that the sum is one to the last bits."""
    tot = math.fsum(w)
    p = [x / tot for x in w]
    for _ in range(3):
        p[0] -= math.fsum(p) - 1.0
    return p


def pd_matrix(n, lb, c=0, variant=0, scale=1.0):
    """An exactly symmetric positive definite matrix whose diagonal exceeds
    lb with mat - lb * I positive definite too."""
    m = np.zeros((n, n))
    for i in range(n):
        for j in range(i):
            x = (frac(c * 7 + i * n + j, variant) - 0.5) * 1.2 / max(1, n - 1)
            m[i, j] = m[j, i] = x * scale
        m[i, i] = (0.8 + frac(c * 5 + i, variant)) * scale + lb
    return m


SPECIAL = [0.0, -0.0, 5e-324, 1.0 + 2 ** -52, -1e308, 1 / 3.0, 1e16,
           float('inf')]


def at_edge(spec):
    """A valid value on the boundary of the constraints."""
    flat = [None] * length(spec, False)
    for c, comp in enumerate(components(spec)):
        s = comp.spec
        if type(s) is Num:
            bs = [b for b in (s.lb, s.ub) if abs(b) < INF]
            v = [float(bs[c % len(bs)])] if bs else \
                [SPECIAL[c % (len(SPECIAL) - 1)]]
        elif type(s) is Spx:
            v = [float(j == c % s.k) for j in range(s.k)]
        else:
            v = list(np.eye(s.n).flatten() * float(s.lb))
        flat[comp.flat0:comp.flat0 + comp.flatn] = v
    return fold(spec, flat)


def free_vec(spec, variant=0, scale=1.5):
    n = length(spec, True)
    return np.array([(frac(i, variant) - 0.5) * 2 * scale for i in range(n)])


# ---- reference names ----------------------------------------------------
def names(spec, free, top=True):
    t = type(spec)
    if t is Dct:
        out = []
        for k, s in spec.items:
            out += [k + '_' + x for x in names(s, free)]
        return out
    if t is Num:
        return ['[' + ','.join(str(i) for i in ind) + ']' for ind in
                itertools.product(*[range(i) for i in spec.shape])]
    return [str(i) for i in range(length(spec, free))]


# ---- memory layouts -----------------------------------------------------
def layouts(a):
    """The same array in memory layouts that must not matter."""
    a = np.asarray(a)
    out = [('C', np.array(a, order='C')), ('F', np.array(a, order='F'))]
    big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
    if a.ndim:
        sl = tuple(slice(0, 2 * s, 2) for s in a.shape)
        big[sl] = a
        out.append(('strided', big[sl]))
        rev = tuple(slice(None, None, -1) for _ in a.shape)
        out.append(('reversed', np.array(a[rev])[rev]))
        if a.ndim > 1:
            out.append(('transposed', np.array(a.T).T))
        off = np.zeros(a.size + 1, dtype=a.dtype)
        off[1:] = a.flatten()
        out.append(('offset', off[1:].reshape(a.shape)))
    ro = np.array(a)
    ro.flags.writeable = False
    out.append(('readonly', ro))
    return out


def vlayouts(value):
    """Layout variants of a whole folded value (all arrays alike)."""
    if isinstance(value, dict):
        if not value:
            return [('C', collections.OrderedDict())]
        per = {k: dict(vlayouts(v)) for k, v in value.items()}
        tags = []
        for v in per.values():
            for t in v:
                if t not in tags:
                    tags.append(t)
        out = []
        for t in tags:
            out.append((t, collections.OrderedDict(
                (k, per[k].get(t, per[k].get('C'))) for k in value)))
        return out
    return layouts(value)
