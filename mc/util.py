"""Numerical references shared by the checks."""
import collections

import numpy as np
import scipy.sparse


def directional(f, x, v, h=1e-3):
    """Sixth-order central difference of f at x along v."""
    x = np.asarray(x, dtype=float)
    c = [(1, 45.0 / 60), (2, -9.0 / 60), (3, 1.0 / 60)]
    tot = 0.0
    for k, w in c:
        tot = tot + w * (np.asarray(f(x + k * h * v), dtype=float) -
                         np.asarray(f(x - k * h * v), dtype=float))
    return tot / h


def fd_jacobian(f, x, h=1e-3):
    """Jacobian of a vector function of a vector, by central differences."""
    x = np.asarray(x, dtype=float)
    cols = []
    for i in range(x.size):
        e = np.zeros_like(x)
        e[i] = 1.0
        cols.append(np.asarray(directional(f, x, e, h)).flatten())
    if not cols:
        return np.zeros((np.asarray(f(x)).size, 0))
    return np.array(cols).T


def max_err(a, b):
    dtype = complex if np.iscomplexobj(a) or np.iscomplexobj(b) else float
    a, b = np.asarray(a, dtype=dtype), np.asarray(b, dtype=dtype)
    if a.shape != b.shape:
        return float('inf')
    if a.size == 0:
        return 0.0
    d = np.abs(a - b)
    return float('inf') if np.any(np.isnan(d)) else float(np.max(d))


def scale_of(*arrs):
    m = 1.0
    for a in arrs:
        a = np.asarray(a, dtype=complex if np.iscomplexobj(a) else float)
        if a.size:
            m = max(m, float(np.max(np.abs(a))))
    return m


def near(a, b, tol):
    """max |a - b| <= tol * max(1, |a|, |b|), shapes included."""
    return max_err(a, b) <= tol * scale_of(b)


def snapshot(x):
    """Byte-exact image of a value, to detect mutation."""
    if isinstance(x, dict):
        return ('d', tuple((k, snapshot(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ('l', type(x).__name__, tuple(snapshot(v) for v in x))
    if hasattr(x, 'todense') and hasattr(x, 'tocoo'):
        c = x.tocoo()
        return ('s', c.shape, c.row.tobytes(), c.col.tobytes(),
                c.data.tobytes())
    if isinstance(x, np.ndarray):
        return ('a', str(x.dtype), x.shape, x.tobytes())
    return ('o', repr(x))


def raw(x):
    """Byte-exact image of a value as it is stored, for sparse matrices
    including the order of the entries, repeated ones and stored zeros."""
    if not scipy.sparse.issparse(x):
        return snapshot(x)
    if x.format == 'dok':
        return snapshot(sorted((k, float(v)) for k, v in x.items()))
    return (x.format, x.shape, tuple(
        (a, snapshot(getattr(x, a).tolist())) for a in (
            'data', 'indices', 'indptr', 'row', 'col', 'offsets', 'rows')
        if isinstance(getattr(x, a, None), np.ndarray)))


def messy(m, kind='csc', how='repeated'):
    """The matrix m in compressed format with the entries of each column (or
    row) in descending order; 'repeated': each in two halves; 'zeros': with
    all zeros stored."""
    m = np.asarray(m)
    lines = m.T if kind == 'csc' else m
    data, indices, indptr = [], [], [0]
    for line in lines:
        for j in reversed(range(len(line))):
            if how == 'repeated' and line[j] != 0:
                data += [0.5 * line[j]] * 2
                indices += [j, j]
            elif line[j] != 0 or how == 'zeros':
                data.append(line[j])
                indices.append(j)
        indptr.append(len(data))
    cls = scipy.sparse.csc_matrix if kind == 'csc' else scipy.sparse.csr_matrix
    return cls((np.array(data, dtype=float), np.array(indices, dtype=np.int32),
                np.array(indptr, dtype=np.int32)), shape=m.shape)


def arrays_in(x):
    if isinstance(x, dict):
        return [a for v in x.values() for a in arrays_in(v)]
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in arrays_in(v)]
    if isinstance(x, np.ndarray):
        return [x]
    if hasattr(x, 'data') and isinstance(getattr(x, 'data'), np.ndarray):
        return [x.data]
    return []


def shares(a, b):
    return any(np.shares_memory(p, q) for p in arrays_in(a)
               for q in arrays_in(b) if p.size and q.size)


def is_int(x):
    return isinstance(x, (int, np.integer)) and not isinstance(
        x, (bool, np.bool_))
