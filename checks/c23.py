"""C23: pattern classes defined by the user."""
import io
import itertools
import json

import numpy as np
import scipy.sparse

from mc import spec as S
from mc.util import near

BOUNDS = {
    'classes': '8 user-defined classes that implement only the abstract '
               'methods: affine, sum to zero (fewer free coordinates), '
               'ordered (dense Jacobian), polar (folds to a dictionary), '
               'reversed order, circulant (fewer flat coordinates than entries), more free '
               'than flat coordinates, keyword-only constructor; sizes 1 to '
               '3 (thorough: 4), 3 free defaults',
    'values': 'every free vector over 3 (thorough: 4) numbers',
    'places': 'alone, in dictionaries before, between and after built-in '
              'members, in nested dictionaries, in arrays of 3 shapes, as '
              'inputs and outputs of wrapped functions, in saved files',
    'pairs': 'every ordered pair of classes used in turn in one dictionary',
}
ASSUMPTIONS = ['the methods that the class implements are correct']


def classes():
    """name -> (class, list of constructor arguments, reference)."""
    import autograd.numpy as anp
    from paragami.base_patterns import Pattern

    class Base(Pattern):
        """What the classes have in common: checks of the shape and names."""

        def __str__(self):
            return '{} {}'.format(type(self).__name__, self.as_dict())

        def _which(self, free):
            free = self.free_default if free is None else free
            if free is None:
                raise ValueError('free must be specified.')
            return free

        def _flat(self, flat_val, free):
            flat_val = anp.atleast_1d(flat_val)
            if flat_val.ndim != 1 or len(flat_val) != self.flat_length(free):
                raise ValueError('Wrong size.')
            return flat_val

        def fold(self, flat_val, free=None, validate_value=None):
            free = self._which(free)
            flat_val = self._flat(flat_val, free)
            val = self._fold(self._unfree(flat_val) if free else flat_val)
            if not free:
                ok, msg = self.validate_folded(val, validate_value)
                if not ok:
                    raise ValueError(msg)
            return val

        def flatten(self, folded_val, free=None, validate_value=None):
            free = self._which(free)
            ok, msg = self.validate_folded(folded_val, validate_value)
            if not ok:
                raise ValueError(msg)
            flat_val = self._unfold(folded_val)
            return self._free(flat_val) if free else flat_val

        def empty(self, valid):
            return self._fold(
                self._unfree(np.zeros(self.flat_length(True))) if valid
                else np.full(self.flat_length(False), np.nan))

        def validate_folded(self, folded_val, validate_value=None):
            if np.shape(folded_val) != self._shape():
                return False, 'Wrong shape.'
            if validate_value is None:
                validate_value = True
            if validate_value and not self._valid(folded_val):
                return False, 'Bad value.'
            return True, ''

        def flat_indices(self, folded_bool, free=None):
            free = self._which(free)
            # Every coordinate depends on every other one.
            if np.any(self._unfold(folded_bool)):
                return np.arange(self.flat_length(free))
            return np.array([], dtype=int)

        # Values are vectors unless the class says otherwise.
        def _shape(self):
            return (self.flat_length(False),)

        def _fold(self, flat_val):
            return 1 * flat_val if flat_val.dtype != bool \
                else flat_val.copy()

        def _unfold(self, folded_val):
            return anp.atleast_1d(1 * folded_val)

        def _valid(self, folded_val):
            return True

    class Affine(Base):
        def __init__(self, size, scale=1.0, free_default=None):
            self._size, self._scale = size, scale
            super().__init__(size, size, free_default=free_default)

        def as_dict(self):
            return {'pattern': self.json_typename(), 'size': self._size,
                    'scale': self._scale, 'free_default': self.free_default}

        def _free(self, flat):
            return (flat - 1.0) / self._scale

        def _unfree(self, free):
            return 1.0 + self._scale * free

    class Contrast(Base):
        """Vectors that sum to zero."""

        def __init__(self, size, free_default=None):
            self._size = size
            super().__init__(size, size - 1, free_default=free_default)

        def as_dict(self):
            return {'pattern': self.json_typename(), 'size': self._size,
                    'free_default': self.free_default}

        def _free(self, flat):
            return flat[:-1]

        def _unfree(self, free):
            return anp.concatenate([free, anp.array([-anp.sum(free)])])

        def _valid(self, val):
            return abs(anp.sum(val)) < 1e-9

    class Ordered(Contrast):
        def __init__(self, size, free_default=None):
            self._size = size
            Pattern.__init__(
                self, size, size, free_default=free_default)

        def _free(self, flat):
            return anp.concatenate([flat[:1], anp.log(flat[1:] - flat[:-1])])

        def _unfree(self, free):
            return anp.cumsum(anp.concatenate([free[:1], anp.exp(free[1:])]))

        def _valid(self, val):
            return all(val[i] <= val[i + 1] for i in range(len(val) - 1))

    class Polar(Base):
        """Folds to a dictionary."""

        def __init__(self, free_default=None):
            super().__init__(2, 2, free_default=free_default)

        def as_dict(self):
            return {'pattern': self.json_typename(),
                    'free_default': self.free_default}

        def _fold(self, flat):
            return {'r': flat[0], 't': flat[1]}

        def _unfold(self, val):
            return anp.array([val['r'], val['t']])

        def _free(self, flat):
            return anp.array([anp.log(flat[0]), flat[1] - flat[0]])

        def _unfree(self, free):
            return anp.array([anp.exp(free[0]), free[1] + anp.exp(free[0])])

        def validate_folded(self, val, validate_value=None):
            if not isinstance(val, dict) or sorted(val) != ['r', 't']:
                return False, 'Wrong shape.'
            if validate_value is not False and not val['r'] > 0:
                return False, 'Bad value.'
            return True, ''

    class Circulant(Base):
        """Matrices [[a, b], [b, a]]."""

        def __init__(self, free_default=None):
            super().__init__(2, 2, free_default=free_default)

        def as_dict(self):
            return {'pattern': self.json_typename(),
                    'free_default': self.free_default}

        def _shape(self):
            return (2, 2)

        def _fold(self, flat):
            return anp.array([[flat[0], flat[1]], [flat[1], flat[0]]])

        def _unfold(self, val):
            return anp.array([val[0, 0], val[0, 1]])

        def _free(self, flat):
            return anp.array([anp.log(flat[0] - flat[1]),
                              flat[0] + flat[1]])

        def _unfree(self, free):
            d, s = anp.exp(free[0]), free[1]
            return anp.array([(s + d) / 2, (s - d) / 2])

        def _valid(self, val):
            return val[0, 0] > val[0, 1] and val[0, 1] == val[1, 0] and \
                val[0, 0] == val[1, 1]

    class Split(Base):
        """More free coordinates than flat ones."""

        def __init__(self, size, free_default=None):
            self._size = size
            super().__init__(size, size + 1, free_default=free_default)

        def as_dict(self):
            return {'pattern': self.json_typename(), 'size': self._size,
                    'free_default': self.free_default}

        def _free(self, flat):
            return anp.concatenate([flat[:1] / 2, flat[:1] / 2, flat[1:]])

        def _unfree(self, free):
            return anp.concatenate([free[:1] + free[1:2], free[2:]])

    class Backwards(Base):
        """The flat vector lists the entries from the last to the first."""

        def __init__(self, size, free_default=None):
            self._size = size
            super().__init__(size, size, free_default=free_default)

        as_dict = Contrast.as_dict

        def _fold(self, flat):
            return flat[::-1].copy() if flat.dtype == bool \
                else 1 * flat[::-1]

        def _unfold(self, val):
            return 1 * val[::-1] if np.asarray(val).dtype != bool \
                else val[::-1].copy()

        def _free(self, flat):
            return anp.log(flat)

        def _unfree(self, free):
            return anp.exp(free)

        def _valid(self, val):
            return np.all(val > 0)

    class Keyword(Affine):
        def __init__(self, *, size, scale, free_default=None):
            super().__init__(size, scale, free_default)

    # References: free -> flat and the two Jacobians, written out.
    def affine(a):
        k, n = a.get('scale', 1.0), a['size']
        return (lambda f: 1.0 + k * f, lambda f: k * np.eye(n),
                lambda f: np.eye(n) / k, n, n)

    def contrast(a):
        n = a['size']
        return (lambda f: np.append(f, -np.sum(f)),
                lambda f: np.vstack([np.eye(n - 1), -np.ones((1, n - 1))]),
                lambda f: np.eye(n)[:n - 1], n, n - 1)

    def ordered(a):
        n = a['size']

        def jac(f):
            return np.array([[
                0.0 if j > i else 1.0 if j == 0 else np.exp(f[j])
                for j in range(n)] for i in range(n)])
        return (lambda f: np.array([
            f[0] + sum(np.exp(f[1:i + 1])) for i in range(n)]), jac,
            lambda f: np.linalg.inv(jac(f)), n, n)

    def polar(a):
        def jac(f):
            r = np.exp(f[0])
            return np.array([[r, 0.0], [r, 1.0]])
        return (lambda f: np.array([np.exp(f[0]), f[1] + np.exp(f[0])]), jac,
                lambda f: np.linalg.inv(jac(f)), 2, 2)

    def circulant(a):
        def jac(f):
            d = np.exp(f[0])
            return 0.5 * np.array([[d, 1.0], [-d, 1.0]])
        return (lambda f: np.array([f[1] + np.exp(f[0]),
                                    f[1] - np.exp(f[0])]) / 2, jac,
                lambda f: np.linalg.inv(jac(f)), 2, 2)

    def backwards(a):
        n = a['size']
        return (np.exp, lambda f: np.diag(np.exp(f)),
                lambda f: np.diag(np.exp(-f)), n, n)

    def split(a):
        n = a['size']
        m = np.zeros((n, n + 1))
        b = np.zeros((n + 1, n))
        m[0, :2] = 1.0
        b[:2, 0] = 0.5
        for i in range(1, n):
            m[i, i + 1] = b[i + 1, i] = 1.0
        return (lambda f: m @ f, lambda f: m, lambda f: b, n, n + 1)

    def sized(sizes, **kw):
        return lambda top: [dict(size=k, **kw) for k in sizes if k <= top]
    out = {
        'Affine': (Affine, lambda top: sized((0, 1, 2, 3, 4))(top) + [
            dict(size=2, scale=-0.5)], affine),
        'Backwards': (Backwards, sized((1, 2, 3, 4)), backwards),
        'Contrast': (Contrast, sized((1, 2, 3, 4)), contrast),
        'Ordered': (Ordered, sized((1, 2, 3, 4)), ordered),
        'Polar': (Polar, lambda top: [{}], polar),
        'Circulant': (Circulant, lambda top: [{}], circulant),
        'Split': (Split, sized((1, 2, 3)), split),
        'Keyword': (Keyword, sized((1, 2), scale=3.0), affine),
    }
    # Distinct names for JSON, whatever else is registered.
    for name, (cls, _, _) in out.items():
        cls.__module__ = 'paragami_mc_user'
    return out


def values(nfree, alphabet):
    return [np.array(v) for v in itertools.product(alphabet, repeat=nfree)]


def same(a, b):
    """Equality of folded values, dictionaries included."""
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(
            same(a[k], b[k]) for k in b)
    return np.shape(a) == np.shape(b) and near(
        np.asarray(a, dtype=float), np.asarray(b, dtype=float), 1e-12)


def dense(j):
    return j.toarray() if scipy.sparse.issparse(j) else j


def base(ctx, cls, args, ref, others):
    """Everything that the base class provides."""
    import paragami
    unfree, junfree, jfree, n, m = ref
    alphabet = (-0.75, 0.0, 0.5, 1.25) if ctx.thorough else (-0.75, 0.0, 0.5)
    for fd in ctx.each('free default', (None, True, False)):
        with ctx.case('lengths and defaults'):
            ctx.state(cls.__name__, args, fd)
            p = cls(free_default=fd, **args)
            ctx.expect(p.free_default is fd, 'free_default')
            ctx.expect(p.flat_length(free=True) == m and
                       p.flat_length(free=False) == n, 'lengths {} {}',
                       p.flat_length(True), p.flat_length(False))
            for now in (fd, True, False, None, fd):
                p.free_default = now
                if now is None:
                    ctx.raises(ValueError, p.flat_length, 'unset default')
                    ctx.raises(ValueError, lambda: p.flat_names(None),
                               'unset default')
                else:
                    ctx.expect(p.flat_length() == (m if now else n) and
                               len(p.flat_names(None)) == (m if now else n),
                               'the default {} gives {}', now,
                               p.flat_length())
            for free, k in ((True, m), (False, n)):
                ctx.expect(list(p.flat_names(free)) ==
                           [str(i) for i in range(k)], 'names {}',
                           p.flat_names(free))
            ctx.op(6)
            for r in range(3):
                v = p.random()
                ok, msg = p.validate_folded(v, validate_value=True)
                ctx.expect(ok and p.flatten(v, free=True).shape == (m,),
                           'the random value {} is not valid', v)
                ctx.op()
            for b in (True, False):
                got = p.empty_bool(b)
                leaves = list(got.values()) if isinstance(got, dict) else \
                    list(np.asarray(got).flatten())
                ctx.expect(all(type(x) in (bool, np.bool_) and bool(x) == b
                               for x in leaves) and len(leaves) ==
                           np.size(p.empty(True)) if not isinstance(got, dict)
                           else len(leaves) == 2 and all(
                               bool(x) == b for x in leaves),
                           'empty_bool({}) is {}', b, got)
                ctx.op()
            p.free_default = fd
            for bad in ('log_abs_det_freeing_jacobian',
                        'log_abs_det_unfreeing_jacobian'):
                ctx.raises(NotImplementedError,
                           lambda: getattr(p, bad)(p.random()), bad)
        with ctx.case('JSON and equality'):
            p = cls(free_default=fd, **args)
            js = p.to_json()
            d = json.loads(js)
            ctx.expect(d == p.as_dict() and d['pattern'] ==
                       cls.json_typename(), 'JSON {}', js)
            q = cls.from_json(js)
            ctx.op(2)
            ctx.expect(type(q) is cls and q == p and p == q and
                       not p != q and q.free_default is fd and
                       q.as_dict() == p.as_dict(), 'decoded {}', q)
            for fd2 in (None, True, False):
                ctx.expect((p == cls(free_default=fd2, **args)) ==
                           (fd2 is fd), 'equality of {} and {}', fd, fd2)
            for name, o in others.items():
                if o is not cls:
                    ctx.raises(ValueError, lambda: o.from_json(js),
                               'decoding by ' + name)
            for o in (None, 1, 'x', {}, p.as_dict(), cls,
                      paragami.NumericVectorPattern(n)):
                ctx.expect(not p == o and p != o, 'equal to {}', o)

            class Derived(cls):
                pass
            ctx.expect(Derived(**args) != cls(**args) and
                       cls(**args) != Derived(**args) and
                       Derived(**args) == Derived(**args),
                       'equality with a derived class')
            # Also where both describe themselves in the same words.
            Quiet = type('Quiet', (cls,), {'as_dict': lambda self: dict(
                cls.as_dict(self), pattern=cls.json_typename())})
            ctx.expect(Quiet(**args).as_dict() == cls(**args).as_dict() and
                       Quiet(**args) != cls(**args) and
                       cls(**args) != Quiet(**args) and
                       Quiet(**args) == Quiet(**args),
                       'equality with a derived class of the same content')
            ctx.raises(ValueError, lambda: Derived.from_json(js), 'derived')
            ctx.raises(ValueError, lambda: cls.from_json(
                Derived(**args).to_json()), 'derived')
            ctx.op(9)
        with ctx.case('constructor defaults'):
            # The default of the constructor does not replace what is given.
            for default in (True, False):
                class Set(cls):
                    def __init__(self, *, free_default=default, **kw):
                        super().__init__(free_default=free_default, **kw)
                for k in ({}, {'free_default': fd}):
                    one = Set(**args, **k)
                    two = Set.from_json(one.to_json())
                    ctx.expect(two == one and two.free_default is
                               (fd if k else default),
                               'with the constructor default {}, {} is '
                               'decoded with the free default {}', default,
                               one.to_json(), two.free_default)
                    ctx.op()
        with ctx.case('same name'):
            # Classes are told apart by their modules, however deep.
            made = {}
            for mod in ('user', 'user.first', 'user.first.a', 'user.second.a',
                        'paragami.user'):
                made[mod] = type(cls.__name__, (cls,), {'__module__': mod})
            for c in made.values():
                paragami.register_pattern_json(c, allow_overwrite=True)
            for mod, c in made.items():
                ctx.expect(c.json_typename() == mod + '.' + cls.__name__,
                           'the name {}', c.json_typename())
                got = paragami.get_pattern_from_json(
                    c(free_default=fd, **args).to_json())
                ctx.expect(type(got) is c and got.free_default is fd,
                           'the class of {} is decoded as {}', c, type(got))
                ctx.raises(ValueError, lambda: paragami.register_pattern_json(
                    c), 'registered twice')
                ctx.op(2)
        with ctx.case('unregistered'):
            class Fresh(cls):
                pass
            Fresh.__name__ = 'Fresh{}_{}_{}'.format(
                cls.__name__, fd, len(json.dumps(args)))
            f = Fresh(free_default=fd, **args)
            ctx.raises(KeyError, lambda: paragami.get_pattern_from_json(
                f.to_json()), 'not registered')
    for f in values(m, alphabet):
        with ctx.case('values'):
            ctx.state(cls.__name__, args, f)
            p = cls(**args)
            flat = unfree(f)
            v = p.fold(f, free=True)
            ctx.expect(near(p.flatten(v, free=False), flat, 1e-12),
                       'folding {} gives {}', f, v)
            if m <= n:
                ctx.expect(near(p.flatten(v, free=True), f, 1e-12),
                           'flattening gives {}', p.flatten(v, free=True))
            ju, jf = junfree(f), jfree(f)
            for meth, want in (('unfreeing_jacobian', ju),
                               ('freeing_jacobian', jf)):
                for kw in ({}, {'sparse': True}, {'sparse': False}):
                    got = getattr(p, meth)(v, **kw)
                    ctx.op()
                    ctx.expect(scipy.sparse.issparse(got) ==
                               kw.get('sparse', True) and
                               got.shape == want.shape and
                               near(dense(got), want, 1e-10),
                               '{}({}, {}) is {}, not {}', meth, v, kw,
                               dense(got), want)


MEMBERS = {
    'vector': lambda pg: pg.NumericVectorPattern(2, lb=-1.0),
    'simplex': lambda pg: pg.SimplexArrayPattern(2, (1,)),
    'matrix': lambda pg: pg.PSDSymmetricMatrixPattern(1, diag_lb=0.5),
}


def member_values(pg, name):
    p = MEMBERS[name](pg)
    return p, {'vector': np.array([0.5, 2.0]),
               'simplex': np.array([[0.25, 0.75]]),
               'matrix': np.array([[2.0]])}[name]


def containers(ctx, name, cls, args, ref):
    import paragami as pg
    unfree, junfree, jfree, n, m = ref
    pg.register_pattern_json(cls, allow_overwrite=True)
    alphabet = (-0.5, 0.75)
    for layout in ctx.each('layout', [
            ('x',), ('vector', 'x'), ('x', 'simplex'),
            ('matrix', 'x', 'vector'), ('x', 'vector', 'x2'),
            ('nested',), ('vector', 'nested', 'x')]):
        for f in values(m, alphabet)[:4] if m else [np.zeros(0)]:
            with ctx.case('dictionary'):
                ctx.state('dict', name, args, layout, f)
                d, val = pg.PatternDict(), {}
                flat, free, jus, jfs, names = [], [], [], [], []
                inds_flat, pos = [], 0
                for key in layout:
                    if key in MEMBERS:
                        q, v = member_values(pg, key)
                        d[key], val[key] = q, v
                        flat.append(q.flatten(v, free=False))
                        free.append(q.flatten(v, free=True))
                        jus.append(dense(q.unfreeing_jacobian(v)))
                        jfs.append(dense(q.freeing_jacobian(v)))
                        names += [key + '_' + t for t in
                                  q.flat_names(False)]
                        pos += len(flat[-1])
                        continue
                    g = f if key != 'x2' else f + 0.25
                    p = cls(**args)
                    v = p.fold(g, free=True)
                    if key == 'nested':
                        inner = pg.PatternDict()
                        inner['deep'] = p
                        d[key], val[key] = inner, {'deep': v}
                        names += ['nested_deep_' + str(i) for i in range(n)]
                    else:
                        d[key], val[key] = p, v
                        names += [key + '_' + str(i) for i in range(n)]
                    flat.append(unfree(g))
                    free.append(p.flatten(v, free=True))
                    jus.append(junfree(g))
                    jfs.append(jfree(g))
                    inds_flat.append(np.arange(pos, pos + n))
                    pos += n
                flat, free = np.hstack(flat), np.hstack(free)
                ju = scipy.sparse.block_diag(jus).toarray()
                jf = scipy.sparse.block_diag(jfs).toarray()
                ctx.expect(d.flat_length(False) == len(flat) and
                           d.flat_length(True) == len(free), 'lengths')
                ctx.expect(near(d.flatten(val, free=False), flat, 1e-12) and
                           near(d.flatten(val, free=True), free, 1e-12),
                           'flattening gives {}, not {}',
                           d.flatten(val, free=False), flat)
                for fr, vec in ((False, flat), (True, free)):
                    got = d.fold(vec, free=fr)
                    ctx.expect(same(dict(got), {k: val[k] for k in layout})
                               if m <= n or not fr else True,
                               'folding {} gives {}', vec, got)
                for meth, want in (('unfreeing_jacobian', ju),
                                   ('freeing_jacobian', jf)):
                    for sp in (True, False):
                        got = getattr(d, meth)(val, sparse=sp)
                        ctx.expect(scipy.sparse.issparse(got) == sp and
                                   near(dense(got), want, 1e-10),
                                   '{} is {}, not {}', meth, dense(got),
                                   want)
                ctx.expect(list(d.flat_names(free=False)) == names,
                           'names {}, expected {}', d.flat_names(False),
                           names)
                sel = d.empty_bool(False)
                for key in layout:
                    if key in MEMBERS:
                        continue
                    b = cls(**args).empty_bool(True)
                    sel[key] = {'deep': b} if key == 'nested' else b
                ctx.expect(np.array_equal(d.flat_indices(sel, free=False),
                                          np.hstack(inds_flat)),
                           'indices {}, expected {}',
                           d.flat_indices(sel, free=False), inds_flat)
                ctx.op(12)
                for meth in ('log_abs_det_freeing_jacobian',
                             'log_abs_det_unfreeing_jacobian'):
                    ctx.raises(NotImplementedError,
                               lambda: getattr(d, meth)(val), meth)
                back = pg.get_pattern_from_json(d.to_json())
                ctx.expect(back == d and near(
                    back.flatten(val, free=True), free, 1e-12), 'JSON')
                fh = io.BytesIO()
                pg.save_folded(fh, val, d)
                fh.seek(0)
                got, q, _ = pg.load_folded(fh)
                ctx.expect(q == d and same(dict(got), {
                    k: val[k] for k in layout}), 'loaded {}', got)
                v = d.random()
                ctx.expect(d.validate_folded(v, validate_value=True)[0],
                           'random {}', v)
                ctx.op(4)
    for shape in ctx.each('array', [(), (2,), (3, 2)]):
        with ctx.case('array'):
            ctx.state('array', name, args, shape)
            p = cls(**args)
            if name == 'Polar':
                ctx.raises(NotImplementedError, lambda: pg.PatternArray(
                    shape, p), 'values that are not arrays')
                continue
            a = pg.PatternArray(shape, p)
            count = S.prod(shape)
            fs = [np.array([0.5 * S.frac(i * m + j, 1) for j in range(m)])
                  for i in range(count)]
            flat = np.hstack([unfree(f) for f in fs])
            vals = [p.fold(f, free=True) for f in fs]
            val = np.array(vals).reshape(shape + np.shape(vals[0]))
            free = np.hstack([p.flatten(v, free=True) for v in vals])
            ctx.expect(near(a.flatten(val, free=False), flat, 1e-12) and
                       near(a.flatten(val, free=True), free, 1e-12) and
                       near(a.fold(flat, free=False), val, 1e-12) and
                       near(a.fold(free, free=True), val, 1e-12),
                       'arrays of {}: {}', name, a.flatten(val, free=False))
            ju = scipy.sparse.block_diag([junfree(f) for f in fs]).toarray()
            jf = scipy.sparse.block_diag([jfree(f) for f in fs]).toarray()
            ctx.expect(near(dense(a.unfreeing_jacobian(val)), ju, 1e-10) and
                       near(a.freeing_jacobian(val, sparse=False), jf, 1e-10),
                       'the Jacobians of arrays of {}', name)
            back = pg.get_pattern_from_json(a.to_json())
            ctx.expect(back == a and type(back.base_pattern()) is cls,
                       'JSON of an array')
            ctx.expect(a.validate_folded(a.random(), True)[0], 'random')
            ctx.op(8)


def wrapped(ctx, name, cls, args, ref):
    import autograd
    import autograd.numpy as anp
    import paragami as pg
    unfree, junfree, jfree, n, m = ref
    p = cls(**args)
    for f in ctx.each('free vector', values(m, (-0.5, 0.25))[:4]
                      if m else [np.zeros(0)]):
        with ctx.case('wrapped'):
            ctx.state('wrapped', name, args, f)
            w = 1.0 + 0.5 * np.arange(n)

            def fun(scale, val):
                return anp.sum(scale * w * p.flatten(val, free=False) ** 2)
            g = pg.FlattenFunctionInput(fun, p, True, 1)
            flat = unfree(f)
            ctx.expect(near(g(2.0, f), 2.0 * np.sum(w * flat ** 2), 1e-12),
                       'the wrapped function gives {}', g(2.0, f))
            if m:
                ju = junfree(f)
                ctx.expect(near(autograd.grad(g, 1)(2.0, f),
                                ju.T @ (4.0 * w * flat), 1e-10),
                           'the gradient is {}', autograd.grad(g, 1)(2.0, f))
            h = pg.FlattenFunctionOutput(lambda: (3, p.fold(f, free=True)),
                                         p, False, 1)
            out = h()
            ctx.expect(out[0] == 3 and near(out[1], flat, 1e-12), 'output {}',
                       out)
            h = pg.FoldFunctionOutput(lambda: flat, p, False)
            ctx.expect(same(h(), p.fold(flat, free=False)), 'output')
            h = pg.FoldFunctionInput(lambda x: 1.0 * x, p, False, 0)
            ctx.expect(near(h(p.fold(flat, free=False)), flat, 1e-12),
                       'input')
            ctx.op(5)


def incomplete(ctx):
    """Classes that leave out an abstract method cannot be used."""
    from paragami.base_patterns import Pattern
    need = ['__str__', 'as_dict', 'fold', 'flatten', 'empty',
            'validate_folded', 'flat_indices']
    for k in range(len(need)):
        for missing in ctx.each('missing', itertools.combinations(
                need, k + 1)):
            with ctx.case('incomplete'):
                cls = type('Incomplete', (Pattern,), {
                    x: (lambda self, *a, **k: None) for x in need
                    if x not in missing})
                ctx.raises(TypeError, lambda: cls(1, 1), 'incomplete class')
    with ctx.case('exported'):
        import paragami
        ctx.expect(getattr(paragami, 'Pattern', None) is Pattern,
                   'the base class is not exported as paragami.Pattern')
    with ctx.case('complete'):
        cls = type('Complete', (Pattern,), {
            x: (lambda self, *a, **k: None) for x in need})
        p = cls(3, 2, free_default=True)
        ctx.expect(p.flat_length() == 2 and p.flat_length(False) == 3,
                   'lengths')


def in_turn(ctx, table, one, two):
    """Two classes in one dictionary, used in turn."""
    import paragami as pg
    with ctx.case('in turn'):
        ctx.state('in turn', one, two)
        ps, refs = [], []
        for name in (one, two):
            cls, arglist, ref = table[name]
            args = arglist(3)[-1]
            ps.append(cls(**args))
            refs.append(ref(args))
        d = pg.PatternDict()
        d['a'], d['b'] = ps
        fs = [np.array([0.5 - 0.25 * i for i in range(r[4])]) for r in refs]
        for _ in range(2):
            for i in (0, 1):
                v = ps[i].fold(fs[i], free=True)
                ctx.expect(near(dense(ps[i].unfreeing_jacobian(v)),
                                refs[i][1](fs[i]), 1e-10) and
                           near(dense(ps[i].freeing_jacobian(v)),
                                refs[i][2](fs[i]), 1e-10), 'in turn')
            val = d.fold(np.hstack(fs), free=True)
            ctx.expect(near(d.flatten(val, free=False), np.hstack([
                r[0](f) for r, f in zip(refs, fs)]), 1e-12), 'together')
            ctx.expect(near(dense(d.unfreeing_jacobian(val)),
                            scipy.sparse.block_diag([
                                r[1](f) for r, f in zip(refs, fs)]).toarray(),
                            1e-10), 'Jacobians together')
            ctx.op(6)


def run(ctx):
    table = classes()
    others = {k: c for k, (c, _, _) in table.items()}
    top = 4 if ctx.thorough else 3
    work = [(name, i) for name in sorted(table)
            for i in range(len(table[name][1](top)))]
    for name, i in ctx.shard('class', work):
        cls, arglist, ref = table[name]
        args = arglist(top)[i]
        for part in ctx.each('part', ('base', 'containers', 'wrapped')):
            if part == 'base':
                base(ctx, cls, args, ref(args), others)
            elif part == 'containers':
                containers(ctx, name, cls, args, ref(args))
            else:
                wrapped(ctx, name, cls, args, ref(args))
    for one, two in ctx.shard('pair', itertools.product(
            sorted(table), repeat=2)):
        in_turn(ctx, table, one, two)
    for _ in ctx.shard('incomplete', [0]):
        incomplete(ctx)
