"""The bounded universe of patterns that the checks enumerate."""
import itertools

from .spec import Num, Spx, Psd, Arr, Dct, Vec, Sca, D, INF

BOUNDS = [(-INF, INF), (0.0, INF), (-INF, 0.0), (0.0, 1.0)]
BOUNDS2 = [(-1.0, INF), (2.5, INF), (-INF, 4.0), (-INF, -1.5), (-2.0, 3.0),
           (-5.0, -4.5), (1e-3, 2e-3), (-1e6, 1e6), (10, INF), (-1, 1),
           (1, 7), (-INF, 2), (-1.0, 0.0), (-1e6, 0.0), (2.9, 8.0),
           (100.0, 100.001), (-8.0, -2.9)]

SHAPES_SMALL = [(1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (2, 3), (3, 2)]
SHAPES_MORE = [(4,), (5,), (7,), (3, 3), (4, 2), (2, 1, 3), (2, 2, 2),
               (1, 1, 1), (3, 1, 2), (2, 3, 4), (1, 2, 1, 2), (2, 2, 2, 2),
               (2, 3, 1, 2), (4, 5)]
SHAPES_THOROUGH = [(6,), (8,), (9,), (10,), (11,), (5, 5), (3, 4, 2),
                   (1, 1, 1, 1), (3, 2, 2, 3), (2, 2, 2, 2, 2), (1, 3, 1, 2, 2),
                   (16,), (17,), (12, 11)]


def leaves(level=1):
    """level 0: a handful, 1: quick, 2: thorough."""
    out = []
    shapes = [(2,), (2, 3)] if level == 0 else SHAPES_SMALL + SHAPES_MORE
    if level >= 2:
        shapes = shapes + SHAPES_THOROUGH
    for sh in shapes:
        for lb, ub in BOUNDS:
            out.append(Num(sh, lb, ub))
    if level >= 1:
        for lb, ub in BOUNDS2:
            for sh in ([(2,), (2, 2)] if level == 1 else SHAPES_SMALL):
                out.append(Num(sh, lb, ub))
        for n in (1, 2, 3, 5):
            for lb, ub in BOUNDS + [(-2.0, 3.0)]:
                out.append(Vec(n, lb, ub))
        for lb, ub in BOUNDS + BOUNDS2:
            out.append(Sca(lb, ub))
        # Nothing at all.
        out += [Num((0,), 0.0, INF), Num((2, 0)), Vec(0, 0.0, 1.0)]
        out += [Num((2, 2), 0.0, 1.0, dv=False), Num((3,), -1.0, INF, dv=False),
                Vec(3, 0.0, INF, dv=False), Sca(0.0, 2.0, dv=False)]
    ks = [2, 3] if level == 0 else [2, 3, 4, 5] if level == 1 else \
        [2, 3, 4, 5, 6, 7, 8]
    ashapes = [(1,), (2,)] if level == 0 else \
        [(1,), (2,), (3,), (1, 1), (2, 2), (2, 1), (1, 3), (2, 3), (2, 1, 2),
         (2, 2, 2), ()]
    if level >= 2:
        ashapes = ashapes + [(4,), (5,), (3, 2), (1, 2, 2), (3, 1, 2),
                             (2, 1, 2, 2)]
    for k in ks:
        for a in ashapes:
            out.append(Spx(k, a))
    if level >= 1:
        out += [Spx(3, (2,), dv=False), Spx(2, (1,), dv=False)]
    ns = [1, 2, 3] if level == 0 else [1, 2, 3, 4, 5] if level == 1 else \
        [1, 2, 3, 4, 5, 6, 7, 8]
    for n in ns:
        for lb in ([0.0] if level == 0 else [0.0, 0.5, 3.0]):
            out.append(Psd(n, lb))
    if level >= 1:
        out += [Psd(3, 0.0, dv=False), Psd(2, 1.0, dv=False), Psd(2, 1),
                Psd(3, 1e-3)]
    return out


CORE_LEAVES = [
    Num((2,), -INF, INF), Num((2, 3), 0.0, INF), Num((3,), -INF, 2.0),
    Num((2, 2), -1.0, 3.0), Vec(3, 0.0, INF), Sca(0.0, 1.0), Sca(),
    Spx(3, (2,)), Spx(2, (1,)), Spx(4, (2, 2)), Psd(2), Psd(3, 0.5), Psd(1),
]

ARR_SHAPES = [(1,), (2,), (3,), (2, 2), (2, 3), (3, 2), (1, 2), (2, 1),
              (2, 1, 2), (2, 3, 2), ()]


def arrays(level=1):
    bases = CORE_LEAVES if level >= 1 else CORE_LEAVES[:3] + [
        Spx(3, (2,)), Psd(2)]
    shapes = ARR_SHAPES if level >= 1 else [(2,), (2, 2)]
    if level >= 2:
        shapes = shapes + [(4,), (3, 3), (1, 1, 1), (2, 2, 2), (1, 3, 2),
                           (11,)]
    out = [Arr(a, b) for b in bases for a in shapes]
    out.append(Arr((2,), Num((2,), 0.0, 1.0, dv=False)))
    out.append(Arr((2,), Psd(2, 0.0, dv=False)))
    out.append(Arr((2,), Spx(2, (1,), dv=False)))
    # Arrays of arrays.
    inner = [Arr((2,), Num((2,), 0.0, INF)), Arr((2, 1), Spx(3, (1,))),
             Arr((2,), Psd(2)), Arr((3,), Sca(0.0, 1.0))]
    for b in inner:
        for a in ([(2,), (2, 2)] if level < 2 else [(2,), (2, 2), (3, 1), ()]):
            out.append(Arr(a, b))
    out.append(Arr((2,), Arr((2,), Arr((2,), Psd(2, 0.5)))))
    # Four and more array dimensions, no two alike in order.
    out += [Arr((2, 1, 3, 2), Num((2,), 0.0, INF)),
            Arr((1, 3, 2, 2), Spx(2, (1,))), Arr((3, 2, 1, 2), Psd(1)),
            Arr((2, 3, 2, 1, 2), Sca(0.0, 1.0))]
    return out


MEMBERS = [
    Num((2,), -INF, INF), Num((2, 2), 0.0, 1.0), Sca(0.0, INF),
    Spx(3, (2,)), Psd(2), Arr((2,), Psd(2, 0.5)),
    Arr((2, 2), Num((2,), -INF, 1.0)), Vec(3, -1.0, INF),
]


def dicts(level=1):
    out = []
    out.append(D())
    for m in MEMBERS:
        out.append(D(('a', m)))
    # All ordered pairs, keys in and out of alphabetical order.
    pairs = list(itertools.product(MEMBERS, repeat=2))
    for i, (m1, m2) in enumerate(pairs):
        keys = ('a', 'b') if i % 2 == 0 else ('b', 'a')
        out.append(D((keys[0], m1), (keys[1], m2)))
    small = [Num((2,), 0.0, INF), Spx(3, (1,)), Psd(2), Sca(-1.0, 1.0)]
    for ms in itertools.product(small, repeat=3):
        out.append(D(('z', ms[0]), ('a', ms[1]), ('m', ms[2])))
    # Nested.
    inner1 = D(('y', Num((2,), 0.0, 1.0)), ('x', Psd(2)))
    inner2 = D(('s', Spx(3, (2,))), ('a', Sca()))
    inner3 = D(('q', inner1), ('p', Arr((2,), Spx(2, (1,)))))
    for m in MEMBERS[:6]:
        out.append(D(('outer', m), ('inner', inner1)))
        out.append(D(('inner', inner2), ('after', m)))
    out.append(D(('a', inner1), ('b', inner2)))
    out.append(D(('deep', inner3), ('v', Vec(2, 0.0, INF))))
    out.append(D(('l3', D(('l2', D(('l1', D(('l0', Psd(2, 1.0)))))))),
                 ('tail', Sca(0.0, 2.0))))
    out.append(D(('e', D()), ('v', Vec(2))))
    out.append(D(('v', Vec(2)), ('e', D()), ('w', Sca(0.0, INF))))
    out.append(D(('v', Vec(2, 0.0, INF)), ('none', Vec(0)), ('w', Psd(2))))
    # Numeric throughout, so that the log determinants are defined.
    out.append(D(('s', D(('x', Num((2,), 0.0, INF)))),
                 ('t', D(('u', D(('w', Sca(0.0, 1.0)), ('v', Vec(2)))),
                         ('r', Num((2, 2), -INF, 3.0))))))
    out.append(D(('a', D(('b', D(('c', Num((3,), -2.0, 5.0))))))))
    # Unusual keys.
    out.append(D(('', Sca()), (' ', Vec(2)), ('10', Sca(0.0, 1.0)),
                 ('2', Psd(2)), ('key with spaces', Spx(3, (1,))),
                 ('\u03b8\u00e9', Vec(1)), ('a"b\\c', Sca()), ('_', Sca())))
    # Keys that are names of attributes, long keys, keys that look like indices.
    out.append(D(('pattern', Sca()), ('keys', Vec(2, 0.0, INF)),
                 ('free_default', Psd(2)), ('contents', Sca(0.0, 1.0)),
                 ('flat_val', Spx(2, (1,))), ('lb', Vec(1))))
    out.append(D(('k' * 70, Sca()), ('k' * 71, Vec(2, 0.0, INF)),
                 ('[0]', Sca()), ('0', Vec(2)), ('a\n', Sca(0.0, 1.0)),
                 ('a', Spx(2, (1,))), ('A', Sca()),
                 ('long ' * 60, D(('inner ' * 30, Psd(2))))))
    # Many keys: lexicographic order differs from insertion order.
    out.append(D(*[('k{}'.format(i), Sca() if i % 3 else Vec(2, 0.0, INF))
                   for i in range(12)]))
    out.append(D(*[('k{}'.format(i), Spx(3, (1,)) if i % 2 else Sca(0.0, 1.0))
                   for i in range(11, -1, -1)]))
    # The same specification twice; members that do not validate.
    out.append(D(('a', Vec(2, 0.0, INF)), ('b', Vec(2, 0.0, INF)),
                 ('c', Vec(2, 0.0, INF))))
    out.append(D(('a', Vec(2, 0.0, INF, dv=False)), ('b', Vec(2, 0.0, INF))))
    out.append(D(('a', Psd(2, 0.0, dv=False)),
                 ('b', Spx(2, (2,), dv=False))))
    # One pattern object in several places.
    for m in (Vec(2, 0.0, INF), Num((2, 2), 0.0, 1.0), Spx(3, (2,)), Psd(2),
              Sca(-1.0, 1.0), inner1):
        out.append(D(('b', m), ('a', m), share=True))
    v, q = Vec(2, 0.0, INF), Psd(2)
    out.append(D(('v', v), ('d', D(('v', v), ('q', q))), ('q', q),
                 ('w', v), share=True))
    out.append(D(('q', Arr((2,), q)), ('p', q), ('r', Arr((2,), q)),
                 ('t', Arr((3,), q)), share=True))
    if level >= 2:
        for ms in itertools.product(MEMBERS[:6], repeat=3):
            out.append(D(('c', ms[0]), ('a', ms[1]), ('b', ms[2])))
        for ms in itertools.product(small, repeat=4):
            out.append(D(('d', ms[0]), ('c', ms[1]), ('b', ms[2]),
                         ('a', ms[3])))
    return out


def scale():
    """Representatives beyond the small universe, for code that branches on
    size."""
    return [
        Vec(100, 0.0, INF), Vec(257), Num((1000,), 0.0, 1.0),
        Num((33, 31), -INF, 2.0), Num((4097,), -1.0, INF), Vec(70000),
        Num((70, 61), 0.0, INF), Num((17, 19, 15)), Num((9, 8, 7, 6)),
        Num((260, 255)),
        Spx(50, (3,)), Spx(3, (40,)), Spx(12, (5, 7)),
        Psd(10), Psd(17, 0.25), Psd(33), Arr((40,), Psd(2)),
        Arr((6, 7), Vec(3, 0.0, INF)), Arr((5,), Psd(9)),
        D(*[('key{}'.format(i), Vec(1 + i % 4, 0.0, INF)) for i in range(30)]),
        D(('big', Vec(1100, 0.0, 1.0)), ('mat', Psd(12)), ('s', Spx(20, (4,)))),
    ]


def universe(level=1):
    return leaves(level) + arrays(level) + dicts(level)


def core():
    """A small cross-section used where each pattern is explored deeply."""
    return CORE_LEAVES + [
        Arr((2,), Psd(2, 0.5)), Arr((2, 2), Num((2,), -INF, 1.0)),
        Arr((2,), Spx(3, (2,))), Arr((2,), Arr((2,), Sca(0.0, 1.0))),
        D(('b', Num((2,), 0.0, INF)), ('a', Psd(2))),
        D(('s', Spx(3, (2,))), ('d', D(('y', Sca(0.0, 1.0)),
                                       ('x', Arr((2,), Psd(2)))))),
    ]
