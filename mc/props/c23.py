"""C23: dictionary comparison is a true equality up to rounding."""
import itertools

import numpy as np

from core import Violation

ID = 'C23'
CHUNK = 50
STATES = 'distinct ordered pairs of dictionaries'
# name: (shape, flat values); values of different names of one shape differ clearly
ARRAYS = {
    'scalar 0': ((), [0.]), 'scalar 1': ((), [1.]),
    'v1 0': ((1,), [0.]), 'v1 1': ((1,), [1.]),
    'v2 0': ((2,), [0., 0.]), 'v2 1': ((2,), [1., 1.]), 'v2 01': ((2,), [0., 1.]), 'v2 10': ((2,), [1., 0.]),
    'v3 1': ((3,), [1., 1., 1.]), 'v3 last': ((3,), [1., 1., 2.]), 'v3 first': ((3,), [2., 1., 1.]),
    'v4 1': ((4,), [1.] * 4),
    'm11 1': ((1, 1), [1.]), 'm12 1': ((1, 2), [1., 1.]), 'm21 1': ((2, 1), [1., 1.]),
    'm21 01': ((2, 1), [0., 1.]), 'm12 01': ((1, 2), [0., 1.]),
    'm22 0': ((2, 2), [0.] * 4), 'm22 1': ((2, 2), [1.] * 4), 'm22 a': ((2, 2), [1., 2., 3., 4.]),
    'm22 t': ((2, 2), [1., 3., 2., 4.]), 'm22 e': ((2, 2), [1., 2., 3., 5.]),
    'm23 1': ((2, 3), [1.] * 6), 'm32 1': ((3, 2), [1.] * 6),
    't221 1': ((2, 2, 1), [1.] * 4), 't122 1': ((1, 2, 2), [1.] * 4),
    'empty 0': ((0,), []), 'empty 02': ((0, 2), []), 'empty 20': ((2, 0), []),
    'v2 inf': ((2,), [np.inf, 1.]), 'v2 -inf': ((2,), [-np.inf, 1.]), 'v2 big': ((2,), [1e300, 1.]),
    'v2 neg': ((2,), [-1., 1.]), 'v2 half': ((2,), [0.5, 1.]), 'v2 near': ((2,), [1.001, 1.]),
    'v2 large': ((2,), [1e6, 1.]), 'v2 larger': ((2,), [1.001e6, 1.]), 'v2 milli': ((2,), [1e-3, 1.]),
    'v2 nan': ((2,), [np.nan, 1.]), 'v2 huge': ((2,), [1e308, 1.]), 'm22 nan': ((2, 2), [1., np.nan, 3., 4.]),
    'v2 energy': ((2,), [-4433.12, 1.]), 'v2 energy2': ((2,), [-4432.93, 1.]),
}
NOISE = [0., 1e-13, -1e-13]       # rounding: relative, indistinguishable
DTYPES = ['float64', 'float32', 'longdouble', 'int64', 'bool', 'list', 'readonly', 'fortran', '>f8']
KEYS = ['energy', 'moments', 1, 0, (1, 2), 'Energy', None, '1', 'None']
BOUNDS = {'quick': 'all ordered pairs of one-key dictionaries over 44 arrays (scalar to 3-D, empty, '
                   'broadcastable, infinite) x rounding noise; over all pairs of 9 storage types; all '
                   'pairs of key sets of <= 3 of 9 keys; all pairs of two-key dictionaries over 11 arrays '
                   'in both insertion orders; every single-element difference in arrays up to 3x3x2, '
                   'probed ones in 15 shapes up to 20000 elements; '
                   'all arrangements of <= 4 elements, all transpositions, reversals and rolls of the elements in 13 shapes; 2 to 129 keys',
          'thorough': 'two-key dictionaries over all 41 arrays, three-key dictionaries over 10 arrays, '
                      'key sets of <= 5'}
ASSUMPTIONS = ['NaN is different from every number; whether it equals itself is not judged', 'differences are either within 1e-12 or beyond '
               '1e-4 relative: how much rounding is accepted is not judged']
SMALL = ['scalar 1', 'v1 1', 'v2 1', 'v2 01', 'v2 10', 'm12 1', 'm21 1', 'm22 1', 'm22 a', 'empty 0',
         'v2 inf']
COMPLEX = [[1. + 0j, 2. + 0j], [1. + 1j, 2. + 0j], [1. - 1j, 2. + 0j], [1. + 0j, 2. + 2j], [0j, 2. + 0j], [1j, 2. + 0j]]
BIG = [(99,), (100,), (101,), (128,), (255, 2), (500, 2), (1000,), (1001,), (1024,), (3, 1000), (1000, 3), (40, 50, 3),
       (10000,), (20000,), (7, 3001)]
MIXED = [(2,), (3,), (4,), (6,), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (2, 2, 2), (2, 3, 2), (1, 2, 3), (2, 1, 2, 3)]
TINY = ['scalar 1', 'v1 1', 'v2 1', 'v2 01', 'm12 1', 'm21 1', 'm22 1', 'm22 a', 'empty 0', 'v3 last']


def cases(tier):
    quick = tier == 'quick'
    for a in ARRAYS:
        for b in ARRAYS:
            for noise in NOISE:
                yield {'pair': [a, b], 'noise': noise}
    for a in ('v2 01', 'v2 1', 'm22 1', 'm22 0', 'scalar 1'):
        for b in ('v2 01', 'v2 1', 'm22 1', 'm22 0', 'm12 01', 'scalar 1'):
            for da in DTYPES:
                for db in DTYPES:
                    yield {'pair': [a, b], 'types': [da, db]}
    top = 3 if quick else 5
    sets = [s for k in range(top + 1) for s in itertools.combinations(range(len(KEYS)), k)]
    for a in sets:
        for b in sets:
            yield {'keys': [a, b]}
    names = SMALL if quick else list(ARRAYS)
    for a1 in names:
        for a2 in names:
            for b1 in names:
                if quick or b1 in (a1, a2) or a1 in SMALL:
                    yield {'two': [a1, a2, b1], 'names': 'quick' if quick else 'all'}
    if not quick:
        for a in itertools.product(TINY, repeat=3):
            yield {'three': a}
    for shape in [(n,) for n in range(1, 7)] + [(n, m) for n in range(1, 5) for m in range(1, 5)] + \
            [(n, m, 2) for n in range(1, 4) for m in range(1, 4)]:
        yield {'element': shape}
    for shape in MIXED:
        yield {'arrange': shape}
    for shape in BIG:
        yield {'element': shape, 'probe': 1}
    for n in range(2, 130) if quick else range(2, 600):
        yield {'many keys': n}
    yield {'tail': 1}
    for a, b in itertools.product(range(len(COMPLEX)), repeat=2):
        yield {'complex': [a, b]}


def make(name, dtype='float64', noise=0.):
    shape, values = ARRAYS[name]
    arr = np.array(values, float).reshape(shape)
    with np.errstate(all='ignore'):
        arr = np.where(np.isfinite(arr), arr * (1. + noise), arr)
    if dtype == 'list':
        return arr.tolist()
    if dtype == 'fortran':
        return np.array(arr, order='F')
    if dtype == 'readonly':
        arr.flags.writeable = False
        return arr
    return arr.astype(dtype)


def arrangements(base):
    """The same numbers in other places."""
    n = base.size
    if n <= 4:
        for p in itertools.permutations(range(n)):
            yield f'elements in order {p}', base.ravel()[list(p)].reshape(base.shape)
    for i, j in itertools.combinations(range(n), 2):
        p = list(range(n))
        p[i], p[j] = j, i
        yield f'elements {i} and {j} exchanged', base.ravel()[p].reshape(base.shape)
    for axes in itertools.chain.from_iterable(itertools.combinations(range(base.ndim), k)
                                              for k in range(1, base.ndim + 1)):
        yield f'axes {axes} reversed', np.flip(base, axes)
        yield f'axes {axes} rolled', np.roll(base, [1] * len(axes), axes)
    yield 'in column order', base.ravel(order='F').reshape(base.shape)
    yield 'negated', -base


def equal(a, b):
    """The arrays called a and b are equal (names are values)."""
    return ARRAYS[a][0] == ARRAYS[b][0] and ARRAYS[a][1] == ARRAYS[b][1]


def ask(one, two, want, what, ctx):
    from occuprob.utils import compare_numpy_dictionaries
    for left, right, order in ((one, two, ''), (two, one, ' (swapped)')):
        keep = repr(left), repr(right), [id(v) for v in left.values()], [id(v) for v in right.values()]
        got = compare_numpy_dictionaries(left, right)
        ctx.step()
        if not isinstance(got, (bool, np.bool_)):
            raise Violation(f'{what}{order}: the comparison yields {got!r}')
        if bool(got) != want:
            raise Violation(f'{what}{order}: {got} instead of {want}')
        if (repr(left), repr(right), [id(v) for v in left.values()], [id(v) for v in right.values()]) != keep:
            raise Violation(f'{what}{order}: the comparison changes a dictionary')
    ctx.outcome([want, what[:12]])


def check(case, ctx):
    ctx.trace()
    ctx.state(case)
    if 'pair' in case:
        a, b = case['pair']
        if 'nan' in a and 'nan' in b:
            return
        da, db = case.get('types', ['float64', 'float64'])
        want = equal(a, b)
        ask({'x': make(a, da)}, {'x': make(b, db, case.get('noise', 0.))}, want,
            f'{a} ({da}) against {b} ({db}), noise {case.get("noise", 0.)}', ctx)
        if case.get('noise') == 0. and a == b:
            same = {'x': make(a)}
            ask(same, same, True, f'{a} against itself', ctx)
            ask({'x': same['x']}, same, True, f'{a} sharing its array', ctx)
    elif 'complex' in case:
        a, b = case['complex']
        ask({'x': np.array(COMPLEX[a])}, {'x': np.array(COMPLEX[b])}, a == b, f'{COMPLEX[a]} against {COMPLEX[b]}', ctx)
    elif 'keys' in case:
        a, b = case['keys']
        one = {KEYS[i]: make('m22 a') for i in a}
        two = {KEYS[i]: make('m22 a') for i in reversed(b)}
        ask(one, two, set(a) == set(b), f'keys {list(one)} against {list(two)}', ctx)
    elif 'two' in case:
        a1, a2, b1 = case['two']
        for b2 in (SMALL if case['names'] == 'quick' else ARRAYS):
            want = equal(a1, b1) and equal(a2, b2)
            for order in (0, 1):
                two = {'p': make(b1), 'q': make(b2)}
                if order:
                    two = dict(reversed(list(two.items())))
                ask({'p': make(a1), 'q': make(a2)}, two, want,
                    f'{{p: {a1}, q: {a2}}} against {list(two)} with p: {b1}, q: {b2}', ctx)
                ctx.state([case, b2, order])
    elif 'three' in case:
        a = case['three']
        for i in range(3):
            for b in TINY:
                c = list(a)
                c[i] = b
                ask({k: make(x) for k, x in zip('pqr', a)}, {k: make(x) for k, x in zip('rqp', c[::-1])},
                    all(equal(x, y) for x, y in zip(a, c)), f'{a} against {c}', ctx)
    elif 'element' in case:
        shape = tuple(case['element'])
        size = int(np.prod(shape))
        base = (np.arange(size) % 5 + 1.).reshape(shape)
        places = range(size)
        if 'probe' in case:
            places = sorted({int(x) for f in (0, 1 / 7, 0.25, 1 / 3, 0.5, 0.75, 0.9, 1) for x in
                             (f * (size - 1), min(f * size, size - 1))} | {1, 2, 63, 64, 98, size - 2})
            ask({'a': base, 'b': base}, {'a': base.copy(), 'b': base * (1 + 1e-14)}, True,
                f'shape {shape}, equal', ctx)
        for i in places:
            for delta in (1., -1e-2, 4e-3, 1e6, np.inf) if 'probe' not in case else (4e-3, -1., np.nan):
                other = base.copy()
                other.flat[i] += delta
                ask({'a': base, 'b': base}, {'a': base, 'b': other}, False,
                    f'shape {shape}, element {i} differing by {delta}', ctx)
                ctx.state([shape, i, delta])
    elif 'arrange' in case:
        shape = tuple(case['arrange'])
        base = np.arange(1., 1. + np.prod(shape)).reshape(shape)
        for what, other in arrangements(base):
            ask({'a': base}, {'a': other}, np.array_equal(other, base), f'shape {shape}, {what}', ctx)
            ctx.state([shape, what])
    elif 'many keys' in case:
        n = case['many keys']
        one = {f'k{i}': np.full(2, 1. + i % 3) for i in range(n)}
        two = {k: one[k].copy() for k in reversed(one)}
        ask(one, two, True, f'{n} keys in reverse order', ctx)
        for k in {0, 1, n // 2, n - 1}:
            changed = dict(two, **{f'k{k}': one[f'k{k}'] + [0., 0.5]})
            ask(one, changed, False, f'{n} keys, key {k} differs', ctx)
            changed = dict(two)
            changed[f'l{k}'] = changed.pop(f'k{k}')
            ask(one, changed, False, f'{n} keys, key {k} renamed', ctx)
    else:
        # a difference in the last element of the last key of a large dictionary
        big = {k: np.ones((7, 9)) for k in range(40)}
        for k in (0, 20, 39):
            other = {j: v.copy() for j, v in big.items()}
            other[k][-1, -1] = 1.5
            ask(big, other, False, f'40 keys, last element of key {k}', ctx)
        ask({}, {}, True, 'empty dictionaries', ctx)
        ask({}, {'x': np.zeros(0)}, False, 'empty dictionary against one empty array', ctx)
