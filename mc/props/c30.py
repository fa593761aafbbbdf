"""C30: tables hold the temperatures and the results without loss."""
import itertools
import os

import numpy as np

import files
from core import Violation

ID = 'C30'
CHUNK = 100
STATES = 'distinct (temperatures, results, storage, earlier content of the file) states'
VALUES = [0., -0., 1., 1 / 3, 0.1, -2.5, 1e-300, 5e-324, 1.7976931348623157e308, 1e16 + 2, 123456789.123456789,
          1 - 2.**-53, 1e-5, 1e5, 99999.99999999999, np.nan, np.inf, -np.inf]
TEMPS = [0., 0.1, 1., 1 / 3, 273.15, 1e5 + 1 / 3, 1e-9, 12345.678901234567, 1e300, np.inf]
STORE = ['float64', 'longdouble', 'float32', 'int64', 'bool', 'fortran', 'strided', 'reversed', 'readonly', '>f8',
         'list', 'float16']
SIZES = [(1, 1), (1, 2), (2, 1), (3, 3), (1, 100), (100, 1), (9, 10), (10, 9), (11, 11), (26, 27), (99, 3), (129, 5),
         (257, 4), (1001, 2), (1, 999), (1, 1000), (1, 1001), (3, 4097), (2, 10001), (1, 65537), (1, 131073), (500, 60),
         (4097, 1)]
# alphabet of the histories: name -> (rows, temperatures)
TABLES = {'small': (1, 2), 'wide': (5, 2), 'long': (1, 9), 'large': (6, 11), 'one': (1, 1)}
NAMES = ['out.dat', 'other.dat', 'sub/out.dat']
BOUNDS = {'quick': 'all single rows of <= 2 of 18 values, all tables of 2 x 2 of 8 values, all sequences of <= 3 of 10 '
                   'temperatures; all pairs of 12 storage types of temperatures and results in 3 shapes; 23 sizes up to 4097 rows '
                   'and 131073 temperatures; all histories of <= 3 tables of 5 sizes written to 3 files',
          'thorough': 'rows of <= 3 values, tables of 2 x 2 of 12 values, histories of <= 4'}
ASSUMPTIONS = ['values of more than double precision are rounded to double precision, nothing else is',
               'a table is text: one line for a temperature, numbers separated by blanks; lines that start with # are comments']


def cases(tier):
    quick = tier == 'quick'
    for n in range(1, 3 if quick else 4):
        for row in itertools.product(range(len(VALUES)), repeat=n):
            yield {'rows': [row]}
    some = (0, 2, 3, 6, 10, 12, 15, 17) if quick else (0, 1, 2, 3, 4, 6, 8, 10, 12, 14, 15, 17)
    for four in itertools.product(some, repeat=4):
        yield {'rows': [four[:2], four[2:]]}
    for n in range(1, 4):
        for seq in itertools.product(range(len(TEMPS)), repeat=n):
            yield {'temps': seq}
    for a, b in itertools.product(STORE, STORE):
        for shape in ((1, 4), (3, 4), (4, 2)):
            yield {'stores': [a, b], 'shape': shape}
    for shape in SIZES:
        yield {'size': shape}
    writes = list(itertools.product(TABLES, range(len(NAMES))))
    for depth in range(1, 4 if quick else 5):
        for seq in itertools.product(range(len(writes)), repeat=depth):
            # the first file is any, later ones only matter relative to it
            if writes[seq[0]][1] == 0 or depth == 1:
                yield {'history': [writes[i] for i in seq]}


def store(a, kind):
    a = np.array(a, float)
    if kind == 'list':
        return a.tolist()
    if kind == 'strided':
        b = np.full(a.shape[:-1] + (2 * a.shape[-1],), 7.)
        b[..., ::2] = a
        return b[..., ::2]
    if kind == 'reversed':
        return np.array(a[..., ::-1])[..., ::-1]
    if kind == 'fortran':
        return np.asfortranarray(a)
    if kind == 'readonly':
        a.flags.writeable = False
        return a
    return a.astype(kind)


def snapshot(x):
    return (np.asarray(x).tobytes(), np.asarray(x).dtype.str, np.asarray(x).shape,
            getattr(x, 'strides', None), x.flags.writeable if isinstance(x, np.ndarray) else None)


def write(R, T, name, what, ctx):
    from occuprob.cli import save_results
    keep = snapshot(R), snapshot(T)
    save_results(R, T, name)
    ctx.step()
    if (snapshot(R), snapshot(T)) != keep:
        raise Violation(f'{what}: the data are changed by saving them')


def same(got, want):
    """Equal as double precision numbers, NaN to NaN."""
    return (got == want) | (np.isnan(got) & np.isnan(want))


def read(name, R, T, what):
    with open(name, 'rb') as fh:
        tab = files.table(fh.read(), f'{what}: {name}')
    R, T = np.asarray(R), np.asarray(T)
    if tab.shape != (T.size, 1 + len(R)):
        raise Violation(f'{what}: {name} has {tab.shape[0]} rows and {tab.shape[1]} columns for {T.size} temperatures and '
                        f'{len(R)} rows of results')
    want = np.column_stack([T.astype(float), R.T.astype(float)])
    ok = same(tab, want)
    if not ok.all():
        i, j = np.argwhere(~ok)[0]
        raise Violation(f'{what}: row {i}, column {j} of {name} is {tab[i, j]!r} instead of {want[i, j]!r}')
    return tab


def numbers(n, m, k=0):
    i, j = np.mgrid[:n, :m]
    return ((7 * i + 3 * j + i * j + k) % 997) / 997. - 0.25


def check(case, ctx):
    ctx.trace()
    with files.Box(), np.errstate(all='ignore'):
        if 'history' in case:
            return history(case['history'], ctx)
        if 'rows' in case:
            R = np.array([[VALUES[i] for i in row] for row in case['rows']])
            T = 10. + np.arange(R.shape[1]) * 0.7
        elif 'temps' in case:
            T = np.array([TEMPS[i] for i in case['temps']])
            R = numbers(2, T.size)
        elif 'stores' in case:
            n, m = case['shape']
            a, b = case['stores']
            base = np.arange(m) * 25. if a in ('int64', 'bool', 'float16') else 0.3 + np.arange(m) / 7
            T = store(base, a)
            R = store(numbers(n, m) if b != 'int64' else np.round(1e6 * numbers(n, m)), b)
        else:
            n, m = case['size']
            T, R = 0.5 + np.arange(m) * 1.25, numbers(n, m)
        write(R, T, 'out.dat', f'{case}', ctx)
        tab = read('out.dat', R, T, f'{case}')
        if os.listdir('.') != ['out.dat']:
            raise Violation(f'{case}: files {sorted(os.listdir("."))}')
    ctx.state(case)
    ctx.outcome(tab.tobytes())
    return None


def history(writes, ctx):
    os.mkdir('sub')
    held = {}
    for k, (table, name) in enumerate(writes):
        n, m = TABLES[table]
        R, T = numbers(n, m, k), 1. + k + np.arange(m) * 0.37
        write(R, T, NAMES[name], f'{writes}', ctx)
        held[NAMES[name]] = R, T
        for f, (r, t) in held.items():
            read(f, r, t, f'{writes[:k + 1]}')
        ctx.state([writes[:k + 1]])
    ctx.outcome(sorted((f, len(r), t.size) for f, (r, t) in held.items()))
    found = sorted(os.path.relpath(os.path.join(d, f), '.') for d, _, fs in os.walk('.') for f in fs)
    if found != sorted(held):
        raise Violation(f'{writes}: files {found}')
