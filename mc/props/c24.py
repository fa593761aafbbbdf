"""C24: thermal helper functions are exact at the edges and in between."""
import itertools
from fractions import Fraction

import numpy as np

from core import Violation

ID = 'C24'
CHUNK = 20
STATES = 'distinct (function, argument values, sizes, storage types) evaluations'
KB = Fraction('8.617333262145e-5')
TEMPS = [0., 1e-300, 1e-6, 1e-3, 0.5, 1., 2.725, 77., 300., 1e4, 1e5, 1e12, 1e300, np.inf]
ENERGIES = [0., -0., 1., -1., 1e-10, 0.025, -4433.12, 1e5, -1e5, 1e-300, 1e10]
VALUES = [0., 1e-300, 1e-30, 1e-3, 0.5, 1., 2., 7.25, 1e3, 1e30, 1e300]
STORE = ['float64', 'longdouble', 'float32', 'int64', 'int32', 'uint8', 'strided', 'reversed', 'fortran',
         'readonly', '>f8']
SIZES = [(1, 0, n) for n in (17, 64, 65, 100, 128, 129, 256, 257, 500, 501, 513, 1000, 1001, 1025, 2049, 4097, 8193,
                                16385, 30001, 32769, 65537, 100003)] + \
    [(n, 0, 3) for n in (17, 64, 65, 100, 129, 257, 513, 1001, 4097, 32769, 65537)] + \
    [(257, 0, 257), (300, 0, 500), (1025, 0, 100), (3, 65, 7), (2, 257, 40), (129, 30, 20), (33, 100, 101), (1, 1025, 3)]
TABLES = [(n, 2) for n in (17, 65, 129, 257, 513, 1001, 4097, 32769, 65537)] + \
    [(2, d) for d in (17, 65, 129, 257, 513, 1001, 4097)] + [(65, 65), (129, 200), (300, 108)]
STACKS = [(n, d, m) for n in (5, 8, 9, 16, 17, 33, 65) for d in (0, 1, 3) for m in (1, 4)] + \
    [(n, d, 4) for n in (1, 2, 3) for d in (4, 5, 8, 9, 17, 33, 65)]
BOUNDS = {'quick': 'inverse temperature: all sequences of <= 3 of 14 temperatures, x 11 storage types for '
                   '<= 2; exponent: all energy sequences of <= 2 of 11 x temperature sequences of <= 2 of '
                   '14, all sizes 1..4 x 0..4, stacks (N, D, 1), 63 more up to 65 with energies of both signs, x 11 x 11 storage types; geometric mean: '
                   'all rows of <= 3 of 11 values, pairs of rows, rows of 10..5000 entries in 4 patterns, storage types; '
                   '41 sizes of the exponent and 19 of the mean up to 1e5 entries, probed',
          'thorough': 'sequences one longer'}
ASSUMPTIONS = ['temperatures >= 0 and not NaN, energies finite', 'the precision asked for is that of the '
               'less precise argument (float32: 7 digits)']


def cases(tier):
    more = 0 if tier == 'quick' else 1
    for n in range(0, 4 + more):
        for seq in itertools.product(range(len(TEMPS)), repeat=n):
            if n < 3 or seq[0] <= seq[1] or more:
                yield {'beta': seq, 'stores': STORE if n < 3 else STORE[:1]}
    for n in range(1, 3 + more):
        for es in itertools.product(range(len(ENERGIES)), repeat=n):
            for m in (1, 2):
                yield {'exp': es, 'temps': m}
    for n, m in itertools.product(range(1, 5), range(0, 5)):
        for d in (0, 1, 2, 3):
            yield {'shape': [n, d, m]}
    for n, d, m in STACKS:
        for low in (0., -0.5, -1.75):
            yield {'shape': [n, d, m], 'low': low}
    for a in STORE:
        for b in STORE:
            yield {'stores2': [a, b]}
    for d in range(1, 4 + more):
        for row in itertools.product(range(len(VALUES)), repeat=d):
            yield {'mean': row}
    for n, d, m in SIZES:
        yield {'large': [n, d, m]}
    for n, d in TABLES:
        yield {'table': [n, d]}
    for d in (10, 31, 64, 65, 100, 129, 257, 1000, 5000):
        for v in range(len(VALUES)):
            yield {'long': [d, v]}
    for s in STORE:
        for n in range(1, 5):
            for d in range(1, 5):
                yield {'mstore': s, 'n': n, 'd': d}


def store(values, kind):
    """The values in another storage type, or None when it cannot hold them."""
    a = np.array(values, float)
    if kind == 'longdouble':
        return a.astype(np.longdouble)
    if kind == 'float32':
        with np.errstate(all='ignore'):
            b = a.astype(np.float32)
        fine = (a == 0) | np.isinf(a) | ((abs(a) > 1e-30) & (abs(a) < 1e30))
        return b if fine.all() else None
    if kind in ('int64', 'int32', 'uint8'):
        top = {'int64': 1e15, 'int32': 2e9, 'uint8': 255}[kind]
        ok = np.isfinite(a) & (a == np.round(a)) & (abs(a) <= top) & ((a >= 0) | (kind != 'uint8'))
        return a.astype(kind) if ok.all() else None
    if kind == 'strided':
        b = np.full(a.shape[:-1] + (a.shape[-1] * 2,), 3.25)
        b[..., ::2] = a
        return b[..., ::2]
    if kind == 'reversed':
        return np.array(a[..., ::-1])[..., ::-1]
    if kind == 'fortran':
        return np.asfortranarray(a)
    if kind == 'readonly':
        a.flags.writeable = False
        return a
    return a.astype(kind)


def tolerance(*arrays):
    return 2e-6 if any(x.dtype == np.float32 for x in arrays) else 4e-15


def exact(x):
    return Fraction(int(x)) if isinstance(x, np.integer) else to_fraction(x)


def to_fraction(x):
    """Exact value of a floating point number of any precision."""
    m, e = np.frexp(x)
    out = Fraction(0)
    for _ in range(5):
        m = m * 2 ** 16
        whole = int(np.floor(m))
        out = out * 2 ** 16 + whole
        m = m - whole
    return out / 2 ** 80 * (Fraction(2) ** int(e))


def close(got, want, tol):
    """got: a floating point number; want: Fraction or +-inf."""
    if isinstance(want, float):
        return got == want
    if not np.isfinite(got):
        # out of the range of the type that is returned
        return not np.isnan(got) and (got > 0) == (want > 0) and abs(want) >= Fraction(17, 10) * 10 ** 308
    g = to_fraction(got)
    return abs(g - want) <= Fraction(tol) * abs(want) + Fraction(10) ** -320


def beta_of(t):
    if np.isinf(t):
        return Fraction(0)
    if t == 0:
        return np.inf
    return 1 / (KB * exact(t))


def exponent_of(e, t):
    if e == 0 or np.isinf(t):
        return Fraction(0)
    b = beta_of(t)
    if isinstance(b, float):
        return np.inf if e > 0 else -np.inf
    return exact(e) * b


def unchanged(arr, call, what):
    keep = arr.copy(), arr.strides, arr.flags.writeable
    out = call()
    if not (np.array_equal(arr, keep[0]) and np.array_equal(np.signbit(arr), np.signbit(keep[0]))
            and arr.strides == keep[1] and arr.flags.writeable == keep[2]):
        raise Violation(f'{what}: the argument is changed')
    return out


def check_beta(T, what):
    from occuprob.utils import calc_beta
    out = unchanged(T, lambda: calc_beta(T), what)
    if out.shape != T.shape:
        raise Violation(f'{what}: shape {out.shape} instead of {T.shape}')
    for t, b in zip(T, out):
        if not close(b, beta_of(t), tolerance(T)):
            raise Violation(f'{what}: inverse temperature {b!r} at {t!r} K')
    return out


def check_exp(E, T, what):
    from occuprob.utils import calc_exponent
    out = unchanged(E, lambda: unchanged(T, lambda: calc_exponent(E, T), what), what)
    shape = (E.shape[:1] if E.ndim == 1 else E.shape[:-1]) + T.shape
    if out.shape != shape:
        raise Violation(f'{what}: shape {out.shape} instead of {shape}')
    flat = E.reshape(-1)
    rows = out.reshape(flat.size, T.size)
    for i, e in enumerate(flat):
        for j, t in enumerate(T):
            want = exponent_of(e, t)
            # 1/(k_B T) itself must be representable
            tiny = t != 0 and not np.isinf(t) and beta_of(t) > Fraction(17, 10) * 10 ** 308
            if not tiny and not close(rows[i, j], want, 2 * tolerance(E, T)):
                raise Violation(f'{what}: exponent {rows[i, j]!r} of {e!r} eV at {t!r} K')
            if e == 0 and rows[i, j] != 0:
                raise Violation(f'{what}: exponent {rows[i, j]!r} of zero energy at {t!r} K')
    return out


def check_mean(A, what):
    import math
    from occuprob.utils import calc_geometric_mean
    out = unchanged(A, lambda: calc_geometric_mean(A), what)
    if out.shape != A.shape[:1]:
        raise Violation(f'{what}: shape {out.shape} instead of {A.shape[:1]}')
    tol = 2e-4 if A.dtype == np.float32 else 1e-12
    for row, g in zip(A, out):
        if (row == 0).any():
            if g != 0:
                raise Violation(f'{what}: geometric mean {g!r} of {row[:6]} with a zero')
            continue
        d = row.size
        mean = np.longdouble(0)
        comp = sum(int(math.frexp(float(x))[1]) for x in row)        # powers of two apart
        frac = sum((np.log2(np.longdouble(math.frexp(float(x))[0])) for x in row), np.longdouble(0))
        mean = (np.longdouble(comp) + frac) / d
        err = np.log2(np.longdouble(g)) - mean if g > 0 else np.inf
        # rounding of the sum of d logarithms
        if not abs(err) <= tol + 2e-16 * d * (1 + abs(mean)):
            raise Violation(f'{what}: geometric mean {g!r} of {row[:6]} (2**{float(mean)} expected)')
    return out


def places(n):
    return sorted({j for j in (0, 1, n // 3, n // 2, n - 2, n - 1, 63, 64, 127, 128, 255, 256, 511, 512, 999, 1000, 1023,
                               1024, 4095, 4096, 8191, 8192, 9999, 10000, 16383, 16384, 29999, 30000, 32767, 32768,
                               65535, 65536) if 0 <= j < n})


def check_large(n, d, m):
    """One large array at once against its elements one by one."""
    from occuprob.utils import calc_beta, calc_exponent
    T = 0.5 + np.arange(m) % 977 * 1.25
    T[m // 2] = 0.
    energy = (np.arange(n * max(d, 1)) % 83 * 0.0078125).reshape((n, d, 1) if d else n)
    what = f'{T.size} temperatures'
    beta = unchanged(T, lambda: calc_beta(T), what)
    if beta.shape != T.shape:
        raise Violation(f'{what}: {beta.shape} inverse temperatures')
    for j in places(m):
        if not close(beta[j], beta_of(T[j]), 4e-15):
            raise Violation(f'{what}: inverse temperature {beta[j]!r} at {T[j]!r} K in place {j}')
    what = f'energies of shape {energy.shape} and {what}'
    out = unchanged(energy, lambda: unchanged(T, lambda: calc_exponent(energy, T), what), what)
    if out.shape != ((n, d, m) if d else (n, m)):
        raise Violation(f'{what}: exponents of shape {out.shape}')
    rows, flat = out.reshape(-1, m), energy.reshape(-1)
    for i in places(len(flat)):
        for j in places(m):
            if not close(rows[i, j], exponent_of(flat[i], T[j]), 8e-15):
                raise Violation(f'{what}: exponent {rows[i, j]!r} of {flat[i]!r} eV at {T[j]!r} K in place {i}, {j}')
    with np.errstate(all='ignore'):
        ratio = np.where((flat == 0)[:, None], 0., flat[:, None] / (float(KB) * T))
    if not ((rows == ratio) | (abs(rows - ratio) <= 1e-13 * abs(ratio))).all():
        raise Violation(f'{what}: a value differs')


def check_table(n, d):
    from occuprob.utils import calc_geometric_mean
    i, j = np.mgrid[:n, :d]
    powers = (i * 5 + j * 3 + i * j) % 19 - 9
    table = 2. ** powers
    what = f'table of {n} rows and {d} columns'
    out = unchanged(table, lambda: calc_geometric_mean(table), what)
    if out.shape != (n,):
        raise Violation(f'{what}: shape {out.shape}')
    want = powers.sum(axis=1) / d
    if not (abs(np.log2(np.asarray(out, float)) - want) <= 1e-12 * d ** .5).all():
        bad = np.flatnonzero(~(abs(np.log2(np.asarray(out, float)) - want) <= 1e-12 * d ** .5))[0]
        raise Violation(f'{what}: geometric mean {out[bad]!r} of row {bad} (2**{want[bad]} expected)')


def check(case, ctx):
    ctx.trace()
    if 'beta' in case:
        values = [TEMPS[i] for i in case['beta']]
        for kind in case['stores']:
            T = store(values, kind)
            if T is None:
                continue
            out = check_beta(T, f'calc_beta({values}, {kind})')
            ctx.step()
            ctx.state(['beta', values, kind])
            ctx.outcome(out.tobytes())
    elif 'exp' in case:
        E = [ENERGIES[i] for i in case['exp']]
        for ts in itertools.product(TEMPS, repeat=case['temps']):
            out = check_exp(np.array(E), np.array(ts), f'calc_exponent({E}, {list(ts)})')
            ctx.step()
            ctx.state(['exp', E, ts])
            ctx.outcome(out.tobytes())
    elif 'shape' in case:
        n, d, m = case['shape']
        shape = (n, d, 1) if d else (n,)
        E = (np.arange(int(np.prod(shape))) * 0.37 % 1.1).round(3).reshape(shape)
        E += case.get('low', 0)
        T = np.array([0., 10., 300., np.inf] if 'low' not in case else [10., 300., 0., np.inf])[:m]
        for a in ('float64', 'longdouble', 'fortran', 'readonly', 'float32'):
            out = check_exp(store(E, a) if not d else np.array(store(E[..., 0], a))[..., None], T,
                            f'calc_exponent of shape {shape} and {m} temperatures ({a})')
            ctx.step()
            ctx.state(['shape', n, d, m, a, case.get('low')])
            ctx.outcome(out.tobytes())
    elif 'stores2' in case:
        a, b = case['stores2']
        for evalues in ([0., 1., 2.], [3.], [0.25, -1.5], [7., 0.], [1e-5, 4e4, 0., -0.]):
            for tvalues in ([0., 300.], [1.], [250., 0., 1000.], [2.725, np.inf], [5., 10.]):
                E, T = store(evalues, a), store(tvalues, b)
                if E is None or T is None:
                    continue
                out = check_exp(E, T, f'calc_exponent({evalues} {a}, {tvalues} {b})')
                ctx.step()
                ctx.state(['stores', a, b, evalues, tvalues])
                ctx.outcome(out.tobytes())
    elif 'mean' in case:
        row = [VALUES[i] for i in case['mean']]
        other = row[::-1]
        third = [7.25] * len(row)
        for rows in ([row], [row, third], [third, other, row]):
            out = check_mean(np.array(rows), f'calc_geometric_mean({rows})')
            ctx.step()
            ctx.state(['mean', rows])
            ctx.outcome(out.tobytes())
    elif 'long' in case:
        d, v = case['long']
        for kind in ('float64', 'longdouble', 'float32', 'fortran'):
            for mix in (0, 1, 2, 3):
                row = np.full((2, d), VALUES[v])
                row[1] = 2.
                if mix == 1:
                    row[0, ::3] = 1e5
                elif mix == 2:
                    row[0, -(d // 3):] = 50.
                elif mix == 3:
                    row[0, :d // 2] = 0.25
                    row[1, -1] = 4.
                A = store(row, kind)
                if A is None:
                    continue
                out = check_mean(A, f'calc_geometric_mean of {d} entries {VALUES[v]} ({kind})')
                ctx.step()
                ctx.state(['long', d, v, kind, mix])
                ctx.outcome(out.tobytes())
    elif 'large' in case:
        n, d, m = case['large']
        check_large(n, d, m)
        ctx.step()
        ctx.state(['large', n, d, m])
        ctx.outcome(['large', n, d, m])
    elif 'table' in case:
        n, d = case['table']
        check_table(n, d)
        ctx.step()
        ctx.state(['table', n, d])
        ctx.outcome(['table', n, d])
    else:
        n, d = case['n'], case['d']
        i, j = np.mgrid[1:n + 1, 1:d + 1]
        for values in (i + 10 * j, (i * j) % 3, 0.5 * i + j, np.where(i == j, 0, 200)):
            A = store(values.astype(float), case['mstore'])
            if A is None:
                continue
            out = check_mean(A, f'calc_geometric_mean({values.tolist()}, {case["mstore"]})')
            ctx.step()
            ctx.state(['mstore', case, values.tolist()])
            ctx.outcome(out.tobytes())
