"""C11: ensemble averages are the probability-weighted mean of the observable."""
import itertools

import numpy as np

import core
import land as L
import ref
from core import Violation

ID = 'C11'
CHUNK = 16
STATES = 'distinct (landscape, contribution set, temperatures, observable) configurations'
BOUNDS = {'quick': 'all landscapes within 2 deviations of the base over 8 axes and all sequences of '
                   '<= 2 of 16 core minima x 17 contribution sets; for each, 15 kinds of observables (75 within one deviation), '
                   'the indicators of up to 6 minima, and 4 linear combinations',
          'thorough': 'within 3 deviations; sequences of <= 3 core minima'}
ASSUMPTIONS = ['the weights are the probabilities reported for the same temperatures (their own '
               'correctness is C01-C03); columns where these are not finite are not judged']

AXES = dict(L.AXES)
AXES['T'] = ['mix0', 'std', 'zero', 'one', 'int', 'low', 'dup', 'sizeN', 'sizeD', 'high', 'inf',
             'ultra', 'range', 'desc']
LD = np.longdouble


def cases(tier):
    dev, nmax = (2, 2) if tier == 'quick' else (3, 3)
    yield from L.space(dev, nmax, AXES)


def observables(n, T, zero, few):
    """(name, observable).  zero: where the probability is exactly 0."""
    m = T.size
    a, j = np.arange(n)[:, None], np.arange(m)[None, :]
    base = ((7 * a + 3 * j + a * j) % 11) / 3. - 2.2
    yield 'ladder', base
    yield 'constant', np.full((n, m), 3.3)
    yield 'zeros', np.zeros((n, m))
    yield 'negative', -1. - base ** 2
    yield 'large', base * 2. ** 500
    yield 'small', base * 2. ** -500
    yield 'integer', ((5 * a + 2 * j) % 9).astype(np.int64) - 4
    yield 'int8', ((5 * a + 2 * j) % 9 * 14).astype(np.int8) - np.int8(5)
    yield 'bool', ((a + j) % 2).astype(bool)
    yield 'single', base.astype(np.float32)
    yield 'extended', base.astype(LD)
    yield 'fortran', np.asfortranarray(base)
    yield 'view', np.broadcast_to(base[:, :1], (n, m))
    yield 'reversed', base[::-1, ::-1].copy()[::-1, ::-1]
    for name, val in (('+inf', np.inf), ('-inf', -np.inf), ('nan', np.nan)):
        if zero.any():
            yield f'{name} where empty', np.where(zero, val, base)
    if zero.any():
        mixed = np.where((a + j) % 2 == 0, np.nan, np.where(j % 2 == 0, np.inf, -np.inf))
        yield 'mixed where empty', np.where(zero, mixed, base)
    yield 'inf where populated', np.where((a + j) % 3 == 0, np.inf, base)
    yield '-inf where populated', np.where((a + j) % 3 == 1, -np.inf, base)
    if few:
        rows = {'first': a == 0, 'last': a == n - 1, 'all': a >= 0, 'but first': a > 0, 'but last': a < n - 1,
                'every other': a % 2 == 0}
        cols = {'first': j == 0, 'last': j == m - 1, 'middle': (j > 0) & (j < m - 1), 'one': j == m // 2,
                'every other': j % 2 == 0}
        for (r, x), (c, y) in itertools.product(rows.items(), cols.items()):
            yield f'{r} minima vary at {c} temperatures', 1.7 + a % 3 + np.where(x & y, 4.3 + a - 0.3 * j, 0.)
            yield f'{r} minima at {c} temperatures', np.where(x & y, 2.3, 0.)
    yield 'same at all temperatures', np.array(np.broadcast_to(base[:, :1], (n, m)))
    yield 'same for all minima', np.array(np.broadcast_to(base[:1], (n, m)))
    for k in sorted({0, 1, 2, n // 2, n - 2, n - 1} & set(range(n))):
        yield f'indicator {k}', np.where(a == k, 1., 0.) * np.ones((1, m))


def check(case, ctx):
    for land, pfs, T in L.expand(case):
        if 'core' in case and pfs not in ('SQR', 'SC', 'E', 'QR') and ctx.tier == 'quick':
            continue
        if not L.size_ok(land, T, ctx):
            continue
        sa = L.make_sa(land, pfs)
        P = sa.calc_probability(T)
        if not isinstance(P, np.ndarray) or P.shape != (land.n, T.size):
            raise Violation(f'calc_probability returned {type(P).__name__}')
        P = P.astype(LD)
        cols = np.isfinite(P).all(axis=0)
        ctx.count('temperatures judged', int(cols.sum()))
        ctx.count('temperatures without finite probabilities', int((~cols).sum()))
        zero = P == 0
        seen = {}
        for name, B in observables(land.n, T, zero, len(case) < 2 or ctx.tier != 'quick'):
            keep = B.copy()
            got = ref.as_result(sa.calc_ensemble_average(T, B), (1, T.size),
                                f'average of observable "{name}"')[0]
            ctx.step()
            ctx.state([case, pfs, name])
            if not np.array_equal(keep, B, equal_nan=True):
                raise Violation(f'the observable "{name}" was modified')
            x = B.astype(LD)
            term = np.where(zero, LD(0), np.where(zero, LD(0), x) * P)
            want = term.sum(axis=0)
            size = abs(term).sum(axis=0)
            tol = LD(1e-12) * np.where(np.isfinite(size), size, 0) + LD(1e-300)
            with np.errstate(all='ignore'):
                ok = (abs(got - want) <= tol) | (got == want)
            bad = np.flatnonzero(cols & ~ok)
            if bad.size:
                i = bad[0]
                raise Violation(f'average of observable "{name}" {B[:, i]} at T={float(T[i])!r} '
                                f'with {pfs}: {got[i]} instead of {want[i]} '
                                f'(probabilities {P[:, i].astype(float)})')
            lo = np.where(zero, np.inf, x).min(axis=0)
            hi = np.where(zero, -np.inf, x).max(axis=0)
            slack = np.maximum(abs(lo), abs(hi))
            slack = LD(1e-11) * np.where(np.isfinite(slack), slack, 0) + LD(1e-300)
            if (cols & ((got < lo - slack) | (got > hi + slack))).any():
                raise Violation(f'average of observable "{name}" leaves the range of its values')
            seen[name] = (x, got)
            ctx.trace()
        for f, g, u, v in (('ladder', 'constant', 2., -1.), ('negative', 'integer', -0.5, 4.),
                           ('ladder', 'indicator 0', 1., 1.), ('constant', 'negative', 0., 8.)):
            comb = (u * seen[f][0] + v * seen[g][0]).astype(float)
            got = sa.calc_ensemble_average(T, comb)[0]
            want = u * seen[f][1] + v * seen[g][1]
            scale = LD(1e-11) * (1 + abs(u * seen[f][0]) + abs(v * seen[g][0])).max(axis=0)
            ctx.step()
            if (cols & ~(abs(got - want) <= scale)).any():
                raise Violation(f'the average is not linear in "{f}" and "{g}"')
        ctx.outcome([land.n, T.size, pfs, [round(float(x), 9) for x in seen['ladder'][1][cols][:4]]])
