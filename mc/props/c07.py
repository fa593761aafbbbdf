"""C07: results respect the symmetries of the physics (state graph of equivalent landscapes)."""
import itertools

import numpy as np

import land as L
import ref
from core import Violation

ID = 'C07'
CHUNK = 8
STATES = 'distinct landscapes (base states and their symmetry images) evaluated'
BOUNDS = {'quick': 'all landscapes within 2 deviations over 8 axes; from each, every permutation of '
                   'the minima (N <= 4, generators beyond), of modes (D <= 3, generators beyond) and '
                   'of the moments, 6 energy shifts, common factors (5 of degeneracies and symmetry numbers, 3 of moments), every replication of one '
                   'minimum by k = 2, 3',
          'thorough': 'as quick with 3 deviations'}
ASSUMPTIONS = ['energies are dyadic, so that shifts are exact']

SHIFTS = [1., -4433.125, 17.5, -0.0625, 1024., -2.**-10]
FACT = [2., 0.5, 7.]
SCALES = [2.**-30, 2.**40]


def cases(tier):
    import core
    yield from core.deviations(L.AXES, 2 if tier == 'quick' else 3)


def perms(n, full):
    if n <= full:
        yield from (list(p) for p in itertools.permutations(range(n)) if list(p) != list(range(n)))
    else:
        base = list(range(n))
        yield base[::-1]
        yield base[1:] + base[:1]
        yield [1, 0] + base[2:]
        yield base[-1:] + base[1:-1] + base[:1]


def observable(land, T):
    """An observable that depends on the identity of the minimum, not on its position."""
    key = 1. + land.energy.astype(float) - land.energy.min() + 0.25 * land.mult
    return key[:, None] * (1. + np.arange(T.size)[None, :] % 3)


def results(land, pfs, T):
    sa = L.make_sa(land, pfs)
    with np.errstate(all='ignore'):
        p = ref.as_result(sa.calc_probability(T), (land.n, T.size), 'calc_probability')
        c = ref.as_result(sa.calc_heat_capacity(T), (1, T.size), 'calc_heat_capacity')
        o = ref.as_result(sa.calc_ensemble_average(T, observable(land, T)), (1, T.size),
                          'calc_ensemble_average')
    return p, c, o


def close(a, b, floor, rtol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    with np.errstate(all='ignore'):
        return bool(np.all((abs(a - b) <= floor + rtol * abs(b)) | (a == b)
                           | (np.isnan(a) & np.isnan(b))))


def check(case, ctx):
    land, pfs, T = L.build(case)
    T = np.asarray(T)
    if land.n * land.d * T.size > (6000 if ctx.tier == 'quick' else 20000):
        ctx.count('beyond_size_cap')
        return
    dom = np.isfinite(T) | ('Q' not in pfs)
    T = T[dom]
    if T.size == 0:
        return
    pos = T > 0
    p, c, o = results(land, pfs, T)
    ctx.state([case])
    w2 = np.zeros(T.size)
    w2[pos] = np.minimum(ref.cap(land, pfs, T)[1][pos], 1e300).astype(float)
    # populations lost to the underflow of a factor (C01) are within rounding
    floor = np.array([1e-13 if ref.underflow_active(land, pfs, T[j:j + 1]) else 1e-290
                      for j in range(T.size)])

    def same(a, b):
        return close(a, b, floor)

    ctol = 1e-8 + 1e-14 * land.n * w2 + 1e-12 * ref.magnitude(land, pfs, T)

    def c_same(a, b):
        a, b = np.asarray(a, float)[0], np.asarray(b, float)[0]
        with np.errstate(all='ignore'):
            return bool(np.all((abs(a - b) <= ctol * (1 + abs(b))) | (np.isnan(a) & np.isnan(b))))

    def expect(name, img, p_want, c_want=c, o_want=o):
        pi, ci, oi = results(img, pfs, T)
        ctx.state([case, name])
        ctx.step(3)
        ctx.trace()
        if p_want is not None and not same(pi, p_want):
            raise Violation(f'{name}: probabilities {np.asarray(pi, float).tolist()} instead of '
                            f'{np.asarray(p_want, float).tolist()} at T={T.tolist()}'[:900])
        if c_want is not None and not c_same(ci, c_want):
            raise Violation(f'{name}: heat capacity {ci} instead of {c_want} at T={T.tolist()}'[:900])
        if o_want is not None and not same(oi, o_want):
            raise Violation(f'{name}: ensemble average {oi} instead of {o_want}'[:900])
        return pi, ci, oi

    for perm in perms(land.n, 4):
        expect(f'minima reordered {perm}', land.take(perm), p[perm])
    if set(pfs) & set('ES'):
        for s in SHIFTS if case.get('E') != 'int' else (1, -4433, 17, 100000):
            img = land.copy()
            img.energy = img.energy + s
            if (img.energy - s != land.energy).any():
                continue              # the shift itself would round
            expect(f'energies shifted by {s}', img, p)
    if set(pfs) & set('CQ'):
        for perm in perms(land.d, 3):
            img = land.copy()
            img.freq = img.freq[:, perm].copy()
            expect(f'modes reordered {perm}', img, p)
        if land.n > 1:
            img = land.copy()
            img.freq[0] = img.freq[0, ::-1].copy()
            expect('modes of one minimum reversed', img, p)
    if 'R' in pfs:
        for perm in perms(3, 3):
            img = land.copy()
            img.mom = img.mom[:, perm].copy()
            expect(f'moments reordered {perm}', img, p)
        img = land.copy()
        img.mom[-1] = img.mom[-1, [2, 0, 1]].copy()
        expect('moments of the last minimum rotated', img, p)
        linear = (land.mom <= 1e-6 * land.mom.max(axis=1, keepdims=True))
        for f in FACT + SCALES:
            img = land.copy()
            img.sym = img.sym * f
            expect(f'symmetry numbers times {f}', img, p)
            if (linear == linear[:1]).all():
                img = land.copy()
                img.mom = img.mom * f
                expect(f'moments times {f}', img, p)
    if 'S' in pfs:
        for f in FACT + SCALES:
            img = land.copy()
            img.mult = img.mult * f
            expect(f'degeneracies times {f}', img, p, o_want=None)
    for a in sorted({0, land.n // 2, land.n - 1}):
        for k in (2, 3):
            idx = list(range(land.n)) + [a] * (k - 1)
            img = land.take(idx)
            pi, _, _ = results(img, pfs, T)
            ctx.step(3)
            ctx.trace()
            copies = [a] + list(range(land.n, land.n + k - 1))
            if not all(same(pi[i], pi[a]) for i in copies):
                raise Violation(f'copies of minimum {a} have different populations')
            want = p / (1 + (k - 1) * p[a])
            if not same(pi[:land.n], want):
                raise Violation(f'{k} copies of minimum {a}: populations '
                                f'{np.asarray(pi, float).tolist()} instead of '
                                f'{np.asarray(want, float).tolist()}'[:900])
            if pfs.count('S') == 1:
                img.mult = img.mult.astype(float)
                img.mult[copies] /= k
                pi, ci, _ = results(img, pfs, T)
                merged = np.asarray(pi[:land.n]).copy()
                merged[a] = pi[copies].sum(axis=0)
                if not same(merged, p):
                    raise Violation(f'{k} copies of minimum {a} sharing its degeneracy: '
                                    f'{merged.tolist()} instead of {p.tolist()}'[:900])
                if not c_same(ci, c):
                    raise Violation(f'{k} copies of minimum {a} sharing its degeneracy: heat '
                                    f'capacity {ci} instead of {c}'[:900])
                ctx.state([case, 'split', a, k])
                ctx.step(2)
    ctx.outcome(np.round(np.asarray(p, float), 6).tobytes())
