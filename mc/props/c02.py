"""C02: probabilities are a finite, normalised distribution at every temperature."""
import numpy as np

import land as L
import ref
from core import Violation

ID = 'C02'
CHUNK = 24
STATES = 'distinct (landscape, contribution set, temperature array) configurations evaluated'
BOUNDS = {'quick': 'all landscapes within 3 deviations of the base over 8 axes, each also with its '
                   'first minimum duplicated; all sequences of <= 2 of 16 core minima x 17 sets; 20 numbers of minima up to 4097 and 18 of modes up to 1025',
          'thorough': 'as quick with 4 deviations and sequences of <= 3 core minima'}
ASSUMPTIONS = ['values outside the per-axis menus are not explored',
               'T = infinity is outside the domain when quantum vibrations are included']


def cases(tier):
    yield from L.space(3, 2) if tier == 'quick' else L.space(4, 3)


def judge(p, land, pfs, T, cols, ctx):
    """Distribution check of the columns `cols` of p."""
    q = np.asarray(p, dtype=ref.LD)
    with np.errstate(all='ignore'):
        good = (np.isfinite(q).all(axis=0) & (q >= 0).all(axis=0) & (q <= 1 + 1e-12).all(axis=0)
                & (abs(q.sum(axis=0) - 1) <= 1e-10))
    bad = np.flatnonzero(cols & ~good)
    if bad.size == 0:
        return
    t = np.asarray(T)[bad]
    low = ref.prob_defect(land, pfs, t, False)
    for i, j in enumerate(bad):
        where = f'T={float(T[j])!r}: column {np.asarray(q[:, j], float)} is not a distribution'
        if T[j] > 0 and np.isnan(low[:, i]).all() and np.isnan(q[:, j]).all():
            ctx.known('UNDERFLOW', where)
        else:
            raise Violation(where)


def domain(pfs, T):
    return np.isfinite(T) | ('Q' not in pfs)


def check(case, ctx):
    for land, pfs, T in L.expand(case):
        if not L.size_ok(land, T, ctx):
            continue
        cols = domain(pfs, T) & np.ones(T.size, bool)
        ctx.state([case, pfs])
        p = ref.as_result(L.make_sa(land, pfs).calc_probability(T), (land.n, T.size),
                          'calc_probability')
        judge(p, land, pfs, T, cols, ctx)
        ctx.step(int(cols.sum()))
        twin = land.take(list(range(land.n)) + [0])
        p2 = ref.as_result(L.make_sa(twin, pfs).calc_probability(T), (twin.n, T.size),
                           'calc_probability')
        judge(p2, twin, pfs, T, cols, ctx)
        ctx.step(int(cols.sum()))
        if not np.allclose(p2[0, cols], p2[-1, cols], rtol=1e-12, atol=0., equal_nan=True):
            raise Violation('two identical minima have different probabilities: '
                            f'{p2[0, cols]} and {p2[-1, cols]} at T={T[cols]}')
        ctx.trace(2)
        ctx.outcome(np.round(np.asarray(p[:, cols], float), 6).tobytes())
