"""C04: heat capacity equals the fluctuation formula of the combined partition function."""
import numpy as np

import land as L
import ref
from core import Violation

ID = 'C04'
CHUNK = 24
STATES = 'distinct (landscape, contribution set, temperature array) configurations evaluated'
BOUNDS = {'quick': 'all landscapes within 3 deviations of the base over 8 axes; all sequences of '
                   '<= 2 of 16 core minima x 17 contribution sets x 5 temperatures; 20 numbers of minima up to 4097 and 18 of modes up to 1025',
          'thorough': 'as quick with 4 deviations and sequences of <= 3 core minima'}
ASSUMPTIONS = ['values outside the per-axis menus are not explored',
               'columns where a recorded defect acts are compared with that defect only']


def cases(tier):
    yield from L.space(3, 2) if tier == 'quick' else L.space(4, 3)


def tolerance(land, pfs, T, want, w2):
    mag = ref.magnitude(land, pfs, T)
    return (1e-8 + 4 * ref.tol_ln(mag)) * abs(want) + 4e-15 * land.n * w2 + 1e-300


def judge(c, land, pfs, T, ctx, what='calc_heat_capacity'):
    """Compare a row of heat capacities at finite T > 0 with the fluctuation formula."""
    want, w2 = ref.cap(land, pfs, T)
    c = c.astype(ref.LD)
    tol = tolerance(land, pfs, T, want, w2)
    with np.errstate(all='ignore'):
        good = abs(c - want) <= tol
        good &= c >= -tol
    for j in np.flatnonzero(~good):
        t = T[j:j + 1]
        where = f'{what}: T={float(T[j])!r} gives {float(c[j])!r} instead of {float(want[j])!r}'
        hit = False
        for high in (True, False):
            pd = ref.prob_defect(land, pfs, t, high)
            if np.allclose(pd.astype(float), ref.prob(land, pfs, t).astype(float), atol=1e-13):
                continue
            cd, wd = ref.cap(land, pfs, t, np.nan_to_num(pd))
            if np.isnan(pd).all():
                cd = cd * 0
            td = tolerance(land, pfs, t, cd, wd)
            if abs(c[j] - cd[0]) <= td[0]:
                hit = True
        if not hit and ref.underflow_active(land, pfs, t):
            dl = ref.prob_defect(land, pfs, t, False)
            dh = ref.prob_defect(land, pfs, t, True)
            if np.isnan(dl).all() and not np.isnan(dh).any() and np.isfinite(c[j]):
                hit = True        # gradual underflow of every factor: digits are lost
        if not hit:
            raise Violation(where)
        ctx.known('UNDERFLOW', where)


def check(case, ctx):
    for land, pfs, T in L.expand(case):
        if not L.size_ok(land, T, ctx):
            continue
        T = np.asarray(T)
        cols = (T > 0) & np.isfinite(T)
        if not cols.any():
            continue
        ctx.state([case, pfs])
        sa = L.make_sa(land, pfs)
        c = ref.as_result(sa.calc_heat_capacity(T), (1, T.size), 'calc_heat_capacity')
        judge(c[0, cols], land, pfs, T[cols], ctx)
        ctx.step(int(cols.sum()))
        ctx.trace()
        ctx.outcome(np.round(np.asarray(c[:, cols], float), 5).tobytes())


def finish(tier, total):
    import oracle
    return {'reference_points_validated_with_60_digit_literal_sums': oracle.validate()}
