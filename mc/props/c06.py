"""C06: high-temperature limits of probabilities and heat capacity."""
import numpy as np

import land as L
import ref
from core import Violation

ID = 'C06'
CHUNK = 24
STATES = 'distinct (landscape, contribution set, temperature array) configurations evaluated'
BOUNDS = {'quick': 'all landscapes within 3 deviations over 8 axes with 5 high-temperature arrays; 20 numbers of minima up to 4097 and 18 of modes up to 1025',
          'thorough': 'as quick with 4 deviations'}
ASSUMPTIONS = ['values outside the per-axis menus are not explored',
               'deviation from the limit is bounded by the first omitted order in 1/T']

AXES = dict(L.AXES)
AXES['T'] = ['hmix', 'hinf', 'hone', 'hint', 'hdesc']
TEMPS = {'hmix': np.array([1e5, 1e6, 1e8, 1e10]), 'hinf': np.array([np.inf, 1e8, np.inf]),
         'hone': np.array([1e9]), 'hint': np.array([200000, 10000000]),
         'hdesc': np.array([1e12, 1e9, 300., 1e7])}


def cases(tier):
    import core
    yield from core.deviations(AXES, 3 if tier == 'quick' else 4)
    yield from L.large(AXES)


def overflows(land, pfs, T):
    """Some product of factors of a minimum exceeds the range of long double."""
    out = np.zeros(T.size, bool)
    fin = np.isfinite(T)
    tot = 0
    for k in pfs:
        tot = tot + ref.lnz_pos(land, k, T[fin])
        out[fin] |= (tot > ref.LN_LD_MAX - 2).any(axis=0)
    return out


def check(case, ctx):
    T = TEMPS[case.get('T', 'hmix')]
    land, pfs, _ = L.build({k: v for k, v in case.items() if k != 'T'})
    cols = (T >= 1e5) & (np.isfinite(T) | ('Q' not in pfs))
    if not cols.any():
        return
    ctx.state(case)
    lnw = np.zeros(land.n, dtype=ref.LD)
    rel = (land.energy - land.energy.min()).astype(ref.LD)
    first = np.zeros((land.n, T.size), dtype=ref.LD)      # bound on |ln Z - limit|
    second = np.zeros((land.n, T.size), dtype=ref.LD)     # bound on the V correction
    with np.errstate(all='ignore'):
        beta = 1 / (ref.KB * T.astype(ref.LD))
    limit_c = ref.LD(0)
    for k in pfs:
        if k in 'ES':
            first += rel[:, None] * beta[None, :]
            if k == 'S':
                lnw += np.log(land.mult.astype(ref.LD))
        elif k == 'R':
            lnw += ref.ln_rot(land)
            limit_c += ref.LD(1.5)
        else:
            lnw -= np.log(land.freq.astype(ref.LD)).sum(axis=1)
            limit_c += land.d
            if k == 'Q':
                x2 = ((ref.H * land.freq.astype(ref.LD) / 2)[:, :, None] * beta) ** 2
                first += x2.sum(axis=1)
                second += x2.sum(axis=1)
    want = ref.softmax(np.repeat(lnw[:, None], T.size, axis=1))
    bound = 1e-12 + np.expm1(np.minimum(2.5 * first.max(axis=0), 300))
    sa = L.make_sa(land, pfs)
    p = ref.as_result(sa.calc_probability(T), (land.n, T.size), 'calc_probability')
    over = overflows(land, pfs, T)
    for j in np.flatnonzero(over & cols):
        if (np.isnan(p[:, j]) | (p[:, j] == 0)).all():
            ctx.known('OVERFLOW', f'T={float(T[j])!r}: {land.d} modes, probabilities {np.asarray(p[:, j], float)}')
            cols[j] = False
    if not cols.any():
        return
    with np.errstate(all='ignore'):
        bad = ~(abs(p - want) <= (1e-9 + bound) * want + ref.LD('1e-290'))
    if bad[:, cols].any():
        a, j = np.argwhere(bad & cols)[0]
        raise Violation(f'T={float(T[j])!r}: probability {float(p[a, j])!r} of minimum {a} is not '
                        f'the statistical weight {float(want[a, j])!r}')
    c = ref.as_result(sa.calc_heat_capacity(T), (1, T.size), 'calc_heat_capacity')
    wmax = sum(ref.LD(1.5) if k == 'R' else ref.LD(land.d) if k in 'CQ' else 0 for k in pfs)
    with np.errstate(all='ignore'):
        tol = 1e-9 + 1e-13 * (1 + wmax) ** 2 + 2 * second.max(axis=0) + (2 * first.max(axis=0)) ** 2
        badc = ~(abs(c[0] - limit_c) <= tol) & cols
    if badc.any():
        j = np.flatnonzero(badc)[0]
        raise Violation(f'T={float(T[j])!r}: heat capacity {float(c[0, j])!r} is not the '
                        f'equipartition value {float(limit_c)!r}')
    ctx.step(2 * int(cols.sum()))
    if 'Q' in pfs or 'C' in pfs:
        swap = pfs.replace('Q', 'c').replace('C', 'Q').replace('c', 'C')
        fin = cols & np.isfinite(T)
        if fin.any() and set(swap) != set(pfs):
            q = L.make_sa(land, swap).calc_probability(T)
            fin &= ~overflows(land, swap, T)
            x2 = ((ref.H * land.freq.astype(ref.LD) / 2)[:, :, None] * beta) ** 2
            lim = 1e-9 + np.expm1(np.minimum(2.5 * max(pfs.count('C'), pfs.count('Q')) * x2.sum(axis=1).max(axis=0), 300))
            bad = ~(abs(np.asarray(q) - p) <= lim * p + 1e-300)
            if bad[:, fin].any():
                a, j = np.argwhere(bad & fin)[0]
                raise Violation(f'T={float(T[j])!r}: classical and quantum vibrations differ: '
                                f'{float(p[a, j])!r} and {float(q[a, j])!r}')
            ctx.step(int(fin.sum()))
    ctx.trace()
    ctx.outcome(np.round(np.asarray(p[:, cols], float), 7).tobytes())
