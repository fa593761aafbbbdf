"""C05: every contribution reports derivatives that belong to its own partition function."""
import numpy as np

import land as L
import ref
from core import Violation

ID = 'C05'
CHUNK = 24
STATES = 'distinct (landscape, contribution type, temperature array) configurations evaluated'
BOUNDS = {'quick': 'all landscapes within 3 deviations over 7 axes x the contribution types that '
                   'read the deviating axes; all core minima sequences of length <= 2; 20 numbers of minima up to 4097 and 18 of modes up to 1025',
          'thorough': 'as quick with 4 deviations and sequences of <= 3 core minima'}
ASSUMPTIONS = ['slopes are taken numerically (Richardson) from the reported values, with '
               'tolerance 2e-6 relative', 'T = 0 and infinity are outside the quantum domain']

AXES = {k: v for k, v in L.AXES.items() if k != 'PF'}
# which axes a contribution depends on
READS = {'E': {'N', 'E', 'T'}, 'S': {'N', 'E', 'G', 'T'}, 'C': {'N', 'D', 'F', 'T'},
         'Q': {'N', 'D', 'F', 'T'}, 'R': {'N', 'R', 'T'}}


def cases(tier):
    yield from L.space(3, 2, AXES) if tier == 'quick' else L.space(4, 3, AXES)


def expand(case):
    if 'core' in case:
        land = L.core_land(case['core'])
        return [(land, k, L.CORE_T) for k in 'ESCQR']
    if 'doc' in case:
        return [(L.doc_land(), k, np.arange(0, 1001, 1)) for k in 'ESCQR']
    land, _, T = L.build(case)
    return [(land, k, T) for k in 'ESCQR' if set(case) <= READS[k] | ({'D'} if k in 'CQ' else set())]


def compare(got, want, T, what, sens=0.):
    # sens: how much the digits of the constants matter
    with np.errstate(all='ignore'):
        ok = abs(got.astype(ref.LD) - want) <= 1e-300 + (2e-9 + 1e-9 * abs(sens)) * abs(want)
    ok |= got == want
    if not ok.all():
        a, j = np.argwhere(~ok)[0]
        raise Violation(f'{what}: minimum {a}, T={float(T[j])!r}: {float(got[a, j])!r} instead of '
                        f'{float(want[a, j])!r}')


def check(case, ctx):
    for land, k, T in expand(case):
        if not L.size_ok(land, T, ctx):
            continue
        T = np.asarray(T)
        dom = np.ones(T.size, bool)
        if k == 'Q':
            dom = (T > 0) & np.isfinite(T)
        ctx.state([case, k])
        pf = L.make_pf(k, land)
        shape = (land.n, T.size)
        w = ref.as_result(pf.calc_part_func_w(T), shape, f'{k}: first derivative')
        v = ref.as_result(pf.calc_part_func_v(T), shape, f'{k}: second derivative')
        z = ref.as_result(pf.calc_part_func(T), shape, f'{k}: partition function')
        pos = dom & (T > 0)
        if pos.any():
            compare(w[:, pos], ref.w_of(land, k, T[pos]), T[pos], f'{k}: first derivative')
            compare(v[:, pos], ref.v_of(land, k, T[pos]), T[pos], f'{k}: second derivative',
                    ref.w_of(land, k, T[pos]))
        zero = dom & (T == 0)
        if zero.any():
            if k in 'ES':
                rel = land.energy - land.energy.min()
                want = np.where(rel > 0, -np.inf, 0.)
                if not ((w[:, zero] == want[:, None]).all() and (v[:, zero] == 0).all()):
                    raise Violation(f'{k}: derivatives at T=0 are {w[:, zero]}, {v[:, zero]}')
            else:
                lim = -land.d if k == 'C' else -1.5
                if not ((w[:, zero] == lim).all() and (v[:, zero] == -lim).all()):
                    raise Violation(f'{k}: derivatives at T=0 are {w[:, zero]}, {v[:, zero]}')
        ctx.step(3 * int(dom.sum()))
        fin = pos & np.isfinite(T) & (T > 1e-6)
        if fin.any():
            slopes(pf, k, land, T[fin][:60].astype(float), ctx)
        ctx.trace()
        ctx.outcome(np.round(np.asarray(w[:, dom], float), 6).tobytes()
                    + np.round(np.asarray(z[:, pos] / np.maximum(z[:1, pos], 1e-300), float),
                               6).tobytes())


def slopes(pf, k, land, T, ctx):
    """dlnZ/dlnbeta and dW/dlnbeta from the implementation's own numbers."""
    h = 1e-3
    pts = [T * np.exp(-s * h) for s in (2., 1., -1., -2.)]     # ln beta +2h, +h, -h, -2h
    with np.errstate(all='ignore'):
        zs = [np.asarray(pf.calc_part_func(t), dtype=ref.LD) for t in pts]
        ws = [np.asarray(pf.calc_part_func_w(t), dtype=ref.LD) for t in pts]
    w = np.asarray(pf.calc_part_func_w(T), dtype=ref.LD)
    v = np.asarray(pf.calc_part_func_v(T), dtype=ref.LD)
    floor = ref.LD('1e-4900') if k == 'Q' else ref.LD('1e-290')

    def diff(f):
        return (8 * (f[1] - f[2]) - (f[0] - f[3])) / (12 * h)

    if land.n > 1:
        ok = np.ones(T.size, bool)
        for z in zs:
            ok &= (z > floor).all(axis=0)
        if ok.any():
            lr = [np.log(z[1:, ok]) - np.log(z[:1, ok]) for z in zs]
            got = diff(lr)
            want = w[1:, ok] - w[:1, ok]
            scale = 1 + abs(w[:, ok]).max(axis=0)
            bad = ~(abs(got - want) <= 2e-6 * scale)
            if bad.any():
                a, j = np.argwhere(bad)[0]
                raise Violation(
                    f'{k}: T={float(T[ok][j])!r}: slope of ln(Z_{a + 1}/Z_0) is '
                    f'{float(got[a, j])!r} but the reported derivatives differ by '
                    f'{float(want[a, j])!r}')
            ctx.step(int(ok.sum()))
    got = diff(ws) - w
    bad = ~(abs(got - v) <= 2e-6 * (1 + abs(w)))
    if bad.any():
        a, j = np.argwhere(bad)[0]
        raise Violation(f'{k}: T={float(T[j])!r}: second derivative from the reported first one is '
                        f'{float(got[a, j])!r}, reported {float(v[a, j])!r}')
    ctx.step(T.size)
