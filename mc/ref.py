"""Reference model: the documented formulas, written once more in log space with long
doubles, independently of the code under test.

W and V are beta*dlnZ/dbeta and beta^2*d2lnZ/dbeta2.  `T` may contain 0 and inf.
`defect=True` gives the value that results from the three recorded defects of the
unchanged tree (see KNOWN_FINDINGS.txt) so that exactly that failure can be recognised.
"""
import numpy as np

from core import Violation

LD = np.longdouble
KB = LD('8.617333262145e-5')      # eV/K
H = LD('4.135667696e-3')          # eV/THz
LN_LD_MIN, LN_LD_DENORM = 11355.0, 11400.5
LN_LD_MAX = 11356.5


def _x(land, T):
    """h nu / 2 k T, shape (N, D, M); T > 0."""
    return (H * LD(0.5) * land.freq.astype(LD))[:, :, None] / (KB * T)[None, None, :]


def _rel(land):
    e = land.energy.astype(LD)
    return e - e.min()


def zpe(land):
    return (LD(0.5) * H * land.freq.astype(LD)).sum(axis=1)


def ln_rot(land):
    """ln(sqrt(I1 I2 I3)/sigma), vanishing moments dropped."""
    mom = land.mom.astype(LD)
    big = mom.max(axis=1, keepdims=True)
    use = mom > LD(1e-6) * big
    return LD(0.5) * np.log(np.where(use, mom, LD(1))).sum(axis=1) - np.log(land.sym.astype(LD))


def lnq(x):
    """sum over modes of ln[exp(-x)/(1-exp(-2x))]."""
    return -(x + np.log1p(-np.exp(-2 * x))).sum(axis=1)


def lnz_pos(land, kind, T):
    """ln Z_a up to a common additive constant for finite or infinite T > 0, (N, M)."""
    T = T.astype(LD)
    n, m = land.n, T.size
    if kind in 'ES':
        out = -_rel(land)[:, None] / (KB * T)[None, :]
        if kind == 'S':
            out = out + np.log(land.mult.astype(LD))[:, None]
        return out
    if kind == 'C':
        return np.repeat(-np.log(land.freq.astype(LD)).sum(axis=1)[:, None], m, axis=1)
    if kind == 'R':
        return np.repeat(ln_rot(land)[:, None], m, axis=1)
    if kind == 'Q':
        return lnq(_x(land, T))
    raise KeyError(kind)


def w_of(land, kind, T):
    """beta*dlnZ/dbeta, (N, M); T > 0."""
    T = T.astype(LD)
    m = T.size
    if kind in 'ES':
        return -_rel(land)[:, None] / (KB * T)[None, :]
    if kind == 'C':
        return np.full((land.n, m), LD(-land.d))
    if kind == 'R':
        return np.full((land.n, m), LD(-1.5))
    if kind == 'Q':
        x = _x(land, T)
        return -(x / np.tanh(x)).sum(axis=1)
    raise KeyError(kind)


def v_of(land, kind, T):
    T = T.astype(LD)
    m = T.size
    if kind in 'ES':
        return np.zeros((land.n, m), dtype=LD)
    if kind == 'C':
        return np.full((land.n, m), LD(land.d))
    if kind == 'R':
        return np.full((land.n, m), LD(1.5))
    if kind == 'Q':
        x = _x(land, T)
        return ((x / np.sinh(x)) ** 2).sum(axis=1)
    raise KeyError(kind)


def softmax(ln):
    top = ln.max(axis=0, keepdims=True)
    with np.errstate(all='ignore'):
        w = np.exp(ln - top)
    return w / w.sum(axis=0, keepdims=True)


def weights0(land, pfs):
    """Limit of the probabilities for T -> 0, shape (N,)."""
    ground = np.zeros(land.n, dtype=LD)
    lnw = np.zeros(land.n, dtype=LD)
    for k in pfs:
        if k in 'ES':
            ground = ground + _rel(land)
        if k == 'S':
            lnw = lnw + np.log(land.mult.astype(LD))
        if k == 'C':
            lnw = lnw - np.log(land.freq.astype(LD)).sum(axis=1)
        if k == 'R':
            lnw = lnw + ln_rot(land)
        if k == 'Q':
            ground = ground + zpe(land)
    ln = np.where(ground <= ground.min() + LD(1e-12 if 'Q' in pfs else 0), lnw, -np.inf)
    return softmax(ln[:, None])[:, 0]


def prob(land, pfs, T):
    """Occupation probabilities (N, M) for any T >= 0."""
    out = np.empty((land.n, T.size), dtype=LD)
    pos = T > 0
    if pos.any():
        out[:, pos] = softmax(sum(lnz_pos(land, k, T[pos]) for k in pfs))
    if (~pos).any():
        out[:, ~pos] = weights0(land, pfs)[:, None]
    return out


def cap(land, pfs, T, p=None):
    """Heat capacity (M,) for any T >= 0, and the second moment sum P W^2."""
    c = np.empty(T.size, dtype=LD)
    w2 = np.zeros(T.size, dtype=LD)
    pos = T > 0
    nd = sum(k == 'C' for k in pfs) * land.d
    nr = sum(k == 'R' for k in pfs)
    c[~pos] = LD(nd) + LD(1.5) * nr
    w2[~pos] = (LD(nd) + LD(1.5) * nr) ** 2
    if pos.any():
        t = T[pos]
        pp = softmax(sum(lnz_pos(land, k, t) for k in pfs)) if p is None else p[:, pos]
        w = sum(w_of(land, k, t) for k in pfs)
        v = sum(v_of(land, k, t) for k in pfs)
        mean = (pp * w).sum(axis=0)
        c[pos] = (pp * v).sum(axis=0) + (pp * (w - mean) ** 2).sum(axis=0)
        w2[pos] = (pp * w ** 2).sum(axis=0)
    return c, w2


def magnitude(land, pfs, T):
    """Largest |ln Z_a| appearing at each temperature (0 at T = 0): scales tolerances."""
    out = np.zeros(T.size)
    pos = T > 0
    if pos.any():
        ln = sum(abs(lnz_pos(land, k, T[pos])) for k in pfs)
        out[pos] = np.minimum(ln.max(axis=0), LD(1e300)).astype(float)
    return out


def prob_defect(land, pfs, T, high=True):
    """What the unchanged tree computes where its three recorded defects act: products of
    factors that underflow in long double and, at T = 0, a quantum factor without zero-point energy."""
    out = np.empty((land.n, T.size), dtype=LD)
    cut_l = LN_LD_DENORM if high else LN_LD_MIN
    pos = T > 0
    if pos.any():
        tot = 0
        for k in pfs:
            ln = lnz_pos(land, k, T[pos])
            if k in 'ES':
                bolt = lnz_pos(land, 'E', T[pos])
                ln = np.where(bolt < -cut_l, -np.inf, ln)
            tot = tot + ln
        tot = np.where(tot < -cut_l, -np.inf, tot)
        out[:, pos] = softmax(tot)
    if (~pos).any():
        out[:, ~pos] = weights0(land, [k for k in pfs if k != 'Q'])[:, None]
    return out


def tol_ln(mag):
    """Tolerance on logarithms: rounding plus the digits of the constants."""
    return 1e-9 + 4e-10 * mag


def close_cols(obs, want, tol_rel, tol_abs):
    """Boolean per column: |obs-want| <= tol_abs + tol_rel*|want| in every row."""
    obs = np.asarray(obs, dtype=LD)
    with np.errstate(all='ignore'):
        ok = abs(obs - want) <= tol_abs + tol_rel * abs(want)
    ok |= (obs == want)
    return ok.all(axis=0)


def as_result(res, shape, what):
    """The returned object must be a real numeric array of the documented shape."""
    if res is None:
        raise Violation(f'{what} returned None')
    if not isinstance(res, np.ndarray):
        raise Violation(f'{what} returned {type(res).__name__}, not an array')
    if res.shape != shape:
        raise Violation(f'{what} has shape {res.shape}, expected {shape}')
    if res.dtype.kind != 'f':
        raise Violation(f'{what} has dtype {res.dtype}')
    return res


def judge_prob(obs, land, pfs, T, ctx, cols=None, what='calc_probability'):
    """Compare probabilities with the law on the columns `cols`; columns on which one of
    the recorded defects explains exactly the deviation are reported as known."""
    cols = np.ones(T.size, bool) if cols is None else cols
    if not cols.any():
        return
    obs = np.asarray(obs)[:, cols].astype(LD)
    t = np.asarray(T)[cols]
    want = prob(land, pfs, t)
    mag = magnitude(land, pfs, t)
    rel = 1e-8 + 2 * tol_ln(mag)
    good = close_cols(obs, want, rel, LD('1e-290'))
    if good.all():
        return
    bad = np.flatnonzero(~good)
    dh = prob_defect(land, pfs, t, True)
    dl = prob_defect(land, pfs, t, False)
    for j in bad:
        o, w, h, l = obs[:, j], want[:, j], dh[:, j], dl[:, j]
        if bool(np.all(abs(o - w) <= 1e-13)) and underflow_active(land, pfs, t[j:j + 1]):
            continue      # a population below 1e-13 lost to underflow: within rounding
        kid = explain_prob(o, w, h, l, t[j], rel[j])
        where = (f'{what}: T={float(t[j])!r} gives {np.asarray(o, float)} instead of '
                 f'{np.asarray(w, float)}')
        if kid is None:
            raise Violation(where)
        ctx.known(kid, where)


def underflow_active(land, pfs, t):
    """Some factor or product of factors is too small for its type at T = t[0]."""
    if t[0] <= 0:
        return False
    tot, low = 0, False
    for k in pfs:
        ln = lnz_pos(land, k, t)
        tot = tot + ln
        if k in 'ES':
            low = low or bool((ln < -LN_LD_MIN).any())
    return low or bool((tot < -LN_LD_MIN).any())


def explain_prob(o, w, h, l, t, rel):
    """Finding id if column o is what a recorded defect yields, else None."""
    def same(a, b, floor=1e-12):
        return bool(np.all((np.isnan(a) & np.isnan(b)) | (abs(a - b) <= floor + rel * abs(b))))
    if same(h, w, LD('1e-290')) and same(l, w, LD('1e-290')):
        return None                       # no defect acts here
    if same(o, h):
        if t == 0:
            return 'T0-ZPE'
        return 'UNDERFLOW'
    if t > 0 and not same(h, l):          # gradual underflow: digits are lost step by step
        lo = np.minimum(np.minimum(np.nan_to_num(h), np.nan_to_num(l)), w) - 1e-9
        hi = np.maximum(np.maximum(np.nan_to_num(h), np.nan_to_num(l)), w) + 1e-9
        if np.isnan(l).any():
            if np.isnan(o).all() or (np.isfinite(o).all() and abs(o.sum() - 1) < 1e-6):
                return 'UNDERFLOW'
        elif bool(np.all((o >= lo) & (o <= hi))):
            return 'UNDERFLOW'
    return None
