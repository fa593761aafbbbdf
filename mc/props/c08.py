"""C08: every temperature is evaluated independently of the others in the array."""
import itertools

import numpy as np

import land as L
from core import Violation

ID = 'C08'
CHUNK = 2
STATES = 'distinct (landscape, contribution set, temperature sequence) configurations'
BOUNDS = {'quick': 'all temperature sequences of length <= 3 over 5 values (plus all of length 4 '
                   'over 3 values, and of length 2 over 11 and 3 over 5 values far apart or very close) x all sizes N, D in 1..4 x 7 contribution sets; 24 lengths up to '
                   '100003 with every split point class and probed columns',
          'thorough': 'all sequences of length <= 5 over 5 values, N, D in 1..6'}
ASSUMPTIONS = ['equality up to 1e-11 relative (vectorised libm variants differ in the last bit)']

ALPH = [0., 0.5, 60., 300., 1e4]
# far apart, or so close that rounding joins them
WIDE = [1e-4, 300., 1e9, np.inf, np.nextafter(300., 301.), 0., 300.0000001, -0., 1e-12, 299.9999, 1e15]
SETS = ['SQR', 'SC', 'E', 'Q', 'R', 'C', 'ECR']
LONG = [7, 64, 100, 255, 256, 500, 501, 513, 1000, 1001, 1024, 1025, 2001, 2049, 3001, 4097, 5000,
        8193, 10001, 16385, 30001, 32769, 65537, 100003]


def cases(tier):
    sizes = range(1, 5) if tier == 'quick' else range(1, 7)
    for n in sizes:
        for d in sizes:
            for pfs in SETS:
                if d > 1 and not set(pfs) & set('CQ'):
                    continue
                yield {'N': n, 'D': d, 'PF': pfs}
    for m in LONG:
        for pfs in SETS if m < 20000 else ('SQR', 'EC'):
            yield {'N': 3, 'D': 2, 'PF': pfs, 'M': m}


def evaluate(sa, pfs, land, T, obs):
    out = {'P': sa.calc_probability(T), 'C': sa.calc_heat_capacity(T),
           'Z': sa.calc_partition_functions(T), 'A': sa.calc_ensemble_average(T, obs(T))}
    for i, pf in enumerate(sa_pfs[id(sa)]):
        out[f'z{i}'] = pf.calc_part_func(T)
        out[f'w{i}'] = pf.calc_part_func_w(T)
        out[f'v{i}'] = pf.calc_part_func_v(T)
    for k, v in out.items():
        rows = 1 if k in 'CA' else land.n
        if not isinstance(v, np.ndarray) or v.shape != (rows, T.size):
            raise Violation(f'{k}: shape {getattr(v, "shape", None)} for {T.size} temperatures, '
                            f'expected {(rows, T.size)}')
    return out


sa_pfs = {}


def equal(a, b, w2):
    a, b = np.asarray(a, dtype=np.longdouble), np.asarray(b, dtype=np.longdouble)
    with np.errstate(all='ignore'):
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (abs(a - b) <= 1e-11 * abs(b) + w2)
    return bool(ok.all())


def check(case, ctx):
    import occuprob
    land, pfs, _ = L.build({k: v for k, v in case.items() if k != 'M'})
    sa = occuprob.SuperpositionApproximation()
    parts = [L.make_pf(k, land) for k in pfs]
    sa.add_partition_functions(parts)
    sa_pfs.clear()
    sa_pfs[id(sa)] = parts
    column = (np.arange(land.n) * 0.75 - 0.5)[:, None]

    def obs(T):
        return column * (1 + np.where(np.isfinite(T), T, 0.)[None, :] % 7)

    single = {}

    def alone(t, dtype):
        key = (float(t), str(dtype))
        if key not in single:
            T = np.array([t], dtype=dtype)
            res = evaluate(sa, pfs, land, T, obs)
            wsum = sum(np.nan_to_num(np.asarray(res[f'w{i}'], float), posinf=0, neginf=0)
                       for i in range(len(parts)))
            single[key] = (res, float((wsum ** 2).max()))
            ctx.step(len(res))
        return single[key]

    def compare(T):
        res = evaluate(sa, pfs, land, T, obs)
        ctx.state([case, T.tolist() if T.size < 10 else [T.size, float(T[0]), float(T[-1])]])
        ctx.step(len(res))
        ctx.trace()
        cols = range(T.size) if T.size < 10 else probes(T.size)
        for j in cols:
            one, w2 = alone(T[j], T.dtype)
            for k, v in res.items():
                tol = 1e-12 * (1 + w2) if k == 'C' else 1e-300
                if not equal(v[:, j], one[k][:, 0], tol):
                    raise Violation(
                        f'{k} at T={float(T[j])!r} is {v[:, j]} in the array '
                        f'{T.tolist() if T.size < 10 else T.size} but {one[k][:, 0]} alone')
        return res

    if 'M' in case:
        m = case['M']
        base = np.linspace(0.5, 1200., m)
        for T in (base, base[::-1].copy(), np.arange(m), np.concatenate([base[1:], [0.]])):
            whole = compare(T)
            for cut in sorted({1, m // 2, m - 1, min(1024, m - 1)}):
                left = evaluate(sa, pfs, land, T[:cut].copy(), obs)
                right = evaluate(sa, pfs, land, T[cut:].copy(), obs)
                ctx.step(2 * len(left))
                for k, v in whole.items():
                    both = np.concatenate([left[k], right[k]], axis=1)
                    if not equal(v, both, 1e-7 if k == 'C' else 1e-300):
                        raise Violation(f'{k}: {m} temperatures at once differ from the same '
                                        f'split at {cut}')
        return
    seqs = itertools.chain.from_iterable(
        itertools.product(ALPH, repeat=r) for r in range(1, 4 if ctx.tier == 'quick' else 6))
    if ctx.tier == 'quick':
        seqs = itertools.chain(seqs, itertools.product(ALPH[:1] + ALPH[2:4], repeat=4))
    wide = itertools.chain(itertools.product(WIDE, repeat=2), itertools.product(WIDE[:5], repeat=3))
    for seq in itertools.chain(seqs, wide):
        compare(np.array(seq))
    for seq in itertools.product([0, 60, 300], repeat=2):
        compare(np.array(seq))
    ctx.outcome([sorted((k, round(float(np.nan_to_num(np.asarray(v[0]['P'], float)).max()), 6))
                        for k, v in single.items())])


def probes(m):
    return sorted({0, 1, 2, m // 3, m // 2, m - 2, m - 1, min(255, m - 1), min(256, m - 1),
                   min(1023, m - 1), min(1024, m - 1), min(4095, m - 1), min(4096, m - 1), min(8191, m - 1), min(8192, m - 1),
                   min(9999, m - 1), min(10000, m - 1), min(16384, m - 1), min(30000, m - 1), min(32768, m - 1),
                   min(65536, m - 1)})
