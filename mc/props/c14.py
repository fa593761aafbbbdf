"""C14: results do not depend on how the numbers are stored."""
import numpy as np

import core
import land as L
import ref
from core import Violation

ID = 'C14'
CHUNK = 24
STATES = 'distinct (data set, contribution set, storage of each argument) configurations'
BOUNDS = {'quick': '7 arguments, up to 32 storages each (11 element types, byte order, 7 layouts and '
                   'combinations): every assignment with <= 2 non-default storages, for 6 data sets (one below 1 K, three that use the range of one, two and four bytes) '
                   'of exactly representable numbers, 9 contribution sets; plus every uniform storage',
          'thorough': 'every assignment with <= 3 non-default storages'}
ASSUMPTIONS = ['half precision is not explored',
               'single precision: agreement to 5e-5']

FLOATS = ['f8', 'f4', 'g', '>f8', '>f4', 'f8 strided', 'f8 reversed', 'f8 fortran', 'f8 readonly',
          'f8 gap', 'f8 offset', 'f8 subclass', 'f4 strided', 'g reversed', '>f8 fortran', 'g readonly']
BYTES = ['i1', 'u1', 'i1 strided', 'u1 fortran', 'i1 offset', 'u2', '>u2']
INTS = ['i8', 'i4', 'i2', '>i8', 'u4', 'i8 strided', 'i4 reversed', '>i4 fortran', 'i8 readonly']
ARGS = ['T', 'energy', 'freq', 'mom', 'mult', 'sym', 'obs']
SETS = ['SQR', 'SCR', 'EQ', 'S', 'C', 'Q', 'R', 'ECR', 'SQCR']
LOW = ('f4',)


DATA = ['whole', 'dyadic', 'cold', 'bytes', 'vast', 'heavy']


def options(arg, data):
    """The storages that hold the numbers of an argument exactly."""
    land, T, obs = dataset(data)
    arr = {'T': T, 'obs': obs, 'mult': land.mult, 'sym': land.sym, 'energy': land.energy, 'freq': land.freq,
           'mom': land.mom}[arg]
    return [o for o in FLOATS + INTS + (BYTES if data == 'bytes' else []) if fits(arr, o)]


def fits(arr, how):
    kind = np.dtype(np.longdouble if how.startswith('g') else how.split()[0])
    if kind.kind in 'iu':
        info = np.iinfo(kind)
        return bool((arr == np.round(arr)).all() and arr.min() >= info.min and arr.max() <= info.max)
    return bool((arr.astype(kind).astype(float) == arr).all())


def cases(tier):
    bound = 2 if tier == 'quick' else 3
    for data in DATA:
        axes = {a: options(a, data) for a in ARGS}
        for dev in core.deviations(axes, bound):
            yield {'data': data, 'store': dev}
        for o in FLOATS + INTS + BYTES:
            use = {a: o for a in ARGS if o in axes[a]}
            if len(use) > bound:
                yield {'data': data, 'store': use}


def dataset(data):
    if data == 'cold':
        return cold()
    if data in ('bytes', 'vast', 'heavy'):
        return full(data)
    land = L.build({'N': 3, 'D': 3})[0]
    if data == 'whole':
        land.energy = np.array([1., 0., 3.])
        land.freq = np.array([[3., 7., 12.], [2., 2., 9.], [5., 1., 4.]])
        land.mom = np.array([[12., 30., 41.], [0., 25., 25.], [300., 1200., 1300.]])
        T = np.array([9000., 0., 4000., 25000.])
        obs = np.array([[1., 2., 3., 4.], [-5., 7., 0., 2.], [8., 8., -3., 1.]])
    else:
        land.energy = np.array([7., 0., 11.]) / 64.
        land.freq = np.array([[1.25, 6.5, 3.], [3., 3., 2.5], [0.75, 8., 4.25]])
        land.mom = np.array([[12.5, 30.25, 41.], [0., 25.5, 25.5], [300.75, 1200.5, 1300.]])
        T = np.array([300.5, 0., 120.25, 1500.])
        obs = np.array([[1.5, 2., 3., 4.25], [-5., 7.75, 0., 2.], [8., 8., -3.5, 1.]])
    land.sym = np.array([2., 1., 6.])
    land.mult = np.array([1., 3., 2.])
    return land, T, obs


def cold():
    """Below 1 K: huge exponents that almost cancel between the minima."""
    land, T, obs = dataset('dyadic')
    land.energy = np.array([1., 0., 2.]) * 2.**-14
    land.freq = np.array([[5., 26., 12.], [12., 21., 10.], [3., 24., 16.]])
    return land, np.array([0.375, 0., 0.5, 1.25]), obs


def full(data):
    """Whole numbers that use the range of one, two or four bytes."""
    land, _, _ = dataset('whole')
    if data == 'bytes':
        land.energy = np.array([-100., 100., -99.])
        land.freq = np.array([[120., 90., 127.], [99., 127., 101.], [127., 125., 113.]])
        land.mom = np.array([[100., 120., 127.], [0., 111., 111.], [90., 122., 126.]])
        T = np.array([127., 0., 60., 9.])
        obs = np.array([[-120., 127., 3., 4.], [100., -100., 0., 126.], [-128., 8., 127., 1.]])
        land.sym, land.mult = np.array([60., 2., 100.]), np.array([127., 101., 125.])
    elif data == 'heavy':
        unit = 2.**24
        land.energy = np.array([-127., 127., -126.9921875]) * unit
        land.freq = np.array([[120., 127., 1.], [99., 127., 1.], [127., 125., 1.]]) * unit
        land.mom = np.array([[100., 120., 127.], [0., 111., 111.], [90., 122., 126.]]) * unit
        T = np.array([64., 0., 60., 9.]) * unit
        obs = np.array([[-120., 127., 3., 4.], [100., -100., 0., 126.], [-127., 8., 127., 1.]]) * unit
        land.sym, land.mult = np.array([60., 2., 100.]) * unit, np.array([127., 101., 125.]) * unit
    else:
        land.energy = np.array([-30000., 30000., -29998.])
        land.freq = np.array([[30000., 20000., 1.], [18000., 9., 32000.], [127., 25000., 21000.]])
        land.mom = np.array([[20000., 30000., 32000.], [0., 31000., 31000.], [9000., 30000., 32767.]])
        T = np.array([32000., 0., 20000., 11000.])
        obs = np.array([[-32000., 127., 3., 4.], [100., -100., 0., 30000.], [-32768., 8., 32767., 1.]])
        land.sym, land.mult = np.array([60., 2., 30000.]), np.array([30000., 101., 32000.])
    return land, T, obs


class Sub(np.ndarray):
    """A plain subclass, as other packages use for tagged arrays."""


def store(arr, how):
    kind, _, layout = how.partition(' ')
    out = arr.astype(np.longdouble if kind == 'g' else kind)
    if not np.array_equal(out.astype(float), arr):
        raise core.HarnessError(f'{arr} is not representable as {kind}')
    if layout == 'strided':
        big = np.zeros(tuple(2 * s for s in out.shape), dtype=out.dtype)
        view = big[tuple(slice(None, None, 2) for _ in out.shape)]
        view[...] = out
        out = view
    elif layout == 'reversed':
        rev = tuple(slice(None, None, -1) for _ in out.shape)
        out = np.ascontiguousarray(out[rev])[rev]
    elif layout == 'fortran':
        out = np.asfortranarray(out) if out.ndim > 1 else out[:, None][:, 0]
    elif layout == 'readonly':
        out.setflags(write=False)
    elif layout == 'gap':
        big = np.full(out.shape[:-1] + (out.shape[-1] + 3,), 77, dtype=out.dtype)
        big[..., 1:-2] = out
        out = big[..., 1:-2]
    elif layout == 'offset':
        raw = np.zeros(out.nbytes + 1, dtype=np.uint8)
        view = raw[1:].view(out.dtype).reshape(out.shape)       # unaligned
        view[...] = out
        out = view
    elif layout == 'subclass':
        out = out.view(Sub)
    return out


_memo = {}


def expected(data, pfs):
    if (data, pfs) not in _memo:
        land, T, obs = dataset(data)
        P = ref.prob_defect(land, pfs, T)       # T = 0 as the code defines it (see C03)
        W = sum(ref.w_of(land, k, T[T > 0]) for k in pfs)
        V = sum(ref.v_of(land, k, T[T > 0]) for k in pfs)
        C, _ = ref.cap(land, pfs, T)
        mag = float(ref.magnitude(land, pfs, T).max())
        _memo[data, pfs] = [np.asarray(x, float) for x in (P, C, (P * obs).sum(axis=0), W, V)] \
            + [mag]
    return _memo[data, pfs]


def check(case, ctx):
    import occuprob
    data, dev = case['data'], case['store']
    land, T, obs = dataset(data)
    args = {'T': T, 'energy': land.energy, 'freq': land.freq, 'mom': land.mom, 'mult': land.mult,
            'sym': land.sym, 'obs': obs}
    args = {k: store(v, dev.get(k, 'f8')) for k, v in args.items()}
    low = any(v.strip('><').startswith(LOW) for v in dev.values())
    T, obs = args['T'], args['obs']
    for pfs in SETS:
        used = {'T', 'obs'}
        parts = []
        for k in pfs:
            if k in 'ES':
                mult = args['mult'] if k == 'S' else np.ones(land.n)
                parts.append(occuprob.ElectronicPF(args['energy'], mult))
                used |= {'energy', 'mult'} if k == 'S' else {'energy'}
            elif k == 'C':
                parts.append(occuprob.ClassicalHarmonicPF(args['freq']))
                used.add('freq')
            elif k == 'Q':
                parts.append(occuprob.QuantumHarmonicPF(args['freq']))
                used.add('freq')
            else:
                parts.append(occuprob.RotationalPF(args['sym'], args['mom']))
                used |= {'sym', 'mom'}
        if not set(dev) <= used:
            continue
        sa = occuprob.SuperpositionApproximation()
        sa.add_partition_functions(parts)
        P, C, A, W, V, mag = expected(data, pfs)
        eps = 5e-5 + 3e-7 * mag * (data == 'cold') if low else 1e-9
        pos = np.asarray(T) > 0
        res = {'probabilities': (sa.calc_probability(T), P, eps),
               'ensemble average': (sa.calc_ensemble_average(T, obs), A[None], 20 * eps),
               'heat capacity': (sa.calc_heat_capacity(T), C[None], eps * (10 + mag ** 2)),
               'first derivatives': (sum(p.calc_part_func_w(T) for p in parts)[:, pos], W,
                                     eps * (1 + mag)),
               'second derivatives': (sum(p.calc_part_func_v(T) for p in parts)[:, pos], V,
                                      eps * (1 + mag))}
        ctx.step(len(res))
        ctx.state([data, pfs, dev])
        for what, (got, want, tol) in res.items():
            if not isinstance(got, np.ndarray):
                raise Violation(f'{what} of {pfs} is {got!r} for storages {dev}')
            if got.shape != want.shape:
                raise Violation(f'{what} of {pfs} has shape {got.shape} for storages {dev}')
            if got.dtype.kind != 'f':
                raise Violation(f'{what} of {pfs} has type {got.dtype} for storages {dev}')
            diff = np.abs(np.asarray(got, float) - want)
            if not (diff <= tol * (1 + np.abs(want))).all():
                raise Violation(f'{what} of {pfs} with storages {dev or "default"}: '
                                f'{np.asarray(got, float).tolist()} instead of {want.tolist()}')
        ctx.outcome([data, pfs, {k: str(v[0].dtype) for k, v in res.items()}])
        ctx.trace()
    for k, v in args.items():
        if not np.array_equal(np.asarray(v, float), {'T': dataset(data)[1], 'obs': dataset(data)[2]}
                              .get(k, getattr(land, k, None))):
            raise Violation(f'the argument {k} was modified')
