"""Landscapes: a menu of values per axis, and the builder that turns a choice of
options into arrays.  Every number is produced by a fixed formula (no randomness);
energies are multiples of 2**-20 eV so that shifting them by a dyadic constant is exact.
"""
import itertools

import numpy as np

import core

# The first option of every axis is the default.
N = [2, 1, 3, 4, 5, 6, 8, 12, 20, 33, 257]
D = [3, 1, 2, 4, 5, 6, 7, 9, 12, 30, 54, 108, 200]
E = ['ladder', 'hair', 'zero', 'deg0', 'degx', 'tiny', 'near', 'big', 'neg', 'pos', 'int', 'down', 'up',
     'cross', 'far', 'split', 'vast', 'thirds', 'deep']
G = ['mix', 'ones', 'ints', 'large', 'equal3', 'fractions', 'huge']
F = ['gen', 'eq', 'rowseq', 'high', 'low', 'wide', 'int', 'same', 'pairs', 'softer']
R = ['gen', 'lin', 'linnoise', 'sph', 'ones', 'int', 'desc', 'small', 'prolate', 'atom', 'needle', 'heavy',
     'unit']
T = ['std', 'zero', 'mix0', 'one', 'int', 'range', 'desc', 'dup', 'low', 'ultra', 'high',
     'sizeN', 'sizeD', 'long', 'xlong', 'nonuni', 'inf', 'huge', 'cold']
PF = ['SQR', 'E', 'S', 'C', 'Q', 'R', 'EC', 'EQ', 'SC', 'SQ', 'ER', 'SR', 'CR', 'QR', 'ECR',
      'EQR', 'SCR', 'RQS', 'QS', 'RCE', 'CQ', 'EE', 'SQQ', 'RR', 'CC', 'SCQR', 'ESCQR', 'SQRSQRCE']

AXES = {'N': N, 'D': D, 'E': E, 'G': G, 'F': F, 'R': R, 'T': T, 'PF': PF}


class Land:
    """Plain data of one landscape."""
    __slots__ = ('n', 'd', 'energy', 'mult', 'freq', 'sym', 'mom')

    def copy(self):
        out = Land()
        for k in self.__slots__:
            v = getattr(self, k)
            setattr(out, k, v.copy() if isinstance(v, np.ndarray) else v)
        return out

    def take(self, idx):
        """The landscape made of the minima idx (repetition allowed)."""
        out = Land()
        idx = list(idx)
        out.n, out.d = len(idx), self.d
        for k in ('energy', 'mult', 'freq', 'sym', 'mom'):
            setattr(out, k, getattr(self, k)[idx].copy())
        return out


def make_energy(kind, n):
    a = np.arange(n)
    ladder = ((5 * a + 3) % 13 + 13 * (a // 13)) / 64.
    if kind == 'ladder':
        return ladder
    if kind == 'zero':
        return np.zeros(n)
    if kind == 'deg0':
        e = ladder.copy()
        e[0] = e[-1] = e.min()
        return e
    if kind == 'degx':
        e = np.full(n, 0.125)
        e[n // 2] = 0.
        return e
    if kind == 'tiny':
        return (((5 * a + 3) % 7) + 1) * 2.**-20
    if kind == 'hair':
        return (((5 * a + 3) % 7) + 1) * 2.**-32
    if kind == 'split':
        return (((5 * a + 3) % 7) + 1) * 2.**-50
    if kind == 'near':
        return (((3 * a + 2) % 5) + 1) * 2.**-10
    if kind == 'big':
        return ((3 * a + 1) % 4) * 2. - 1.
    if kind == 'neg':
        return ladder - 4433.125
    if kind == 'pos':
        return ladder + 17.5
    if kind == 'int':
        return ((3 * a + 1) % 5).astype(np.int64) - 2
    if kind == 'down':
        return (n - 1 - a) / 32.
    if kind in ('up', 'cross'):       # cross: see build
        return a / 32.
    if kind == 'thirds':      # no short binary fractions
        return ladder / 3. + 0.1
    if kind == 'deep':
        return ladder / 3. - 4433.12
    if kind == 'vast':
        return ((3 * a + 1) % 4) * 2.**17
    if kind == 'far':
        return ladder - 163840.
    raise KeyError(kind)


def make_mult(kind, n):
    a = np.arange(n)
    if kind == 'mix':
        return np.array([1., 3., 2., 5., 4., 1., 7.])[a % 7]
    if kind == 'ones':
        return np.ones(n)
    if kind == 'ints':
        return np.array([2, 1, 4, 3, 6], dtype=np.int64)[a % 5]
    if kind == 'large':
        return np.array([9., 15., 11., 8.])[a % 4]
    if kind == 'equal3':
        return np.full(n, 3.)
    if kind == 'fractions':
        return np.array([0.5, 1.5, 1 / 3., 2.25])[a % 4]
    if kind == 'huge':
        return np.array([1., 1e6, 2.**40, 1e-3])[a % 4]
    raise KeyError(kind)


def make_freq(kind, n, d):
    a = np.arange(n)[:, None]
    i = np.arange(d)[None, :]
    if kind == 'gen':
        return 1. + ((7 * a + 3 * i + a * i) % 11) * 0.61
    if kind == 'eq':
        return np.full((n, d), 3.)
    if kind == 'rowseq':
        return 1. + ((3 * a + 1) % 7) * 0.75 + 0. * i
    if kind == 'high':
        return 41. + ((5 * a + 7 * i) % 9) * 7.5
    if kind == 'low':
        return 0.02 + ((5 * a + 2 * i) % 7) * 0.015625
    if kind == 'wide':
        return 0.0625 * 2. ** ((3 * a + 4 * i + a * i) % 11)
    if kind == 'int':
        return (1 + ((2 * a + 3 * i) % 6)).astype(np.int64)
    if kind == 'same':
        return 1.5 + ((3 * i) % 7) * 0.5 + 0. * a
    if kind == 'softer':
        return np.where(a == 0, 6.25 + (i % 3) * 0.5, 2.**-9 * (1 + (a + i) % 4))
    if kind == 'pairs':
        return 2. + ((3 * a + i // 2) % 5) * 0.875
    raise KeyError(kind)


def make_rot(kind, n):
    a = np.arange(n)
    sym = np.array([2., 6., 1., 12., 3., 24.])[a % 6]
    base = np.array([1163.57, 1295.15, 870.75, 12.5, 333.25])[a % 5]
    if kind == 'gen':
        mom = np.stack([base, base * (1.9 + 0.1 * (a % 3)), base * (2.7 - 0.2 * (a % 2))], axis=1)
    elif kind == 'lin':
        mom = np.stack([0. * base, base, base], axis=1)
        sym = np.array([1., 2.])[a % 2]
    elif kind == 'linnoise':
        noise = np.array([5.8e-15, -3.6e-15, 2.e-13, 0.])[a % 4]
        mom = np.stack([noise, base, base], axis=1)
    elif kind == 'sph':
        mom = np.stack([base, base, base], axis=1)
    elif kind == 'ones':
        sym, mom = np.ones(n), np.ones((n, 3))
    elif kind == 'int':
        sym = np.array([2, 1, 6, 3], dtype=np.int64)[a % 4]
        mom = np.stack([3 + a % 4, 5 + a % 3, 9 + a % 2], axis=1).astype(np.int64)
    elif kind == 'desc':
        mom = np.stack([base * 3., base * 2., base], axis=1)
    elif kind == 'small':
        mom = np.stack([0.3 + 0.05 * (a % 3), 0.45 + 0. * a, 0.8 - 0.1 * (a % 2)], axis=1)
    elif kind == 'prolate':
        mom = np.stack([0.01 * base / (1 + a % 3), base, 1.02 * base], axis=1)
    elif kind == 'needle':
        mom = np.stack([base * 2e-6 * (1 + a % 4), base, base], axis=1)
    elif kind == 'heavy':
        mom = np.stack([1e6 * base, 1.5e6 * base * (1 + a % 3), 4e8 * base], axis=1)
    elif kind == 'unit':
        mom = np.stack([np.where(a % 3 == 0, 1., 0.75), 1. + a % 2, 1.5 + a % 4], axis=1)
    elif kind == 'atom':
        mom = np.zeros((n, 3))
    else:
        raise KeyError(kind)
    return sym, mom


def make_temp(kind, n, d):
    if kind == 'std':
        return np.array([1., 10., 50., 100., 300., 1000.])
    if kind == 'zero':
        return np.array([0.])
    if kind == 'mix0':
        return np.array([300., 0., 10., 0., 1000.])
    if kind == 'one':
        return np.array([300.])
    if kind == 'int':
        return np.arange(0, 501, 25)
    if kind == 'range':
        return np.arange(0., 1001., 37.)
    if kind == 'desc':
        return np.arange(900., -1., -100.)
    if kind == 'dup':
        return np.array([50., 50., 50., 0., 50.])
    if kind == 'low':
        return np.array([0.015625, 0.125, 0.5, 1., 2.])
    if kind == 'ultra':
        return np.array([1e-4, 1e-3, 1e-7, 1e-30])
    if kind == 'high':
        return np.array([2e3, 1e4, 1e5])
    if kind == 'sizeN':
        return np.linspace(20., 800., n)
    if kind == 'sizeD':
        return np.linspace(800., 20., d)
    if kind == 'long':
        return np.arange(0., 1501., 1.)
    if kind == 'xlong':
        return np.linspace(0., 2000., 4200)
    if kind == 'nonuni':
        return np.array([17.3, 401.7, 5.25, 273.15])
    if kind == 'inf':
        return np.array([np.inf, 300., 0.])
    if kind == 'cold':
        return np.array([0.05, 0.25, 0.35, 0.4, 0.75, 3., 6.])
    if kind == 'huge':
        return np.array([1e6, 1e8])
    raise KeyError(kind)


def build(case):
    """(Land, contribution string, temperatures) of a case (missing axes = default)."""
    def opt(name):
        return case.get(name, AXES[name][0])
    land = Land()
    land.n, land.d = opt('N'), opt('D')
    land.energy = make_energy(opt('E'), land.n)
    land.mult = make_mult(opt('G'), land.n)
    land.freq = make_freq(opt('F'), land.n, land.d)
    land.sym, land.mom = make_rot(opt('R'), land.n)
    if opt('E') == 'cross':
        # every minimum is as populated as the others at 300 K (classical vibrations)
        lnw = -np.log(land.freq.astype(float)).sum(axis=1)
        land.energy = np.round((lnw - lnw.min()) * 300 * 8.617333262145e-5 * 2.**20) / 2.**20
    return land, opt('PF'), make_temp(opt('T'), land.n, land.d)


def size_ok(land, temp, ctx):
    """Cases whose largest array exceeds the cap of the tier are counted, not run."""
    ok = land.n * land.d * temp.size <= (80_000 if ctx.tier == 'quick' else 800_000)
    if not ok:
        ctx.count('beyond_size_cap')
    return ok


def make_pf(kind, land):
    """A real contribution object on private copies of the data."""
    import occuprob
    if kind == 'E':
        return occuprob.ElectronicPF(land.energy.copy(), np.ones(land.n))
    if kind == 'S':
        return occuprob.ElectronicPF(land.energy.copy(), land.mult.copy())
    if kind == 'C':
        return occuprob.ClassicalHarmonicPF(land.freq.copy())
    if kind == 'Q':
        return occuprob.QuantumHarmonicPF(land.freq.copy())
    if kind == 'R':
        return occuprob.RotationalPF(land.sym.copy(), land.mom.copy())
    raise KeyError(kind)


def make_sa(land, pfs):
    import occuprob
    sa = occuprob.SuperpositionApproximation()
    sa.add_partition_functions([make_pf(k, land) for k in pfs])
    return sa


# Core: every minimum is one of these records (energy/64 eV, degeneracy, frequencies, sigma, I)
REC = [(e, g, f, r) for e in (0, 2) for g in (1., 3.)
       for f in ((1.25, 6.5), (3., 3.)) for r in ((2., (100., 300., 400.)), (1., (0., 50., 50.)))]
SETS = ['E', 'S', 'C', 'Q', 'R', 'EC', 'EQ', 'SC', 'SQ', 'ER', 'SR', 'CR', 'QR', 'ECR', 'EQR',
        'SCR', 'SQR']
CORE_T = np.array([0.5, 20., 150., 400., 2000., 0.])


def core_land(idx):
    recs = [REC[i] for i in idx]
    land = Land()
    land.n, land.d = len(recs), 2
    land.energy = np.array([r[0] / 64. for r in recs])
    land.mult = np.array([r[1] for r in recs])
    land.freq = np.array([r[2] for r in recs])
    land.sym = np.array([r[3][0] for r in recs])
    land.mom = np.array([r[3][1] for r in recs])
    return land


def core_cases(nmax):
    """Every sequence of at most nmax core records."""
    for n in range(1, nmax + 1):
        for idx in itertools.product(range(len(REC)), repeat=n):
            yield {'core': list(idx)}


DOC = dict(energy=np.array([-4433.120, -4433.012, -4432.936]),
           freq=np.array([[0.89, 1.53, 2.13, 3.17, 4.29, 5.41, 5.69, 6.08, 7.22],
                          [2.11, 2.13, 2.87, 2.92, 4.46, 4.52, 4.59, 5.11, 6.55],
                          [0.87, 1.07, 1.52, 3.01, 3.85, 4.35, 4.96, 5.83, 6.89]]),
           sym=np.array([2., 6., 1.]), mult=np.array([3., 5., 5.]),
           mom=np.array([[1163.57, 3017.17, 4175.72], [1295.15, 2480.99, 2482.24],
                         [1170.75, 2997.96, 4168.35]]))


def doc_land():
    """The Pt5 example of the documentation."""
    land = Land()
    land.n, land.d = 3, 9
    for k, v in DOC.items():
        setattr(land, k, v.copy())
    return land


def space(dev, nmax, axes=None):
    """The documented example, all landscapes within `dev` deviations, the core product."""
    yield {'doc': 1}
    yield from core.deviations(axes or AXES, dev)
    yield from core_cases(nmax)
    yield from large(axes or AXES)


def large(axes=AXES):
    """Many minima or many modes: beyond usual block sizes."""
    temps = [t for t in axes['T'] if t in ('std', 'mix0')] or axes['T'][:2] if 'T' in axes else [None]
    sets = [s for s in axes['PF'] if s in LARGE_SETS] if 'PF' in axes else [None]
    for n in (64, 65, 100, 101, 128, 129, 256, 500, 501, 511, 512, 513, 700, 1000, 1001, 1023, 1025, 2000, 2049, 4097):
        for e in ('thirds', 'near', 'zero'):
            for pfs in sets:
                for t in temps[:2]:
                    yield some({'N': n, 'D': 2, 'E': e, 'PF': pfs, 'T': t})
    for d in (16, 17, 31, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257, 300, 512, 513, 1000, 1025):
        for f in ('gen', 'rowseq', 'same'):
            for pfs in sets:
                if pfs is None or set(pfs) & set('CQ'):
                    for t in temps[:2]:
                        yield some({'D': d, 'F': f, 'PF': pfs, 'T': t})


def some(case):
    return {k: v for k, v in case.items() if v is not None}


LARGE_SETS = ['SQR', 'E', 'S', 'C', 'Q', 'R', 'SC', 'ECR', 'QR']


def expand(case):
    """(landscape, contribution string, temperatures) triples of a case."""
    if 'core' in case:
        land = core_land(case['core'])
        for pfs in SETS:
            yield land, pfs, CORE_T
    elif 'doc' in case:
        for pfs in SETS:
            yield doc_land(), pfs, np.arange(0, 1001, 1)
    else:
        yield build(case)
