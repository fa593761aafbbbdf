"""C03: T = 0 gives exactly the T -> 0 limit of probabilities and heat capacity."""
import numpy as np

import land as L
import ref
from core import HarnessError, Violation

ID = 'C03'
CHUNK = 24
STATES = 'distinct (landscape, contribution set, position of T = 0 in the array) configurations'
BOUNDS = {'quick': 'all landscapes within 3 deviations of the base over 8 axes with 7 temperature '
                   'arrays containing 0 K; all sequences of <= 2 of 16 core minima x 17 sets; 20 numbers of minima up to 4097 and 18 of modes up to 1025',
          'thorough': 'as quick with 4 deviations and sequences of <= 3 core minima'}
ASSUMPTIONS = ['values outside the per-axis menus are not explored',
               'ground-state energies closer than 1e-12 eV count as degenerate']

AXES = dict(L.AXES)
AXES['T'] = ['mix0', 'zero', 'int', 'desc', 'dup', 'range', 'inf']


def cases(tier):
    for case in (L.space(3, 2, AXES) if tier == 'quick' else L.space(4, 3, AXES)):
        if 'core' not in case and 'doc' not in case:
            case.setdefault('T', 'mix0')
        yield case


def check(case, ctx):
    for land, pfs, T in L.expand(case):
        if not L.size_ok(land, T, ctx):
            continue
        cols = np.asarray(T) == 0
        ctx.state([case, pfs])
        sa = L.make_sa(land, pfs)
        p = ref.as_result(sa.calc_probability(T), (land.n, T.size), 'calc_probability')
        ref.judge_prob(p, land, pfs, T, ctx, cols)
        c = ref.as_result(sa.calc_heat_capacity(T), (1, T.size), 'calc_heat_capacity')
        want, _ = ref.cap(land, pfs, np.array([0.]))
        with np.errstate(all='ignore'):
            bad = ~(abs(c[0, cols].astype(ref.LD) - want[0]) <= 1e-9)
        if bad.any():
            raise Violation(f'heat capacity at T=0 is {c[0, cols][bad]} instead of {want[0]}')
        # the model's own limit: continuity of the reference at a much lower temperature
        # (with 'split' and zero-point energies the reference counts 1e-15 eV as degenerate)
        near = ref.prob(land, pfs, np.array([1e-7 if 'Q' in pfs else 1e-25]))[:, 0]
        if not np.allclose(near.astype(float), ref.weights0(land, pfs).astype(float),
                           atol=1e-3 if case.get('E') == 'split' else 1e-6):
            raise HarnessError(f'reference limit broken for {case} {pfs}')
        ctx.step(2 * int(cols.sum()))
        ctx.trace()
        ctx.outcome(np.round(np.asarray(p[:, cols], float), 6).tobytes())
