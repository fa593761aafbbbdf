"""C01: probabilities against the documented Boltzmann law at every finite T > 0."""
import numpy as np

import land as L
import ref

ID = 'C01'
CHUNK = 24
STATES = 'distinct (landscape, contribution set, temperature) configurations evaluated'
BOUNDS = {'quick': 'all landscapes within 3 deviations of the base over 8 axes (sizes, energies, '
                   'degeneracies, frequencies, rotors, temperatures, contribution sets); all '
                   'sequences of <= 2 of 16 core minima x 17 contribution sets x 5 temperatures; 20 numbers of minima up to 4097 and 18 of modes up to 1025',
          'thorough': 'as quick with 4 deviations and sequences of <= 3 core minima'}
ASSUMPTIONS = ['values outside the per-axis menus are not explored',
               'columns where a recorded defect acts are compared with that defect only']


def cases(tier):
    yield from L.space(3, 2) if tier == 'quick' else L.space(4, 3)


def usable(land, pfs, T):
    """Columns of the property's domain."""
    ok = np.asarray(T) > 0
    return ok & np.isfinite(T)


def check(case, ctx):
    for land, pfs, T in L.expand(case):
        if not L.size_ok(land, T, ctx):
            continue
        cols = usable(land, pfs, T)
        ctx.state([case, pfs])
        sa = L.make_sa(land, pfs)
        p = ref.as_result(sa.calc_probability(T), (land.n, T.size), 'calc_probability')
        ctx.step(int(cols.sum()))
        ref.judge_prob(p, land, pfs, T, ctx, cols)
        # the individual Z_a must carry the same ratios
        z = ref.as_result(sa.calc_partition_functions(T), (land.n, T.size),
                          'calc_partition_functions')
        with np.errstate(all='ignore'):
            zp = z / z.sum(axis=0)
        if not np.allclose(zp[:, cols], p[:, cols], rtol=1e-12, atol=0., equal_nan=True):
            ref.judge_prob(zp, land, pfs, T, ctx, cols, 'calc_partition_functions ratios')
        ctx.step(int(cols.sum()))
        ctx.trace()
        if cols.any():
            ctx.outcome(np.round(np.asarray(p[:, cols], float), 6).tobytes())


def finish(tier, total):
    import oracle
    return {'reference_points_validated_with_60_digit_literal_sums': oracle.validate()}
