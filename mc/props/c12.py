"""C12: concurrent evaluations give the same results as sequential ones.

Stateless exploration of real threads running the real code, switching at any source line
of the package, up to a preemption bound."""
import os

import numpy as np

import boot
import land as L
import sched
from core import Violation

ID = 'C12'
CHUNK = 1
CASE_LIMIT = 3600
STATES = 'distinct (scenario, granularity, position of every thread) reached at scheduling points'
BOUNDS = {'quick': '24 scenarios of two or three threads: every schedule with <= 2 preemptions at '
                   'statement granularity (three threads, heat capacity and loading: <= 1), and with <= 1 '
                   'preemption at sub-expression granularity (not loading)',
          'thorough': 'line granularity: <= 2 preemptions everywhere, <= 3 for the short scenarios '
                      'of two calls, <= 4 for 6 of them; sub-expression granularity: <= 1, and <= 2 for the '
                      'short scenarios'}
ASSUMPTIONS = ['switches happen between statements or evaluated sub-expressions of the package, not inside '
               'library calls']

TA = np.array([300., 40., 120.])
TB = np.array([75., 650., 15.])


def world():
    """Fresh objects: two data sets of the same shape, shared and separate approximations."""
    import occuprob
    w = {}
    la, _, _ = L.build({'N': 2, 'D': 2, 'E': 'near'})
    lb, _, _ = L.build({'N': 2, 'D': 2, 'E': 'tiny', 'F': 'pairs', 'R': 'desc', 'G': 'large'})
    for name, land in (('a', la), ('b', lb)):
        for k in 'SCQR':
            w[name + k] = L.make_pf(k, land)
    w['la'], w['lb'] = la, lb
    for name, parts in (('sq', ['aS', 'aQ']), ('sc', ['aS', 'aC']), ('bsq', ['bS', 'bQ']),
                        ('sqr', ['aS', 'aQ', 'aR'])):
        sa = occuprob.SuperpositionApproximation()
        sa.add_partition_functions([w[p] for p in parts])
        w[name] = sa
    w['obs'] = np.array([[1., 2., -1.], [0.5, 3., 4.]])
    return w


def fresh(w):
    import occuprob
    sa = occuprob.SuperpositionApproximation()
    sa.add_partition_functions([w['bS']])
    sa.add_partition_functions(w['bC'])
    return sa.calc_probability(TA)


def build_all(w):
    import occuprob
    land = w['lb']
    sa = occuprob.SuperpositionApproximation()
    sa.add_partition_functions([occuprob.ElectronicPF(land.energy, land.mult),
                                occuprob.QuantumHarmonicPF(land.freq),
                                occuprob.RotationalPF(land.sym, land.mom)])
    return sa.calc_probability(TB)


FILES = {}


def init():
    for name, e in (('A', -1.5), ('B', 3.25)):
        path = os.path.join(boot.scratch(), f'c12{name}-{os.getpid()}.xyz')
        with open(path, 'w') as fh:
            for k in range(2):
                fh.write(f'3\nEnergy={e + k} Multiplicity={k + 1} Frequencies="{e * e} 2.0 3.5"\n'
                         'O 0 0 0\nH 0.96 0 0\nH -0.24 0.93 0\n')
        FILES[name] = path


def load(name):
    def body(w):
        import occuprob
        return occuprob.load_properties_from_extxyz(FILES[name])
    return body


def prob(sa, t):
    return lambda w: w[sa].calc_probability(t.copy())


def cap(sa, t):
    return lambda w: w[sa].calc_heat_capacity(t.copy())


def avg(sa, t):
    return lambda w: w[sa].calc_ensemble_average(t.copy(), w['obs'])


def zed(sa, t):
    return lambda w: w[sa].calc_partition_functions(t.copy())


def part(pf, f, t):
    return lambda w: getattr(w[pf], f)(t.copy())


def util(name, *args):
    def body(w):
        import occuprob
        return np.asarray(getattr(occuprob, name)(*[a.copy() for a in args]))
    return body


def comp(x, y):
    def body(w):
        import occuprob
        return np.asarray(occuprob.compare_numpy_dictionaries(x, y))
    return body


ONE, TWO = np.array([[1., 4.], [9., 1.]]), np.array([[2., 8.], [0., 5.]])
Z, W, V = 'calc_part_func', 'calc_part_func_w', 'calc_part_func_v'
SCEN = {
    'P|P same': [prob('sq', TA), prob('sq', TB)],
    'P|C same': [prob('sq', TA), cap('sq', TB)],
    'C|C same': [cap('sq', TA), cap('sq', TB)],
    'A|P same': [avg('sq', TA), prob('sq', TB)],
    'Z|Z same': [zed('sqr', TA), zed('sqr', TB)],
    'P|A sharing': [prob('sq', TA), avg('sc', TB)],
    'C|P sharing': [cap('sc', TA), prob('sq', TB)],
    'P|P separate': [prob('sq', TA), prob('bsq', TB)],
    'P|P separate same T': [prob('sq', TA), prob('bsq', TA)],
    'C|C separate': [cap('sq', TA), cap('bsq', TA)],
    'add|P': [fresh, prob('sq', TB)],
    'build|P': [build_all, prob('sq', TA)],
    'Qz|Qz': [part('aQ', Z, TA), part('aQ', Z, TB)],
    'Qw|Qv': [part('aQ', W, TA), part('aQ', V, TB)],
    'Sz|Sz other': [part('aS', Z, TA), part('bS', Z, TA)],
    'Sw|Sz': [part('aS', W, TA), part('aS', Z, TB)],
    'Cz|Cz other': [part('aC', Z, TA), part('bC', Z, TA)],
    'Rz|Rz other': [part('aR', Z, TA), part('bR', Z, TB)],
    'gmean|gmean': [util('calc_geometric_mean', ONE), util('calc_geometric_mean', TWO)],
    'beta|expo': [util('calc_beta', TA), util('calc_exponent', ONE[0], TB)],
    'cmp|cmp': [comp({'a': ONE}, {'a': ONE}), comp({'a': ONE}, {'a': TWO})],
    'load|load': [load('A'), load('B')],
    'P|C|P three': [prob('sq', TA), cap('sc', TB), prob('bsq', TA)],
    'z|w|v three': [part('aQ', Z, TA), part('aQ', W, TB), part('bQ', V, TA)],
}
SHORT = ['Qz|Qz', 'Qw|Qv', 'Sz|Sz other', 'Cz|Cz other', 'gmean|gmean', 'beta|expo', 'cmp|cmp',
         'Sw|Sz', 'Rz|Rz other']
TINY = ['Cz|Cz other', 'gmean|gmean', 'beta|expo', 'cmp|cmp', 'Sw|Sz', 'Rz|Rz other']


def cases(tier):
    for name in SCEN:
        heavy, three = 'load' in name, 'three' in name or 'C|' in name or '|C' in name
        if tier == 'quick':
            line, code = (1 if heavy or three else 2), (0 if heavy else 1)
        else:
            line = 4 if name in TINY else 3 if name in SHORT else 2
            code = 0 if heavy else 2 if name in SHORT else 1
        for grain, bound in (('line', line), ('fine', code)):
            if bound:
                shards = 32 if bound > 1 else 4
                for i in range(shards):
                    yield {'scenario': name, 'grain': grain, 'bound': bound,
                           'shard': [i, shards]}


def freeze(x):
    """The exact values, without the padding bytes of long doubles."""
    if isinstance(x, dict):
        return tuple(sorted((k, freeze(np.asarray(v))) for k, v in x.items()))
    if not isinstance(x, np.ndarray) or x.dtype.kind not in 'fiub':
        return repr(x)
    hi = x.astype(float)
    with np.errstate(all='ignore'):
        lo = np.nan_to_num((x - hi).astype(float)) if x.dtype.kind == 'f' else hi * 0
    return x.shape, str(x.dtype), hi.tobytes(), lo.tobytes()


def check(case, ctx):
    fns = SCEN[case['scenario']]
    want = []
    for f in fns:                      # each call alone, in a fresh world
        want.append(freeze(f(world())))

    def make():
        w = world()
        return [lambda f=f: f(w) for f in fns]

    def verdict(ex):
        for i, err in enumerate(ex.errors):
            if err is not None:
                raise Violation(f'{case["scenario"]}: thread {i} failed with {err!r} under the '
                                f'schedule {ex.trace}')
        got = [freeze(r) for r in ex.results]
        ctx.outcome([case['scenario'], repr(got)])
        for v in ex.visited:
            ctx.state([case['scenario'], case['grain'], v])
        ctx.step(len(ex.points) + 1)
        for i, (g, e) in enumerate(zip(got, want)):
            if g != e:
                raise Violation(
                    f'{case["scenario"]}: thread {i} returned {ex.results[i]} instead of its '
                    f'stand-alone result; switches (thread, line, to): {ex.trace}')

    n, pts = sched.explore(make, verdict, case['bound'], tuple(case['shard']),
                           case['grain'] == 'fine')
    ctx.count(f'schedules: {case["scenario"]} ({case["grain"]}, bound {case["bound"]})', n)
    ctx.count('schedules', n)
    ctx.trace(n)


def prepare(tier):
    """Replay determinism: the same schedule twice gives the same points and results."""
    init()
    fns = SCEN['P|C same']
    runs = []
    for _ in range(2):
        w = world()
        ex = sched.Execution([lambda f=f: f(w) for f in fns], [0] * 20 + [1] + [0] * 5 + [1]).run()
        runs.append((ex.points, ex.choices, [freeze(r) for r in ex.results]))
    if runs[0] != runs[1]:
        raise sched.HarnessError('the same schedule gave two different executions')
