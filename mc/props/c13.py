"""C13: missing or inconsistent contributions never yield numbers."""
import contextlib
import io
import itertools

import numpy as np

import land as L
import ref
from core import Violation

ID = 'C13'
CHUNK = 200
STATES = 'distinct (contributions with their numbers of minima, temperatures, method history) states'
METHODS = ['P', 'C', 'Z', 'A']
KINDS = 'ESCQR'
BOUNDS = {'quick': 'all ordered pairs of 5 contribution types x all unequal pairs of numbers of '
                   'minima 1..5, all triples of 4 types with sizes in 1..3 not all equal, 4 sets of four types with all such sizes, up to 17 contributions of which one differs, '
                   'none at all in one of them, x 6 '
                   'temperature arrays x 4 methods; the same histories built by single additions, '
                   'by a list, and after an evaluation; empty approximations: all sequences of <= 4 '
                   'evaluations, then a contribution',
          'thorough': 'sizes 1..7 in pairs, all triples of 5 types with sizes 1..4, D in {1, 2, 3}'}
ASSUMPTIONS = ['an error means any exception derived from Exception']


def temps(n):
    return {'one': np.array([300.]), 'two': np.array([40., 300.]), 'three': np.array([0., 40., 300.]),
            'sizes': np.linspace(10., 900., n), 'zero': np.array([0.]),
            'five': np.array([1., 20., 0., 400., 1000.])}


def cases(tier):
    quick = tier == 'quick'
    top = 5 if quick else 7
    for d in ([2] if quick else [1, 2, 3]):
        for pair in itertools.product(KINDS, repeat=2):
            for sizes in itertools.permutations(range(1, top + 1), 2):
                for how in ('one by one', 'list', 'later'):
                    yield {'pfs': ''.join(pair), 'sizes': sizes, 'how': how, 'd': d}
    for tri in itertools.product('SCQR' if quick else KINDS, repeat=3):
        for sizes in itertools.product(range(1, 4 if quick else 5), repeat=3):
            if len(set(sizes)) > 1:
                yield {'pfs': ''.join(tri), 'sizes': sizes, 'how': 'list', 'd': 2}
                if not quick:
                    yield {'pfs': ''.join(tri), 'sizes': sizes, 'how': 'later', 'd': 2}
    for sizes in itertools.product(range(1, 4), repeat=4):
        if len(set(sizes)) > 1:
            for pfs in ('SCQR', 'EEEE', 'RQCS', 'CCRR') if quick else itertools.product(KINDS, repeat=4):
                yield {'pfs': ''.join(pfs), 'sizes': sizes, 'how': 'list', 'd': 2}
    for n in (5, 6, 9, 17):
        for one in range(n):
            for other in ((1, 2), (2, 1), (3, 2), (2, 3)):
                sizes = [other[0]] * n
                sizes[one] = other[1]
                yield {'pfs': ('SCQRE' * 4)[:n], 'sizes': sizes, 'how': ('list', 'one by one')[one % 2], 'd': 2}
    for pair in itertools.product('CQRSE', 'CQR'):
        for n in (1, 2, 3):
            for order in (0, 1):
                two = [(pair[0], n), (pair[1], 0)]
                two = two[::-1] if order else two
                yield {'pfs': ''.join(k for k, _ in two), 'sizes': [n for _, n in two], 'how': 'list', 'd': 2}
    for depth in range(5):
        for seq in itertools.product(METHODS, repeat=depth):
            for how in ('none', 'empty list', 'empty tuple', 'empty iterator'):
                yield {'empty': seq, 'how': how}


def call(sa, method, T, n):
    if method == 'P':
        return sa.calc_probability(T)
    if method == 'C':
        return sa.calc_heat_capacity(T)
    if method == 'Z':
        return sa.calc_partition_functions(T)
    return sa.calc_ensemble_average(T, np.arange(1., n * T.size + 1).reshape(n, T.size))


def check(case, ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        if 'empty' in case:
            empty(case, ctx)
        else:
            mixed(case, ctx)


def mixed(case, ctx):
    import occuprob
    d = case['d']
    objs = []
    for k, n in zip(case['pfs'], case['sizes']):
        land = L.build({'N': max(n, 1), 'D': d, 'E': 'near'})[0]
        try:
            objs.append(L.make_pf(k, land if n else land.take([])))
        except Exception:     # pylint: disable=broad-except
            if n:
                raise
            # nothing at all may be refused from the beginning
            ctx.trace()
            return

    def build():
        sa = occuprob.SuperpositionApproximation()
        if case['how'] == 'one by one':
            for o in objs:
                sa.add_partition_functions(o)
        elif case['how'] == 'list':
            sa.add_partition_functions(objs)
        else:
            sa.add_partition_functions(objs[:1])
            T = np.array([300., 50.])
            if call(sa, 'P', T, case['sizes'][0]) is None or \
                    call(sa, 'C', T, case['sizes'][0]) is None:
                raise Violation('a single contribution yields no result')
            sa.add_partition_functions(objs[1:])
        return sa

    for tname, T in temps(case['sizes'][0]).items():
        sa = build()                     # the same object answers all four methods
        for method in METHODS:
            for n in {max(case['sizes']), min(case['sizes'])} if method == 'A' else {0}:
                ctx.step()
                ctx.state([case, tname, method, n])
                try:
                    res = call(sa, method, T, n)
                except Exception as exc:     # pylint: disable=broad-except
                    ctx.outcome(type(exc).__name__)
                    continue
                ctx.outcome('None' if res is None else 'numbers')
                if res is not None:
                    raise Violation(
                        f'{method} of contributions {case["pfs"]} with {case["sizes"]} minima '
                        f'({case["how"]}) at {tname} temperatures returned {res!r}')
    ctx.trace()


def empty(case, ctx):
    import occuprob
    land = L.build({'N': 2, 'E': 'near'})[0]
    for tname, T in temps(2).items():
        sa = occuprob.SuperpositionApproximation()
        if case['how'] != 'none':
            sa.add_partition_functions({'empty list': [], 'empty tuple': (),
                                        'empty iterator': iter([])}[case['how']])
        for m in case['empty']:
            ctx.step()
            try:
                res = call(sa, m, T, 2)
            except Exception as exc:     # pylint: disable=broad-except
                raise Violation(f'{m} of an empty approximation fails with {exc!r} '
                                f'instead of reporting None')
            if res is not None:
                raise Violation(f'{m} of an empty approximation is {res!r}')
        sa.add_partition_functions(L.make_pf('S', land))
        ctx.state([case, tname])
        P = ref.as_result(sa.calc_probability(T), (2, T.size), 'calc_probability')
        if not np.allclose(np.asarray(P, float), np.asarray(ref.prob(land, 'S', T), float),
                           rtol=1e-7, atol=1e-12):
            raise Violation('an approximation that was empty before gives wrong probabilities')
        C = ref.as_result(sa.calc_heat_capacity(T), (1, T.size), 'calc_heat_capacity')
        if not np.allclose(np.asarray(C, float), np.asarray(ref.cap(land, 'S', T)[0], float),
                           rtol=1e-6, atol=1e-9):
            raise Violation('an approximation that was empty before gives a wrong heat capacity')
        ctx.trace()
