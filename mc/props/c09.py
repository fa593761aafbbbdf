"""C09: contributions compose as a product, however and whenever they are added.

Explores every operation sequence up to a depth on a fresh real approximation; the model
is the plain list of contributions added so far."""
import itertools

import numpy as np

import land as L
import ref
from core import Violation

ID = 'C09'
CHUNK = 200
STATES = 'distinct model states (list of contributions, last evaluation) reached'
BOUNDS = {'quick': 'all sequences of length <= 4 over 18 operations (6 single additions, 7 container '
                   'additions, 5 evaluations) for one landscape; all of length <= 3 for a second; all '
                   'orders of all 6 contributions; all orders of up to 4 of them and of two that '
                   'return whole numbers or single precision; all 2^3 incomplete contribution classes; 12 numbers of '
                   'contributions from 7 to 33 added in 7 ways',
          'thorough': 'sequences of length <= 5 and <= 4; 7 to 65 contributions'}
ASSUMPTIONS = ['user-defined contributions: a derived class and one that only provides the functions, both '
               'returning arrays they keep, the latter with a length and compared by value; two more returning whole numbers and single precision', 'container kinds: list, tuple, iterator, generator, empty list, dictionary view, repeated object']

ADDS = {'+E': 'E', '+S': 'S', '+C': 'C', '+Q': 'Q', '+R': 'R', '+U': 'U',
        '[SC]': 'SC', '(QR)': 'QR', 'iter(EC)': 'EC', 'gen(UR)': 'UR', '[]': '', '[SS]': 'SS',
        '[Q]': 'Q'}
EVALS = ['P', 'C', 'Z', 'A', 'P2']
OPS = list(ADDS) + EVALS
MANY = {'singly': None, 'list': list, 'tuple': tuple, 'iterator': iter,
        'generator': lambda objs: (o for o in objs), 'halves': None, 'dict': None}
T1 = np.array([400., 25., 120.])
T2 = np.array([60., 900., 250.])
DELTA = np.array([0.01, 0.04, 0.02])


def landscape(which):
    return L.build({'N': 2, 'D': 2, 'E': 'near'} if which == 0 else
                   {'N': 3, 'D': 3, 'F': 'pairs', 'R': 'lin', 'E': 'near'})[0]


def user_class(which):
    """User-defined contribution Z = 1 + 2 exp(-beta*delta).  In the second landscape it
    only provides the three functions, without deriving from the package's class.  Both hand out
    the arrays they keep (the second one read-only)."""
    import occuprob

    class TwoLevel(*([] if which else [occuprob.PartitionFunction])):
        def __init__(self, delta):
            self.delta = delta
            self.kept = {}

        def _terms(self, temperature):
            key = temperature.tobytes()
            if key not in self.kept:
                y = self.delta[:, None] / (float(ref.KB) * temperature)
                p = 2 * np.exp(-y) / (1 + 2 * np.exp(-y))
                self.kept[key] = 1 + 2 * np.exp(-y), -y * p, y ** 2 * p * (1 - p)
                for arr in self.kept[key] if which else ():
                    arr.setflags(write=False)
            return self.kept[key]

        def calc_part_func(self, temperature):
            return self._terms(temperature)[0]

        def calc_part_func_w(self, temperature):
            return self._terms(temperature)[1]

        def calc_part_func_v(self, temperature):
            return self._terms(temperature)[2]

    if which:
        # as of a data class: compared by value, not hashable, with a length
        def same(self, other):
            return type(other) is type(self) and bool((self.delta == other.delta).all())

        TwoLevel.__eq__ = same
        TwoLevel.__hash__ = None
        TwoLevel.__len__ = lambda self: len(self.delta)
    return TwoLevel


def plain_terms(kind, n, T):
    """Contributions that return whole numbers ('I') or single precision ('H'): values both hold exactly."""
    i, j = np.mgrid[:n, :T.size]
    if kind == 'I':
        return 1 + (2 * i + j) % 5, (3 * i + j) % 7, (i + 2 * j) % 4
    return 1 + ((i + j) % 3) / 4, -((i + 3 * j) % 5) / 8, ((2 * i + j) % 3) / 2


def plain_class(kind):
    import occuprob
    dtype = int if kind == 'I' else np.float32

    class Plain(occuprob.PartitionFunction):
        def __init__(self, n):
            self.n = n

        def calc_part_func(self, temperature):
            return plain_terms(kind, self.n, temperature)[0].astype(dtype)

        def calc_part_func_w(self, temperature):
            return plain_terms(kind, self.n, temperature)[1].astype(dtype)

        def calc_part_func_v(self, temperature):
            return plain_terms(kind, self.n, temperature)[2].astype(dtype)

    return Plain


def u_terms(n, T):
    y = DELTA[:n, None] / (float(ref.KB) * T)
    p = 2 * np.exp(-y) / (1 + 2 * np.exp(-y))
    return np.log1p(2 * np.exp(-y)), -y * p, y ** 2 * p * (1 - p)


_memo = {}


def expected(which, land, kinds, T):
    """Reference (P, C, A, ln Z up to a constant) for a list of kinds."""
    key = (which, ''.join(sorted(kinds)), T.tobytes())
    if key not in _memo:
        ln, w, v = 0, 0, 0
        for k in kinds:
            if k == 'U':
                a, b, c = u_terms(land.n, T)
            elif k in 'IH':
                a, b, c = plain_terms(k, land.n, T)
                a = np.log(a)
            else:
                a, b, c = ref.lnz_pos(land, k, T), ref.w_of(land, k, T), ref.v_of(land, k, T)
            ln, w, v = ln + a, w + b, v + c
        p = ref.softmax(ln)
        mean = (p * w).sum(axis=0)
        cap = (p * v).sum(axis=0) + (p * (w - mean) ** 2).sum(axis=0)
        avg = (p * OBS(land, T)).sum(axis=0)
        _memo[key] = [np.asarray(x, float) for x in (p, cap[None], avg[None], w.sum(axis=0))] \
            + [ln]
    return _memo[key]


def OBS(land, T):
    return (np.arange(land.n)[:, None] - 0.25) * (1 + T[None, :] / 100.)


def cases(tier):
    for perm in itertools.permutations('SCQRUE'):
        yield {'order': ''.join(perm)}
    for k in range(1, 5):
        for perm in itertools.permutations('SCQRUEIH', k):
            if set(perm) & set('IH') and set(perm) - set('IH'):
                yield {'order': ''.join(perm)}
    for methods in itertools.product([0, 1], repeat=3):
        yield {'abstract': methods}
    for n in (7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 32, 33) if tier == 'quick' else range(7, 66):
        for how in MANY:
            for first in range(3):
                yield {'many': n, 'how': how, 'first': first}
    deep = (4, 3) if tier == 'quick' else (5, 4)
    for which, depth in enumerate(deep):
        for n in range(depth + 1):
            for seq in itertools.product(range(len(OPS)), repeat=n):
                yield {'land': which, 'ops': seq}


def close(a, b, what, rtol=1e-7):
    if not np.allclose(np.asarray(a, float), b, rtol=rtol, atol=1e-9):
        raise Violation(f'{what} is {np.asarray(a, float).tolist()} instead of {b.tolist()}')


def evaluate(sa, op, which, land, kinds, ctx):
    T = T2 if op == 'P2' else T1
    ctx.step()
    if op in ('P', 'P2'):
        got, idx, rows = sa.calc_probability(T), 0, land.n
    elif op == 'C':
        got, idx, rows = sa.calc_heat_capacity(T), 1, 1
    elif op == 'A':
        got, idx, rows = sa.calc_ensemble_average(T, OBS(land, T)), 2, 1
    else:
        got, idx, rows = sa.calc_partition_functions(T), 4, land.n
    if not kinds:
        if got is not None:
            raise Violation(f'{op} of an empty approximation is {got!r}')
        return
    got = ref.as_result(got, (rows, T.size), op)
    want = expected(which, land, kinds, T)
    if op == 'Z':
        ln = want[4]
        lg = np.log(np.asarray(got, dtype=ref.LD))
        close(lg - lg[:1], np.asarray(ln - ln[:1], float), f'ln Z ratios of {kinds}', 1e-6)
    else:
        close(got, want[idx], f'{op} with contributions {"".join(kinds)}')
    ctx.outcome([which, op, ''.join(sorted(kinds))])


def container(op, objs):
    if op.startswith('+'):
        return objs[0]
    if op.startswith('['):
        return list(objs)
    if op.startswith('('):
        return tuple(objs)
    if op.startswith('iter'):
        return iter(objs)
    return (o for o in objs)


def check(case, ctx):
    import occuprob
    if 'abstract' in case:
        return abstract(case['abstract'], ctx)
    which = case.get('land', 1)
    land = landscape(which)
    user = user_class(which)
    made = {}

    def obj(k):
        if k not in made:
            made[k] = user(DELTA[:land.n].copy()) if k == 'U' else \
                plain_class(k)(land.n) if k in 'IH' else L.make_pf(k, land)
        return made[k]

    sa = occuprob.SuperpositionApproximation()
    kinds = []
    if 'order' in case:
        for k in case['order']:
            sa.add_partition_functions(obj(k))
            kinds.append(k)
            ctx.step()
        for op in EVALS:
            evaluate(sa, op, which, land, kinds, ctx)
        one = occuprob.SuperpositionApproximation()
        one.add_partition_functions([obj(k) for k in case['order']])
        for op in EVALS:
            evaluate(one, op, which, land, kinds, ctx)
        ctx.state(['order', case['order']])
        ctx.trace()
        return None
    if 'many' in case:
        kinds = list(itertools.islice(itertools.cycle('URSCQE'[case['first']:]), case['many']))
        objs = [obj(k) for k in kinds]
        if case['how'] == 'singly':
            for o in objs:
                sa.add_partition_functions(o)
        elif case['how'] == 'halves':
            sa.add_partition_functions(objs[:len(objs) // 2])
            sa.add_partition_functions(objs[len(objs) // 2:])
        elif case['how'] == 'dict':
            sa.add_partition_functions({f'pf{i}': o for i, o in enumerate(objs)}.values())
        else:
            sa.add_partition_functions(MANY[case['how']](objs))
        ctx.step()
        for op in EVALS:
            evaluate(sa, op, which, land, kinds, ctx)
        ctx.state(['many', case['many'], case['how'], case['first']])
        ctx.trace()
        return None
    last = None
    for i in case['ops']:
        op = OPS[i]
        if op in ADDS:
            sa.add_partition_functions(container(op, [obj(k) for k in ADDS[op]]))
            kinds.extend(ADDS[op])
            ctx.step()
        else:
            evaluate(sa, op, which, land, kinds, ctx)
            last = op
        ctx.state([which, kinds, last])
    for op in EVALS:
        evaluate(sa, op, which, land, kinds, ctx)
    # the single contributions were not changed by being combined
    ctx.trace()
    return None


def abstract(methods, ctx):
    import occuprob
    names = ['calc_part_func', 'calc_part_func_w', 'calc_part_func_v']
    body = {n: (lambda self, temperature: np.ones((2, temperature.size)))
            for n, m in zip(names, methods) if m}
    cls = type('Custom', (occuprob.PartitionFunction,), body)
    ctx.state(['abstract', methods])
    ctx.step()
    ctx.trace()
    try:
        cls()
    except TypeError:
        if all(methods):
            raise Violation('a complete contribution class cannot be instantiated')
        return
    if not all(methods):
        raise Violation(f'a contribution class providing only {sorted(body)} can be instantiated')
