"""C31: copies of approximations and contributions are equal and independent."""
import copy
import io
import itertools
import os
import pickle
import subprocess
import sys

import numpy as np

import boot
import land as L
from core import Violation

ID = 'C31'
CHUNK = 200
STATES = 'distinct (contributions of every approximation alive, which one is used, way of copying) states'
OPS = ['+E', '+Q', '+R', '+C', 'deep', 'pickle', 'deep pfs', 'pickle pfs', 'eval', 'spoil', 'back']
WAYS = ['deep', 'pickle 0', 'pickle 2', 'pickle 4', 'pickle 5', 'twice', 'list', 'subclass: deep', 'subclass: pickle',
        'subclass: list']
BOUNDS = {'quick': 'all sequences of <= 4 over 11 operations (additions, deep and pickled copies of the approximation and of its '
                   'contributions, evaluations, spoiling of the arrays the result came in, returning to the original) for '
                   'one landscape, of <= 3 for a second; all 32 sets of contributions x 10 ways of '
                   'copying x 4 landscapes; every set of one landscape also sent to another process',
          'thorough': 'sequences of <= 5 and <= 4'}
ASSUMPTIONS = ['copies are those of the copy module (deep) and of pickle in protocols 0 to 5; shallow copies share their '
               'contents by definition and are not judged']
LANDS = [{'N': 2, 'D': 2, 'E': 'near'}, {'N': 3, 'D': 3, 'F': 'pairs', 'R': 'lin', 'E': 'near'},
         {'N': 1, 'D': 6}, {'N': 33, 'D': 3}]
T = np.array([0., 25., 120., 400.])


def sub_class():
    """A class of this module, so that pickle finds it."""
    import occuprob
    if 'Named' not in globals():
        cls = type('Named', (occuprob.SuperpositionApproximation,), {'__module__': __name__, 'title': 'mine'})
        globals()['Named'] = cls
    return globals()['Named']


def cases(tier):
    for which in range(len(LANDS)):
        for k in range(6):
            for pfs in itertools.combinations('ESCQR', k):
                for way in WAYS:
                    yield {'land': which, 'set': ''.join(pfs), 'way': way}
    yield {'process': 0}
    yield {'process': 1}
    for which, depth in enumerate((4, 3) if tier == 'quick' else (5, 4)):
        for n in range(1, depth + 1):
            for seq in itertools.product(range(len(OPS)), repeat=n):
                yield {'land': which, 'ops': seq}


_land = {}


def landscape(which):
    if which not in _land:
        _land[which] = L.build(LANDS[which])[0]
    return _land[which]


def observable(n):
    return np.arange(n)[:, None] * 0.3 + T[None, :] / 100.


def values(sa, n):
    """Everything an approximation says about T (None without contributions)."""
    return [sa.calc_probability(T.copy()), sa.calc_heat_capacity(T.copy()),
            sa.calc_ensemble_average(T.copy(), observable(n)), sa.calc_partition_functions(T.copy())]


def same(a, b):
    """Equal but for rounding."""
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(((a == b) | (np.isnan(a) & np.isnan(b)) | (abs(a - b) <= 1e-12 * abs(b) + 1e-12)).all())


_memo = {}


def expected(which, pfs):
    """What a fresh approximation of the same contributions says."""
    if (which, pfs) not in _memo:
        import occuprob
        sa = occuprob.SuperpositionApproximation()
        for k in pfs:
            sa.add_partition_functions(L.make_pf(k, landscape(which)))
        _memo[which, pfs] = values(sa, landscape(which).n)
    return _memo[which, pfs]


def judge(sa, which, pfs, what, ctx):
    ctx.step()
    got, want = values(sa, landscape(which).n), expected(which, pfs)
    if not all(map(same, got, want)):
        raise Violation(f'{what}: an approximation with contributions {pfs!r} evaluates to {got} instead of {want}')


def duplicate(x, way):
    if way == 'deep':
        return copy.deepcopy(x)
    if way == 'twice':
        return copy.deepcopy(pickle.loads(pickle.dumps(copy.deepcopy(x))))
    if way == 'list':
        return copy.deepcopy([x, {'x': x}])[1]['x']
    return pickle.loads(pickle.dumps(x, int(way.split()[1]) if ' ' in way else -1))


def check(case, ctx):
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        ctx.trace()
        if 'process' in case:
            return elsewhere(case['process'], ctx)
        if 'ops' in case:
            return history(case['land'], case['ops'], ctx)
        return one(case['land'], case['set'], case['way'], ctx)


def one(which, pfs, way, ctx):
    import occuprob
    what = f'landscape {which}, {pfs}, {way}'
    land = landscape(which)
    sub = way.startswith('subclass')
    cls = sub_class() if sub else occuprob.SuperpositionApproximation
    way = way.rpartition(': ')[2]
    for before in (0, 1):
        parts = [L.make_pf(k, land) for k in pfs]
        sa = cls()
        if sub:
            sa.note = ['of the user']
        sa.add_partition_functions(parts)
        if before:
            judge(sa, which, pfs, what, ctx)
        other = duplicate(sa, way)
        if type(other) is not cls:
            raise Violation(f'{what}: the copy is a {type(other)}')
        if sub and getattr(other, 'note', None) != sa.note or sub and other.note is sa.note:
            raise Violation(f'{what}: an attribute of the derived class is lost or shared')
        judge(other, which, pfs, what, ctx)
        other.add_partition_functions(L.make_pf('Q', land))
        judge(other, which, pfs + 'Q', what, ctx)
        judge(sa, which, pfs, what, ctx)
        sa.add_partition_functions([L.make_pf('R', land)])
        judge(sa, which, pfs + 'R', what, ctx)
        judge(other, which, pfs + 'Q', what, ctx)
        # the contributions themselves
        again = cls()
        for p in parts:
            q = duplicate(p, way)
            for method in ('calc_part_func', 'calc_part_func_w', 'calc_part_func_v'):
                a, b = getattr(p, method)(T), getattr(q, method)(T)
                if not same(a, b):
                    raise Violation(f'{what}: {method} of a copied contribution is {b.tolist()} instead of {a.tolist()}')
            again.add_partition_functions(q)
        judge(again, which, pfs, what, ctx)
        ctx.state([which, pfs, way, before])
    ctx.outcome([which, pfs])


def history(which, ops, ctx):
    import occuprob
    land = landscape(which)
    alive = [[occuprob.SuperpositionApproximation(), '', []]]        # approximation, contributions, their objects
    cur = 0
    told = [OPS[i] for i in ops]
    for k, op in enumerate(told):
        sa, pfs, parts = alive[cur]
        if op.startswith('+'):
            new = L.make_pf(op[1], land)
            sa.add_partition_functions(new)
            alive[cur] = [sa, pfs + op[1], parts + [new]]
        elif op in ('deep', 'pickle'):
            both, objs = duplicate((sa, parts), op)
            alive.append([both, pfs, objs])
            cur = len(alive) - 1
        elif op.endswith('pfs'):
            objs = duplicate(parts, op.split()[0])
            both = occuprob.SuperpositionApproximation()
            both.add_partition_functions(objs)
            alive.append([both, pfs, list(objs)])
            cur = len(alive) - 1
        elif op == 'eval':
            judge(sa, which, pfs, f'{told[:k + 1]}', ctx)
        elif op == 'spoil':
            for x in (sa.calc_probability(T.copy()), sa.calc_partition_functions(T.copy()), sa.calc_heat_capacity(T.copy())):
                if x is not None:
                    x[...] = 0.125
            for p in parts:
                p.calc_part_func(T.copy())[...] = 5.
        else:
            cur = 0
        ctx.state([which, [a[1] for a in alive], cur, op])
    for a in alive:
        judge(a[0], which, a[1], f'{told}', ctx)
    ctx.outcome([a[1] for a in alive])


CHILD = """
import sys, pickle
sys.path[:0] = [%r, %r]
import boot; boot.load()
import props.c31 as c
import io, contextlib
which, dumps = pickle.load(sys.stdin.buffer)
out = []
with contextlib.redirect_stdout(io.StringIO()):
    for pfs, blob in dumps:
        sa = pickle.loads(blob)
        out.append((pfs, c.values(sa, c.landscape(which).n), pickle.dumps(sa)))
pickle.dump(out, sys.stdout.buffer)
"""


def elsewhere(which, ctx):
    """Every set of contributions evaluated by another process and sent back."""
    sets = [''.join(s) for k in range(6) for s in itertools.combinations('ESCQR', k)]
    sets += [s[::-1] for s in sets if len(s) > 1]
    dumps = []
    for s in sets:
        import occuprob
        sa = occuprob.SuperpositionApproximation()
        sa.add_partition_functions([L.make_pf(k, landscape(which)) for k in s])
        dumps.append((s, pickle.dumps(sa)))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    run = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', CHILD % (here, here)], input=pickle.dumps((which, dumps)),
                         capture_output=True, timeout=200, env=dict(os.environ, VERIF_REPO=boot.REPO))
    if run.returncode:
        raise Violation(f'approximations cannot be evaluated in another process: {run.stderr.decode()[-400:]}')
    for s, got, blob in pickle.loads(run.stdout):
        if not all(map(same, got, expected(which, s))):
            raise Violation(f'{s}: another process evaluates to {got} instead of {expected(which, s)}')
        judge(pickle.loads(blob), which, s, f'{s} sent to another process and back', ctx)
        ctx.state(['process', which, s])
        ctx.outcome(['process', s])
