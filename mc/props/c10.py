"""C10: evaluations are pure - no input is modified, no state leaks between calls.

Explores every sequence of evaluations, in-place edits by the caller and additions, on
three approximations (two share contribution objects, the third has other data of the
same shape).  Expected values come from the reference model, which has no state."""
import decimal
import itertools
import locale
import os
import random
import warnings

import numpy as np

import boot
import land as L
import ref
from core import Violation

ID = 'C10'
CHUNK = 100
STATES = 'distinct (contributions per approximation, temperature array contents, last op) states'
BOUNDS = {'quick': 'all sequences of length <= 4 over 18 operations with read-only data and of '
                   'length <= 3 with writable data; all load/corrupt/load sequences of length <= 4; '
                   'all 2-call sequences over 12 entry points x 27 landscapes (element types, layouts, sizes) with byte comparison '
                   'of every argument; the settings of the rest of the program (error handling, warnings, random numbers, '
                   'environment, plot settings) after every case',
          'thorough': 'sequences of length <= 5, <= 4 and <= 5'}
ASSUMPTIONS = []

OPS = ['P1a', 'P1b', 'C1a', 'C1b', 'A1a', 'Z1a', 'P2a', 'C2b', 'P3a', 'C3a', 'wq', 'zs', 'vc',
       'editT', 'corrupt', 'addR2', 'editlist', 'renew']
TA = np.array([300., 40., 120., 95., 200.])
TB = np.array([75., 650., 15., 33.3, 410.])
# the same values and ends as TA in another order: defeats shallow cache keys
TC = np.array([300., 40., 95., 120., 200.])


def cases(tier):
    quick = tier == 'quick'
    for n in range(1, (4 if quick else 5) + 1):
        for seq in itertools.product(range(len(OPS)), repeat=n):
            yield {'ops': seq, 'ro': 1}
            if n <= (3 if quick else 4):
                yield {'ops': seq, 'ro': 0}
    for n in range(1, (4 if quick else 5) + 1):
        for seq in itertools.product(['A', 'B', 'corrupt', 'rewrite'], repeat=n):
            yield {'load': seq}
    for k in range(len(ARG_LANDS)):
        for pair in itertools.product(ENTRY, repeat=2):
            yield {'args': pair, 'land': k}


def frozen(arr, ro):
    arr = arr.copy()
    arr.setflags(write=not ro)
    return arr


LANDS = None


def lands():
    global LANDS
    if LANDS is None:
        a = L.build({'N': 3, 'D': 2, 'E': 'near'})[0]
        b = L.build({'N': 3, 'D': 2, 'E': 'tiny', 'F': 'pairs', 'R': 'desc', 'G': 'large'})[0]
        LANDS = (a, b)
    return LANDS


_memo = {}


def want(which, kinds, T, what):
    key = (which, ''.join(sorted(kinds)), T.tobytes(), what)
    if key not in _memo:
        land = lands()[which]
        if what == 'P':
            out = ref.prob(land, kinds, T)
        elif what == 'C':
            out = ref.cap(land, kinds, T)[0][None]
        elif what == 'A':
            out = (ref.prob(land, kinds, T) * OBS).sum(axis=0)[None]
        else:
            ln = sum(ref.lnz_pos(land, k, T) for k in kinds)
            out = ln - ln[:1]
        _memo[key] = np.asarray(out, float)
    return _memo[key]


OBS = np.array([[1., 2., -1., 7., 0.1], [0.5, 3., 4., -3., 2.2], [-2., 8., 0.25, 1., 5.]])


def surroundings(full):
    """What belongs to the rest of the program."""
    out = {'floating-point error handling': np.geterr(), 'print options': np.get_printoptions(),
           'working directory': os.getcwd()}
    if full:
        import matplotlib
        kind, keys, *rest = np.random.get_state()
        out.update({'random numbers': [kind, keys.tobytes(), rest], 'environment': dict(os.environ),
                    'plot settings': dict(matplotlib.rcParams), 'decimal precision': decimal.getcontext().prec,
                    'random state': random.getstate(), 'locale': locale.setlocale(locale.LC_ALL, None)})
    return out


def handler(kind, flag):
    """Floating-point errors of the program are reported here."""


def check(case, ctx):
    with np.errstate(all='call', call=handler):
        before = surroundings('ops' not in case)
        for _ in range(2):          # a first import may add filters
            with warnings.catch_warnings():
                warnings.filterwarnings('ignore', message='.*')
                filters = list(warnings.filters)
                if 'load' in case:
                    check_load(case['load'], ctx)
                elif 'args' in case:
                    check_args(case['args'], case['land'], ctx)
                else:
                    check_ops(case, ctx)
                if list(warnings.filters) == filters:
                    break
        else:
            raise Violation('the warning filters of the program changed')
        after = surroundings('ops' not in case)
        if np.geterrcall() is not handler:
            raise Violation('the handler of floating-point errors was replaced')
    for k, v in before.items():
        if after[k] != v:
            raise Violation(f'the {k} of the program changed')


def check_ops(case, ctx):
    import occuprob
    ro = case['ro']
    data = []
    parts = []
    for land in lands():
        arrs = {k: frozen(getattr(land, k), ro) for k in ('energy', 'mult', 'freq', 'sym', 'mom')}
        data.append(arrs)
        parts.append({'S': occuprob.ElectronicPF(arrs['energy'], arrs['mult']),
                      'C': occuprob.ClassicalHarmonicPF(arrs['freq']),
                      'Q': occuprob.QuantumHarmonicPF(arrs['freq']),
                      'R': occuprob.RotationalPF(arrs['sym'], arrs['mom'])})
    caller = [parts[0]['S'], parts[0]['Q']]
    sas = [occuprob.SuperpositionApproximation() for _ in range(3)]
    sas[0].add_partition_functions(caller)
    sas[1].add_partition_functions([parts[0]['S'], parts[0]['C']])
    sas[2].add_partition_functions((parts[1]['S'], parts[1]['Q']))
    kinds = ['SQ', 'SC', 'SQ']
    src = [0, 0, 1]
    whole = np.full((5, 3), 77.)
    ta = whole[:, 1]        # the caller edits this one between calls; a part of a larger array
    ta[:] = TA
    tb = frozen(TB, ro)
    obs = frozen(OBS, ro)
    ta_now = ta.copy()
    last = None
    lastop = ''
    edits = 0
    errors = np.geterr()
    for i in case['ops']:
        op = OPS[i]
        ctx.step()
        got = None
        if op == 'editT':
            edits += 1
            ta[:] = (TC, TB, TA)[(edits - 1) % 3]
            ta_now = ta.copy()
        elif op == 'corrupt':
            if last is not None and last.flags.writeable:
                last[...] = np.nan
        elif op == 'addR2':
            sas[1].add_partition_functions(parts[0]['R'])
            kinds[1] += 'R'
        elif op == 'editlist':
            caller.append(parts[0]['R'])
        elif op == 'renew':
            # the third approximation and its contributions are replaced by new objects
            # (which may take the places of the old ones in memory) with the other data
            sas[2] = None
            parts[1] = None
            src[2] = 1 - src[2]
            arrs = data[src[2]]
            parts[1] = {'S': occuprob.ElectronicPF(arrs['energy'], arrs['mult']),
                        'Q': occuprob.QuantumHarmonicPF(arrs['freq'])}
            sas[2] = occuprob.SuperpositionApproximation()
            sas[2].add_partition_functions((parts[1]['S'], parts[1]['Q']))
        elif op in ('wq', 'zs', 'vc'):
            k = {'wq': 'Q', 'zs': 'S', 'vc': 'C'}[op]
            pf = parts[0][k]
            land = lands()[0]
            if op == 'wq':
                got, exp = pf.calc_part_func_w(ta), ref.w_of(land, k, ta_now)
            elif op == 'zs':
                got, exp = pf.calc_part_func(ta), np.exp(ref.lnz_pos(land, k, ta_now))
            else:
                got, exp = pf.calc_part_func_v(ta), ref.v_of(land, k, ta_now)
            compare(got, np.asarray(exp, float), op, case)
        else:
            who = int(op[1]) - 1
            T, now = (ta, ta_now) if op[2] == 'a' else (tb, TB)
            sa = sas[who]
            if op[0] == 'P':
                got = sa.calc_probability(T)
            elif op[0] == 'C':
                got = sa.calc_heat_capacity(T)
            elif op[0] == 'A':
                got = sa.calc_ensemble_average(T, obs)
            else:
                got = sa.calc_partition_functions(T)
            exp = want(src[who], kinds[who], now, op[0])
            cmp = got
            if op[0] == 'Z' and isinstance(got, np.ndarray):
                lg = np.log(np.asarray(got, dtype=ref.LD))
                cmp = np.asarray(lg - lg[:1], float)
            compare(cmp, exp, op, case)
        if got is not None:
            last, lastop = got, op
            if any(np.shares_memory(got, x) for arrs in data for x in arrs.values()) \
                    or np.shares_memory(got, ta) or np.shares_memory(got, tb) \
                    or np.shares_memory(got, obs):
                raise Violation(f'{op} returned memory of one of its inputs')
        # nothing the caller owns has changed
        if not ta.flags.writeable or whole[:, ::2].tobytes() != np.full((5, 2), 77.).tobytes() \
                or tb.flags.writeable == bool(ro) or obs.flags.writeable == bool(ro) \
                or any(v.flags.writeable == bool(ro) for arrs in data for v in arrs.values()):
            raise Violation(f'{op} changed whether an array of the caller can be written, or what surrounds it')
        if ta.tobytes() != ta_now.tobytes() or tb.tobytes() != TB.tobytes() \
                or obs.tobytes() != OBS.tobytes():
            raise Violation(f'{op} changed a temperature or observable array')
        for land, arrs in zip(lands(), data):
            for k, v in arrs.items():
                if v.tobytes() != getattr(land, k).tobytes():
                    raise Violation(f'{op} changed the caller\'s {k} array')
        if np.geterr() != errors:
            raise Violation(f'{op} changed the floating-point error handling to {np.geterr()}')
        ctx.state([kinds, src, ta_now.tolist(), len(caller), op])
    ctx.outcome([lastop, kinds[1], ta_now.tolist()])
    ctx.trace()
    return None


def compare(got, exp, op, case):
    if not isinstance(got, np.ndarray) or got.shape != exp.shape:
        raise Violation(f'{op}: result {got!r}')
    if not np.allclose(np.asarray(got, float), exp, rtol=1e-7, atol=1e-10):
        names = [OPS[i] for i in case['ops']]
        raise Violation(f'{op} in the history {names} gives {np.asarray(got, float).tolist()} '
                        f'instead of {exp.tolist()}')


# ---------------------------------------------------------------- every entry point, any args
ARG_LANDS = [{}, {'N': 3, 'R': 'lin'}, {'E': 'int', 'G': 'ints', 'F': 'int', 'R': 'int'},
             {'N': 1}, {'T': 'mix0'}, {'T': 'int'}, {'D': 1, 'R': 'atom'}, {'E': 'neg'},
             {'N': 4, 'E': 'deg0', 'R': 'linnoise', 'T': 'desc'},
             {'dtype': 'g'}, {'dtype': 'f4'}, {'dtype': '>f8'}, {'N': 3, 'order': 'F'},
             {'E': 'int', 'G': 'ints', 'F': 'int', 'R': 'int', 'T': 'int', 'dtype': 'i4'},
             {'E': 'zero', 'dtype': 'g'}, {'E': 'up', 'N': 5}, {'E': 'down', 'N': 12, 'R': 'desc'},
             {'N': 3, 'view': 1}, {'N': 4, 'T': 'mix0', 'R': 'lin', 'view': 1, 'dtype': 'g'},
             {'T': 'inf'}, {'T': 'dup', 'R': 'ones'}, {'N': 33, 'D': 2},
             {'dtype': 'g', 'N': 4, 'T': 'one'}, {'dtype': 'g', 'N': 3, 'T': 'mix0', 'R': 'lin'},
             {'dtype': 'g', 'N': 5, 'order': 'F', 'E': 'neg'}, {'N': 3, 'T': 'sizeN', 'order': 'F'},
             {'E': 'int', 'G': 'ints', 'F': 'int', 'R': 'int', 'T': 'int', 'dtype': 'i8', 'N': 6}]
ENTRY = ['P', 'C', 'Z', 'A', 'pf', 'w', 'v', 'beta', 'expo', 'expo3', 'gmean', 'cmp']


def image(arr):
    """Type, layout and values (the padding of extended precision is no value)."""
    return str(arr.dtype), arr.shape, arr.strides, arr.flags.writeable, [x.hex() if isinstance(x, float) else str(x)
                                                    for x in arr.ravel().tolist()]


def check_args(pair, which, ctx):
    """Two calls on the same arguments: arguments untouched, second result as in a world
    where only the second call was made."""
    import occuprob

    def world():
        land, _, T = L.build(ARG_LANDS[which])
        args = {k: frozen(getattr(land, k), False) for k in ('energy', 'mult', 'freq', 'sym', 'mom')}
        args['T'] = np.array(T)
        args['obs'] = np.arange(land.n * T.size, dtype=float).reshape(land.n, T.size) - 1.5
        if 'dtype' in ARG_LANDS[which]:
            args = {k: v.astype(np.longdouble if ARG_LANDS[which]['dtype'] == 'g' else
                                ARG_LANDS[which]['dtype']) for k, v in args.items()}
        if 'order' in ARG_LANDS[which]:
            args = {k: np.asfortranarray(v) for k, v in args.items()}
        if 'view' in ARG_LANDS[which]:
            # parts of larger arrays, which are arguments of no call
            larger = {f'{k} (around)': np.stack([v + 1, v, v - 1], axis=-1) for k, v in args.items()}
            args = {k: larger[f'{k} (around)'][..., 1] for k in args}
            args.update(larger)
        args['before'] = {k: image(v) for k, v in args.items()}
        parts = [occuprob.ElectronicPF(args['energy'], args['mult']),
                 occuprob.ClassicalHarmonicPF(args['freq']),
                 occuprob.RotationalPF(args['sym'], args['mom']),
                 occuprob.QuantumHarmonicPF(args['freq'])]
        sa = occuprob.SuperpositionApproximation()
        sa.add_partition_functions(parts[:3] if which % 2 else parts[:1] + parts[2:])
        return args, parts, sa

    def call(op, args, parts, sa):
        T = args['T']
        if op == 'P':
            return [sa.calc_probability(T)]
        if op == 'C':
            return [sa.calc_heat_capacity(T)]
        if op == 'Z':
            return [sa.calc_partition_functions(T)]
        if op == 'A':
            return [sa.calc_ensemble_average(T, args['obs'])]
        if op == 'pf':
            return [p.calc_part_func(T) for p in parts]
        if op == 'w':
            return [p.calc_part_func_w(T) for p in parts]
        if op == 'v':
            return [p.calc_part_func_v(T) for p in parts]
        if op == 'beta':
            return [occuprob.calc_beta(T)]
        if op == 'expo':
            return [occuprob.calc_exponent(args['energy'], T)]
        if op == 'expo3':
            return [occuprob.calc_exponent(args['freq'][:, :, None], T)]
        if op == 'gmean':
            return [occuprob.calc_geometric_mean(args['freq'])]
        d1 = {'a': args['energy'], 'b': args['freq']}
        d2 = {'a': args['energy'], 'b': args['mom'][:1]}
        ok = occuprob.compare_numpy_dictionaries(d1, dict(d1))
        if list(d1) != ['a', 'b'] or list(d2) != ['a', 'b']:
            raise Violation('comparison changed its dictionaries')
        return [np.array(float(ok))]

    args, parts, sa = world()
    before = args.pop('before')
    call(pair[0], args, parts, sa)
    got = call(pair[1], args, parts, sa)
    for k, v in args.items():
        if image(v) != before[k]:
            raise Violation(f'{pair[0]} then {pair[1]}: the {k} array was modified')
    alone = call(pair[1], *world())
    for a, b in zip(got, alone):
        if a is None or a.shape != b.shape or a.dtype != b.dtype or \
                not np.array_equal(a, b, equal_nan=True):
            raise Violation(f'{pair[1]} after {pair[0]} gives {a} instead of {b}')
    ctx.state([which, pair])
    ctx.step(3)
    ctx.trace()


# ---------------------------------------------------------------- loading
FILES = {}


def store(swapped):
    frame = '3\nEnergy={} Multiplicity={} Frequencies="{} 2.0 3.0"\nO 0 0 0\nH 0.96 0 0\nH -0.24 0.93 0\n'
    texts = [frame.format(-1.5, 2, 1.25) + frame.format(0.5, 4, 7.5),
             frame.format(3.5, 1, 4.25) + frame.format(-2.5, 6, 5.5)]
    for key, content in zip('AB', texts[::-1] if swapped else texts):
        with open(FILES[key], 'w') as fh:
            fh.write(content)
        os.utime(FILES[key], (1600000000, 1600000000))


def init():
    FILES['A'] = os.path.join(boot.scratch(), f'a-{os.getpid()}.xyz')
    FILES['B'] = os.path.join(boot.scratch(), f'b-{os.getpid()}.xyz')
    store(False)
    import occuprob
    occuprob.load_properties_from_extxyz(FILES['A'])        # imports of others


TRUTH = {'A': ([-1.5, .5], [2, 4], [[1.25, 2, 3], [7.5, 2, 3]]),
         'B': ([3.5, -2.5], [1, 6], [[4.25, 2, 3], [5.5, 2, 3]])}


def check_load(seq, ctx):
    import occuprob
    last = None
    swapped = False
    for op in seq:
        ctx.step()
        if op == 'corrupt':
            if last is not None:
                for v in last.values():
                    if v.flags.writeable:
                        v[...] = 77
                last.clear()
            continue
        if op == 'rewrite':
            # the contents of both files change, their sizes and time stamps do not
            swapped = not swapped
            store(swapped)
            continue
        with open(FILES[op], 'rb') as fh:
            raw = fh.read()
        last = occuprob.load_properties_from_extxyz(FILES[op])
        with open(FILES[op], 'rb') as fh:
            if fh.read() != raw:
                raise Violation('loading changed the file')
        e, g, f = TRUTH['AB'[('AB'.index(op) + swapped) % 2]]
        if not (np.array_equal(last['energy'], e) and np.array_equal(last['multiplicity'], g)
                and np.array_equal(last['frequencies'], np.array(f))
                and list(last['symmetry']) == [2, 2]):
            raise Violation(f'load in the history {seq} gives {last}')
    if swapped:
        store(False)
    ctx.state(['load', seq])
    ctx.trace()
