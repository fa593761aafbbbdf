"""C16: rigid motions of the input structures change no result."""
import itertools

import numpy as np

import files
import land as L
import mols
import ref
from core import Violation

ID = 'C16'
CHUNK = 2
STATES = 'distinct (isomers, motion of each isomer) input files'
BOUNDS = {'quick': 'every skeleton of the catalogue (52, bare and with one substituent) at every '
                   'position of a 3-isomer file x 13 motions; all 13^2 pairs of motions for 10 '
                   'two-isomer files; 4 contribution sets',
          'thorough': 'all patterns with <= 2 substituents; pairs of motions for 40 two-isomer files'}
ASSUMPTIONS = ['coordinates are written with 4 to 6 decimals; tolerances follow the decimals']
SETS = ['R', 'SR', 'ECR', 'SQR']
T = np.array([40., 150., 300., 1000.])
FIXED = [('bipyramid', (0, 0, 0, 1, 1), 1), ('linear2', (0, 1), 0)]
PAIRS = [('bent', 'linear3'), ('linear2', 'linear3'), ('linear4', 'allene'), ('ethylene', 'peroxide'),
         ('octahedron', 'prism'), ('tetrahedral', 'square'), ('linearasym', 'hexagon'),
         ('chiral', 'propeller'), ('cube', 'sandwich'), ('linear5', 'bipyramid')]


def cases(tier):
    quick = tier == 'quick'
    for name, (_, sites) in mols.SKELETON.items():
        for p in mols.patterns(name, 1 if quick else 2):
            if quick and sum(p) and p[0] == 0:
                continue
            for where in range(3):
                yield {'mol': [name, p, 0], 'where': where}
    pairs = list(PAIRS)
    if not quick:
        names = list(mols.SKELETON)
        pairs += [(a, names[(i * 7 + 3) % len(names)]) for i, a in enumerate(names)]
    for a, b in pairs:
        for m in mols.MOTIONS:
            yield {'pair': [a, b], 'first': m}


def digits(motion):
    return mols.STORED.get(motion, (6, False))[0]


def write(specs, motions):
    out = ''
    for i, (spec, motion) in enumerate(zip(specs, motions)):
        symbols, pos = mols.molecule(*spec)
        s, x = mols.MOTIONS[motion](list(symbols), pos)
        f = files.isomer(i, 4)
        f.update(symbols=list(s), pos=np.asarray(x).round(digits(motion)))
        style = {'extra': 'cell'} if mols.STORED.get(motion, (6, False))[1] else {}
        out += files.frame_text(f, style)
    return out


def results(box, content, n):
    import occuprob
    box.write('a.xyz', content)
    props = occuprob.load_properties_from_extxyz('a.xyz')
    out = {}
    for pfs in SETS:
        sa = occuprob.SuperpositionApproximation()
        for k in pfs:
            sa.add_partition_functions(
                occuprob.ElectronicPF(props['energy'], np.ones(n)) if k == 'E' else
                occuprob.ElectronicPF(props['energy'], props['multiplicity']) if k == 'S' else
                occuprob.ClassicalHarmonicPF(props['frequencies']) if k == 'C' else
                occuprob.QuantumHarmonicPF(props['frequencies']) if k == 'Q' else
                occuprob.RotationalPF(props['symmetry'], props['moments']))
        out[pfs] = (np.asarray(sa.calc_probability(T), float),
                    np.asarray(sa.calc_heat_capacity(T), float))
    return props, out


def reference(specs, sym):
    frames = []
    for i, spec in enumerate(specs):
        f = files.isomer(i, 4)
        symbols, pos = mols.molecule(*spec)
        f.update(symbols=symbols, pos=pos, sigma=sym[i])
        frames.append(f)
    land = files.landscape(frames)
    return land, {pfs: (np.asarray(ref.prob(land, pfs, T), float),
                        np.asarray(ref.cap(land, pfs, T)[0], float)[None]) for pfs in SETS}


def compare(props, got, specs, motions, base, ctx):
    sym, land, want = base
    tol = 20. * 10. ** -min(digits(m) for m in motions)
    what = f'isomers {[s[0] for s in specs]} after the motions {motions}'
    if not np.array_equal(np.asarray(props['symmetry'], float), np.asarray(sym, float)):
        raise Violation(f'{what}: symmetry orders {props["symmetry"]} instead of {sym}')
    mom = np.asarray(props['moments'], float)
    if mom.shape != land.mom.shape or \
            not (abs(mom - land.mom) <= tol * land.mom.max(axis=1, keepdims=True)).all():
        raise Violation(f'{what}: moments {mom.tolist()} instead of {land.mom.tolist()}')
    for pfs in SETS:
        for name, g, w, t in (('probabilities', got[pfs][0], want[pfs][0], tol),
                              ('heat capacity', got[pfs][1], want[pfs][1], 10 * tol)):
            if g.shape != w.shape or not (abs(g - w) <= t * (1 + abs(w))).all():
                raise Violation(f'{what}: {name} with {pfs} {g.tolist()} instead of {w.tolist()}')
    ctx.state([specs, motions])
    ctx.step(2 * len(SETS) + 1)
    ctx.trace()


def check(case, ctx):
    with files.Box() as box:
        if 'mol' in case:
            name, p, pair = case['mol']
            specs = list(FIXED)
            specs.insert(case['where'], (name, tuple(p), pair))
        else:
            specs = [(n, (0,) * len(mols.SKELETON[n][1]), 0) for n in case['pair']]
        n = len(specs)
        # the symmetry orders themselves are decided by C15; here they must not change
        props, got = results(box, write(specs, ['none'] * n), n)
        sym = np.asarray(props['symmetry'], float).tolist()
        base = (sym, *reference(specs, sym))
        compare(props, got, specs, ['none'] * n, base, ctx)
        for m in mols.MOTIONS:
            if 'mol' in case:
                motions = ['none'] * n
                motions[case['where']] = m
            else:
                motions = [case['first'], m]
            props, got = results(box, write(specs, motions), n)
            compare(props, got, specs, motions, base, ctx)
        ctx.outcome([[s[0] for s in specs], sym])
