"""C15: the symmetry order is the number of proper rotations of the molecule."""
import numpy as np

import mols
from core import Violation

ID = 'C15'
CHUNK = 8
STATES = 'distinct (skeleton, substitution pattern, element pair, motion) molecules'
BOUNDS = {'quick': '52 skeletons covering C1 to Ih and linear molecules; every substitution pattern '
                   'over two elements (<= 2 substituents when there are more than 6 sites), 3 element '
                   'pairs (2 for the larger skeletons); bent molecules with every two neighbouring elements up to No; x 13 motions (rotations, translations, mirror '
                   'images, atom orders, periodic cell, 4 to 6 decimals); unsubstituted and once substituted molecules x 10 things an Atoms '
                   'object may carry besides, and changed in place between calls',
          'thorough': 'all patterns up to 8 sites, <= 3 substituents beyond, 3 element pairs'}
ASSUMPTIONS = ['geometries are symmetric to the written decimals or broken by far more than the '
               'tolerances of the symmetry search (0.3 A); single atoms are not judged']


# true order and the one reported when accidentally (nearly) equal moments mislead the search
LOW = {(2, 1), (3, 1), (2, 3)}


def cases(tier):
    quick = tier == 'quick'
    for name, (_, sites) in mols.SKELETON.items():
        k = len(sites)
        limit = (2 if quick else None) if name in mols.LARGE else None if k <= (6 if quick else 8) else (2 if quick else 3)
        for pair in range(3):
            if quick and pair == 1 and k > 6:
                continue
            for p in mols.patterns(name, limit):
                yield {'mol': name, 'pair': pair, 'pattern': p}
    for z in range(1, 103):
        for other in (z, z + 1, 6, 79):
            if (z, other) != (8, 8) or other == z:
                yield {'elements': [z, other]}
    for n in (13, 14, 15):
        yield {'ring': n}


def bent(one, two):
    """A boron atom between atoms of the given atomic numbers."""
    from ase.data import chemical_symbols
    return ['B', chemical_symbols[one], chemical_symbols[two]], np.array([[0., 0., 0.], [1.45, 1.1, 0.], [-1.45, 1.1, 0.]])


def check(case, ctx):
    if 'elements' in case:
        symbols, pos = bent(*case['elements'])
        case = {'mol': 'bent', **case}
    elif 'ring' in case:
        n = case['ring']
        case = {'mol': f'ring{n}'}
        symbols, pos = ['Au'] * n, mols.ring(n, 0.95 / np.sin(np.pi / n))
    else:
        symbols, pos = mols.molecule(case['mol'], case['pattern'], case['pair'])
    want = mols.rotation_order(symbols, pos)
    tops = mols.tops(symbols, pos)
    for motion in mols.MOTIONS:
        ask(mols.moved(motion, symbols, pos), motion, case, symbols, pos, want, tops, ctx)
    if 'pattern' in case and case['pair'] == 0 and sum(case['pattern']) < 2:
        for name, put in DECORATIONS.items():
            atoms = mols.moved('tilt', symbols, pos)
            put(atoms)
            ask(atoms, name, case, symbols, pos, want, tops, ctx)
        edited(case, symbols, pos, want, tops, ctx)


def edited(case, symbols, pos, want, tops, ctx):
    """One Atoms object that is asked, changed in place, asked, changed back and asked again."""
    import ase
    atoms = ase.Atoms(list(symbols), pos)
    ask(atoms, 'first', case, symbols, pos, want, tops, ctx)
    if len(symbols) < 3:
        return
    for what, two, there in (('an element', symbols[:-1] + ['Xe'], pos),
                             ('a place', symbols, pos * np.where(np.arange(len(pos)) == len(pos) - 1, 2.5, 1.)[:, None])):
        atoms.symbols[:] = two
        atoms.positions[:] = there
        ask(atoms, f'{what} changed in place', case, two, there, mols.rotation_order(two, there), mols.tops(two, there), ctx)
        atoms.symbols[:] = symbols
        atoms.positions[:] = pos
        ask(atoms, f'{what} changed back', case, symbols, pos, want, tops, ctx)


def spin(atoms):
    atoms.set_initial_magnetic_moments([3.] + [0.5] * (len(atoms) - 1))
    atoms.set_initial_charges([1.] + [-0.25] * (len(atoms) - 1))


def calculator(atoms):
    from ase.calculators.singlepoint import SinglePointCalculator
    atoms.calc = SinglePointCalculator(atoms, energy=-1.5, forces=np.ones((len(atoms), 3)), magmom=2.)


def constraint(atoms):
    from ase.constraints import FixAtoms
    atoms.set_constraint(FixAtoms([0]))


# what an Atoms object may carry besides elements and coordinates
DECORATIONS = {
    'masses': lambda a: a.set_masses(1. + np.arange(len(a)) * 2.5),
    'tags': lambda a: a.set_tags(range(len(a))),
    'magnetic moments and charges': spin, 'calculator': calculator, 'constraint': constraint,
    'momenta': lambda a: a.set_momenta(np.arange(3. * len(a)).reshape(-1, 3)),
    'info': lambda a: a.info.update(charge=1, spin_multiplicity=2, symmetry_order=77, Symmetry='C1'),
    'slab': lambda a: (a.set_cell([9., 9., 30.]), a.set_pbc([True, True, False])),
    'skew cell': lambda a: (a.set_cell([[3., 0, 0], [1., 4., 0], [0.5, 1., 5.]]), a.set_pbc(True)),
    'arrays': lambda a: (a.new_array('forces', np.arange(3. * len(a)).reshape(-1, 3)), a.new_array('label', np.arange(len(a)))),
}


def ask(atoms, motion, case, symbols, pos, want, tops, ctx):
    from occuprob.io import calc_symmetry_order
    keep = atoms.copy()
    got = calc_symmetry_order(atoms)
    ctx.step()
    ctx.trace()
    ctx.state([case, motion])
    ctx.outcome([case['mol'], want])
    ctx.count(f'rotation order {want}')
    if np.ndim(got) != 0 or int(got) != got or got < 1:
        raise Violation(f'symmetry order {got!r} is not a positive whole number')
    if atoms != keep or repr(atoms.constraints) != repr(keep.constraints) or \
            list(atoms.arrays) != list(keep.arrays) or atoms.info != keep.info or \
            any(not np.array_equal(atoms.arrays[k], v) for k, v in keep.arrays.items()):
        raise Violation('the molecule was modified')
    if got != want:
        msg = (f'{case["mol"]} with elements {"".join(symbols)} ({motion}): symmetry order '
               f'{got} instead of {want}')
        if mols.is_linear(pos) and want == 2 and got == 1:
            ctx.known('LINEAR-SIGMA', msg)
        elif not mols.is_linear(pos) and tops[0] < 0.0105 and got == 1:
            ctx.known('NEAR-LINEAR', msg)
        elif (want, got) in LOW and tops[1] < 0.0105:
            ctx.known('NEAR-SYMMETRIC', msg)
        elif 'ring' in case['mol'] and len(set(symbols)) == 1 and len(symbols) > 12 and got < want:
            ctx.known('CROWDED-RING', msg)
        else:
            raise Violation(msg)
