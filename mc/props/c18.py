"""C18: the command line reports what was asked for, computed from the file."""
import itertools
import os
import subprocess
import sys

import numpy as np

import boot
import core
import files
import mols
from core import Violation

ID = 'C18'
CHUNK = 1
STATES = 'distinct (option spelling, order, clustering, position, input file) command lines'
BOUNDS = {'quick': 'all 2^5 subsets of -e -s -c -q -r; for the 18 consistent ones every order, every '
                   'upper/lower case spelling, separate or clustered, before/after (up to two options: anywhere '
                   'around) the file name, repeated options; every conflicting subset in every order; 3 input files '
                   '(documented example, 3 mixed isomers, 1 isomer); every consistent subset for 30 '
                   'inputs with coincidences (equal or whole energies, multiplicities, spectra, shapes); '
                   '5 larger files; 6 command lines also run as a '
                   'separate process and compared byte by byte',
          'thorough': 'all spellings for all 3 files (quick: all for one, one spelling for the others), '
                      '7 more files with 1..12 isomers and 1..13 modes, and 40 separate processes'}
ASSUMPTIONS = ['runs happen in one process through the entry point function; the separate-process '
               'runs validate this']
INPUTS = ['mixed', 'pt5', 'single']
SIX = '1.25 2.5 3.0 3.75 4.5 8.0'.split()
ASYM = [('bent', (0, 1)), ('peroxide', (0, 1)), ('chiral', (0, 1))]
SPECIAL = {         # coincidences between the three isomers
    'singlets': {'mult': '1'}, 'triplets': {'mult': '3'}, 'doublets': {'mult': ['2', '2', '1']},
    'one energy': {'energy': '-7.5'}, 'zero energy': {'energy': '0'}, 'zero lowest': {'energy': ['0.0', '0.25', '0.125']},
    'positive energies': {'energy': ['3.0', '2.75', '2.5']}, 'mixed signs': {'energy': ['-0.125', '0.0', '0.125']},
    'whole energies': {'energy': ['-7', '-8', '-7']}, 'two degenerate': {'energy': ['-7.5', '-7.0', '-7.5']},
    'far': {'energy': ['-180.5', '-100.0', '-50.0']},
    'one spectrum': {'freq': SIX}, 'sorted down': {'freq': SIX[::-1]}, 'one frequency': {'freq': ['2.0'] * 6},
    'stiff': {'freq': ['95.5', '100.25', '110.0', '99.0', '120.0', '101.5']},
    'soft': {'freq': ['0.05', '0.02', '0.1', '0.04', '0.06', '0.03']},
    'whole frequencies': {'freq': ['1', '2', '3', '4', '5', '6']},
    'no symmetry': {'shape': ASYM}, 'only inertia': {'shape': ASYM, 'mult': '1', 'energy': '-7.5', 'freq': SIX},
    'one shape': {'shape': 0}, 'two shapes': {'shape': [0, 1, 1]},
    'identical': {'mult': '3', 'energy': '-7.5', 'freq': SIX, 'shape': 0},
    'energy only': {'mult': '2', 'freq': SIX, 'shape': 0}, 'spin only': {'energy': '-7.5', 'freq': SIX, 'shape': 0},
    'modes only': {'mult': '1', 'energy': '-7.5', 'shape': 0}, 'shape only': {'mult': '1', 'energy': '-7.5', 'freq': SIX},
    'weak spins': {'mult': ['0.5', '0.25', '3']}, 'no spin': {'mult': ['0', '1', '3']},
    'large spins': {'mult': ['11', '101', '1']}, 'swapped': {'mult': ['3', '1', '1'], 'energy': ['-7.5', '-7.5', '-8.0']},
}


def frames_of(name):
    if name == 'pt5':
        return files.pt5()
    if name == 'single':
        return [files.isomer(3, 6)]
    if name == 'mixed':
        return [files.isomer(i, 6) for i in (0, 1, 6)]
    if name in SPECIAL:
        frames = [files.isomer(i, 6) for i in (0, 1, 6)]
        for key, vals in SPECIAL[name].items():
            for f, v in zip(frames, vals if isinstance(vals, list) and key != 'freq' else [vals] * 3):
                if key == 'shape' and isinstance(v, tuple):
                    f['symbols'], f['pos'] = mols.molecule(v[0], v[1], 0)
                elif key == 'shape':
                    f['symbols'], f['pos'] = frames[v]['symbols'], frames[v]['pos']
                else:
                    f[key] = v
        return frames
    n, d = map(int, name.split('x'))
    return [files.isomer(i, d) for i in range(n)]


def spellings(flags):
    """Every token list for an ordered tuple of one-letter options."""
    for cases_ in itertools.product([str.lower, str.upper], repeat=len(flags)):
        let = [c(f) for c, f in zip(cases_, flags)]
        yield ['-' + x for x in let]
        if len(let) > 1:
            yield ['-' + ''.join(let)]
        if len(let) > 2:
            yield ['-' + ''.join(let[:2]), '-' + ''.join(let[2:])]


def cases(tier):
    quick = tier == 'quick'
    runs = ['sqr', 'ec', 'r', '', 'es', 'q'] if quick else \
        [''.join(s) for k in range(4) for s in itertools.combinations('escqr', k)]
    for sub in runs:
        for name in INPUTS[:1] if quick else INPUTS[:2]:
            bad = {'e', 's'} <= set(sub) or {'c', 'q'} <= set(sub)
            yield {'input': name, 'tokens': ['-' + sub] if sub else [], 'at': 0,
                   'want': None if bad else sub, 'process': 1}
    for k in range(6):
        for sub in itertools.combinations('escqr', k):
            bad = {'e', 's'} <= set(sub) or {'c', 'q'} <= set(sub)
            for order in itertools.permutations(sub):
                for j, tokens in enumerate(spellings(order)):
                    if bad and j > 2 and quick:
                        break
                    for i, name in enumerate(INPUTS):
                        if quick and i and (j or order != sub):
                            continue
                        for where in range(len(tokens) + 1):
                            if quick and (i or bad or k > 2) and where not in (0, len(tokens)):
                                continue
                            yield {'input': name, 'tokens': tokens, 'at': where,
                                   'want': None if bad else ''.join(sub)}
            if not bad and sub:
                yield {'input': 'mixed', 'tokens': ['-' + sub[0], '-' + ''.join(sub),
                                                    '-' + sub[0].upper()], 'at': 1,
                       'want': ''.join(sub)}
    for name in SPECIAL:
        for k in range(1, 6):
            for sub in itertools.combinations('escqr', k):
                if not ({'e', 's'} <= set(sub) or {'c', 'q'} <= set(sub)):
                    yield {'input': name, 'tokens': ['-' + ''.join(sub)], 'at': 0, 'want': ''.join(sub)}
    for name in ('4x6', '7x2', '40x3', '3x48', '2x54'):
        for sub in ('e', 's', 'c', 'q', 'r', 'sqr', 'ecr'):
            yield {'input': name, 'tokens': ['-' + sub], 'at': 0, 'want': sub}
    if not quick:
        for name in ('1x1', '2x1', '2x2', '5x3', '3x9', '12x4', '4x13'):
            for sub in ('e', 's', 'c', 'q', 'r', 'ec', 'sq', 'eqr', 'scr', 'sqr'):
                yield {'input': name, 'tokens': ['-' + sub], 'at': 0, 'want': sub}


PF = {'e': 'E', 's': 'S', 'c': 'C', 'q': 'Q', 'r': 'R'}


def check(case, ctx):
    frames = frames_of(case['input'])
    T = np.arange(0., 61., 1.)
    args = list(case['tokens'])
    args.insert(case['at'], 'in.xyz')
    args += ['--max_temp', '60']
    with files.Box() as box:
        content = files.text(frames)
        box.write('in.xyz', content)
        run = files.cli(args)
        made = box.files()
        if case.get('process'):
            against_process(args, content, run, made)
    ctx.state([case['input'], args])
    ctx.step()
    ctx.trace()
    cmd = 'occuprob ' + ' '.join(args)
    if made.pop('in.xyz').decode() != content:
        raise Violation(f'{cmd} changed the input file')
    if case['want'] is None or case['want'] == '':
        if made:
            raise Violation(f'{cmd} wrote {sorted(made)}')
        if case['want'] is None and run.code == 0:
            raise Violation(f'{cmd}: conflicting options were accepted')
        if case['want'] is None and not run.err.strip():
            raise Violation(f'{cmd}: conflicting options were rejected without a message')
        if case['want'] == '' and not (run.out + run.err).strip():
            raise Violation(f'{cmd}: nothing was reported')
        ctx.outcome([run.code, case['want']])
        return
    if run.code != 0:
        raise Violation(f'{cmd} failed with status {run.code}: {run.err[-300:]}')
    if set(made) != {'in_P.dat', 'in_C.dat'}:
        raise Violation(f'{cmd} wrote {sorted(made)}')
    tabs = {k: files.table(made[f'in_{k}.dat'], f'in_{k}.dat') for k in 'PC'}
    pfs = ''.join(PF[x] for x in case['want'])
    files.check_tables(tabs, frames, pfs, T, cmd)
    ctx.outcome([case['input'], pfs, round(float(np.nan_to_num(tabs['P'][-1, 1])), 9)])


def against_process(args, content, run, made):
    """The same command line in a process of its own: same status, same files."""
    with files.Box() as box:
        box.write('in.xyz', content)
        code = ('import sys; sys.path.insert(0, %r); from occuprob.cli import main; '
                'sys.exit(main())' % boot.REPO)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPYCACHEPREFIX=os.path.join(boot.scratch(), 'pyc2'))
        proc = subprocess.run([sys.executable, '-c', code] + args, capture_output=True, text=True,
                              env=env, timeout=200)
        if (proc.returncode != 0) != (run.code != 0):
            raise Violation(f'{args}: exit status {proc.returncode} in a separate process, '
                            f'{run.code} in this one: {proc.stderr[-300:]}')
        if box.files() != made:
            raise Violation(f'{args}: a separate process wrote other files or contents')
