"""C17: loading an Extended XYZ file reproduces every isomer faithfully and in order."""
import os
import itertools

import numpy as np

import core
import files
import mols
from core import Violation

ID = 'C17'
CHUNK = 4
STATES = 'distinct (isomers in the file, notation of each isomer) files loaded'
AXES = {
    'n': [3, 1, 2, 5, 12],
    'd': [9, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 15, 16, 18, 24, 25, 30, 54],
    'order': ['PEMF', 'EMFP', 'FMEP', 'MFPE', 'FPME', 'EFM', 'FEM'],
    'quote': ['"%s"', "'%s'", '{%s}', '[%s]', '" %s "'],
    'sep': [' ', '  ', '\t', ', ', '   '],
    'number': ['plain', 'exponent', 'digits', 'upper', 'padded'],
    'mult': ['plain', 'real', 'exponent'],
    'columns': ['', 'forces', 'tags'],
    'extra': [None, 'first', 'last', 'cell', 'between'],
    'gap': [' ', '   '],
    'trail': ['', '  '],
    'eol': ['\n', '\r\n'],
    'values': ['usual', 'tiny', 'high', 'repeat', 'precise', 'whole', 'imaginary', 'down', 'wide',
               'special', 'none', 'small'],
    'name': ['a.xyz', 'b.extxyz', 'x.y.xyz', 'sub/dir/c.xyz', 'a@1.xyz', 'b@0', 'c@:2', 'd@300K.xyz', 'CONTCAR.xyz',
             'POSCAR', 'OUTCAR.xyz', 'iso.txt', 'iso', 'x.cif', 'run.log', 'a*.xyz', 'a?.xyz', '[ab].xyz', 'A.XYZ',
             'x.json', 'y.traj', 'http:x.xyz', 'a b.xyz', '\u00fc.xyz', 'e@f@0:1'],
}
BOUNDS = {'quick': 'all files within 2 deviations of a 3-isomer, 9-mode file over 14 axes '
                   '(numbers of isomers and modes, key order, quoting, separators, number notation, '
                   'extra keys and columns, line ends, values, file names), 12 more numbers of isomers up to 260 and 10 of modes up to 299, all 2^4 assignments of two '
                   'notations to 4 isomers for 10 pairs of notations, all orders of 4 isomers, all files of <= 2 isomers '
                   '(and all orders) over five families (3 to 13 atoms) of equal composition and bond lengths, all 31 '
                   'sets of properties shared by two isomers; every '
                   'file also loaded after an earlier file of the same name',
          'thorough': 'within 3 deviations; all orders of 5 isomers'}
ASSUMPTIONS = ['numbers without a physical meaning (nan, infinite, degeneracies below 1) may be refused; where they are not, '
               'they are reproduced', 'one blank-free frame after another, as the Extended XYZ format requires',
               'separator commas only inside [...] or quotes']


def fmt(kind):
    if kind == 'exponent':
        return lambda x: f'{float(x):.16e}'
    if kind == 'upper':
        return lambda x: f'{float(x):.16E}'
    if kind == 'digits':
        return lambda x: f'{float(x):.12f}'
    if kind == 'padded':
        return lambda x: x if x.startswith('-') else '0' + x
    if kind == 'real':
        return lambda x: f'{float(x):.1f}'
    return str


def values(frames, kind):
    for i, f in enumerate(frames):
        d = len(f['freq'])
        if kind == 'tiny':
            f['freq'] = [f'0.0{1 + (3 * i + k) % 9}' for k in range(d)]
        elif kind == 'high':
            f['freq'] = [f'{100 + 7 * k + i}.5' for k in range(d)]
        elif kind == 'repeat':
            f['freq'] = ['3.25'] * d
        elif kind == 'precise':
            f['freq'] = [f'{(k + 1) * 1.2345678901 + i / 7:.11f}' for k in range(d)]
            f['energy'] = f'-{1234 + i / 7:.11f}'
        elif kind == 'imaginary':
            f['freq'] = [f'{(-1) ** (k == i) * (1.5 + (2 * i + 3 * k) % 8)}' for k in range(d)]
        elif kind == 'down':
            f['freq'] = [f'{40.25 - 0.5 * k - i / 8}' for k in range(d)]
            f['energy'] = f'{4433.125 - i}'
        elif kind == 'wide':
            f['freq'] = [['1.5e-7', '2.5e7', '0.0', '3', '1e20', '-0.25'][(k + i) % 6] for k in range(d)]
            f['energy'] = ['0.0', '-1e-6', '1e12', '-4.5e5'][i % 4]
        elif kind == 'special':
            f['freq'] = [['nan', '2.5', 'inf', '-inf', '1.5'][(k + i) % 5] for k in range(d)]
            f['energy'] = ['-1.5', 'nan', 'inf', '-inf'][i % 4]
        elif kind == 'none':
            f['freq'] = [['0.0', '0.0', '1.25', '-0.0'][(k + i) % 4] for k in range(d)]
            f['mult'] = ['0', '1', '-1', '2'][i % 4]
            f['energy'] = ['0.0', '-2.5', '0.0'][i % 3]
        elif kind == 'small':
            f['freq'] = [['5e-324', '1e-310', '1e-17', '2e-300'][(k + i) % 4] for k in range(d)]
            f['energy'] = ['5e-324', '-1e-310', '1e-16', '0.0'][i % 4]
        elif kind == 'whole':
            f['freq'] = [str(1 + (2 * i + 3 * k) % 8) for k in range(d)]
            f['energy'] = str(-7 + i)
    return frames


def cases(tier):
    yield {'pt5': 1}
    yield from core.deviations(AXES, 2 if tier == 'quick' else 3)
    for n in (7, 9, 10, 11, 16, 33, 64, 99, 100, 101, 130, 260):
        yield {'n': n, 'd': 4}
    for d in (36, 48, 63, 64, 65, 99, 100, 101, 150, 299):
        yield {'n': 2, 'd': d}
        yield {'n': 2, 'd': d, 'values': 'precise', 'number': 'digits'}
    notations = [{}, {'quote': '[%s]', 'sep': ', '}, {'order': 'FMEP', 'number': 'exponent'},
                 {'columns': 'forces', 'extra': 'first'}, {'extra': 'cell'}]
    for a, b in itertools.combinations(range(len(notations)), 2):
        for pick in itertools.product([0, 1], repeat=4):
            yield {'mix': pick, 'styles': [notations[a], notations[b]]}
    for fam in FAMILIES.values():
        for n in range(1, 3 if tier == 'quick' else 4):
            for seq in itertools.product(fam, repeat=n):
                yield {'family': seq}
        for seq in itertools.permutations(fam):
            yield {'family': seq}
    for k in range(1, 6):
        for share in itertools.combinations(SHARED, k):
            for pair in ((0, 1), (0, 2), (1, 2)):
                for d in (3, 9):
                    yield {'share': share, 'pair': pair, 'd': d}
    for perm in itertools.permutations(range(4 if tier == 'quick' else 5)):
        for d in (3, 9):
            yield {'perm': perm, 'd': d}


# shapes of one composition whose atoms have the same distances from the first one
FAMILIES = {'MX4': ['tetrahedral', 'flat', 'seesaw', 'pyramid'], 'MX3': ['planar', 'pyramid3', 'tee'],
            'MX2': ['wide', 'narrow'], 'M8': ['cube', 'antiprism', 'prism4', 'star'],
           'M12': ['icosahedron', 'cuboctahedron', 'prism6']}
LARGER = FAMILIES['M8'] + FAMILIES['M12']
SHARED = ['energy', 'mult', 'freq', 'formula', 'shape']


def shape(name):
    if name in ('planar', 'pyramid3', 'tee'):
        x = {'planar': mols.ring(3, 1.3), 'tee': mols.ring(4, 1.3)[:3],
             'pyramid3': np.hstack([mols.ring(3, 1.2)[:, :2], np.full((3, 1), .5)])}[name]
        x = x / np.linalg.norm(x, axis=1)[:, None] * 1.3
        sym = ['B'] + ['F'] * 3
    elif name in ('wide', 'narrow'):
        h = {'wide': 1.0, 'narrow': 0.7}[name]
        x = np.array([[np.sin(h), np.cos(h), 0], [-np.sin(h), np.cos(h), 0]])
        sym = ['O', 'H', 'H']
    elif name in LARGER:
        # around a central atom, all at one distance
        x = {'cube': mols.CUBE, 'antiprism': np.vstack([mols.ring(4, 1., .6), mols.ring(4, 1., -.6, .5)]),
             'prism4': np.vstack([mols.ring(4, 1., .45), mols.ring(4, 1., -.45)]),
             'star': np.vstack([mols.ring(7, 1., .2), [[0, 0, -1.]]]),
             'icosahedron': mols.ICO, 'cuboctahedron': mols.signs(*mols.cyc(1., 1., 0.)),
             'prism6': np.vstack([mols.ring(6, 1., .5), mols.ring(6, 1., -.5)])}[name]
        x = x / np.linalg.norm(x, axis=1)[:, None] * 2.7
        sym = ['Ag'] + ['Pt'] * len(x)
    else:
        x = {'tetrahedral': mols.TET, 'flat': mols.ring(4, 1.),
             'seesaw': np.array([[0, 0, 1], [0, 0, -1], [.866, .5, 0], [-.866, .5, 0]]),
             'pyramid': np.hstack([mols.ring(4, .9)[:, :2], np.full((4, 1), .45)])}[name]
        x = x / np.linalg.norm(x, axis=1)[:, None] * 1.7
        sym = ['Pt'] + ['F'] * 4
    x = np.vstack([np.zeros((1, 3)), x])
    return sym, (x @ mols.rot([1, 2, -1], 0.4).T).round(6)


def family(case):
    """Isomers of one family in a given order; the last one shares some data with the first."""
    frames = []
    for i, name in enumerate(case['family']):
        f = files.isomer(i, 4)
        f['symbols'], f['pos'] = shape(name)
        frames.append(f)
    return frames


def sharing(case):
    """Three isomers; two of them agree in the listed properties."""
    frames = [files.isomer(i, case['d']) for i in (2, 4, 0)]
    a, b = case['pair']
    one, two = frames[a], frames[b]
    for key in case['share']:
        if key == 'formula':
            one['symbols'], one['pos'] = shape('flat')
            two['symbols'], two['pos'] = shape('tetrahedral')
        elif key == 'shape':
            two['symbols'], two['pos'] = one['symbols'], one['pos']
        else:
            two[key] = one[key]
    return frames


def style_of(case):
    s = {k: case.get(k, AXES[k][0]) for k in ('order', 'quote', 'sep', 'columns', 'extra', 'gap',
                                              'trail', 'eol')}
    s['number'] = fmt(case.get('number', 'plain'))
    if case.get('values') == 'small' and case.get('number') == 'digits':
        s['number'] = str       # twelve decimals lose these
    s['mult'] = fmt(case.get('mult', 'plain'))
    if s['columns'] and 'P' not in s['order']:
        s['columns'] = ''
    if s['quote'] == '[%s]' and s['sep'] != ', ':
        s['sep'] = ', '
    return s


STAMP = (1600000000, 1600000000)


def padded(content, size):
    """The file with an extra key in its first comment line that makes up the size."""
    lines = content.split('\n')
    gap = size - len(content.encode())
    if gap > 5:
        lines[1] += ' pad=' + 'x' * (gap - 5)
    return '\n'.join(lines)


def check(case, ctx):
    from occuprob.io import load_properties_from_extxyz as load
    name = case.get('name', 'a.xyz')
    if 'pt5' in case:
        frames = files.pt5()
        content = files.text(frames)
    elif 'mix' in case:
        frames = [files.isomer(i, 6) for i in range(4)]
        content = ''.join(files.frame_text(f, style_of(case['styles'][p]))
                          for f, p in zip(frames, case['mix']))
    elif 'family' in case:
        frames = family(case)
        content = files.text(frames)
    elif 'share' in case:
        frames = sharing(case)
        content = files.text(frames)
    elif 'perm' in case:
        frames = [files.isomer(i, case['d']) for i in case['perm']]
        content = files.text(frames)
    else:
        frames = values([files.isomer(i, case.get('d', 9)) for i in range(case.get('n', 3))],
                        case.get('values', 'usual'))
        content = files.text(frames, style_of(case))
    other = [files.isomer(i + 5, len(frames[0]['freq'])) for i in range(len(frames))]
    with files.Box() as box:
        for decoy in {name.partition('@')[0], name.rpartition('@')[0], 'aa.xyz', 'a1.xyz', 'b.xyz'} - {'', name}:
            if 'name' in case:
                box.write(decoy, files.text([files.isomer(i + 3, 9) for i in range(4)]))
        others = set(box.files())
        # an earlier file of the same name, time stamp and (where possible) size
        box.write(name, padded(files.text(other), len(content.encode())))
        os.utime(name, STAMP)
        judge(load(name), other, ctx, 'the earlier file')
        box.write(name, content)
        os.utime(name, STAMP)
        try:
            got = load(name)
        except Exception:
            # numbers without a physical meaning may be refused, but not be replaced
            if case.get('values') not in ('special', 'none'):
                raise
            ctx.count('refused')
            got = None
        if got is not None:
            judge(got, frames, ctx, 'the file')
        if box.files()[name] != content.encode():
            raise Violation('the input file was modified')
        if set(box.files()) != {name} | others:
            raise Violation(f'loading created files: {sorted(box.files())}')
    ctx.state(content)
    ctx.step(2)
    ctx.trace()


_memo = {}


def geometry(f):
    key = (''.join(f['symbols']), np.asarray(f['pos']).tobytes())
    if key not in _memo:
        _memo[key] = files.inertia(f['symbols'], f['pos']), files.sigma(f)
    return _memo[key]


def judge(got, frames, ctx, what):
    if not isinstance(got, dict) or not {'energy', 'multiplicity', 'frequencies', 'moments',
                                         'symmetry'} <= set(got):
        raise Violation(f'{what}: loaded {type(got).__name__} with keys {sorted(got)}')
    n, d = len(frames), len(frames[0]['freq'])
    geo = [geometry(f) for f in frames]
    want = {'energy': np.array([float(f['energy']) for f in frames]),
            'multiplicity': np.array([float(f['mult']) for f in frames]),
            'frequencies': np.array([[float(x) for x in f['freq']] for f in frames]),
            'moments': np.array([g[0] for g in geo]),
            'symmetry': np.array([float(g[1]) for g in geo])}
    shapes = {'energy': (n,), 'multiplicity': (n,), 'frequencies': (n, d), 'moments': (n, 3),
              'symmetry': (n,)}
    for key, val in want.items():
        arr = got[key]
        if not isinstance(arr, np.ndarray) or arr.shape != shapes[key] or arr.dtype.kind not in 'fiu':
            raise Violation(f'{what}: {key} is {type(arr).__name__} of shape '
                            f'{getattr(arr, "shape", None)} and type {getattr(arr, "dtype", None)}, '
                            f'expected {shapes[key]} numbers')
        a = np.asarray(arr, dtype=float)
        tol = 1e-7 * val.max() if key == 'moments' else 0.
        with np.errstate(invalid='ignore'):
            bad = np.argwhere(~((abs(a - val) <= tol) | (a == val) | (np.isnan(a) & np.isnan(val))))
        if bad.size:
            raise Violation(f'{what}: {key}{list(map(int, bad[0]))} is {a[tuple(bad[0])]!r} instead of '
                            f'{val[tuple(bad[0])]!r}')
    ctx.outcome([n, d, want['symmetry'].tolist(), want['energy'].tolist()])
