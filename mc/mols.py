"""Molecule catalogue, rigid motions, and an independent count of proper rotations."""
import itertools

import numpy as np


def ring(n, r, z=0., phase=0.):
    a = 2 * np.pi * (np.arange(n) + phase) / n
    return np.stack([r * np.cos(a), r * np.sin(a), np.full(n, z)], axis=1)


def _v(*rows):
    return np.array(rows, dtype=float)


PHI = (1 + 5 ** 0.5) / 2
OCT = _v([1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1])
CUBE = np.array(list(itertools.product([1., -1.], repeat=3)))
TET = _v([1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1])
ICO = np.array([p for s in itertools.product([1., -1.], repeat=2)
                for p in ([0, s[0], s[1] * PHI], [s[0], s[1] * PHI, 0], [s[1] * PHI, 0, s[0]])])
O3 = np.zeros((1, 3))

# name: (fixed part [(element, positions)], positions that carry the substitution pattern)
SKELETON = {
    'bent': ([('O', O3)], _v([0.76, 0.59, 0], [-0.76, 0.59, 0])),
    'pyramid3': ([('N', O3)], ring(3, 0.94, 0.38)),
    'planar3': ([('B', O3)], ring(3, 1.3)),
    'triangle': ([], ring(3, 1.5)),
    'tetrahedral': ([('C', O3)], TET * 0.63),
    'tetrahedron': ([], TET),
    'rectangle': ([], _v([1, .7, 0], [-1, .7, 0], [-1, -.7, 0], [1, -.7, 0])),
    'square': ([('Pt', O3)], ring(4, 2.0)),
    'squarepyramid': ([('Pt', _v([0, 0, 1.8]))], ring(4, 1.9)),
    'bipyramid': ([('P', O3)], np.vstack([ring(3, 1.5), _v([0, 0, 1.7], [0, 0, -1.7])])),
    'octahedral': ([('S', O3)], OCT * 1.6),
    'octahedron': ([], OCT * 1.9),
    'prism': ([], np.vstack([ring(3, 1.5, 1.4), ring(3, 1.5, -1.4)])),
    'antiprism': ([], np.vstack([ring(3, 1.3, 1.6), ring(3, 1.3, -1.6, 0.5)])),
    'twisted': ([('C', _v([0, 0, .77], [0, 0, -.77]))],
                np.vstack([ring(3, 1.0, 1.2), ring(3, 1.0, -1.2, 0.2)])),
    'staggered': ([('C', _v([0, 0, .77], [0, 0, -.77]))],
                  np.vstack([ring(3, 1.0, 1.2), ring(3, 1.0, -1.2, 0.5)])),
    'eclipsed': ([('C', _v([0, 0, .77], [0, 0, -.77]))],
                 np.vstack([ring(3, 1.0, 1.2), ring(3, 1.0, -1.2)])),
    'ethylene': ([('C', _v([.67, 0, 0], [-.67, 0, 0]))],
                 _v([1.24, .93, 0], [1.24, -.93, 0], [-1.24, .93, 0], [-1.24, -.93, 0])),
    'allene': ([('C', _v([1.3, 0, 0], [0, 0, 0], [-1.3, 0, 0]))],
               _v([1.9, .93, 0], [1.9, -.93, 0], [-1.9, 0, .93], [-1.9, 0, -.93])),
    'peroxide': ([('O', _v([.73, 0, 0], [-.73, 0, 0]))], _v([.9, .8, .5], [-.9, -.8, .5])),
    'pentagon': ([], ring(5, 1.6)),
    'hexagon': ([('C', ring(6, 1.4))], ring(6, 2.48)),
    'cube': ([], CUBE * 1.3),
    'sandwich': ([('Fe', O3)], np.vstack([ring(5, 1.2, 1.66), ring(5, 1.2, -1.66)])),
    'boat4': ([], _v([1.2, 0, .3], [-1.2, 0, .3], [0, 1.2, -.3], [0, -1.2, -.3])),
    'propeller': ([('B', O3), ('O', ring(3, 1.37))],
                  ring(3, 1.9, 0.0, 0.13) + _v([0, 0, .2])),
    'chiral': ([('C', O3), ('F', _v([.7, .7, .7])), ('Cl', _v([.9, -.9, -1.0]))],
               _v([-1.1, 1.2, -1.1], [-.6, -.6, .6])),
    'big': ([], np.vstack([ring(7, 3.1), ring(7, 3.1, 2.5)])),
    'icosahedron': ([], ICO * 1.5),
    # slender, but not linear
    'dihydride': ([('Au', _v([0, 0, 1.25], [0, 0, -1.25]))], _v([1.3, 0, 1.9], [-1.3, 0, -1.9])),
    'triacetylene': ([('C', np.stack([0 * np.arange(8.), 0 * np.arange(8.), np.array(
        [-4.68, -3.24, -2.04, -.67, .67, 2.04, 3.24, 4.68])], axis=1))],
        np.vstack([ring(3, 1.03, 5.05), ring(3, 1.03, -5.05)])),
    'linear2': ([], _v([0, 0, .55], [0, 0, -.55])),
    'linear3': ([('C', O3)], _v([0, 0, 1.16], [0, 0, -1.16])),
    'linear4': ([('C', _v([0, 0, .6], [0, 0, -.6]))], _v([0, 0, 1.66], [0, 0, -1.66])),
    'linearasym': ([('C', O3)], _v([0, 0, 1.16], [0, 0, -1.05])),
    'linear5': ([('C', O3)], _v([0, 0, 1.3], [0, 0, -1.3], [0, 0, 2.4], [0, 0, -2.4])),
}


def rot(axis, angle):
    axis = np.asarray(axis, float) / np.linalg.norm(axis)
    k = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    return np.eye(3) + np.sin(angle) * k + (1 - np.cos(angle)) * k @ k


def group(*gens):
    els = [np.eye(3)]
    for e in els:
        for g in gens:
            if not any(np.allclose(g @ e, y, atol=1e-6) for y in els):
                els.append(g @ e)
    return els


def signs(*base):
    return np.array(sorted({tuple(x * y + 0. for x, y in zip(b, s)) for b in base
                            for s in itertools.product([1, -1], repeat=3)}))


def cyc(a, b, c):
    return [a, b, c], [b, c, a], [c, a, b]


def _orbit(gens, point):
    return np.array([g @ np.array(point) for g in group(*gens)])


_T3 = rot([1, 1, 1], 2 * np.pi / 3)
# larger molecules; only few substitution patterns
LARGE = {
    'ring8': ring(8, 2.2), 'ring10': ring(10, 2.8), 'ring12': ring(12, 3.3),
    'antiprism4': np.vstack([ring(4, 1.9, 1.1), ring(4, 1.9, -1.1, .5)]),
    'antiprism6': np.vstack([ring(6, 2.4, 1.5), ring(6, 2.4, -1.5, .5)]),
    'prism9': np.vstack([ring(9, 3., 1.2), ring(9, 3., -1.2)]),
    'rod': np.vstack([ring(3, 1.4, 2. * i, i % 2 / 2) for i in range(5)]),
    'wheel': np.vstack([ring(5, 1.3), ring(5, 2.6), ring(5, 3.6, 0., .2)]),
    'cuboctahedron': signs(*cyc(1., 1., 0.)) * 1.9,
    'truncated tetrahedron': np.array([p for p in signs(*cyc(3., 1., 1.)) if np.prod(p) > 0]) * .9,
    'chiral T': _orbit([_T3, rot([0, 0, 1], np.pi)], [2.6, 1.3, .4]),
    'dodecahedron': np.vstack([CUBE, signs(*cyc(0., 1 / PHI, PHI))]) * 1.4,
    'truncated octahedron': signs(*cyc(0., 1., 2.), *cyc(0., 2., 1.)) * 1.3,
    'chiral O': _orbit([_T3, rot([0, 0, 1], np.pi / 2)], [3.4, 1.6, .5]),
    'C60': signs(*cyc(0., 1., 3 * PHI), *cyc(1., 2 + PHI, 2 * PHI), *cyc(PHI, 2., 2 * PHI + 1)) * .72,
    'chiral I': _orbit([_T3, rot([0, 1, PHI], 2 * np.pi / 5)], [6., 2.2, 1.]),
}
SKELETON.update((name, ([], sites)) for name, sites in LARGE.items())
PAIRS = [('H', 'F'), ('Pt', 'Ag'), ('C', 'N')]


def patterns(name, limit=None):
    """Substitution patterns (0/1 per carrier) with at most `limit` ones."""
    k = len(SKELETON[name][1])
    if name in LARGE:
        # no, one and (limit > 1) two substituents: the first site and each other one
        yield (0,) * k
        if limit is None or limit > 0:
            yield (1,) + (0,) * (k - 1)
        if limit is None or limit > 1:
            far = np.argsort(np.linalg.norm(SKELETON[name][1] - SKELETON[name][1][0], axis=1),
                             kind='stable')
            for j in far[1:4].tolist() + far[-2:].tolist() if limit else far[1:].tolist():
                yield tuple(int(i in (0, j)) for i in range(k))
        return
    for p in itertools.product([0, 1], repeat=k):
        if limit is None or sum(p) <= limit:
            yield p


def molecule(name, pattern, pair):
    """(symbols, positions) of a substituted skeleton."""
    fixed, sites = SKELETON[name]
    symbols, pos = [], []
    for el, xyz in fixed:
        symbols += [el] * len(xyz)
        pos += list(xyz)
    symbols += [PAIRS[pair][b] for b in pattern]
    pos += list(sites)
    return symbols, np.array(pos)


def is_linear(pos):
    c = pos - pos.mean(axis=0)
    return np.linalg.svd(c, compute_uv=False)[1] < 1e-6


def tops(symbols, pos):
    """(product, smallest gap) of the principal moments in units of the total inertia."""
    import ase
    m = ase.Atoms(list(symbols), pos).get_masses()
    c = pos - (m[:, None] * pos).sum(axis=0) / m.sum()
    gyr = (m[:, None, None] * c[:, :, None] * c[:, None, :]).sum(axis=0)
    e = np.sort(np.linalg.eigvalsh(np.eye(3) - gyr / np.trace(gyr)))
    return float(e.prod()), float(np.diff(e).min())


def rotation_order(symbols, pos, tol=1e-4):
    """Number of proper rotations mapping every atom onto an atom of the same element;
    linear molecules: 2 with an inversion centre, else 1 (documented convention)."""
    symbols = np.array(symbols)
    c = pos - pos.mean(axis=0)
    same = symbols[:, None] == symbols[None, :]

    def maps(img):
        dist = np.linalg.norm(img[:, None, :] - c[None, :, :], axis=2)
        return bool((np.where(same, dist, 9.) < tol).any(axis=1).all())

    if is_linear(pos):
        return 2 if maps(-c) else 1
    radius = np.linalg.norm(c, axis=1)
    # two independent reference vectors, images restricted to equal elements and lengths
    i = int(np.argmax(radius))
    cross = np.linalg.norm(np.cross(c, c[i]), axis=1)
    j = int(np.argmax(cross))
    count = 0

    def frame(a, b):
        u = a / np.linalg.norm(a)
        w = np.cross(a, b)
        w = w / np.linalg.norm(w)
        return np.stack([u, np.cross(w, u), w], axis=1)

    f0 = frame(c[i], c[j])
    for k in np.flatnonzero(same[i] & (abs(radius - radius[i]) < tol)):
        for m in np.flatnonzero(same[j] & (abs(radius - radius[j]) < tol)):
            if abs(c[k] @ c[m] - c[i] @ c[j]) > tol or np.linalg.norm(np.cross(c[k], c[m])) < 1e-3:
                continue
            rot = frame(c[k], c[m]) @ f0.T
            if maps(c @ rot.T):
                count += 1
    return count


MOTIONS = {
    'none': lambda s, x: (s, x),
    'tilt': lambda s, x: (s, x @ rot([1, 2, 3], 0.7).T),
    'quarter': lambda s, x: (s, x @ rot([1, 0, 0], np.pi / 2).T),
    'third': lambda s, x: (s, x @ rot([1, 1, 1], 2 * np.pi / 3).T),
    'generic': lambda s, x: (s, x @ rot([-.3, .9, .2], 2.31).T + np.array([.37, -5.2, 11.9])),
    'far': lambda s, x: (s, x + np.array([50., -30., 12.5])),
    'mirror': lambda s, x: (s, x * np.array([1., 1., -1.]) + np.array([0.1, 0.2, 0.3])),
    'inverted': lambda s, x: (s, -x @ rot([2, -1, 1], 1.1).T),
    'reversed': lambda s, x: (s[::-1], x[::-1]),
    'shuffled': lambda s, x: ([s[i] for i in shuffle(len(s))], x[shuffle(len(s))]),
    'shuffled tilt': lambda s, x: ([s[i] for i in shuffle(len(s))],
                                   x[shuffle(len(s))] @ rot([2, -1, 1], 2.9).T - 3.3),
    # across the faces of the periodic cell, and outside of it
    'origin': lambda s, x: (s, x @ rot([3, 1, 1], 0.5).T - x.mean(axis=0)),
    'outside': lambda s, x: (s, x + np.array([200., -0.4, 300.])),
    # where the squares of the coordinates swallow the moments
    'distant': lambda s, x: (s, x @ rot([1, -2, 1], 0.4).T + np.array([3.1e5, -2.7e5, 1.9e5])),
}


# how the coordinates are stored: (decimals, periodic cell)
STORED = {'tilt': (4, False), 'far': (6, True), 'inverted': (5, False),
          'origin': (6, True), 'outside': (6, True)}


def moved(name, symbols, pos):
    """ASE atoms of the molecule after the motion, coordinates rounded as in a file."""
    import ase
    s, x = MOTIONS[name](list(symbols), pos)
    digits, cell = STORED.get(name, (6, False))
    atoms = ase.Atoms(list(s), np.asarray(x).round(digits))
    if cell:
        atoms.set_cell([200., 180., 150.])
        atoms.set_pbc(True)
    return atoms


def shuffle(n):
    step = next(k for k in (5, 3, 7, 2, 1) if np.gcd(k, n) == 1)
    return [(1 + step * i) % n for i in range(n)]
