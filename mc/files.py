"""Extended XYZ files written by hand, runs of the command line in this process, and an
independent reading of what they should give."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

import numpy as np

import boot
import land as L
import mols
import ref
from core import HarnessError, Violation

# The isomers used in files: (symbols, positions, energy, multiplicity, frequencies)
PT5 = [
    ([[6.021536241, 7.747189364, 2.514796921], [7.396161795, 5.832164691, 3.355579003],
      [5.773696513, 7.056151430, 4.817413600], [4.255814915, 8.954527174, 5.248344983],
      [4.507518660, 9.657859127, 2.902251298]], '-4433.120', '3',
     '0.89 1.53 2.13 3.17 4.29 5.41 5.69 6.08 7.22'),
    ([[7.130670563, 7.316490254, 2.574869115], [7.205709764, 9.241865499, 4.365106937],
      [5.777733370, 7.145289063, 4.820088212], [4.881553705, 9.498560523, 5.571968924],
      [5.039802176, 8.845583983, 3.029309097]], '-4433.012318052181', '5',
     '2.11 2.13 2.87 2.92 4.46 4.52 4.59 5.11 6.55'),
    ([[6.723845677, 6.893128486, 2.292499726], [7.293610863, 5.327356394, 4.136932256],
      [5.761431903, 7.076877369, 4.975889864], [4.188319017, 8.952644393, 5.368553185],
      [5.151406283, 8.677468180, 3.099167433]], '-4432.936040563171', '5',
     '0.87 1.07 1.52 3.01 3.85 4.35 4.96 5.83 6.89')]


def pt5():
    return [dict(symbols=['Pt'] * 5, pos=np.array(x), energy=e, mult=m, freq=f.split(), sigma=s)
            for (x, e, m, f), s in zip(PT5, (2, 6, 1))]


ISO = [('bent', (0, 0), 0), ('linearasym', (0, 1), 2), ('pyramid3', (0, 0, 0), 0),
       ('bipyramid', (0, 0, 0, 1, 1), 1), ('linear2', (0, 1), 0), ('tetrahedral', (0, 0, 0, 0), 0),
       ('peroxide', (0, 0), 0), ('chiral', (0, 1), 0), ('octahedron', (0,) * 6, 1),
       ('hexagon', (0, 0, 1, 0, 0, 1), 0), ('planar3', (0, 0, 1), 0), ('allene', (0,) * 4, 0)]


def isomer(i, d):
    """The i-th isomer of a made-up file, with d modes; all numbers are strings."""
    name, pattern, pair = ISO[i % len(ISO)]
    symbols, pos = mols.molecule(name, pattern, pair)
    pos = (pos @ mols.rot([1, i + 1, 2], 0.3 + i).T).round(6)
    energy = f'{-103.25 - ((5 * i + 3) % 7) / 64 - i // 7}'
    freq = [f'{1.5 + ((7 * i + 3 * k + i * k) % 11) * 0.61 + 0.01 * k:.2f}' for k in range(d)]
    return dict(symbols=symbols, pos=pos, energy=energy, mult=str((1, 3, 2, 5, 4)[i % 5]), freq=freq)


def frame_text(f, style=None):
    """One isomer as text.  style: deviations of the notation."""
    s = style or {}
    quote = s.get('quote', '"%s"')
    sep = s.get('sep', ' ')
    num = s.get('number', str)
    keys = {'E': f'Energy={num(f["energy"])}', 'M': f'Multiplicity={s.get("mult", str)(f["mult"])}',
            'F': 'Frequencies=' + quote % sep.join(num(x) for x in f['freq'])}
    cols = s.get('columns', '')
    keys['P'] = 'Properties=species:S:1:pos:R:3' + {'': '', 'forces': ':forces:R:3',
                                                    'tags': ':tags:I:1'}[cols]
    parts = [keys[k] for k in s.get('order', 'PEMF')]
    extra = s.get('extra')
    if extra == 'first':
        parts.insert(0, 'name="a b=c" energy=-1.0 E=5')
    elif extra == 'last':
        parts.append("charge=0 Frequencies_raw=\"9 9 9\" ENERGY=7.5 multiplicity=9 flag")
    elif extra == 'cell':
        parts.insert(0, 'Lattice="200 0 0 0 180 0 0 0 150" pbc="T T T"')
    elif extra == 'between':
        parts.insert(2, 'Frequency="1 2 3" converged=T step=4')
    lines = [f'{len(f["symbols"])}', s.get('gap', ' ').join(parts) + s.get('trail', '')]
    for i, (el, x) in enumerate(zip(f['symbols'], f['pos'])):
        row = f'{el:<3}' + ''.join(f' {v:15.9f}' for v in x)
        row += {'': '', 'forces': f' {0.1 * i:.3f} -0.2 0.3', 'tags': f' {i}'}[cols]
        lines.append(row)
    return s.get('eol', '\n').join(lines) + s.get('eol', '\n')


def text(frames, style=None):
    return ''.join(frame_text(f, style) for f in frames)


MASS = None


def inertia(symbols, pos):
    """Principal moments in ascending order, amu A^2."""
    global MASS
    if MASS is None:
        from ase.data import atomic_masses, atomic_numbers
        MASS = {el: float(atomic_masses[z]) for el, z in atomic_numbers.items()
                if z < len(atomic_masses)}
    m = np.array([MASS[el] for el in symbols])
    x = np.asarray(pos, float)
    x = x - (m[:, None] * x).sum(axis=0) / m.sum()
    tensor = (m * (x ** 2).sum(axis=1)).sum() * np.eye(3) - np.einsum('i,ij,ik->jk', m, x, x)
    return np.linalg.eigvalsh(tensor)


def sigma(f):
    """Symmetry order; for linear isomers as the code under test reports it (C15)."""
    if mols.is_linear(f['pos'].round(4)):
        return 1
    if 'sigma' in f:
        return f['sigma']
    return mols.rotation_order(f['symbols'], f['pos'], 1e-3)


_memo = {}


def landscape(frames):
    """Landscape of the isomers, from this harness's own reading (remembered)."""
    key = repr([(f['symbols'], np.asarray(f['pos']).tolist(), f['energy'], f['mult'], f['freq'])
                for f in frames])
    if key not in _memo:
        if len(_memo) > 500:
            _memo.clear()
        _memo[key] = _landscape(frames)
    return _memo[key].copy()


def _landscape(frames):
    land = L.Land()
    land.n, land.d = len(frames), len(frames[0]['freq'])
    land.energy = np.array([float(f['energy']) for f in frames])
    land.mult = np.array([float(f['mult']) for f in frames])
    land.freq = np.array([[float(x) for x in f['freq']] for f in frames])
    land.sym = np.array([float(sigma(f)) for f in frames])
    land.mom = np.array([inertia(f['symbols'], f['pos']) for f in frames])
    return land


class Box:
    """A private working directory; the process works inside it."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='box', dir=boot.scratch())
        self.back = os.getcwd()
        os.chdir(self.path)
        return self

    def __exit__(self, *exc):
        os.chdir(self.back)
        shutil.rmtree(self.path, ignore_errors=True)

    def write(self, name, content):
        full = os.path.join(self.path, name)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, 'w', newline='') as fh:
            fh.write(content)
        return name

    def files(self):
        out = {}
        for base, _, names in os.walk(self.path):
            for n in names:
                full = os.path.join(base, n)
                with open(full, 'rb') as fh:
                    out[os.path.relpath(full, self.path)] = fh.read()
        return out


_audit = {'on': None}


def _hook(event, args):
    log = _audit['on']
    if log is None:
        return
    try:
        if event == 'open':
            name, _, flags = args
            if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                log.append(name)
        elif event in ('os.rename', 'os.link', 'os.symlink'):
            log.extend(args[:2])
        elif event in ('os.remove', 'os.truncate', 'os.chmod', 'os.utime'):
            log.append(args[0])
    except Exception:      # never disturb the code that is observed
        pass


def where(path):
    """Absolute path of a directory entry, whatever links lead there."""
    head, name = os.path.split(path)
    return os.path.join(os.path.realpath(head or '.'), name)


@contextlib.contextmanager
def writes(root):
    """Paths below `root` that are opened for writing, renamed or removed meanwhile."""
    if 'installed' not in _audit:
        sys.addaudithook(_hook)
        _audit['installed'] = True
    found, log = set(), []
    _audit['on'] = log
    try:
        yield found
    finally:
        _audit['on'] = None
        for p in log:
            if isinstance(p, (str, bytes)):
                full = where(os.fsdecode(p))
                if full.startswith(root + os.sep):
                    found.add(os.path.relpath(full, root))


class Run:
    """Outcome of one run of the command line."""
    def __init__(self, code, out, err):
        self.code, self.out, self.err = code, out, err


def cli(args):
    """Run the command line's entry point as the console script does, in this process."""
    import matplotlib.pyplot as plt
    import occuprob.cli
    out, err = io.StringIO(), io.StringIO()
    argv, sys.argv = sys.argv, ['occuprob'] + list(args)
    code = 0
    # the version (six git processes per run) is decided by C25, not here
    version = getattr(occuprob.cli, 'get_versions', None)
    if version is not None:
        occuprob.cli.get_versions = lambda: {'version': '0.0'}
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                res = occuprob.cli.main()
                if res is not None:
                    code = res if isinstance(res, int) else 1
            except SystemExit as exc:
                code = exc.code if isinstance(exc.code, int) else (0 if exc.code is None else 1)
                if isinstance(exc.code, str):
                    err.write(exc.code)
            except HarnessError:
                raise
            except Exception as exc:      # an uncaught error ends the process with status 1
                code = 1
                err.write(f'{type(exc).__name__}: {exc}')
    finally:
        sys.argv = argv
        if version is not None:
            occuprob.cli.get_versions = version
        plt.close('all')
    return Run(code, out.getvalue(), err.getvalue())


def table(content, what):
    """Numbers of a written table, as text columns."""
    rows = [line.split() for line in content.decode().splitlines()
            if line.strip() and not line.startswith('#')]
    if not rows:
        raise Violation(f'{what} is empty')
    if len({len(r) for r in rows}) != 1:
        raise Violation(f'{what} has rows of different lengths')
    return np.array([[float(x) for x in r] for r in rows])


def api_results(frames, pfs, T):
    """(P, C) of the programming interface for data read by this harness."""
    sa = L.make_sa(landscape(frames), pfs)
    with contextlib.redirect_stdout(io.StringIO()):
        return (np.asarray(sa.calc_probability(T), float),
                np.asarray(sa.calc_heat_capacity(T), float))


def same(a, b, rtol=1e-9, atol=1e-12):
    with np.errstate(all='ignore'):
        return a.shape == b.shape and bool(np.all(
            (a == b) | (np.isnan(a) & np.isnan(b)) | (abs(a - b) <= atol + rtol * abs(b))))


def check_tables(tabs, frames, pfs, T, where):
    """tabs: {'P': array, 'C': array} as written; T: the temperatures they must have."""
    P, C = api_results(frames, pfs, T)
    land = landscape(frames)
    warm = T >= 50.
    for key, want in (('P', P), ('C', C)):
        tab = tabs[key]
        if tab.shape != (T.size, 1 + want.shape[0]):
            raise Violation(f'{where}: table {key} has shape {tab.shape}, expected '
                            f'{(T.size, 1 + want.shape[0])}')
        if not same(tab[:, 0], T, 1e-12, 1e-12):
            raise Violation(f'{where}: table {key} has temperatures {tab[:3, 0]}..{tab[-1, 0]}, '
                            f'expected {T[:3]}..{T[-1]}')
        if not same(tab[:, 1:].T, want, *((1e-11, 1e-300) if key == 'P' else (1e-8, 1e-9))):
            j = int(np.argmax(np.abs(np.nan_to_num(tab[:, 1:].T - want)).max(axis=0)))
            raise Violation(f'{where}: table {key} at T={T[j]} holds {tab[j, 1:]} instead of '
                            f'{want[:, j]}')
    if warm.any():
        rp = np.asarray(ref.prob(land, pfs, T[warm]), float)
        rc = np.asarray(ref.cap(land, pfs, T[warm])[0], float)
        if not same(tabs['P'][warm, 1:].T, rp, 1e-5, 1e-7):
            raise Violation(f'{where}: probabilities {tabs["P"][warm, 1:][0]} instead of {rp[:, 0]}')
        if not same(tabs['C'][warm, 1], rc, 1e-5, 1e-5):
            raise Violation(f'{where}: heat capacity {tabs["C"][warm, 1][0]} instead of {rc[0]}')
