"""Driver of C27: runs the command and the programming interface in this process's environment.

Usage: envrun.py config.json.  Writes the outcome to the file named there (the standard streams
may be closed or full)."""
import json
import os
import sys

with open(sys.argv[1], encoding='utf-8') as _fh:
    CFG = json.load(_fh)
WORK = CFG['work']
READ = {}          # environment variables that the package has asked for


def track():
    """Note every environment variable that is asked for from the package's own frames."""
    package = os.path.join(os.path.realpath(CFG['repo']), 'occuprob') + os.sep
    kind = type(os.environ)

    def note(key):
        frame = sys._getframe(2)
        # asked directly, or through os.getenv and the methods of mappings
        while frame is not None:
            name = os.path.realpath(frame.f_code.co_filename)
            if name.startswith(package):
                READ[str(key)] = 1
                return
            if frame.f_code.co_name not in ('getenv', 'get', '__contains__', 'setdefault', 'pop', 'wrap', 'getenvb'):
                return
            frame = frame.f_back

    for method in ('__getitem__', '__contains__', 'get', '__delitem__', '__setitem__', 'pop'):
        real = getattr(kind, method)

        def wrap(self, key, *args, real=real, **kw):
            note(key)
            return real(self, key, *args, **kw)
        setattr(kind, method, wrap)


def fork(job):
    """Run job() in a child; (exit status, what it returned)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code, answer = 1, None
        try:
            os.close(r)
            try:
                answer = job()
                code = 0
            except SystemExit as exc:
                code = exc.code if isinstance(exc.code, int) else (0 if exc.code is None else 1)
            except BaseException as exc:      # pylint: disable=broad-except
                answer = f'{type(exc).__name__}: {exc}'
            with open(w, 'w', encoding='utf-8', errors='backslashreplace') as fh:
                json.dump([answer, sorted(READ)], fh)
        finally:
            os._exit(code & 255)
    os.close(w)
    data = b''
    while True:
        part = os.read(r, 65536)
        if not part:
            break
        data += part
    os.close(r)
    _, status = os.waitpid(pid, 0)
    answer, read = json.loads(data) if data else (None, [])
    for k in read:
        READ[k] = 1
    return os.waitstatus_to_exitcode(status), answer


def command(where, args):
    def job():
        os.chdir(os.path.join(WORK, where))
        sys.argv = [CFG.get('argv0', 'occuprob')] + [os.fsdecode(x.encode()) for x in args]
        import occuprob.cli
        res = occuprob.cli.main()
        if res:
            sys.exit(res if isinstance(res, int) else 1)
    return job


def tables(where):
    out = {}
    for base, _, names in os.walk(os.fsencode(os.path.join(WORK, where))):
        for n in names:
            full = os.path.join(base, n)
            with open(full, 'rb') as fh:
                out[os.path.relpath(full, os.fsencode(WORK)).decode('utf-8', 'backslashreplace')] = \
                    fh.read().decode('latin-1')
    return out


def api():
    import numpy as np
    import occuprob as op
    sa = op.SuperpositionApproximation()
    sa.add_partition_functions([op.ElectronicPF(np.array([0., 0.01, 0.05]), np.array([1., 3., 2.])),
                                op.QuantumHarmonicPF(np.array([[1., 2.], [1.5, 1.75], [3., 1.]])),
                                op.RotationalPF(np.array([1., 2., 1.]), np.array([[1., 2., 3.], [2., 2., 2.5],
                                                                                  [0., 4., 4.]]))])
    T = np.array([0., 10., 300., 1e5])
    out = [sa.calc_probability(T), np.atleast_2d(sa.calc_heat_capacity(T)),
           np.atleast_2d(sa.calc_ensemble_average(T, np.array([[1.], [2.], [-5.]])))]
    return [[[float(x).hex() for x in row] for row in a] for a in out]


def misuse():
    """Misuse that must be refused."""
    import numpy as np
    import occuprob as op

    class Half(op.PartitionFunction):
        def calc_part_func(self, temperature):
            return np.ones((1, temperature.size))

    accepted = []

    def refused(name, job):
        try:
            job()
        except Exception:      # pylint: disable=broad-except
            return
        accepted.append(name)

    refused('a contribution without derivatives', Half)
    a = {'x': np.arange(3.)}
    if op.compare_numpy_dictionaries(a, {'x': np.arange(3.) + 1}):
        accepted.append('different arrays as equal')
    if not op.compare_numpy_dictionaries(a, {'x': np.arange(3.)}):
        accepted.append('equal arrays as different')
    return accepted


def surroundings():
    import decimal
    import locale
    import random
    import signal
    import threading
    import warnings
    import matplotlib
    import numpy as np
    mask = os.umask(0)
    os.umask(mask)
    return {'working directory': os.getcwd(), 'umask': mask, 'locale': locale.setlocale(locale.LC_ALL),
            'signals': [str(signal.getsignal(s)) for s in sorted(signal.valid_signals())],
            'warning filters': [str(x) for x in warnings.filters], 'floating-point errors': str(np.geterr()),
            'print options': str(np.get_printoptions()), 'random numbers': str(np.random.get_state()),
            'random state': str(random.getstate()), 'plot settings': str(dict(matplotlib.rcParams)),
            'arguments': sys.argv, 'environment': sorted(map(str, os.environ.items())),
            'recursion limit': sys.getrecursionlimit(), 'threads': threading.active_count(),
            'decimal context': str(decimal.getcontext()), 'open files': len(os.listdir('/proc/self/fd')),
            'excepthook': str(sys.excepthook), 'switch interval': sys.getswitchinterval()}


def importing(module):
    """What an import prints and changes."""
    def job():
        import importlib
        os.chdir(os.path.join(WORK, 'imp'))
        for name in list(sys.modules):
            if name.split('.')[0] == 'occuprob':
                del sys.modules[name]
        before = surroundings()
        streams = []
        for fd in (1, 2):
            r = os.open(os.path.join(WORK, f'stream{fd}'), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            os.dup2(r, fd)
            os.close(r)
            streams.append(os.path.join(WORK, f'stream{fd}'))
        before['open files'] = len(os.listdir('/proc/self/fd'))
        mod = importlib.import_module(module)
        for s in (sys.stdout, sys.stderr):
            if s is not None:
                s.flush()
        after = surroundings()
        bad = [k for k in before if before[k] != after[k]]
        with open(streams[0], 'rb') as fh:
            printed = fh.read().decode('latin-1')
        new = sorted(os.listdir('.'))
        return [bad, printed, new, all(hasattr(mod, x) for x in CFG['names'].get(module, []))]
    return job


def main():
    for d in ('imp', 'one', 'two/sub', 'bad', 'none', 'lost', 'letters', 'number'):
        os.makedirs(os.path.join(WORK, d), exist_ok=True)
    out = {}
    for name, content in CFG['inputs'].items():
        with open(os.fsencode(os.path.join(WORK, '')) + name.encode(), 'wb') as fh:
            fh.write(content.encode())
    for name, content in CFG.get('decoys', {}).items():
        for d in ('one', 'two', 'imp', 'bad', 'none'):
            full = os.path.join(WORK, d, name)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, 'w', encoding='utf-8') as fh:
                fh.write(content)
    if 'umask' in CFG:
        os.umask(CFG['umask'])
    if 'nofile' in CFG:
        import resource
        resource.setrlimit(resource.RLIMIT_NOFILE, (CFG['nofile'], CFG['nofile']))
    os.chdir(os.path.join(WORK, 'one'))
    if CFG.get('setlocale'):
        import locale
        try:
            locale.setlocale(locale.LC_ALL, '')
        except locale.Error:
            pass
    sys.path[0] = CFG['repo']
    sys.path.insert(0, '')
    if 'matplotlib.pyplot' not in sys.modules:
        import numpy  # noqa: F401  pylint: disable=unused-import
        import ase.io.extxyz  # noqa: F401
        import matplotlib.pyplot  # noqa: F401
        import pymatgen.symmetry.analyzer  # noqa: F401
    if sys.flags.optimize:
        # ASE's reader reads lines within assertions; it works only where those are kept
        extxyz = sys.modules['ase.io.extxyz']
        with open(extxyz.__file__, encoding='utf-8') as fh:
            exec(compile(fh.read(), extxyz.__file__, 'exec', optimize=0), vars(extxyz))
    if CFG.get('track'):
        track()
    out['imports'] = {m: fork(importing(m)) for m in CFG['names']}
    import occuprob.cli
    out['from'] = os.path.realpath(occuprob.cli.__file__)
    out['runs'] = {k: fork(command(where, args)) for k, (where, args) in CFG['runs'].items()}
    out['api'] = fork(api)
    out['misuse'] = fork(misuse)
    out['files'] = {k: tables(where) for k, (where, _) in CFG['runs'].items()}
    out['read'] = sorted(READ)
    with open(CFG['answer'] + '.part', 'w', encoding='utf-8', errors='backslashreplace') as fh:
        json.dump(out, fh)
    os.rename(CFG['answer'] + '.part', CFG['answer'])


main()
