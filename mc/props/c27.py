"""C27: the results do not depend on the environment of the process.

Real interpreters, started in every environment within the bound."""
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

import boot
import files
import land as L
import ref
from core import HarnessError, Violation
from strike import complete

ID = 'C27'
CHUNK = 1
CASE_LIMIT = 400
STATES = 'distinct environments (settings of all axes)'
AXES = {
    'hash': ['0', '1', '2', '12345', '4294967295', 'random'],
    'flags': ['', '-O', '-OO', '-X dev', '-B', '-I', '-u', '-W always', '-X utf8=0', '-X utf8=1', '-bb', '-s -P',
              '-X no_debug_ranges', '-X frozen_modules=off'],
    'locale': ['C.UTF-8', 'C', 'POSIX', 'de_DE.UTF-8', 'tr_TR.UTF-8', 'de_DE.ISO-8859-1', 'fa_IR.UTF-8', 'xx_YY'],
    'setlocale': [0, 1],
    'io': [None, 'ascii', 'latin-1', 'utf-8:surrogateescape'],
    'tz': ['UTC', 'Asia/Kathmandu', 'junk', None],
    'stdin': ['null', 'closed', 'data'],
    'stdout': ['pipe', 'closed', 'full', 'broken'],
    'stderr': ['pipe', 'closed', 'full'],
    'decoys': [None, 'modules', 'settings', 'matplotlibrc'],
    'umask': [0o22, 0, 0o77],
    'home': ['there', 'missing', 'unset'],
    'backend': ['Agg', None, 'svg', 'pdf', 'module://matplotlib.backends.backend_agg'],
    'threads': ['1', '2', '8'],
    'terminal': [None, {'COLUMNS': '10'}, {'COLUMNS': '1000', 'TERM': 'xterm'}, {'TERM': 'dumb', 'NO_COLOR': '1'},
                 {'COLUMNS': 'x'}],
    'other': [None, {'CI': 'true'}, {'DEBUG': '1', 'VERBOSE': '1'}, {'PYTHONOPTIMIZE': '2'},
              {'PYTHONWARNINGS': 'always'}, {'GIT_DIR': '/nonexistent'}, {'LANGUAGE': 'de:fr'},
              {'OCCUPROB': '1', 'OCCUPROB_DEBUG': '1', 'OCCUPROB_CACHE': '/nonexistent'}, {'PATH': '/nonexistent'},
              {'TMPDIR': '/nonexistent'}, {'DISPLAY': ':99'}, {'USER': 'nobody', 'LOGNAME': 'nobody'},
              {'SOURCE_DATE_EPOCH': '0'}, {'PYTHONFAULTHANDLER': '1'}, {'PYTHONNODEBUGRANGES': '1'}],
    'nofile': [None, 48],
    'argv0': ['occuprob', '', './x y/occuprob', 'occuprob.xyz', '-c'],
}
BASE = {k: 0 for k in AXES}
VALUES = [None, '', '0', '1', 'no', 'yes', '100', '/nonexistent', '/dev/null', 'junk', 'de_DE.UTF-8']
ENTRIES = ['-m', 'script', 'link', '-c', 'path']
BOUNDS = {'quick': 'every environment with <= 1 deviation over 18 axes (hash seed, interpreter flags, locale, encodings, time '
                   'zone, streams, files in the working directory, umask, home, plot backend, threads, terminal, other '
                   'variables, open files, program name), and 2 deviations among 5 of them; 5 ways of starting the command; '
                   'every environment variable that the package is seen to ask for x 11 values; each: 7 runs of the command, '
                   'the programming interface, imports of each module',
          'thorough': '<= 2 deviations over all axes'}
ASSUMPTIONS = ['third-party libraries work in the environment (the reader of ASE does not without assertions: it is kept '
               'with them under -O)', 'the files are ASCII; names may be others',
               'a locale that the system cannot build is left out']
PAIRED = ['hash', 'flags', 'locale', 'setlocale', 'stdout']


def cases(tier):
    quick = tier == 'quick'
    yield {'dev': {}}
    for entry in ENTRIES:
        yield {'entry': entry}
    for k, v in AXES.items():
        for i in range(1, len(v)):
            yield {'dev': {k: i}}
    for value in range(len(VALUES)):
        yield {'asked': value}
    for a, b in itertools.combinations(PAIRED if quick else list(AXES), 2):
        for i in range(1, 4 if quick else len(AXES[a])):
            for j in range(1, 4 if quick else len(AXES[b])):
                if i < len(AXES[a]) and j < len(AXES[b]):
                    yield {'dev': {a: i, b: j}}


def frames(n=2, d=3):
    return [files.isomer(i, d) for i in range(n)]


def inputs():
    ok = files.text(frames())
    two = files.text(frames(3, 4))
    last = files.frame_text(dict(frames()[1], mult=''))
    return {'one/in.xyz': ok, 'two/in.xyz': two, 'bad/a.xyz': files.frame_text(frames()[0]) + last,
            'bad/b.xyz': files.frame_text(frames()[0]) + files.frame_text(dict(frames()[1], freq=['1.5'])),
            'bad/c.xyz': ok[:-60], 'none/in.xyz': ok, 'letters/größe é.xyz': ok, 'number/1.5.xyz': ok}


RUNS = {'plots': ('one', ['in.xyz', '-sc', '--max_temp', '60', '--plot']),
        'output elsewhere': ('two', ['in.xyz', '-eqr', '--min_temp', '50.5', '--max_temp', '60', '--out_file', 'sub/out']),
        'multiplicity missing': ('bad', ['a.xyz', '-sc']),
        'unequal frequencies': ('bad', ['b.xyz', '-sc']),
        'cut': ('bad', ['c.xyz', '-sc']),
        'no input': ('lost', ['in.xyz', '-sc']),
        'no contributions': ('none', ['in.xyz']),
        'letters': ('letters', ['größe é.xyz', '-s', '--max_temp', '60']),
        'two spins': ('none', ['in.xyz', '-se']),
        'number': ('number', ['1.5.xyz', '-q', '--max_temp', '60'])}
FAIL = {'multiplicity missing', 'unequal frequencies', 'cut', 'no input', 'two spins'}
TABLES = {'plots': ('one/in', frames, 'sc', np.arange(61.)),
          'output elsewhere': ('two/sub/out', lambda: frames(3, 4), 'eqr', 50.5 + np.arange(10.)),
          'letters': ('letters/größe é', frames, 's', np.arange(61.)),
          'number': ('number/1.5', frames, 'q', np.arange(61.))}
NAMES = {'occuprob': ['SuperpositionApproximation', 'ElectronicPF', 'RotationalPF', 'ClassicalHarmonicPF',
                      'QuantumHarmonicPF', 'calc_beta', 'calc_exponent', 'load_properties_from_extxyz', '__version__'],
         'occuprob.partitionfunctions': ['ElectronicPF'], 'occuprob.superpositions': ['SuperpositionApproximation'],
         'occuprob.utils': ['calc_beta'], 'occuprob.io': ['load_properties_from_extxyz', 'plot_results'],
         'occuprob.cli': ['main'], 'occuprob._version': ['get_versions']}
KINDS = {'s': 'S', 'e': 'E', 'c': 'C', 'q': 'Q', 'r': 'R'}

_shared = {}


def shared(what):
    """Things made once per run of the check, in the scratch directory all workers share."""
    return os.path.join(boot.scratch(), what)


def build_locales():
    """Locales that use a comma, other casing and other encodings, where the system can build them."""
    where = shared('locales')
    os.makedirs(where, exist_ok=True)
    jobs = []
    for name, charmap in (('de_DE', 'UTF-8'), ('tr_TR', 'UTF-8'), ('de_DE', 'ISO-8859-1'), ('fa_IR', 'UTF-8')):
        target = os.path.join(where, f'{name}.{charmap}')
        try:
            jobs.append(subprocess.Popen(['localedef', '-i', name, '-f', charmap, target], stdout=subprocess.DEVNULL,
                                         stderr=subprocess.DEVNULL))
        except OSError:
            pass
    for j in jobs:
        j.wait()


def before(tier):
    """Run once before the workers start."""
    build_locales()
    # the font list of matplotlib, built once
    env = dict(os.environ, MPLCONFIGDIR=shared('mpl'), HOME=boot.scratch())
    subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import matplotlib.pyplot as p; p.figure(); p.title("x"); '
                    'p.savefig(__import__("io").BytesIO())'], env=env, capture_output=True)


def setting(case, key):
    return AXES[key][case.get('dev', {}).get(key, 0)]


def environment(case, top):
    env = {'PATH': os.environ.get('PATH', ''), 'PYTHONHASHSEED': setting(case, 'hash'), 'LOCPATH': shared('locales'),
           'LC_ALL': setting(case, 'locale'), 'OMP_NUM_THREADS': setting(case, 'threads'),
           'OPENBLAS_NUM_THREADS': setting(case, 'threads'), 'PYTHONDONTWRITEBYTECODE': '1'}
    home = os.path.join(top, 'home')
    kind = setting(case, 'home')
    if kind == 'there':
        os.makedirs(home)
    if kind != 'unset':
        env['HOME'] = home
    # the font list is shared where possible, as building it is slow
    env['MPLCONFIGDIR'] = shared('mpl')
    for name, key in (('TZ', 'tz'), ('PYTHONIOENCODING', 'io'), ('MPLBACKEND', 'backend')):
        if setting(case, key) is not None:
            env[name] = setting(case, key)
    for key in ('terminal', 'other'):
        env.update(setting(case, key) or {})
    return env


DECOYS = {
    'modules': {f'{m}.py': 'raise SystemExit("the wrong module")\n'
                for m in ('utils', 'superpositions', 'partitionfunctions', 'cli', '_version', 'versioneer', 'settings',
                          'config')},
    'settings': {'occuprob.cfg': '[occuprob]\nmin_temp = 10\n', 'setup.cfg': '[occuprob]\nmax_temp = 3\n',
                 '.env': 'MPLBACKEND=junk\nKB=1\n', 'occuprob.json': '{"plot": true}', '.occuprobrc': 'plot = yes\n',
                 'pyproject.toml': '[tool.occuprob]\nmax_temp = 2\n', 'results_P.dat': '1 2 3\n', 'in.dat': '1\n',
                 'in': 'x', 'in.XYZ': 'x', 'occuprob.yaml': 'max_temp: 2\n', 'KB': '1\n'},
    'matplotlibrc': {'matplotlibrc': 'savefig.format: png\nfont.size: 14\nlines.linewidth: 5\nfigure.figsize: 3, 2\n'
                                     'axes.formatter.use_locale: True\nlegend.loc: center\naxes.grid: True\n'},
}


def start(case, env, cfg, top):
    """Exit status of the driver (or of a command given as cfg['argv']) under the streams of the case."""
    close, opened = [], []
    streams = {}
    for fd, key in ((0, 'stdin'), (1, 'stdout'), (2, 'stderr')):
        kind = setting(case, key)
        if kind == 'closed':
            close.append(fd)
            streams[key] = subprocess.DEVNULL
        elif kind == 'null':
            streams[key] = subprocess.DEVNULL
        elif kind == 'full':
            opened.append(open('/dev/full', 'w'))
            streams[key] = opened[-1]
        elif kind == 'data':
            with open(os.path.join(top, 'stdin'), 'w') as fh:
                fh.write('3\n\nH 0 0 0\n' * 10)
            opened.append(open(os.path.join(top, 'stdin')))
            streams[key] = opened[-1]
        elif kind == 'broken':
            r, w = os.pipe()
            os.close(r)
            opened.append(os.fdopen(w, 'w'))
            streams[key] = opened[-1]
        else:
            opened.append(open(os.path.join(top, key), 'w'))
            streams[key] = opened[-1]

    def prepare():
        for fd in close:
            os.close(fd)

    try:
        res = subprocess.run(cfg['argv'], env=env, cwd=cfg.get('cwd', top), preexec_fn=prepare, timeout=300, **streams)
    except subprocess.TimeoutExpired:
        raise Violation(f'{told(case)}: no result within 300 s') from None
    finally:
        for fh in opened:
            try:
                fh.close()
            except OSError:
                pass
    return res.returncode


def told(case):
    if 'entry' in case:
        return f'command started as {case["entry"]}'
    out = ', '.join(f'{k}={AXES[k][v]!r}' for k, v in case.get('dev', {}).items()) or 'plain environment'
    if case.get('variable'):
        out += f', {case["variable"]}={case["value"]!r}'
    return out


def drive(case, extra=None, track=False):
    """Run the driver; its answer."""
    top = tempfile.mkdtemp(prefix='env', dir=boot.scratch())
    try:
        env = environment(case, top)
        for k, v in (extra or {}).items():
            env.pop(k, None)
            if v is not None:
                env[k] = v
        cfg = {'repo': os.path.realpath(boot.REPO), 'work': os.path.join(top, 'work'), 'answer': os.path.join(top, 'answer'),
               'inputs': inputs(), 'runs': RUNS, 'names': NAMES, 'argv0': setting(case, 'argv0'),
               'umask': setting(case, 'umask'), 'setlocale': setting(case, 'setlocale'), 'track': track,
               'decoys': DECOYS.get(setting(case, 'decoys'), {})}
        if setting(case, 'nofile'):
            cfg['nofile'] = setting(case, 'nofile')
        with open(os.path.join(top, 'cfg'), 'w', encoding='utf-8') as fh:
            json.dump(cfg, fh)
        cfg['argv'] = [sys.executable] + setting(case, 'flags').split() + \
            [os.path.join(boot.VERIF, 'mc', 'envrun.py'), os.path.join(top, 'cfg')]
        status = start(case, env, cfg, top)
        if not os.path.exists(cfg['answer']):
            err = ''
            if os.path.exists(os.path.join(top, 'stderr')):
                with open(os.path.join(top, 'stderr'), errors='replace') as fh:
                    err = fh.read().strip().splitlines()
            lines = [x for x in err if 'occuprob' + os.sep in x and 'envrun' not in x]
            if lines or not err:
                raise Violation(f'{told(case)}: the package cannot be used ({(err or ["no message"])[-1]})')
            raise HarnessError(f'{told(case)}: driver ended with {status}: {err[-3:]}')
        with open(cfg['answer'], encoding='utf-8') as fh:
            return json.load(fh)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def judge(case, ans, ctx):
    where = told(case)
    if not ans['from'].startswith(os.path.realpath(boot.REPO) + os.sep):
        raise HarnessError(f'{where}: imported from {ans["from"]}')
    for module, (code, answer) in ans['imports'].items():
        if code != 0:
            raise Violation(f'{where}: import {module} fails: {answer}')
        bad, printed, new, names = answer
        decoys = {x.split('/')[0] for x in DECOYS.get(setting(case, 'decoys'), {})}
        if bad:
            raise Violation(f'{where}: import {module} changes the {bad[0]} of the program')
        if printed:
            raise Violation(f'{where}: import {module} prints {printed[:80]!r}')
        if set(new) - decoys:
            raise Violation(f'{where}: import {module} leaves {new} in the working directory')
        if not names:
            raise Violation(f'{where}: {module} lacks some of {NAMES[module]}')
    given = {k for k in inputs()}
    decoys = set(DECOYS.get(setting(case, 'decoys'), {}))
    for name, (code, answer) in ans['runs'].items():
        ctx.step()
        args = 'occuprob ' + ' '.join(RUNS[name][1])
        out = {k: v for k, v in ans['files'][name].items()
               if k not in given and k.split('/', 1)[1] not in decoys}
        for k in given:
            if k.startswith(RUNS[name][0] + '/') and ans['files'][name].get(k, '').encode('latin-1').decode() != \
                    inputs()[k]:
                raise Violation(f'{where}: {args}: the input {k} is changed')
        failed = code != 0
        if name in FAIL:
            if not failed:
                raise Violation(f'{where}: {args} reports success ({name})')
            if out and RUNS[name][0] == 'bad':
                raise Violation(f'{where}: {args}: {sorted(out)} are written ({name})')
            continue
        if name == 'no contributions':
            # there is a message, which may be lost; no file may appear
            if out:
                raise Violation(f'{where}: {args}: {sorted(out)} are written')
            if failed and setting(case, 'stdout') == 'pipe':
                raise Violation(f'{where}: {args} ends with status {code}: {answer}')
            continue
        if failed:
            raise Violation(f'{where}: {args} fails: {answer}')
        outputs(where + ': ' + args, name, out)
    code, answer = ans['api']
    if code:
        raise Violation(f'{where}: the programming interface fails: {answer}')
    compare(where, answer)
    code, answer = ans['misuse']
    if code or answer:
        raise Violation(f'{where}: {answer} is accepted')
    ctx.outcome([case, sorted(ans['runs'])])


def outputs(where, name, out):
    prefix, make, pfs, T = TABLES[name]
    plots = '--plot' in RUNS[name][1]
    want = {f'{prefix}_{x}.dat' for x in 'PC'} | {f'{prefix}_{x}.svg' for x in 'PC' if plots}
    if set(out) != want:
        raise Violation(f'{where}: writes {sorted(out)} instead of {sorted(want)}')
    tabs = {x: files.table(out[f'{prefix}_{x}.dat'].encode('latin-1'), x) for x in 'PC'}
    files.check_tables(tabs, make(), ''.join(KINDS[k] for k in pfs), T, where)
    for x in 'PC' if plots else '':
        blob = out[f'{prefix}_{x}.svg'].encode('latin-1')
        why = complete(f'{x}.svg', blob, blob, 'svg')
        if why:
            raise Violation(f'{where}: {why}')


_api = {}


def compare(where, answer):
    """Results of the programming interface against the reference."""
    if not _api:
        land = L.Land()
        land.n, land.d = 3, 2
        land.energy, land.mult = np.array([0., 0.01, 0.05]), np.array([1., 3., 2.])
        land.freq = np.array([[1., 2.], [1.5, 1.75], [3., 1.]])
        land.sym, land.mom = np.array([1., 2., 1.]), np.array([[1., 2., 3.], [2., 2., 2.5], [0., 4., 4.]])
        warm = np.array([10., 300., 1e5])
        P = np.asarray(ref.prob(land, 'SQR', warm), float)
        _api['P'] = P
        _api['C'] = np.asarray(ref.cap(land, 'SQR', warm)[0], float)[None]
        _api['A'] = (P * np.array([[1.], [2.], [-5.]])).sum(axis=0)[None]
    for rows, key in zip(answer, 'PCA'):
        got = np.array([[float.fromhex(x) for x in r] for r in rows])
        if got.shape[-1] != 4 or not files.same(got.reshape(-1, 4)[:, 1:], _api[key], 1e-9, 1e-9):
            raise Violation(f'{where}: {key} of the programming interface is {got.tolist()} instead of '
                            f'{_api[key].tolist()}')


def check(case, ctx):
    if not os.path.isdir(shared('locales')):
        before(ctx.tier)
    if 'entry' in case:
        started(case, ctx)
        return
    if 'asked' in case:
        asked(case, ctx)
        return
    name = setting(case, 'locale')
    if '_' in name and name != 'xx_YY' and not os.path.isdir(os.path.join(shared('locales'), name)):
        ctx.count('locales that cannot be built')
        return
    judge(case, drive(case), ctx)
    ctx.state(case)
    ctx.trace()


def asked(case, ctx):
    """Environment variables that the package itself asks for."""
    if 'read' not in _shared:
        _shared['read'] = drive({}, track=True)['read']
    for name in _shared['read']:
        if name in ('PATH', 'LOCPATH'):
            continue
        value = VALUES[case['asked']]
        one = {'dev': {}, 'variable': name, 'value': value}
        judge(one, drive(one, {name: value}), ctx)
        ctx.state(one)
    ctx.count('variables asked for', len(_shared['read']))
    ctx.trace()


def started(case, ctx):
    """The command started in another way, as a real process."""
    top = tempfile.mkdtemp(prefix='env', dir=boot.scratch())
    try:
        env = dict(environment({}, top), PYTHONPATH=os.path.realpath(boot.REPO))
        for d in ('one', 'two/sub', 'bad', 'none', 'lost', 'letters', 'number', 'bin'):
            os.makedirs(os.path.join(top, d))
        for k, v in inputs().items():
            with open(os.path.join(top, k), 'w', encoding='utf-8') as fh:
                fh.write(v)
        script = os.path.join(top, 'bin', 'occuprob')
        with open(script, 'w', encoding='utf-8') as fh:
            fh.write(f'#!{sys.executable}\nimport sys\nfrom occuprob.cli import main\nif __name__ == "__main__":\n'
                     '    sys.exit(main())\n')
        os.chmod(script, 0o755)
        kind = case['entry']
        if kind == 'link':
            os.symlink(script, os.path.join(top, 'isomers'))
            script = os.path.join(top, 'isomers')
        argv = {'-m': [sys.executable, '-m', 'occuprob.cli'], '-c': [sys.executable, '-c', 'from occuprob.cli import main; '
                'raise SystemExit(main())']}.get(kind, [script])
        if kind == 'path':
            env['PATH'] = os.path.join(top, 'bin') + os.pathsep + env['PATH']
            argv = ['/usr/bin/env', 'occuprob']
        for name, (where, args) in RUNS.items():
            code = start({}, env, {'argv': argv + args, 'cwd': os.path.join(top, where)}, top)
            text = f'{told(case)}: occuprob {" ".join(args)}'
            if name in FAIL:
                if code == 0:
                    raise Violation(f'{text} reports success ({name})')
            elif code != 0:
                raise Violation(f'{text} ends with status {code}')
            out = {}
            for base, _, names in os.walk(os.path.join(top, where)):
                for n in names:
                    rel = os.path.relpath(os.path.join(base, n), top)
                    if rel not in inputs():
                        with open(os.path.join(base, n), encoding='latin-1') as fh:
                            out[rel] = fh.read()
            if name in TABLES:
                outputs(text, name, out)
            elif out:
                raise Violation(f'{text}: {sorted(out)} are written')
            ctx.step()
        ctx.state(case)
        ctx.trace()
        ctx.outcome(case)
    finally:
        shutil.rmtree(top, ignore_errors=True)
