"""C26: a run that reports success has written complete results."""
import gc
import os
import resource
import signal
import subprocess
import sys

import boot
import files
from core import HarnessError, Violation
from strike import Strike, box_state, complete

ID = 'C26'
LEVEL = 'fault_enumeration'
CHUNK = 4
RULE = ('one run of the command per case in a process of its own; non-trivial: a fault was injected (a size '
        'limit below the largest output, or a target that cannot be written) or an earlier output was to be '
        'replaced; distinct: by fault, its position or target, options and earlier content')
BOUNDS = {'quick': 'file size limits at every byte of the tables (2 isomers, 2 temperatures), for both tables '
                   'together and for each alone, without and with earlier output; at 60 positions of tables of 501 temperatures; at 30 positions of each '
                   'image; every target x 9 obstacles (full device, directory, missing directory, dangling '
                   'link, read-only file or directory as an unprivileged user, loop, too long a name, file as '
                   'directory) x 3 plot settings; 26 plot formats, 10 sizes and 6 temperature ranges, many of them '
                   'impossible; a few runs as real processes; an '
                   'interrupt, lack of memory, a kill at every executed line of the package and every opened '
                   'file, and a refusal of every file that is opened',
          'thorough': 'also tables of 3 isomers and 12 temperatures, every 16th byte of each image, 3 formats'}
ASSUMPTIONS = ['a full file system shows itself as a failing write, as under a size limit or on /dev/full',
               'success is the exit status 0']
TARGETS = {'P': 'in_P.dat', 'C': 'in_C.dat', 'pP': 'in_P.%s', 'pC': 'in_C.%s'}
# plots that may be impossible to draw
FORMATS = ['svg', 'png', 'pdf', 'ps', 'eps', 'jpg', 'jpeg', 'tif', 'tiff', 'webp', 'gif', 'svgz', 'raw', 'rgba', 'pgf',
           'avif', 'xyz', 'bmp', 'doc', 'dat', 'x', 'svg ', 'x.png', 'no/png', 'PNG', 'Xyz']
SIZES = [['8', '6'], ['0', '0'], ['0', '4'], ['-1', '3'], ['nan', '3'], ['inf', '3'], ['1e6', '1e6'], ['0.01', '0.01'],
         ['1e-9', '2'], ['70', '1']]
EARLIER = 'earlier line of results\n' * 400
RANGES = [[], ['--min_temp', '7'], ['--min_temp', '3'], ['--max_temp', 'nan'], ['--min_temp', 'nan'],
          ['--min_temp', '2.5']]
STRIKES = ['interrupt', 'memory', 'refuse', 'kill']
OBSTACLES = ['full', 'directory', 'dangling', 'loop', 'readonly', 'readonly dir', 'file as directory',
             'missing directory', 'long name', 'full and earlier']


def cases(tier):
    quick = tier == 'quick'
    size = table_size(2, 2)
    for earlier in (0, 1):
        for k in range(size + 2):
            yield {'limit': k, 'n': 2, 'top': 1, 'earlier': earlier}
        for only in 'PC':
            for k in range(size + 2):
                yield {'limit': k, 'n': 2, 'top': 1, 'earlier': earlier, 'only': only}
    if not quick:
        for n, top in ((1, 2), (2, 3), (3, 11)):
            for k in range(table_size(n, top + 1) + 2):
                yield {'limit': k, 'n': n, 'top': top, 'earlier': 1}
    # tables larger than the buffers of the file objects
    size = table_size(2, 501)
    step = 1250 if quick else 128
    for only in ('P', 'C', None):
        for k in sorted(set(range(0, size, step)) | {j * 4096 + i for j in range(1, 10) for i in (-1, 0, 1)} |
                        {size - 1, 2000, 8000, 16000}):
            if k < size:
                yield {'limit': k, 'n': 2, 'top': 500, 'earlier': 0, 'only': only}
    for fmt in ('svg', 'png') if quick else ('svg', 'png', 'pdf'):
        for k in range(30 if quick else 1500):
            for only in ('pP', 'pC') if quick else ('pP', 'pC', None):
                yield {'part': k, 'parts': 30 if quick else 1500, 'n': 2, 'top': 3, 'plot': fmt,
                       'earlier': 0, 'only': only}
    for plot in (None, 'svg', 'png'):
        for target in TARGETS:
            if target.startswith('p') and not plot:
                continue
            for what in OBSTACLES + ['none']:
                yield {'target': target, 'obstacle': what, 'n': 2, 'top': 3, 'plot': plot, 'earlier': 0}
    # interrupts, lack of memory, refused files and kills at every point of a run
    for plot in (None, 'svg') if quick else (None, 'svg', 'png', 'pdf'):
        for action in STRIKES:
            for earlier in (0,) if quick and plot else (0, 1):
                for part in range(16):
                    yield {'strike': action, 'share': part, 'n': 2, 'top': 1, 'plot': plot,
                           'earlier': earlier}
                    if not quick:
                        yield {'strike': action, 'share': part, 'n': 3, 'top': 4, 'plot': plot,
                               'earlier': earlier, 'flags': '-eqr'}
    for earlier in (0, 1):
        for plot in (None, 'svg', 'png', 'pdf'):
            yield {'limit': None, 'n': 2, 'top': 3, 'plot': plot, 'earlier': earlier}
    for fmt in FORMATS:
        for size in SIZES if fmt in ('svg', 'png', 'pdf') else SIZES[:2]:
            for earlier in (0, 1):
                yield {'ask': ['--plot', '--plot_format', fmt, '--size'] + size, 'earlier': earlier}
    for rng in RANGES:
        for plot in ([], ['--plot'], ['--plot', '--plot_format', 'png']):
            for earlier in (0, 1):
                yield {'ask': rng + plot, 'earlier': earlier}
    for case in ({'limit': 0}, {'limit': 100}, {'limit': 220}, {'limit': None},
                 {'target': 'P', 'obstacle': 'full'}, {'target': 'C', 'obstacle': 'full'}):
        yield dict(case, n=2, top=3, earlier=0, process=1)
    yield {'target': 'pC', 'obstacle': 'full', 'n': 2, 'top': 3, 'earlier': 0, 'plot': 'svg', 'process': 1}


def init():
    # what is there already needs no look by the collections at the ends of the children
    gc.collect()
    gc.freeze()


def table_size(n, rows):
    return rows * (n + 1) * 25


_ref = {}


def reference(n, top, plot, flags='-sc'):
    """Outputs of an undisturbed run."""
    key = (n, top, plot, flags)
    if key not in _ref:
        with files.Box() as box:
            box.write('in.xyz', files.text([files.isomer(i, 3) for i in range(n)]))
            code = child(arguments(n, top, plot, flags), None, False)
            out = box.files()
        if code != 0:
            raise Violation(f'an undisturbed run ends with status {code}')
        _ref[key] = out
    return _ref[key]


def arguments(n, top, plot, flags='-sc'):
    args = ['in.xyz', flags, '--max_temp', str(top)]
    if plot:
        args += ['--plot', '--plot_format', plot]
    return args


_points = {}


def points(case, args):
    """Number of points of an undisturbed run."""
    key = (tuple(args), case['strike'] == 'refuse', case['earlier'])
    if key not in _points:
        read, write = os.pipe()
        child(args, None, False, Strike(case['strike'], -1, write))
        os.close(write)
        _points[key] = int(os.read(read, 100))
        os.close(read)
    return _points[key]


def child(args, limit, unprivileged, strike=None):
    """Exit status of the command run in a forked process under a fault."""
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            signal.alarm(0)
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)
            if unprivileged:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            if strike:
                strike.start()
            try:
                code = files.cli(args).code
            except KeyboardInterrupt:
                code = 130
            if strike:
                strike.stop()
            gc.collect()
        except BaseException:      # pylint: disable=broad-except
            code = 98
        finally:
            os._exit(code if isinstance(code, int) and 0 <= code < 256 else 97)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    if code in (97, 98, 99):
        raise HarnessError(f'child ended with {code}')
    return code


def process(args, limit):
    """The same as a real process."""
    def prepare():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    env = dict(os.environ, PYTHONPATH=boot.REPO, PYTHONDONTWRITEBYTECODE='1')
    res = subprocess.run([sys.executable, '-W', 'ignore', '-c',
                          'import sys; from occuprob.cli import main; sys.exit(main())'] + args,
                         env=env, preexec_fn=prepare, capture_output=True)
    return res.returncode


def struck(case, ctx):
    """Runs that are struck at every point of the share of this case."""
    plot, flags = case.get('plot'), case.get('flags', '-sc')
    ref = reference(case['n'], case['top'], plot, flags)
    args = arguments(case['n'], case['top'], plot, flags)
    targets = [v % plot if '%' in v else v for k, v in TARGETS.items() if plot or not k.startswith('p')]
    k = case['share']
    while True:
        with files.Box() as box:
            box.write('in.xyz', ref['in.xyz'].decode())
            if case.get('earlier'):
                for name in targets:
                    box.write(name, 'earlier line of results\n' * 400)
            if k == case['share'] and k >= points(case, args):
                return
            for name in targets:          # as before the counting run
                if case.get('earlier'):
                    box.write(name, 'earlier line of results\n' * 400)
                elif os.path.lexists(name):
                    os.remove(name)
            code = child(args, None, False, Strike(case['strike'], k, None))
            after = box_state(box)
        told = f'occuprob {" ".join(args)} with {case["strike"]} at point {k}'
        ctx.step()
        ctx.trace()
        ctx.state([case, k])
        ctx.count('runs that fail' if code else 'runs that succeed')
        ctx.outcome([code, sorted(after)])
        if after.get('in.xyz') != ref['in.xyz']:
            raise Violation(f'{told}: the input file is changed or lost')
        for name in targets if code == 0 else ():
            why = 'it does not exist' if after.get(name) is None else complete(name, after[name], ref[name],
                                                                                plot)
            if why:
                raise Violation(f'{told}: success is reported, but {name}: {why}')
        k += 16
        if k >= points(case, args):
            return


def asked(case, ctx):
    """A request that may be impossible to fulfil: an error, or everything asked for."""
    ask = case['ask']
    fmt = ask[ask.index('--plot_format') + 1] if '--plot_format' in ask else 'svg'
    fmts = [fmt.lower(), fmt] if '--plot' in ask else []
    args = ['in.xyz', '-sc', '--max_temp', '3'] + ask
    ref = reference(2, 3, None)
    told = f'occuprob {" ".join(args)}'
    with files.Box() as box:
        content = ref['in.xyz'].decode()
        box.write('in.xyz', content)
        if case['earlier']:
            for x in ['in_P.dat', 'in_C.dat'] + [f'in_{k}.{x}' for k in 'PC' for x in fmts if '/' not in x]:
                box.write(x, EARLIER)
        if 'no/png' in ask:
            os.mkdir('in_P.no')     # but none for the other one
        code = child(args, None, False)
        after = box_state(box)
    ctx.step()
    ctx.trace()
    ctx.state(case)
    ctx.count('runs that fail' if code else 'runs that succeed')
    ctx.outcome([code != 0, sorted(after)])
    if after.get('in.xyz') != content.encode():
        raise Violation(f'{told}: the input file is changed')
    if code != 0:
        if ask == [] or fmt in ('svg', 'png', 'pdf') and ask[-2:] == ['8', '6']:
            raise Violation(f'{told}: status {code} although everything is possible')
        return
    for k in 'PC':
        name = f'in_{k}.dat'
        if after.get(name) is None or after[name] == EARLIER.encode():
            raise Violation(f'{told}: success is reported, but {name} is not written')
        if ask[:1] not in (['--min_temp'], ['--max_temp']):
            why = complete(name, after[name], ref[name], None)
            if why:
                raise Violation(f'{told}: success is reported, but {name}: {why}')
        blobs = [after[x] for x in (f'in_{k}.{y}' for y in fmts) if after.get(x)]
        if fmts and not [b for b in blobs if b != EARLIER.encode()]:
            raise Violation(f'{told}: success is reported, but there is no in_{k}.{fmt}')
        ends = {'svg': b'</svg>\n', 'png': b'IEND\xaeB`\x82', 'pdf': b'%%EOF\n'}
        if fmts and fmt in ends and not any(b.endswith(ends[fmt]) for b in blobs):
            raise Violation(f'{told}: success is reported, but in_{k}.{fmt} is not complete')


def check(case, ctx):
    if 'ask' in case:
        asked(case, ctx)
        return
    if 'strike' in case:
        struck(case, ctx)
        return
    plot = case.get('plot')
    ref = reference(case['n'], case['top'], plot)
    targets = {k: (v % plot if '%' in v else v) for k, v in TARGETS.items()
               if plot or not k.startswith('p')}
    content = ref['in.xyz'].decode()
    args = arguments(case['n'], case['top'], plot)
    limit = case.get('limit')
    other_user = False
    prefix = 'in'
    with files.Box() as box:
        box.write('in.xyz', content)
        if case.get('earlier'):
            for k, name in targets.items():
                box.write(name, 'earlier line of results\n' * 400)
        diverted = set()
        if case.get('only'):
            # all other outputs go to the null device, so that the limit strikes this one only
            for k, name in targets.items():
                if k != case['only']:
                    if os.path.lexists(name):
                        os.remove(name)
                    os.symlink('/dev/null', name)
                    diverted.add(name)
        if 'part' in case:
            whole = len(ref[targets[case['only'] or 'pP']])
            k, parts = case['part'], case['parts']
            limit = {0: 0, 1: 1, parts - 2: whole - 1, parts - 1: whole + 4096}.get(k, whole * k // parts)
        if 'obstacle' in case:
            args, prefix, other_user = obstruct(case, targets, args)
        before = box_state(box)
        if case.get('process'):
            code = process(args, limit)
        else:
            code = child(args, limit, other_user)
        after = box_state(box)
        ctx.step()
        told = describe(case, limit)
        if after.get('in.xyz') != content.encode():
            raise Violation(f'{told}: the input file is changed')
        ctx.count('runs that fail' if code else 'runs that succeed')
        if code == 0:
            for k, name in targets.items():
                name = prefix + name[2:]
                if name in diverted and os.path.islink(name):
                    continue
                if name not in after or after[name] is None:
                    raise Violation(f'{told}: success is reported, but {name} is not written')
                why = complete(name, after[name], ref[targets[k]], plot)
                if why:
                    raise Violation(f'{told}: success is reported, but {name} holds {len(after[name])} '
                                    f'bytes: {why}')
        elif limit is None and case.get('obstacle', 'none') == 'none':
            raise Violation(f'{told}: status {code} although every file can be written')
        del before
    if limit is None or limit < 10 ** 6:
        ctx.state(case)
    ctx.outcome([code != 0, sorted(after)])
    ctx.trace()


def obstruct(case, targets, args):
    """Put the obstacle in place; (arguments, output prefix, run as another user)."""
    name = targets[case['target']]
    kind = case['obstacle']
    if kind in ('full', 'full and earlier'):
        if kind == 'full and earlier':
            for x in targets.values():
                if x != name:
                    with open(x, 'w') as fh:
                        fh.write('earlier\n' * 1000)
        os.symlink('/dev/full', name)
    elif kind == 'directory':
        os.mkdir(name)
    elif kind == 'dangling':
        os.symlink('nowhere/at/all', name)
    elif kind == 'loop':
        os.symlink(name, name)
    elif kind == 'file as directory':
        return args + ['--out_file', 'in.xyz/out'], 'in.xyz/out', False
    elif kind == 'missing directory':
        return args + ['--out_file', 'missing/out'], 'missing/out', False
    elif kind == 'long name':
        return args + ['--out_file', 'x' * 300], 'x' * 300, False
    else:
        if os.getuid() != 0:
            raise HarnessError('needs root to run as another user')
        path = os.getcwd()
        os.chmod(boot.scratch(), 0o711)
        os.chmod(path, 0o755 if kind == 'readonly dir' else 0o777)
        os.chmod('in.xyz', 0o644)
        if kind == 'readonly':
            with open(name, 'w') as fh:
                fh.write('earlier\n')
            os.chmod(name, 0o444)
        return args, 'in', True
    return args, 'in', False


def describe(case, limit):
    out = f'occuprob {" ".join(arguments(case["n"], case["top"], case.get("plot")))}'
    if limit is not None:
        out += f' with files limited to {limit} bytes'
    if case.get('only'):
        out += f' ({case["only"]} only)'
    if 'obstacle' in case:
        out += f' with the obstacle "{case["obstacle"]}" at {case["target"]}'
    if case.get('earlier'):
        out += ' over earlier output'
    return out
