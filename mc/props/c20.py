"""C20: the command line writes exactly the documented files, next to where they belong."""
import os

import numpy as np

import core
import files
from core import Violation

ID = 'C20'
CHUNK = 1
STATES = 'distinct (input path, prefix, format, plotting, earlier content, contributions) runs'
AXES = {
    'path': ['run.xyz', 'data.xyz', 'mydat.xyz', 'date/run.xyz', 'runs.xyz/a.xyz', 'a.xyz.xyz',
             'sub/dir/deep.xyz', './run.xyz', '../work/run.xyz', '../up.xyz', '/ABS/run.xyz',
             'a.extxyz', 'a.b.c.xyz', 'svg.xyz', 'dat.xyz', 'P.xyz', 'x_C.xyz', 'with space.xyz',
             'g\u00fc.xyz', 'xyz.xyz', 'axyz.xyz', 'dat/dat.dat/dat.xyz', 'png_pdf.svg.xyz', '-x.xyz',
             '$HOME.xyz', '${HOME}/x.xyz', '~x.xyz', '%s.xyz', '{0}.xyz', 'a*b.xyz', 'r[1].xyz', 'a&b;c.xyz', "it's.xyz",
             'x?.xyz', '.hidden.xyz', 'A.XYZ.xyz', 'tab\tin.xyz', 'a\\b.xyz', 'n=1,m.xyz', '#1.xyz',
             'X.XYZ', 'noext', 'm.ext.xyz', 'm.svg.xyz', 'm.dat.xyz', 'm_P.dat.xyz', 'm..xyz', 'm.XYZ.xyz',
             'm.traj.xyz', 'm_.xyz', 'm-1.5.xyz', 'm@1.xyz',
             'lnk/run.xyz', 'lnk/../side.xyz', './lnk/.././x/in.xyz', 'm@0', 'CONTCAR.xyz', 'OUTCAR', 'iso.cif', 'iso.traj', 'iso.json', 'iso.db'],
    'prefix': [None, 'out', 'data', 'lnk/o', 'lnk/../o', 'out/date/res', 'out.dat', 'res.svg', 'a.xyz', 'b.xyz/c', 'sub/x.y',
               'with space', 'x_P', '/ABS/o', './o', 'out_dat', '../up', 'dat', 'svg', 'run', 'run_C',
               '$HOME/o', '~/o', '%s', '{0}', 'a*', 'r[1]', 'tab\tin', 'o.tar.gz', 'x.gz', 'o_', '_', '.', '.hid', 'o.',
               'a\\n', '#o', 'o o/p q', 'run.xyz.xyz', 'UPPER', '1', '0', 'None', '-'],
    'plot': [0, 1],
    'format': ['svg', 'png', 'pdf', 'PNG', 'Svg', 'eps', 'jpg'],
    'earlier': ['none', 'stale', 'bystanders', 'both', 'stale plots'],
    'flags': ['-sc', '-e', '-sqr', '-cr'],
    'twice': [0, 1],
    'via': ['file', 'link', 'hard link', 'chain'],
}
BOUNDS = {'quick': 'all runs within 2 deviations of "occuprob run.xyz -sc" over 8 axes (62 input paths (also through linked directories), '
                   '43 prefixes, 7 formats, plotting, earlier content, contributions, repetition, input through links); all '
                   'paths x prefixes also with plotting',
          'thorough': 'within 3 deviations'}
ASSUMPTIONS = ['letter case of the file-name extension of plots is not judged',
               'the directory tree around the working directory is observed, not the whole system']
MAGIC = {'svg': b'<?xml', 'png': b'\x89PNG', 'pdf': b'%PDF', 'eps': b'%!PS', 'jpg': b'\xff\xd8'}
BYSTANDERS = ['other.dat', 'work/run_C.txt', 'work/run_P.dat.bak', 'work/runC.dat', 'work/out_C.da',
              'work/run_.dat', 'work/_C.dat', 'work/data_X.svg', 'work/run.xyz~', 'work/C.dat']


def cases(tier):
    bound = 2 if tier == 'quick' else 3
    seen = set()
    for dev in core.deviations(AXES, bound):
        if ('format' in dev and 'plot' not in dev) or ('plot' in dev and dev.get('earlier') == 'x'):
            continue
        seen.add(repr(sorted(dev.items())))
        yield dev
    for p in AXES['path'][1:]:
        for o in AXES['prefix'][1:] if tier != 'quick' else AXES['prefix'][1::3]:
            dev = {'path': p, 'prefix': o, 'plot': 1}
            if repr(sorted(dev.items())) not in seen:
                yield dev


def strip(path):
    return path[:-4] if path.endswith('.xyz') else path


def check(case, ctx):
    opt = {k: case.get(k, v[0]) for k, v in AXES.items()}
    frames = [files.isomer(i, 3) for i in (0, 1, 6)]
    with files.Box() as box:
        os.environ['HOME'] = box.path
        os.makedirs('work/x')
        os.chdir('work')
        if any('lnk/' in (opt[k] or '') for k in ('path', 'prefix')):
            # a directory that is elsewhere: its parent is not the working directory
            os.makedirs('../else/where/x')
            os.mkdir('../else/x')
            os.symlink('../else/where', 'lnk')

        def real(p):
            return p.replace('/ABS', os.path.join(box.path, 'abs'))

        path = real(opt['path'])
        prefix = None if opt['prefix'] is None else real(opt['prefix'])
        for p in [path] + ([prefix] if prefix else []):
            os.makedirs(os.path.dirname(files.where(p)), exist_ok=True)
        real_path = path
        if opt['via'] != 'file':
            real_path = os.path.join(box.path, 'store/isomers.xyz')
            os.mkdir(os.path.dirname(real_path))
        with open(real_path, 'w') as fh:
            fh.write(files.text(frames))
        if opt['via'] == 'hard link':
            os.link(real_path, path)
        elif opt['via'] == 'link':
            os.symlink(real_path, path)
        elif opt['via'] == 'chain':
            os.symlink(real_path, os.path.join(box.path, 'other.xyz'))
            os.symlink(os.path.relpath(os.path.join(box.path, 'other.xyz'),
                                       os.path.dirname(files.where(path))), path)
        stem = strip(path) if prefix is None else prefix
        outs = [f'{stem}_{k}.dat' for k in 'CP']
        plots = [f'{stem}_{k}.{opt["format"].lower()}' for k in 'CP'] if opt['plot'] else []
        if opt['earlier'] in ('stale', 'both'):
            for p in outs + plots:
                with open(p, 'w') as fh:
                    fh.write('1.0 2.0 3.0\n' * 3000)
        if opt['earlier'] == 'stale plots' and not plots:
            for k in 'CP':
                with open(f'{stem}_{k}.svg', 'w') as fh:
                    fh.write('an earlier plot')
        if opt['earlier'] in ('bystanders', 'both'):
            for p in BYSTANDERS:
                if os.path.join(box.path, p) not in map(files.where, outs + plots):
                    box.write(p, 'keep me\n')
        before = box.files()
        args = [opt['flags'], '--max_temp', '20']
        if prefix is not None:
            args += ['--out_file', prefix]
        if opt['plot']:
            args += ['--plot', '--size', '3', '2']
            if opt['format'] != 'svg':
                args += ['--plot_format', opt['format']]
        args += ['--', path] if path.startswith('-') else [path]
        cmd = 'occuprob ' + ' '.join(args).replace(box.path, '')

        def rel(p):
            return os.path.relpath(files.where(p), box.path)

        expected = {rel(p) for p in outs + plots}
        expected |= {p.rpartition('.')[0] + '.' + opt['format'] for p in map(rel, plots)} | \
            {p.rpartition('.')[0] + '.' + opt['format'].upper() for p in map(rel, plots)}
        for again in range(1 + opt['twice']):
            with files.writes(box.path) as log:
                run = files.cli(args)
            ctx.step()
            if run.code != 0:
                raise Violation(f'{cmd} failed with status {run.code}: {run.err[-300:]}')
            # whatever else was touched, even if only for a moment, might have been a file of
            # the user: put one there and run again
            other = {p for p in log if p not in expected and p != rel(path) and
                     (p not in before or before[p] == box.files().get(p))}
            if other and not again:
                ctx.count('other paths touched', len(other))
                for p in other:
                    if p not in before and not os.path.exists(os.path.join(box.path, p)):
                        box.write(p, 'keep this too\n')
                        before[p] = b'keep this too\n'
                run = files.cli(args)
                ctx.step()
                if run.code != 0:
                    raise Violation(f'{cmd} failed with status {run.code} when {sorted(other)} '
                                    f'exist: {run.err[-300:]}')
        after = box.files()

        want = {rel(p) for p in outs}
        lower = {rel(p).rpartition('.')[0] for p in plots}
        touched = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
        written = set()
        for p in sorted(touched):
            if p not in after:
                raise Violation(f'{cmd} removed {p}')
            head, _, ext = p.rpartition('.')
            if p in want:
                written.add(p)
            elif head in lower and ext.lower() == opt['format'].lower():
                written.add(head)
                if not after[p].startswith(MAGIC[ext.lower()]):
                    raise Violation(f'{cmd}: {p} is not a {ext} image')
                if after[p].endswith(b'2.0 3.0\n'):
                    raise Violation(f'{cmd}: {p} still holds an earlier file')
            else:
                raise Violation(f'{cmd} created or changed {p}; only {sorted(want | lower)} '
                                f'may change')
        missing = (want | lower) - written
        if missing:
            raise Violation(f'{cmd} did not write {sorted(missing)}')
        tabs = {k: files.table(after[rel(f'{stem}_{k}.dat')], f'{stem}_{k}.dat') for k in 'PC'}
        files.check_tables(tabs, frames, opt['flags'][1:].upper(), np.arange(0., 21.), cmd)
    ctx.state(case)
    ctx.outcome(sorted(p.rpartition('/')[2] for p in touched))
    ctx.trace()
