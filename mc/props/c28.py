"""C28: simultaneous and interrupted runs of the command do not disturb other runs.

Real processes under a controlled scheduler: each pauses at chosen points (lines of the package,
openings of files) until it is told to go on."""
import gc
import itertools
import os
import select
import signal
import tempfile

import numpy as np

import boot
import files
from core import HarnessError, Violation
from strike import Strike, box_state, complete

ID = 'C28'
CHUNK = 1
STATES = 'distinct (scenario, schedule) pairs'
BOUNDS = {'quick': '14 pairs of runs: one paused at every point (file it opens, line of the package before which it '
                   'has done anything visible to other processes) while the other runs to its end; for 3 pairs both '
                   'paused, at all pairs of points; all interleavings of the two at the files they open (with images: '
                   'those with <= 3 switches); a run killed or interrupted at every point, after and before other runs',
          'thorough': 'also paused, killed and interrupted at every executed line, both paused for all pairs of runs, and '
                      'interleavings with images with <= 5 switches'}
ASSUMPTIONS = ['runs that are to write the same file are to write the same results there']
PATIENCE = 2.5       # a run that waits for the other one is left waiting after so many seconds
SHARES = 8


def doc(which, n=2, d=3):
    """An input file; all have the same atoms, the same names and sizes."""
    frames = [files.isomer(i, d) for i in range(n)]
    for f in frames:
        f['energy'] = repr(float(f['energy']) + {'a': 0., 'b': 0.015625 * frames.index(f), 'c': 0.}[which])
        f['mult'] = {'a': f['mult'], 'b': '1', 'c': '4'}[which]
    if which == 'c':
        frames = frames[::-1]
    return files.text(frames)


BAD = None


def bad():
    """A file whose last isomer is cut."""
    return doc('a')[:-40]


# name -> (files, arguments of A, arguments of B, {run: (prefix, plot format or None)} of what is written)
TOP = ['--max_temp', '1']
SCENES = {
    'two inputs': ({'a.xyz': 'a', 'b.xyz': 'b'}, ['a.xyz', '-sc'] + TOP, ['b.xyz', '-eqr'] + TOP,
                   {'A': ('a', None), 'B': ('b', None)}),
    'same length names': ({'in1.xyz': 'a', 'in2.xyz': 'b'}, ['in1.xyz', '-sc'] + TOP, ['in2.xyz', '-sc'] + TOP,
                          {'A': ('in1', None), 'B': ('in2', None)}),
    'one input two prefixes': ({'a.xyz': 'a'}, ['a.xyz', '-sc', '--out_file', 'x'] + TOP,
                               ['a.xyz', '-er', '--out_file', 'y', '--max_temp', '2'],
                               {'A': ('x', None), 'B': ('y', None)}),
    'same run': ({'a.xyz': 'a'}, ['a.xyz', '-sc'] + TOP, ['a.xyz', '-sc'] + TOP,
                 {'A': ('a', None), 'B': ('a', None)}),
    'nested prefixes': ({'a.xyz': 'a', 'b.xyz': 'b'}, ['a.xyz', '-sc', '--out_file', 'x'] + TOP,
                        ['b.xyz', '-sc', '--out_file', 'x_P'] + TOP, {'A': ('x', None), 'B': ('x_P', None)}),
    'malformed': ({'a.xyz': 'bad', 'b.xyz': 'b'}, ['a.xyz', '-sc'] + TOP, ['b.xyz', '-sc'] + TOP,
                  {'A': None, 'B': ('b', None)}),
    'malformed second': ({'a.xyz': 'a', 'a.xyz.xyz': 'bad'}, ['a.xyz', '-sc'] + TOP, ['a.xyz.xyz', '-sc'] + TOP,
                         {'A': ('a', None), 'B': None}),
    'two directories': ({'d/in.xyz': 'a', 'e/in.xyz': 'b'}, ['d/in.xyz', '-sc'] + TOP, ['e/in.xyz', '-sc'] + TOP,
                        {'A': ('d/in', None), 'B': ('e/in', None)}),
    'no contributions': ({'a.xyz': 'a', 'b.xyz': 'b'}, ['a.xyz'], ['b.xyz', '-sc'] + TOP,
                         {'A': 'nothing', 'B': ('b', None)}),
    'plots': ({'a.xyz': 'a', 'b.xyz': 'b'}, ['a.xyz', '-sc', '--plot'] + TOP, ['b.xyz', '-sc', '--plot'] + TOP,
              {'A': ('a', 'svg'), 'B': ('b', 'svg')}),
    'two formats': ({'a.xyz': 'a'}, ['a.xyz', '-sc', '--plot', '--plot_format', 'png'] + TOP,
                    ['a.xyz', '-sc', '--plot', '--plot_format', 'svg'] + TOP, {'A': ('a', 'png'), 'B': ('a', 'svg')}),
    'plot and table': ({'a.xyz': 'a', 'b.xyz': 'b'}, ['a.xyz', '-sc', '--plot'] + TOP,
                       ['b.xyz', '-sc'] + TOP, {'A': ('a', 'svg'), 'B': ('b', None)}),
    'output is input': ({'a.xyz': 'a', 'b.xyz': 'b'}, ['a.xyz', '-sc', '--out_file', 'b.xyz'] + TOP,
                        ['b.xyz', '-sc'] + TOP, {'A': ('b.xyz', None), 'B': ('b', None)}),
    'crossed': ({'a.xyz': 'a', 'b.xyz': 'c'}, ['a.xyz', '-sc', '--out_file', 'b'] + TOP,
                ['b.xyz', '-sc', '--out_file', 'a'] + TOP, {'A': ('b', None), 'B': ('a', None)}),
}


PAIRS = ['two inputs', 'same run', 'crossed']


def plotted(scene):
    return any(isinstance(x, tuple) and x[1] for x in SCENES[scene][3].values())


def cases(tier):
    quick = tier == 'quick'
    for scene in SCENES:
        for first in 'AB':
            for share in range(SHARES):
                yield {'scene': scene, 'paused': first, 'share': share}
                if not quick and not plotted(scene):
                    yield {'scene': scene, 'paused': first, 'share': share, 'lines': True}
    for scene in SCENES:
        few = None if not plotted(scene) else 3 if quick else 5
        for share in range(SHARES):
            yield {'scene': scene, 'interleave': few, 'share': share}
    for scene in SCENES:
        if plotted(scene) and quick:
            continue
        for how in ('kill', 'interrupt'):
            for first in 'AB':
                for share in range(SHARES):
                    yield {'scene': scene, 'struck': first, 'how': how, 'share': share}
                    if not quick and not plotted(scene):
                        yield {'scene': scene, 'struck': first, 'how': how, 'share': share, 'lines': True}
    for scene in PAIRS if quick else SCENES:
        if not plotted(scene):
            for first in 'AB':
                for share in range(SHARES):
                    yield {'scene': scene, 'both': first, 'share': share}


def init():
    # what is there already needs no look by the collections at the ends of the children
    gc.collect()
    gc.freeze()


class Place(files.Box):
    """A working directory with the inputs of a scene, and a temporary and a home directory."""

    def __init__(self, scene):
        self.scene = scene

    def __enter__(self):
        super().__enter__()
        self.side = tempfile.mkdtemp(prefix='side', dir=boot.scratch())
        self.old = tempfile.tempdir, {k: os.environ.get(k) for k in ('TMPDIR', 'HOME', 'XDG_CACHE_HOME')}
        tempfile.tempdir = self.side
        for k in self.old[1]:
            os.environ[k] = self.side
        for name, which in SCENES[self.scene][0].items():
            self.write(name, bad() if which == 'bad' else doc(which))
        return self

    def __exit__(self, *exc):
        tempfile.tempdir = self.old[0]
        for k, v in self.old[1].items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        super().__exit__(*exc)
        import shutil
        shutil.rmtree(self.side, ignore_errors=True)

    @property
    def roots(self):
        return [self.path, self.side]


class Process:
    """A run of the command in a process of its own, which waits at its points."""

    def __init__(self, place, args, action, k, lines):
        tell, told = os.pipe()
        wait, go = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 99
            try:
                signal.alarm(0)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 2)
                os.close(tell)
                os.close(go)
                np.random.seed()
                strike = Strike(action, k, None, lines, (told, wait), place.roots)
                strike.start()
                try:
                    code = files.cli(args).code
                except KeyboardInterrupt:
                    code = 130
                strike.stop()
                gc.collect()
            except BaseException:      # pylint: disable=broad-except
                code = 98
            finally:
                os._exit(code if isinstance(code, int) and 0 <= code < 256 else 97)
        os.close(told)
        os.close(wait)
        self.tell, self.go = tell, go
        self.code, self.paused = None, False

    def settle(self, patience):
        """Run until the next pause or the end; False if it does not get there in time."""
        ready, _, _ = select.select([self.tell], [], [], patience)
        if not ready:
            return False
        if os.read(self.tell, 1):
            self.paused = True
        else:
            self.end()
        return True

    def release(self):
        self.paused = False
        os.write(self.go, b'g')

    def end(self):
        if self.code is None:
            _, status = os.waitpid(self.pid, 0)
            self.code = os.waitstatus_to_exitcode(status)
            os.close(self.tell)
            os.close(self.go)
            if self.code in (97, 98, 99):
                raise HarnessError(f'child ended with {self.code}')

    def abandon(self):
        if self.code is None:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            os.close(self.tell)
            os.close(self.go)
            self.code = -9


def conclude(processes, told):
    """Let all go on to their ends."""
    import time
    end = time.monotonic() + 60
    try:
        while any(p.code is None for p in processes):
            for p in processes:
                if p.code is None:
                    if p.paused:
                        p.release()
                    p.settle(0.5 if len(processes) > 1 else 5)
            if time.monotonic() > end:
                raise Violation(f'{told}: the runs do not end')
    finally:
        for p in processes:
            p.abandon()


_ref = {}


def reference(scene, run):
    """(exit status, outputs) of a run alone."""
    key = (scene, run)
    if key not in _ref:
        with Place(scene) as place:
            before = box_state(place)
            p = Process(place, SCENES[scene][1 if run == 'A' else 2], 'pause', (), False)
            conclude([p], f'{scene}, run {run} alone')
            after = box_state(place)
        out = {k: v for k, v in after.items() if before.get(k) != v}
        want = SCENES[scene][3][run]
        if want is None:
            ok = p.code != 0 and not out
        elif want == 'nothing':
            ok = not out
        else:
            names = {want[0] + x for x in ('_P.dat', '_C.dat')}
            names |= {want[0] + f'_{x}.{want[1]}' for x in 'PC' if want[1]}
            ok = p.code == 0 and set(out) == names
        if not ok:
            raise Violation(f'{scene}: run {run} alone ends with status {p.code} and writes {sorted(out)}')
        _ref[key] = p.code, out
    return _ref[key]


def verdict(scene, codes, place, told, leftovers=False):
    """All runs whose exit status is given have done their work, and nothing else has changed."""
    after = box_state(place)
    want = {}
    for name, which in SCENES[scene][0].items():
        want[name] = (bad() if which == 'bad' else doc(which)).encode()
        if after.get(name) != want[name]:
            raise Violation(f'{told}: the input {name} is changed or lost')
    for run, code in codes.items():
        ref_code, out = reference(scene, run)
        if (code != 0) != (ref_code != 0):
            raise Violation(f'{told}: run {run} ends with status {code} instead of {ref_code}')
        fmt = SCENES[scene][3][run]
        for name, blob in out.items():
            if after.get(name) is None:
                raise Violation(f'{told}: {name} of run {run} is missing')
            why = complete(name, after[name], blob, fmt[1])
            if why:
                raise Violation(f'{told}: {name} of run {run}: {why}')
            want[name] = blob
    if not leftovers:
        more = sorted(k for k in set(after) - set(want) if after[k] is not None)
        if more:
            raise Violation(f'{told}: {more} were left behind')


def args_of(scene, run):
    return SCENES[scene][1 if run == 'A' else 2]


def text(scene):
    return f'runs A: occuprob {" ".join(args_of(scene, "A"))}, B: occuprob {" ".join(args_of(scene, "B"))}'


def check(case, ctx):
    if 'paused' in case:
        paused(case, ctx)
    elif 'interleave' in case:
        interleaved(case, ctx)
    elif 'struck' in case:
        struck(case, ctx)
    else:
        both(case, ctx)


def paused(case, ctx):
    scene, one = case['scene'], case['paused']
    two = 'B' if one == 'A' else 'A'
    stride = SHARES
    k = case['share']
    while True:
        told = f'{text(scene)}; {one} stops at point {k} until {two} has ended'
        with Place(scene) as place:
            p = Process(place, args_of(scene, one), 'pause', (k,), case.get('lines', 'visible'))
            finished = False
            q = None
            try:
                if not p.settle(60):
                    raise Violation(f'{told}: {one} does not get there')
                finished = p.code is not None
                if not finished:
                    q = Process(place, args_of(scene, two), 'pause', (), False)
                    # a run that waits for the other one is let go on
                    if not q.settle(PATIENCE):
                        ctx.count('runs that wait for each other')
                    conclude([p, q], told)
                    verdict(scene, {one: p.code, two: q.code}, place, told)
            finally:
                p.abandon()
                if q:
                    q.abandon()
        if finished:
            return
        ctx.step(2)
        ctx.trace()
        ctx.state([case, k])
        ctx.outcome([scene, one, p.code, q.code])
        k += stride


def schedules(na, nb, few):
    """All orders of na steps of A and nb of B (with at most `few` switches)."""
    for where in itertools.combinations(range(na + nb), na):
        order = ['B'] * (na + nb)
        for i in where:
            order[i] = 'A'
        if few is None or sum(x != y for x, y in zip(order, order[1:])) <= few:
            yield order


def steps(scene, run):
    """Number of steps between the files that a run opens."""
    with Place(scene) as place:
        p = Process(place, args_of(scene, run), 'pause', None, False)
        n = 0
        try:
            while p.code is None:
                if not p.settle(60):
                    raise Violation(f'{scene}: run {run} alone does not end')
                if p.paused:
                    p.release()
                    n += 1
        finally:
            p.abandon()
    return n


def interleaved(case, ctx):
    scene = case['scene']
    na, nb = steps(scene, 'A'), steps(scene, 'B')
    # the size of the space grows quickly; it is cut by switches, never sampled
    few = case['interleave']
    if few is None and na + nb > 13:
        few = 5
    if few is not None and na + nb > 24:
        few = 2
    for i, order in enumerate(schedules(na, nb, few)):
        if i % SHARES != case['share']:
            continue
        told = f'{text(scene)}; steps in the order {"".join(order)}'
        with Place(scene) as place:
            ps = {'A': Process(place, args_of(scene, 'A'), 'pause', None, False),
                  'B': Process(place, args_of(scene, 'B'), 'pause', None, False)}
            try:
                for p in ps.values():
                    p.settle(PATIENCE)
                for x in order:
                    p = ps[x]
                    if p.paused:
                        p.release()
                    if p.code is None and not p.settle(PATIENCE):
                        ctx.count('runs that wait for each other')
                        break
                conclude(list(ps.values()), told)
            finally:
                for p in ps.values():
                    p.abandon()
            verdict(scene, {k: p.code for k, p in ps.items()}, place, told)
        ctx.step(len(order))
        ctx.trace()
        ctx.state([scene, order])
        ctx.outcome([scene, ps['A'].code, ps['B'].code])


def alone(place, scene, run, told):
    p = Process(place, args_of(scene, run), 'pause', (), False)
    conclude([p], told)
    return p.code


def struck(case, ctx):
    scene, one, how = case['scene'], case['struck'], case['how']
    two = 'B' if one == 'A' else 'A'
    k = case['share']
    normal = reference(scene, one)[0]
    while True:
        told = f'{text(scene)}; {two} ends, {one} is {"killed" if how == "kill" else "interrupted"} at point {k}'
        with Place(scene) as place:
            code = alone(place, scene, two, told)
            verdict(scene, {two: code}, place, told)
            same = set(reference(scene, one)[1]) & set(reference(scene, two)[1])
            p = Process(place, args_of(scene, one), how, k, case.get('lines', 'visible'))
            conclude([p], told)
            hit = p.code == (137 if how == 'kill' else 130)
            if not hit and p.code != normal:
                raise Violation(f'{told}: it ends with status {p.code}')
            if not same:
                verdict(scene, {two: code}, place, told, True)
            told += f', then {two} runs again'
            verdict(scene, {two: alone(place, scene, two, told)}, place, told, True)
            told += f', then {one}'
            again = alone(place, scene, one, told)
            verdict(scene, {one: again, two: code}, place, told, True)
        if not hit:
            return
        ctx.step(4)
        ctx.trace()
        ctx.state([case, k])
        ctx.outcome([scene, one, how, again])
        k += SHARES


def both(case, ctx):
    """A stops at one line, B at another, then A ends, then B."""
    scene, one = case['scene'], case['both']
    two = 'B' if one == 'A' else 'A'
    k = case['share']
    while True:
        j = 0
        while True:
            told = f'{text(scene)}; {one} stops at point {k}, {two} at point {j}, {one} ends, {two} ends'
            with Place(scene) as place:
                p = Process(place, args_of(scene, one), 'pause', (k,), case.get('lines', 'visible'))
                q = None
                try:
                    p.settle(60)
                    if p.code is not None:
                        return
                    q = Process(place, args_of(scene, two), 'pause', (j,), 'visible')
                    waits = not q.settle(PATIENCE)
                    last = q.code is not None
                    if not last and not waits:
                        p.release()
                        p.settle(PATIENCE)
                    conclude([p, q], told)
                finally:
                    p.abandon()
                    if q:
                        q.abandon()
                verdict(scene, {one: p.code, two: q.code}, place, told)
            ctx.step(3)
            ctx.trace()
            ctx.state([case, k, j])
            if last:
                break
            j += 1
        ctx.outcome([scene, one, p.code, q.code])
        k += SHARES
