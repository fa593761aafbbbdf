"""Exploration core: enumerates the cases of a property in a fixed simplest-first
order on all cores, collects coverage, and turns the first failing case into a
replayable artefact.  No case is ever sampled or skipped."""
import hashlib
import io
import itertools
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback
from collections import deque
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool

from boot import VERIF, REPO

LIMIT = 240      # seconds for one case
KNOWN_FILE = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Violation(Exception):
    """The property does not hold for the current case."""


class HarnessError(Exception):
    """The machinery (not the code under test) failed."""


def load_known(prop):
    """{finding id: description} of the open findings listed for a property."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE) as fh:
            for line in fh:
                m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', line)
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3).strip()
    return out


def h64(obj):
    """Stable 64 bit hash of a JSON-able or bytes object."""
    if not isinstance(obj, bytes):
        obj = json.dumps(obj, sort_keys=True, default=repr).encode()
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), 'big')


class Ctx:
    """Coverage collected while checking cases."""

    def __init__(self, known, tier):
        self.tier = tier
        self.known_ids = known
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.known_hits = {}
        self.counts = {}

    def state(self, key):
        self.states.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(h64(key))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def known(self, kid, detail):
        """An observed failure that matches a listed finding (else a violation)."""
        if kid not in self.known_ids:
            raise Violation(f'{detail} (would be {kid}, which is not listed as a known finding)')
        hit = self.known_hits.setdefault(kid, [0, detail])
        hit[0] += 1


_MOD = None
_KNOWN = None
_TIER = None


def _quiet_check(mod, case, ctx):
    """Run one case with the code under test's prints swallowed."""
    def late(*_):
        raise Violation(f'no result within {LIMIT} s')

    signal.signal(signal.SIGALRM, late)
    signal.alarm(getattr(mod, 'CASE_LIMIT', LIMIT))
    try:
        mod.check(case, ctx)
        return None
    except Violation as exc:
        return f'{exc}'
    except HarnessError:
        raise
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as exc:     # pylint: disable=broad-except
        tb = traceback.extract_tb(exc.__traceback__)
        inside = [f for f in tb if f.filename.startswith(os.path.join(REPO, 'occuprob'))]
        where = inside[-1] if inside else tb[-1]
        return (f'unexpected {type(exc).__name__}: {exc} at {os.path.basename(where.filename)}:'
                f'{where.lineno} in {where.name}')
    finally:
        signal.alarm(0)


def _worker(chunk):
    ctx = Ctx(_KNOWN, _TIER)
    bad = None
    with open(os.devnull, 'w') as null:
        saved = sys.stdout
        sys.stdout = null
        try:
            for idx, case in chunk:
                msg = _quiet_check(_MOD, case, ctx)
                if msg is not None:
                    bad = (idx, case, msg)
                    break
        except Exception:   # harness trouble: report with its traceback
            return ('harness', traceback.format_exc(), None)
        finally:
            sys.stdout = saved
    return ('ok', ctx, bad)


def _chunks(cases, size):
    it = enumerate(cases)
    while True:
        block = list(itertools.islice(it, size))
        if not block:
            return
        yield block


def _init(mod):
    if hasattr(mod, 'init'):
        mod.init()


def _find_crash(blocks):
    """A worker process died: run the cases one by one in processes of their own."""
    mpctx = mp.get_context('fork')
    for block in blocks:
        for idx, case in block:
            proc = mpctx.Process(target=lambda: (_init(_MOD), _worker([(idx, case)])))
            proc.start()
            proc.join()
            if proc.exitcode != 0:
                return idx, case, f'the interpreter died (exit status {proc.exitcode})'
    raise HarnessError('a worker process died, but no single case reproduces it')


def explore(mod, tier, seed, workers=None):
    """Run the whole space of a property module; returns the process exit code."""
    global _MOD, _KNOWN, _TIER
    t0 = time.time()
    known = load_known(mod.ID)
    _MOD, _KNOWN, _TIER = mod, known, tier
    if hasattr(mod, 'prepare'):
        mod.prepare(tier)
    workers = workers or min(8, os.cpu_count() or 1)
    total = Ctx(known, tier)
    ncases = 0
    samples = []
    best = None
    size = getattr(mod, 'CHUNK', 16)
    blocks = _chunks(mod.cases(tier), size)
    if hasattr(mod, 'before'):
        mod.before(tier)
    with ProcessPoolExecutor(workers, mp_context=mp.get_context('fork'), initializer=_init,
                             initargs=(mod,)) as pool:
        pending = deque()
        while best is None:
            while len(pending) < 6 * workers:
                block = next(blocks, None)
                if block is None:
                    break
                ncases += len(block)
                if len(samples) < 3:
                    samples.append(block[0][1])
                pending.append((block, pool.submit(_worker, block)))
            if not pending:
                break
            block, future = pending.popleft()
            try:
                kind, ctx, bad = future.result()
            except BrokenProcessPool:
                best = _find_crash([block] + [b for b, f in pending])
                break
            if kind == 'harness':
                for _, f in pending:
                    f.cancel()
                print(ctx)
                print(f'harness error in {mod.ID}')
                return 2
            total.states |= ctx.states
            total.transitions += ctx.transitions
            total.traces += ctx.traces
            total.outcomes |= ctx.outcomes
            for k, v in ctx.counts.items():
                total.counts[k] = total.counts.get(k, 0) + v
            for k, v in ctx.known_hits.items():
                hit = total.known_hits.setdefault(k, [0, v[1]])
                hit[0] += v[0]
            best = bad
        for _, f in pending:
            f.cancel()
    extra = {}
    if best is None and hasattr(mod, 'finish'):
        try:
            extra = mod.finish(tier, total) or {}
        except Violation as exc:
            best = (0, {'finish': True}, str(exc))
    wall = time.time() - t0
    write_evidence(mod, tier, seed, total, ncases, samples, wall, best, extra)
    for kid, hit in sorted(total.known_hits.items()):
        print(f'KNOWN-FINDING: property={mod.ID} {kid}: {known[kid]} '
              f'[{hit[0]} explored inputs; e.g. {hit[1]}]')
    if best is not None:
        path = write_replay(mod, tier, best)
        print(f'{mod.ID}: {best[2]}')
        print(f'  case: {json.dumps(best[1], default=repr)}')
        print(f'VIOLATION property={mod.ID} replay={path}')
        return 1
    print(f'{mod.ID} {tier}: held on {ncases} cases, {len(total.states)} states, '
          f'{total.transitions} transitions, {total.traces} traces, '
          f'{len(total.outcomes)} distinct outcomes, {wall:.1f} s')
    return 0


def write_replay(mod, tier, best):
    folder = os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f'{mod.ID}-{h64(best[1]):016x}.json')
    with open(path, 'w') as fh:
        json.dump({'property': mod.ID, 'tier': tier, 'case': best[1], 'message': best[2],
                   'how': f'/verif/check {mod.ID} --replay {path}'}, fh, indent=1, default=repr)
    return path


def write_evidence(mod, tier, seed, total, ncases, samples, wall, best, extra):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = {}
    level = getattr(mod, 'LEVEL', 'model_checking')
    if level == 'fault_enumeration':
        cov.update(evaluations=total.transitions, distinct_nontrivial=len(total.states),
                   rule=mod.RULE)
    else:
        cov.update(states=len(total.states), transitions=total.transitions,
                   traces_validated_against_impl=total.traces)
        cov['states_are'] = mod.STATES
    cov.update(samples=samples, cases=ncases, distinct_outcomes=len(total.outcomes),
               exhaustive=best is None, bounds=mod.BOUNDS[tier])
    if total.counts:
        cov['breakdown'] = dict(sorted(total.counts.items()))
    if total.known_hits:
        cov['known_finding_inputs'] = {k: v[0] for k, v in total.known_hits.items()}
    cov.update(extra)
    doc = {'property': mod.ID, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
           'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 3),
           'violations': 0 if best is None else 1}
    with open(os.path.join(VERIF, 'evidence', f'{mod.ID}.json'), 'w') as fh:
        json.dump(doc, fh, indent=1, default=repr)


def replay(mod, path):
    """Re-run exactly one recorded case, without the explorer."""
    with open(path) as fh:
        rec = json.load(fh)
    ctx = Ctx(load_known(mod.ID), rec.get('tier', 'quick'))
    _init(mod)
    msg = _quiet_check(mod, rec['case'], ctx)
    if msg is None:
        print(f'{mod.ID}: the recorded case now passes')
        return 0
    print(f'{mod.ID}: {msg}')
    print(f'VIOLATION property={mod.ID} replay={path}')
    return 1


def deviations(axes, bound, fixed=None, order=None):
    """All assignments that differ from the default (the first option of each axis) in
    at most `bound` axes, fewest deviations first.  Only deviations are recorded."""
    names = order or list(axes)
    fixed = fixed or {}
    for k in range(bound + 1):
        for combo in itertools.combinations(names, k):
            for values in itertools.product(*(axes[n][1:] for n in combo)):
                case = dict(zip(combo, values))
                case.update(fixed)
                yield case
