"""C29: distributions carry the whole package and the version of their sources."""
import itertools
import os
import re
import shutil
import subprocess
import sys
import tarfile
import tempfile
import zipfile

import numpy as np

import boot
import files
from core import HarnessError, Violation
from props.c25 import Repo, TAGS, ask, environment, judge_archive, judge_tree, judge_unknown, obtain, valid

ID = 'C29'
CHUNK = 2
CASE_LIMIT = 300
STATES = 'distinct (history, sources, chain of packaging steps) artefacts'
HISTORY = ['commit', 'tag', 'annotate', 'edit', 'untracked', 'stage', 'back']
WAYS = ['tree', 'clone', 'linked', 'archive', 'copy']
ENDS = ['build', 'wheel', 'install', 'sdist', 'editable']
PLACES = ['beside', 'nested', 'renamed', 'later', 'no git']
STEPS = ['commit', 'tag', 'edit', 'restore', 'build', 'wheel', 'sdist']
BOUNDS = {'quick': 'all histories of <= 1 action out of 7 x 5 ways of obtaining the sources, and of 2 from work tree and '
                   'archive, x one of 5 kinds of artefact (built tree, wheel, installation, source distribution, editable '
                   'installation) in turn; 3 histories x 5 ways x all chains of <= 2 source distributions and an artefact x the places (beside, below another '
                   'repository, in a renamed folder, after later commits, without git); all histories of <= 3 actions out of '
                   '7 that build, change and build again in one tree; 9 tags; every installation is used once',
          'thorough': 'all histories of <= 2 actions x all ways and kinds, <= 3 with one kind; chains of 3; building histories of <= 4'}
ASSUMPTIONS = ['setuptools, wheel and git of the sandbox work', 'tags are version numbers',
               'copies below another repository are left to C25']
IGNORED = {'.git', 'build', 'dist', '__pycache__', '.pytest_cache', '.mypy_cache', '.eggs', 'htmlcov', '.vscode'}


def cases(tier):
    quick = tier == 'quick'
    yield {'do': [], 'way': 'tree', 'chain': ['wheel'], 'use': 1}
    turn = 0
    for depth in range(3 if quick else 4):
        for seq in itertools.product(HISTORY, repeat=depth):
            for way in WAYS if depth < 2 or not quick else ('tree', 'archive'):
                for i, end in enumerate(ENDS):
                    if (i == turn % len(ENDS)) if quick or depth == 3 else True:
                        yield {'do': seq, 'way': way, 'chain': [end]}
                turn += 1
            turn += 1
    for seq in (['tag'], ['tag', 'commit'], ['annotate', 'commit', 'stage'], [], ['tag', 'edit'], ['edit'])[:3 if quick else 6]:
        for way in WAYS:
            for depth in range(1 if quick else 2, 3 if quick else 4):
                for end in ENDS:
                    place = PLACES[:1] if end == 'editable' and not depth else PLACES
                    for where in place if not quick or (depth == 1 and way in ('tree', 'archive')) else place[turn % len(place):][:1]:
                        yield {'do': seq, 'way': way, 'chain': ['sdist'] * depth + [end], 'place': where}
                    turn += 1
    for depth in range(2, 4 if quick else 5):
        for seq in itertools.product(STEPS, repeat=depth):
            made = [i for i, s in enumerate(seq) if s in ENDS]
            # something built before a change, and something built after it
            if len(made) > 1 or (made and made[0] > 0):
                yield {'steps': seq}
    for k in range(len(TAGS)):
        for seq in (['tag'], ['annotate', 'commit']):
            for end in ENDS if not quick else ENDS[(k + len(seq)) % 5:][:1]:
                yield {'do': seq, 'name': k, 'way': 'tree', 'chain': ['sdist', end]}
    for way in WAYS:
        for end in ENDS[:3] + ENDS[4:]:
            yield {'do': ['tag', 'commit'], 'way': way, 'chain': [end], 'use': 1}
            yield {'do': ['tag', 'edit'], 'way': way, 'chain': ['sdist', end], 'use': 1}
    for seq in ([], ['tag'], ['tag', 'edit'], ['annotate', 'commit']):
        yield {'do': seq, 'renew': 1}


class Project(Repo):
    """A repository that starts from the current sources."""

    def fill(self):
        def skip(folder, names):
            return [n for n in names if n in IGNORED or n.endswith(('.egg-info', '.pyc'))]
        shutil.copytree(boot.REPO, self.root, ignore=skip)


def python(args, cwd, env=None, fail=True):
    full = environment()
    full.update(PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
    full.update(env or {})
    res = subprocess.run([sys.executable, '-B', *args], cwd=cwd, env=full, capture_output=True, text=True)
    if res.returncode and fail:
        lines = (res.stderr.strip() or 'no message').splitlines()
        if any(w in res.stderr for w in ('No space left', 'No module named \'setuptools\'', 'No module named \'wheel\'')):
            raise HarnessError(f'{args}: {lines[-1]}')
        raise Violation(f'{" ".join(args[:4])} fails in the sources: {lines[-1][:300]}')
    return res.stdout


def sources(folder):
    """Contents of the package below a folder, but for generated files."""
    out = {}
    for base, dirs, names in os.walk(os.path.join(folder, 'occuprob')):
        dirs[:] = [d for d in dirs if d != '__pycache__']
        for n in names:
            if not n.endswith('.pyc'):
                path = os.path.join(base, n)
                with open(path, 'rb') as fh:
                    out[os.path.relpath(path, folder)] = fh.read()
    return out


def one(pattern, what):
    import glob
    found = glob.glob(pattern)
    if len(found) != 1:
        raise Violation(f'{what}: {len(found)} files {os.path.basename(pattern)} instead of one')
    return found[0]


def pack(kind, folder, top, env, what):
    """Make an artefact from the sources in a folder: (folder below which the package lies, version in its metadata)."""
    out = tempfile.mkdtemp(prefix=kind, dir=top)
    if kind == 'sdist':
        python(['setup.py', '-q', 'sdist', '-d', out], folder, env)
        with tarfile.open(one(os.path.join(out, '*.tar.gz'), what)) as tar:
            tar.extractall(out, filter='data')
        new = os.path.dirname(one(os.path.join(out, '*', 'PKG-INFO'), what))
        return new, metadata(os.path.join(new, 'PKG-INFO'))
    if kind == 'build':
        python(['setup.py', '-q', 'build', '-b', out], folder, env)
        return os.path.join(out, 'lib'), None
    if kind == 'wheel':
        python(['setup.py', '-q', 'bdist_wheel', '-d', out], folder, env)
        with zipfile.ZipFile(one(os.path.join(out, '*.whl'), what)) as whl:
            whl.extractall(out)
    elif kind == 'install':
        python(['setup.py', '-q', 'install', '--single-version-externally-managed', '--record', os.path.join(out, 'record'),
                '--install-lib', out, '--install-scripts', os.path.join(out, 'bin'), '--install-data', out], folder, env)
        return out, metadata(one(os.path.join(out, '*.egg-info', 'PKG-INFO'), what))
    else:
        python(['-c', 'import sys, setuptools.build_meta as b; sys.stdout = sys.stderr; b.build_editable(sys.argv[1])', out],
               folder, env)
        with zipfile.ZipFile(one(os.path.join(out, '*.whl'), what)) as whl:
            whl.extractall(out)
    return out, metadata(one(os.path.join(out, '*.dist-info', 'METADATA'), what))


def metadata(path):
    with open(path, encoding='utf-8') as fh:
        m = re.search(r'^Version: (.*)$', fh.read(), re.M)
    return m.group(1).strip() if m else ''


def same_version(a, b):
    from packaging.version import InvalidVersion, Version
    try:
        return Version(a) == Version(b)
    except InvalidVersion:
        return a == b


class Source:
    """Sources and what is expected of everything made from them."""

    def __init__(self, repo, way):
        self.way = way
        # the state at this moment
        self.head, self.dirty = repo.head, bool(repo.changed) and way == 'tree'
        self.tags = {k: list(v) for k, v in repo.tags.items()}
        self.commits = dict(repo.commits)

    ancestors, expected = Repo.ancestors, Repo.expected

    def judge(self, info, what):
        if self.way in ('tree', 'clone', 'linked'):
            judge_tree(self, info, self.dirty, what)
        elif self.way == 'archive':
            judge_archive(self, info, what)
        else:
            judge_unknown(info, what)


def check(case, ctx):
    top = tempfile.mkdtemp(prefix='pack', dir=boot.scratch())
    try:
        repo = Project(os.path.join(top, 'project'))
        if 'steps' in case:
            building(case, repo, top, ctx)
        elif 'renew' in case:
            renewed(case, repo, top, ctx)
        else:
            chain(case, repo, top, ctx)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    ctx.trace()


def told(seq):
    return f'after {", ".join(seq) or "the first commit"}'


def status(repo):
    return repo.git('status', '--porcelain', '--untracked-files=no')


def chain(case, repo, top, ctx):
    for action in case['do']:
        repo.do(action, case.get('name', 0))
        ctx.step()
    way = case['way']
    folder = obtain(repo, way, top)
    src = Source(repo, way)
    what = f'{told(case["do"])}, from the {way}'
    whole = sources(folder)
    before = status(repo)
    env = {'PATH': os.path.join(top, 'nothing')} if case.get('place') == 'no git' and way not in (
        'tree', 'clone', 'linked') else {}
    for i, kind in enumerate(case['chain']):
        end = i == len(case['chain']) - 1
        what += f', {kind}'
        new, version = pack(kind, folder, top, env, what)
        ctx.step()
        if not i:
            if status(repo) != before or sources(folder) != whole:
                raise Violation(f'{what}: the sources are changed by the packaging')
            after = ask(folder)
            src.judge(after, f'{what}: the sources afterwards')
            shown = python(['setup.py', '--version'], folder, env).strip().splitlines()
            if not shown or not same_version(shown[-1], after['version']):
                raise Violation(f'{what}: setup.py --version prints {shown}, the package reports {after["version"]!r}')
        if kind == 'editable':
            # the sources stay where they are
            new = folder if not os.path.isdir(os.path.join(new, 'occuprob')) else new
        if not i or not end:
            new, env = move(case, repo, new, folder, top, env, kind)
        judge(src, new, version, whole, what, kind, ctx)
        if not end:
            folder = new
    if case.get('use'):
        use(new, what, src, ctx)
    ctx.state(case)
    ctx.outcome(re.sub('g[0-9a-f]{7,}', 'g', ask(new)['version']))


def move(case, repo, new, folder, top, env, kind):
    """Bring a new artefact to its place."""
    place = case.get('place', 'beside')
    if new == folder:
        return new, env
    if place == 'nested':
        outer = Repo(os.path.join(tempfile.mkdtemp(prefix='outer', dir=top), 'work'))
        outer.do('tag', 3)
        outer.do('edit', 3)
        target = os.path.join(outer.root, 'vendor')
        shutil.move(new, target)
        return target, env
    if place == 'renamed':
        target = os.path.join(os.path.dirname(new), 'occuprob-77.1')
        os.rename(new, target)
        return target, env
    if place == 'later':
        for action in ('tag', 'edit', 'commit'):
            repo.do(action, 4)
    if place == 'no git':
        env = {'PATH': os.path.join(top, 'nothing')}
    return new, env


def judge(src, new, version, whole, what, kind, ctx):
    info = ask(new)
    valid(info['version'], what)
    src.judge(info, what)
    if version is not None and not same_version(version, info['version']):
        raise Violation(f'{what}: the metadata say {version!r}, the package {info["version"]!r}')
    got = sources(new)
    for name, content in whole.items():
        if name == os.path.join('occuprob', '_version.py'):
            continue
        if name not in got:
            raise Violation(f'{what}: {name} is not included')
        if got[name] != content:
            raise Violation(f'{what}: {name} differs from the sources')
    again = ask(new, cwd='/')
    if again != info:
        raise Violation(f'{what}: {again} when asked from another directory, {info} before')
    ctx.count(f'{kind} artefacts')


def building(case, repo, top, ctx):
    """Building again and again in one tree."""
    made = []
    for i, step in enumerate(case['steps']):
        ctx.step()
        what = told(case['steps'][:i + 1])
        if step not in ENDS:
            repo.do(step, 0)
            continue
        src = Source(repo, 'tree')
        whole = sources(repo.root)
        before = status(repo)
        if step == 'build':
            python(['setup.py', '-q', 'build'], repo.root)
            new, version = os.path.join(repo.root, 'build', 'lib'), None
        else:
            new, version = pack(step, repo.root, top, {}, what)
        if status(repo) != before or sources(repo.root) != whole:
            raise Violation(f'{what}: the sources are changed by the packaging')
        judge(src, new, version, whole, what, step, ctx)
        made.append((src, new, version, whole, what, step))
        ctx.state(case['steps'][:i + 1])
    Source(repo, 'tree').judge(ask(repo.root), f'{told(case["steps"])}: the sources')
    for src, new, version, whole, what, step in made:
        if step != 'build':
            judge(src, new, version, whole, what + ', seen at the end', step, ctx)
    ctx.outcome(len(made))


def renewed(case, repo, top, ctx):
    """The version module generated again by versioneer."""
    python(['versioneer.py', 'setup'], repo.root)
    repo.git('add', '-A', '--', 'occuprob', '.gitattributes', 'MANIFEST.in')
    repo.commit()
    for action in case['do']:
        repo.do(action, 0)
        ctx.step()
    what = f'module generated again, {told(case["do"])}'
    for way in ('tree', 'archive', 'clone'):
        folder = obtain(repo, way, top)
        Source(repo, way).judge(ask(folder), f'{what}, {way}')
        new, version = pack('wheel', folder, top, {}, what)
        judge(Source(repo, way), new, version, {}, f'{what}, wheel from the {way}', 'wheel', ctx)
    ctx.state(case)
    ctx.outcome('renewed')


CODE = '''
import sys, os, importlib.metadata as m
import occuprob, occuprob.cli
assert os.path.realpath(occuprob.__file__).startswith(os.path.realpath(sys.argv[1]) + os.sep), occuprob.__file__
print("PACKAGE", occuprob.__version__, flush=True)
found = [e for d in m.distributions(path=[sys.argv[1]]) for e in d.entry_points if e.name == "occuprob"]
run = found[0].load() if found else occuprob.cli.main
sys.argv = ["occuprob", *sys.argv[2:]]
sys.exit(run())
'''


def use(new, what, src, ctx):
    """The installed package and command in a process of their own."""
    work = tempfile.mkdtemp(prefix='use', dir=boot.scratch())
    try:
        env = {'PYTHONPATH': new, 'MPLBACKEND': 'Agg'}
        out = python(['-c', CODE, new, '--version'], work, env).splitlines()
        if len(out) < 2 or not out[0].startswith('PACKAGE ') or out[1].split()[-1:] != out[0].split()[1:]:
            raise Violation(f'{what}: the installed command prints {out}')
        info = ask(new)
        if out[0].split()[1] != info['version']:
            raise Violation(f'{what}: the installed package reports {out[0]!r}, its module {info["version"]!r}')
        frames = [files.isomer(i, 3) for i in range(2)]
        with open(os.path.join(work, 'in.xyz'), 'w', encoding='utf-8') as fh:
            fh.write(files.text(frames))
        python(['-c', CODE, new, 'in.xyz', '-sq', '--max_temp', '60'], work, env)
        tables = {}
        for key in 'CP':
            path = os.path.join(work, f'in_{key}.dat')
            if not os.path.exists(path):
                raise Violation(f'{what}: the installed command writes no in_{key}.dat')
            tables[key] = np.loadtxt(path)
        files.check_tables(tables, frames, 'SQ', np.arange(61.), what)
        ctx.count('installations used')
    finally:
        shutil.rmtree(work, ignore_errors=True)
