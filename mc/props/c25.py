"""C25: the reported version identifies the source revision."""
import importlib.util
import itertools
import os
import re
import shutil
import subprocess
import sys
import tempfile

import boot
from core import HarnessError, Violation

ID = 'C25'
CHUNK = 4
STATES = 'distinct (repository history, way of obtaining the sources) states'
ACTIONS = ['commit', 'tag', 'annotate', 'edit', 'stage', 'untracked', 'back', 'merge', 'remove', 'detach']
MORE = ['mode', 'add', 'branch', 'touch', 'restore', 'module']
WAYS = ['tree', 'clone', 'archive', 'copy', 'linked']
TAGS = ['0.1', '0.2.0', '1.0rc1', '2.0+local', '10.3', '11', '1.0.post2', 'v4.1', '2.0-1']
BOUNDS = {'quick': 'all histories of <= 3 actions out of 8 (commits, lightweight and annotated tags, edits, '
                   'staging, untracked files, earlier heads, merges) and of <= 2 out of 16, each seen from the work tree and an archive, and those of <= 2 actions also from '
                   'a clone, a copy without the repository and a linked work tree; 9 tag spellings; environments without git, with GIT_DIR set, in '
                   'other working directories; 5 states below the work tree of another repository in 4 states; 10 of the states through the package and the command',
          'thorough': 'histories of <= 4 actions, of <= 3 out of 16, and of <= 6 of commit, tag, edit and back'}
ASSUMPTIONS = ['git 2.43 reports the state of its repositories correctly',
               'tags are version numbers; no branch is called like a version number',
               'of several nearest tags any one may be reported']
PEP440 = re.compile(r'v?(\d+!)?\d+(\.\d+)*([-_.]?(a|b|c|rc|alpha|beta|pre|preview)[-_.]?\d*)?'
                    r'(-\d+|[-_.]?(post|rev|r)[-_.]?\d*)?([-_.]?dev[-_.]?\d*)?'
                    r'(\+[a-z0-9]+([-_.][a-z0-9]+)*)?', re.I)
PROJECT = ['README.md', 'data.txt', 'old.txt']
_n = 0


def cases(tier):
    quick = tier == 'quick'
    for depth in range(4 if quick else 5):
        for seq in itertools.product(ACTIONS[:8] if quick and depth == 3 else ACTIONS, repeat=depth):
            yield {'do': seq}
    for depth in range(1, 3 if quick else 4):
        for seq in itertools.product(ACTIONS + MORE, repeat=depth):
            if set(seq) & set(MORE):
                yield {'do': seq}
    for seq in itertools.product(['commit', 'edit'], ['tag', 'annotate'], MORE + ['commit']):
        yield {'do': seq}
    if not quick:
        for depth in (5, 6):
            for seq in itertools.product(['commit', 'tag', 'edit', 'back'], repeat=depth):
                yield {'do': seq}
    for k in range(len(TAGS)):
        for how in ('tag', 'annotate'):
            for seq in ([how], [how, 'commit'], [how, 'edit'], [how, 'commit', 'commit', 'edit'],
                        ['commit', how, 'untracked']):
                yield {'do': seq, 'name': k}
    for env in ('no git', 'GIT_DIR', 'elsewhere', 'no commits', 'inside'):
        for seq in ([], ['tag'], ['tag', 'commit'], ['edit']):
            yield {'do': seq, 'env': env}
    for way in WAYS:
        for seq in ([], ['tag'], ['tag', 'commit'], ['edit'], ['annotate', 'commit', 'edit']):
            for state in ([], ['tag'], ['annotate', 'commit'], ['edit']):
                yield {'do': seq, 'nested': way, 'outer': state}
    for k, seq in enumerate(([], ['tag'], ['tag', 'commit'], ['tag', 'edit'], ['annotate', 'commit', 'edit'])):
        yield {'do': seq, 'package': ['tree', 'copy']}
        yield {'do': seq, 'package': ['archive']}


# ------------------------------------------------------------ repositories

def environment():
    env = {k: v for k, v in os.environ.items() if not k.startswith('GIT_')}
    env.update(GIT_CONFIG_GLOBAL='/dev/null', GIT_CONFIG_NOSYSTEM='1', GIT_AUTHOR_NAME='a',
               GIT_AUTHOR_EMAIL='a@b', GIT_COMMITTER_NAME='a', GIT_COMMITTER_EMAIL='a@b',
               GIT_TERMINAL_PROMPT='0', LC_ALL='C')
    return env


class Repo:
    """A scratch repository and, beside it, what its history should be."""

    def __init__(self, root, empty=False):
        self.root = root
        self.env = environment()
        self.clock = 1600000000
        self.commits = {}        # sha: parents
        self.tags = {}           # sha: names
        self.head = None
        self.changed = set()     # tracked paths that differ from HEAD
        self.side = 0
        self.ntags = 0
        if empty:
            self.start()
            return
        first = os.path.join(boot.scratch(), f'first-{type(self).__name__}-{os.getpid()}')
        if not os.path.exists(first):
            self.root = first + '.new'
            self.start()
            self.git('add', '-A')
            self.commit()
            os.rename(self.root, first)
            self.root = root
        shutil.copytree(first, root)
        self.git('update-index', '-q', '--refresh')
        self.head = self.git('rev-parse', 'HEAD')
        self.commits = {self.head: []}

    def start(self):
        self.fill()
        for name in PROJECT:
            if not os.path.exists(self.path(name)):
                with open(self.path(name), 'w') as fh:
                    fh.write(name + '\n')
        self.git('init', '-q', '-b', 'main', '--template=', '.')

    def fill(self):
        root = self.root
        os.makedirs(os.path.join(root, 'occuprob'))
        shutil.copy(os.path.join(boot.REPO, 'occuprob/_version.py'), os.path.join(root, 'occuprob'))
        attributes = os.path.join(boot.REPO, '.gitattributes')
        if os.path.exists(attributes):
            shutil.copy(attributes, root)

    def git(self, *args):
        self.clock += 60
        env = dict(self.env, GIT_AUTHOR_DATE=f'{self.clock} +0000', GIT_COMMITTER_DATE=f'{self.clock} +0000')
        res = subprocess.run(['git', *args], cwd=self.root, env=env, capture_output=True, text=True)
        if res.returncode:
            raise HarnessError(f'git {args}: {res.stderr}')
        return res.stdout.strip()

    def commit(self):
        self.git('commit', '-q', '--allow-empty', '-m', 'work')
        sha = self.git('rev-parse', 'HEAD')
        self.commits[sha] = [self.head] if self.head else []
        self.head = sha
        self.changed = set()

    def path(self, name):
        return os.path.join(self.root, name)

    def do(self, action, name):
        if action == 'commit':
            self.git('add', '-u')
            self.commit()
        elif action in ('tag', 'annotate'):
            tag = TAGS[(name + self.ntags) % len(TAGS)]
            self.ntags += 1
            self.git('tag', *(['-a', '-m', 'release'] if action == 'annotate' else []), tag)
            self.tags.setdefault(self.head, []).append(tag)
        elif action in ('edit', 'stage'):
            with open(self.path('data.txt'), 'a') as fh:
                fh.write('more\n')
            if action == 'stage':
                self.git('add', 'data.txt')
            self.changed.add('data.txt')
        elif action == 'module':
            with open(self.path('occuprob/_version.py'), 'a') as fh:
                fh.write('# edited\n')
            self.changed.add('module')
        elif action == 'untracked':
            with open(self.path(f'new{len(os.listdir(self.root))}.txt'), 'w') as fh:
                fh.write('new\n')
        elif action == 'add':
            with open(self.path('added.txt'), 'a') as fh:
                fh.write('new\n')
            self.git('add', 'added.txt')
            self.changed.add('added')
        elif action == 'remove':
            if os.path.exists(self.path('old.txt')):
                os.remove(self.path('old.txt'))
                self.changed.add('old')
        elif action == 'mode':
            os.chmod(self.path('README.md'), os.stat(self.path('README.md')).st_mode ^ 0o111)
            self.changed ^= {'mode'}
        elif action == 'touch':
            os.utime(self.path('README.md'), (1500000000, 1500000000))
        elif action == 'restore':
            self.git('checkout', '-q', '-f', 'HEAD')
            self.git('reset', '-q', '--hard', 'HEAD')
            self.changed = set()
        elif action == 'detach':
            self.git('checkout', '-q', '--detach')
        elif action == 'branch':
            self.side += 1
            self.git('checkout', '-q', '-b', f'topic{"abcdefgh"[self.side]}')
        elif action == 'back':
            # an earlier commit, or the first when there is none
            target = (self.commits[self.head] or [self.head])[0]
            self.git('checkout', '-q', '-f', '--detach', target)
            self.head, self.changed = target, set()
        elif action == 'merge':
            other = self.git('commit-tree', 'HEAD^{tree}', '-p', 'HEAD', '-m', 'side')
            self.commits[other] = [self.head]
            both = self.git('commit-tree', 'HEAD^{tree}', '-p', 'HEAD', '-p', other, '-m', 'merge')
            self.commits[both] = [self.head, other]
            self.git('reset', '-q', '--soft', both)
            self.head = both

    def ancestors(self, sha):
        seen, todo = set(), [sha]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += self.commits[x]
        return seen

    def expected(self, dirty):
        """(accepted texts before the revision, distance or None when exact)."""
        mine = self.ancestors(self.head)
        near = {}
        for sha, names in self.tags.items():
            if sha in mine:
                near.setdefault(len(mine - self.ancestors(sha)), []).extend(names)
        if not near:
            return ['0+untagged.'], len(mine)
        k = min(near)
        if k == 0 and not dirty:
            return near[0], None
        return [t + ('.' if '+' in t else '+') for t in near[k]], k


def load(folder):
    """A fresh copy of the module from a folder."""
    global _n
    _n += 1
    spec = importlib.util.spec_from_file_location(f'_version_{_n}', os.path.join(folder, 'occuprob/_version.py'))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def ask(folder, env=None, cwd=None):
    saved, here = dict(os.environ), os.getcwd()
    for k in [k for k in os.environ if k.startswith('GIT_')]:
        del os.environ[k]
    os.environ.update({'GIT_CONFIG_GLOBAL': '/dev/null', 'GIT_CONFIG_NOSYSTEM': '1'})
    os.environ.update(env or {})
    err = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        os.chdir(cwd or folder)
        return load(folder).get_versions()
    finally:
        os.chdir(here)
        os.dup2(err, 2)
        os.close(err)
        os.close(null)
        os.environ.clear()
        os.environ.update(saved)


def valid(version, what):
    if not isinstance(version, str) or not PEP440.fullmatch(version):
        raise Violation(f'{what}: {version!r} is not a valid version number')


def judge_tree(repo, info, dirty, what):
    version = info['version']
    valid(version, what)
    heads, distance = repo.expected(dirty)
    if distance is None:
        if version not in heads:
            raise Violation(f'{what}: version {version!r} instead of the tag {heads}')
    else:
        ok = False
        for h in heads:
            m = re.fullmatch(re.escape(h) + r'(\d+)\.g([0-9a-f]+)(\.dirty)?', version)
            ok = ok or bool(m and int(m.group(1)) == distance and len(m.group(2)) >= 4
                            and repo.head.startswith(m.group(2)) and bool(m.group(3)) == dirty)
        if not ok:
            raise Violation(f'{what}: version {version!r} instead of {heads}{distance}.g{repo.head[:7]}'
                            f'{".dirty" if dirty else ""}')
    if info.get('full-revisionid') != repo.head:
        raise Violation(f'{what}: revision {info.get("full-revisionid")} instead of {repo.head}')
    if bool(info.get('dirty')) != dirty or info.get('error'):
        raise Violation(f'{what}: dirty={info.get("dirty")}, error={info.get("error")}')


def judge_archive(repo, info, what):
    version = info['version']
    valid(version, what)
    here = repo.tags.get(repo.head, [])
    if info.get('full-revisionid') != repo.head:
        raise Violation(f'{what}: revision {info.get("full-revisionid")} instead of {repo.head}')
    if any(t[0].isdigit() for t in here):
        if version not in here:
            raise Violation(f'{what}: version {version!r} of an archive of the tag {here}')
    elif 'unknown' not in version and version not in here and repo.head[:7] not in version:
        raise Violation(f'{what}: version {version!r} of an archive of an untagged commit')


def judge_unknown(info, what):
    valid(info['version'], what)
    if 'unknown' not in info['version']:
        raise Violation(f'{what}: version {info["version"]!r} without any repository')
    if info.get('full-revisionid'):
        raise Violation(f'{what}: revision {info["full-revisionid"]!r} without any repository')


def obtain(repo, way, top):
    """Folder with the sources obtained in some way."""
    folder = os.path.join(top, way)
    if way == 'tree':
        return repo.root
    if way == 'clone':
        repo.git('clone', '-q', '--template=', '.', folder)
    elif way == 'linked':
        repo.git('worktree', 'add', '-q', '--detach', folder)
    elif way == 'archive':
        os.mkdir(folder)
        repo.git('archive', '-o', folder + '.tar', 'HEAD')
        subprocess.run(['tar', '-xf', folder + '.tar', '-C', folder], check=True)
    else:
        shutil.copytree(repo.root, folder, ignore=shutil.ignore_patterns('.git'))
    return folder


def check(case, ctx):
    top = tempfile.mkdtemp(prefix='git', dir=boot.scratch())
    try:
        if case.get('env'):
            strange(case, ctx, top)
        elif 'nested' in case:
            nested(case, ctx, top)
        else:
            plain(case, ctx, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    ctx.trace()


def plain(case, ctx, top):
    repo = Repo(os.path.join(top, 'project'))
    seq = case['do']
    for action in seq:
        repo.do(action, case.get('name', 0))
        ctx.step()
    told = f'after {", ".join(seq) or "the first commit"}'
    if 'package' in case:
        for way in case['package']:
            package(repo, way, top, told, ctx)
        return
    for way in WAYS if len(seq) < 3 or ctx.tier != 'quick' else ('tree', 'archive'):
        folder = obtain(repo, way, top)
        info = ask(folder)
        what = f'{told}, seen from the {way}'
        ctx.state([list(seq), case.get('name', 0), way])
        ctx.outcome(re.sub('g[0-9a-f]{7,}', 'g', info['version']))
        if way in ('tree', 'clone', 'linked'):
            judge_tree(repo, info, bool(repo.changed) and way == 'tree', what)
        elif way == 'archive':
            judge_archive(repo, info, what)
        else:
            judge_unknown(info, what)
        again = ask(folder, cwd='/') if len(seq) < 2 else info
        if again != info:
            raise Violation(f'{what}: {again} when asked from another directory, {info} before')


def nested(case, ctx, top):
    """The sources lie below the work tree of another repository."""
    outer = Repo(os.path.join(top, 'outer'))
    for action in case['outer']:
        outer.do(action, 5)
    vendor = os.path.join(outer.root, 'vendor')
    os.mkdir(vendor)
    repo = Repo(os.path.join(vendor if case['nested'] == 'tree' else top, 'project'))
    for action in case['do']:
        repo.do(action, 0)
        ctx.step()
    way = case['nested']
    folder = obtain(repo, way, vendor)
    info = ask(folder)
    what = (f'after {", ".join(case["do"]) or "the first commit"}, {way} below another repository '
            f'({", ".join(case["outer"]) or "untagged"})')
    ctx.state(case)
    ctx.outcome(re.sub('g[0-9a-f]{7,}', 'g', info['version']))
    if way in ('tree', 'clone', 'linked'):
        judge_tree(repo, info, bool(repo.changed) and way == 'tree', what)
    elif way == 'archive':
        judge_archive(repo, info, what)
    else:
        if info.get('full-revisionid') == outer.head:
            judge_tree(outer, info, bool(outer.changed), what)
            ctx.known('NESTED-COPY', f'{what}: version {info["version"]!r}')
        else:
            judge_unknown(info, what)


def strange(case, ctx, top):
    kind = case['env']
    repo = Repo(os.path.join(top, 'project'), empty=kind == 'no commits')
    if kind == 'no commits':
        judge_unknown(ask(repo.root), 'repository without commits')
        ctx.state(case)
        return
    for action in case['do']:
        repo.do(action, 0)
        ctx.step()
    told = f'after {", ".join(case["do"])}'
    other = Repo(os.path.join(top, 'another'))
    other.do('tag', 3)
    if kind == 'no git':
        judge_unknown(ask(repo.root, {'PATH': os.path.join(top, 'nothing')}), f'{told}, without git')
    elif kind == 'GIT_DIR':
        info = ask(repo.root, {'GIT_DIR': os.path.join(other.root, '.git')})
        judge_tree(repo, info, bool(repo.changed), f'{told}, with GIT_DIR of another repository')
    elif kind == 'elsewhere':
        info = ask(repo.root, cwd=other.root)
        judge_tree(repo, info, bool(repo.changed), f'{told}, working in another repository')
    else:
        info = ask(repo.root, cwd=os.path.join(repo.root, 'occuprob'))
        judge_tree(repo, info, bool(repo.changed), f'{told}, working in the package')
    ctx.state(case)


def package(repo, way, top, told, ctx):
    """The version of the imported package and of the command, in a process of their own."""
    source = os.path.join(boot.REPO, 'occuprob')
    folder = obtain(repo, way, top)
    for name in os.listdir(source):
        if name.endswith('.py') and name != '_version.py':
            shutil.copy(os.path.join(source, name), os.path.join(folder, 'occuprob'))
    env = environment()
    env.update(PYTHONPATH=folder, PYTHONDONTWRITEBYTECODE='1')
    code = ('import sys, os\nimport occuprob, occuprob.cli\n'
            'assert os.path.realpath(occuprob.__file__).startswith(os.path.realpath(sys.argv[1])), occuprob\n'
            'print("PACKAGE", occuprob.__version__, getattr(occuprob, "__git_revision__", "absent"))\nsys.argv = ["occuprob", "--version"]\noccuprob.cli.main()')
    res = subprocess.run([sys.executable, '-W', 'ignore', '-c', code, folder], cwd=top, env=env,
                         capture_output=True, text=True)
    what = f'{told}, package in the {way}'
    lines = res.stdout.split('\n')
    if res.returncode or len(lines) < 2 or not lines[0].startswith('PACKAGE '):
        raise Violation(f'{what}: status {res.returncode}, {res.stdout[-200:]} {res.stderr[-300:]}')
    version, revision = lines[0].split()[1], lines[0].split()[2]
    # an attribute of the package beside its version
    known = repo.head if way in ('tree', 'clone', 'linked', 'archive') else 'None'
    if revision not in ('absent', known):
        raise Violation(f'{what}: __git_revision__ is {revision} instead of {known}')
    shown = lines[1].split()[-1] if lines[1].split() else ''
    if shown != version:
        raise Violation(f'{what}: the command reports {lines[1]!r}, the package {version!r}')
    ctx.state([told, way, 'package'])
    ctx.count('package and command')
    if way == 'copy':
        judge_unknown({'version': version}, what)
    elif way == 'archive':
        judge_archive(repo, {'version': version, 'full-revisionid': repo.head}, what)
    else:
        judge_tree(repo, {'version': version, 'full-revisionid': repo.head, 'dirty': bool(repo.changed)},
                   bool(repo.changed), what)
