"""Controlled scheduler for Python threads: one thread runs at a time, and at every
statement (or every evaluated sub-expression) inside the repository's package the scheduler
may switch.  Exploration is stateless with a preemption bound (a switch away from a thread
that could continue).  The scheduling points are calls inserted in the syntax tree when the
package is imported; nothing is written to disk.  (Tracing with sys.settrace was tried first:
CPython 3.12 crashes when byte codes are traced in several threads.)"""
import ast
import builtins
import importlib.machinery
import os
import sys
import threading
import _thread

from boot import REPO
from core import HarnessError, Violation

PKG = os.path.join(os.path.realpath(REPO), 'occuprob') + os.sep
PKG2 = os.path.join(REPO, 'occuprob') + os.sep
_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
_current = None         # the execution in progress


def _inside(filename):
    return filename.startswith(PKG) or filename.startswith(PKG2)


class CoopLock:
    """A lock created by the code under test: waiting is visible to the scheduler."""

    def __init__(self, reentrant):
        self.owner, self.depth, self.reentrant = None, 0, reentrant
        self.real = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.reentrant and self.owner == me:
            self.depth += 1
            return True
        ex = _current
        while not self.real.acquire(False):
            if not blocking:
                return False
            if ex is None or me not in ex.idents:
                self.real.acquire()
                break
            ex.block(self)
        self.owner, self.depth = me, 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            self.real.release()

    def locked(self):
        return self.real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


def install():
    """Make locks created by the package cooperative (call before importing it)."""
    def factory(real, reentrant):
        def make():
            if _inside(sys._getframe(1).f_code.co_filename):
                return CoopLock(reentrant)
            return real()
        return make
    threading.Lock = factory(_real_lock, False)
    threading.RLock = factory(_real_rlock, True)


def _stmt_point(line):
    ex = _current
    if ex is not None:
        tid = ex.idents.get(_thread.get_ident())
        if tid is not None:
            ex.point(tid, line)


def _expr_point(value, line):
    ex = _current
    if ex is not None and ex.fine:
        tid = ex.idents.get(_thread.get_ident())
        if tid is not None:
            ex.point(tid, line)
    return value


class Instrument(ast.NodeTransformer):
    """Scheduling points before every statement and after every sub-expression of the
    functions of a module."""

    def __init__(self):
        self.depth = 0

    def _function(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.depth += 1
        node.body = self._body(node.body)
        self.depth -= 1
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _function

    def _body(self, body):
        out = []
        for stmt in body:
            keep = isinstance(stmt, (ast.Global, ast.Nonlocal)) or (
                isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant))
            new = self.visit(stmt)
            if self.depth and not keep:
                call = ast.Expr(ast.Call(ast.Name('__mc_stmt__', ast.Load()),
                                         [ast.Constant(stmt.lineno)], []))
                out.append(ast.copy_location(call, stmt))
            out.append(new)
        return out

    def generic_visit(self, node):
        for field, old in ast.iter_fields(node):
            if field in ('annotation', 'returns', 'pattern'):
                continue
            if field in ('body', 'orelse', 'finalbody') and isinstance(old, list):
                setattr(node, field, self._body(old))
            elif isinstance(old, list):
                setattr(node, field, [self.visit(x) if isinstance(x, ast.AST) else x
                                      for x in old])
            elif isinstance(old, ast.AST):
                setattr(node, field, self.visit(old))
        if self.depth and isinstance(node, (ast.Call, ast.Attribute, ast.Subscript, ast.BinOp,
                                            ast.Compare)) \
                and isinstance(getattr(node, 'ctx', ast.Load()), ast.Load):
            call = ast.Call(ast.Name('__mc_expr__', ast.Load()),
                            [node, ast.Constant(node.lineno)], [])
            return ast.copy_location(call, node)
        if self.depth and isinstance(node, ast.AugAssign):
            # the target has been read when the value is evaluated: a switch may come here
            call = ast.Call(ast.Name('__mc_expr__', ast.Load()),
                            [node.value, ast.Constant(node.lineno)], [])
            node.value = ast.copy_location(call, node.value)
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = ast.fix_missing_locations(Instrument().visit(tree))
        return compile(tree, path, 'exec', dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'occuprob' and not name.startswith('occuprob.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def instrument():
    """Insert scheduling points in everything imported from the package from now on."""
    builtins.__mc_stmt__, builtins.__mc_expr__ = _stmt_point, _expr_point
    sys.meta_path.insert(0, _Finder)


class Execution:
    """One run of the bodies under a list of choices (0 = keep running / lowest id)."""

    def __init__(self, bodies, prefix, fine=False):
        self.n = len(bodies)
        self.bodies = bodies
        self.prefix = prefix
        self.fine = fine
        self.pos = [0] * self.n
        self.visited = set()        # (position of every thread) at the scheduling points
        self.points = []            # (number of alternatives, running thread still enabled)
        self.choices = []
        self.trace = []
        self.results = [None] * self.n
        self.errors = [None] * self.n
        self.done = [False] * self.n
        self.waiting = [None] * self.n
        self.gates = [_real_lock() for _ in range(self.n)]
        for g in self.gates:
            g.acquire()
        self.finished = _real_lock()
        self.finished.acquire()
        self.idents = {}
        self.failure = None
        self.running = 0

    def enabled(self):
        return [t for t in range(self.n) if not self.done[t]
                and (self.waiting[t] is None or not self.waiting[t].real.locked())]

    def pick(self, tid, still):
        """Choose the next thread at a scheduling point of thread tid."""
        en = self.enabled()
        if not en:
            return None
        order = ([tid] if still and tid in en else []) + [t for t in en if t != tid or not still]
        if len(order) == 1:
            return order[0]
        i = len(self.points)
        choice = self.prefix[i] if i < len(self.prefix) else 0
        if choice >= len(order):
            self.failure = HarnessError('replayed prefix diverged')
            choice = 0
        self.points.append((len(order), still and tid in en))
        self.choices.append(choice)
        return order[choice]

    def switch(self, tid, nxt):
        self.running = nxt
        self.gates[nxt].release()
        self.gates[tid].acquire()

    def point(self, tid, where):
        self.pos[tid] += 1
        self.visited.add(tuple(self.pos))
        nxt = self.pick(tid, True)
        if nxt != tid:
            self.trace.append((tid, where, nxt))
            self.switch(tid, nxt)

    def block(self, lock):
        tid = self.idents[_thread.get_ident()]
        self.waiting[tid] = lock
        nxt = self.pick(tid, False)
        if nxt is None:
            self.failure = Violation('deadlock: every thread waits for a lock')
            self.finished.release()
            self.gates[tid].acquire()
        elif nxt != tid:
            self.switch(tid, nxt)
        self.waiting[tid] = None

    def thread(self, tid):
        self.gates[tid].acquire()
        self.idents[_thread.get_ident()] = tid
        try:
            self.results[tid] = self.bodies[tid]()
        except BaseException as exc:    # pylint: disable=broad-except
            self.errors[tid] = exc
        del self.idents[_thread.get_ident()]
        self.done[tid] = True
        nxt = self.pick(tid, False)
        if nxt is None:
            if not all(self.done):
                self.failure = Violation('deadlock: every remaining thread waits for a lock')
            self.finished.release()
        else:
            self.running = nxt
            self.gates[nxt].release()

    def run(self):
        global _current
        _current = self
        for t in range(self.n):
            _thread.start_new_thread(self.thread, (t,))
        self.gates[0].release()
        if not self.finished.acquire(timeout=120):
            raise Violation('the threads did not finish within 120 s')
        _current = None
        if self.failure is not None:
            raise self.failure
        return self


def explore(make, verdict, bound, shard=(0, 1), fine=False):
    """Every schedule with at most `bound` preemptions.  make() -> fresh bodies;
    verdict(execution) raises Violation.  Returns (schedules, max points)."""
    stats = [0, 0]

    def go(prefix, used, top):
        ex = Execution(make(), prefix, fine).run()
        if not top or shard[0] == 0:
            stats[0] += 1
            verdict(ex)
        stats[1] = max(stats[1], len(ex.points))
        cost = used
        for i in range(len(prefix), len(ex.points)):
            width, still = ex.points[i]
            extra = 1 if still else 0
            if cost + extra > bound:
                continue
            if top and i % shard[1] != shard[0]:
                continue
            for alt in range(1, width):
                go(ex.choices[:i] + [alt], cost + extra, False)

    go([], 0, True)
    return stats
