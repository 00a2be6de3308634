"""A controlled scheduler for threads running the library: at any moment one thread runs; it can be preempted before any line
of the library it executes. A schedule says where. Lines outside the library are not preemption points.
"""
import os
import queue
import sys
import threading

from . import core
from .core import HarnessError

ROOT = os.path.realpath(os.path.join(core.REPO, 'sunspec')) + os.sep
BLOCKED_S = 1.0           # a thread that reports nothing for so long waits for another one (a lock): let that one run
_ours = {}


def library(filename):
    r = _ours.get(filename)
    if r is None:
        r = _ours[filename] = os.path.realpath(filename).startswith(ROOT) and '/test/' not in filename
    return r


class _Thread(object):
    def __init__(self, n, fn, out):
        self.n, self.fn, self.out = n, fn, out
        self.go = threading.Semaphore(0)
        self.count = 0               # preemption points passed
        self.stop = None             # pause before the point of this number
        self.names = None            # None: every line is a point; otherwise only lines of these code objects
        self.result = None
        self.lines = None
        self.done = self.aborted = False
        self.t = threading.Thread(target=self.run, daemon=True)

    def run(self):
        self.go.acquire()
        sys.settrace(self.trace)
        try:
            self.result = core.call(self.fn)
        except BaseException as e:
            self.result = ('abort', e)
        finally:
            sys.settrace(None)
            self.done = True
            self.out.put(('done', self.n))

    def trace(self, frame, event, arg):
        code = frame.f_code
        if not library(code.co_filename):
            return None
        if self.names is not None and code.co_qualname not in self.names:
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == 'line':
            if self.stop is not None and self.count >= self.stop:
                self.stop = None
                self.out.put(('pause', self.n))
                self.go.acquire()
                if self.aborted:
                    raise SystemExit
            self.count += 1
            if self.lines is not None:
                self.lines.append((frame.f_code.co_qualname, frame.f_lineno))
        return self.line


def run(programs, schedule, names=None, record=False):
    """Run the programs (functions without arguments) under a schedule [(thread, point or None), ...]: the thread runs until it is
    about to execute its given point (or to its end). What remains after the schedule runs thread after thread. Returns
    [('ok', value) or ('exc', exception) per thread], [points per thread], [lines per thread if recorded]."""
    out = queue.Queue()
    ts = [_Thread(i, fn, out) for i, fn in enumerate(programs)]
    for t in ts:
        t.names = names
        t.lines = [] if record else None
        t.t.start()
    waiting = []

    def step(t, stop):
        if t.done or t in waiting:
            return
        t.stop = stop
        t.go.release()
        while True:
            try:
                kind, n = out.get(timeout=BLOCKED_S)
            except queue.Empty:
                waiting.append(t)     # it waits for a lock another thread holds; that one has to go on first
                return
            if n == t.n:
                return
            waiting[:] = [w for w in waiting if w.n != n]

    for i, stop in schedule:
        step(ts[i], stop)
    for rounds in range(3):
        for t in ts:
            step(t, None)
        while waiting:
            try:
                kind, n = out.get(timeout=BLOCKED_S)
            except queue.Empty:
                break
            waiting[:] = [w for w in waiting if w.n != n]
    if not all(t.done for t in ts):
        for t in ts:
            t.aborted = True
            t.go.release()
        raise core.Violation('threads wait for each other for ever', 'deadlock')
    for t in ts:
        t.t.join()
        if t.result[0] == 'abort':
            raise t.result[1]
    return [t.result for t in ts], [t.count for t in ts], [t.lines for t in ts]


def touching_shared_state(modules):
    """Qualified names of the functions of these modules that use mutable module-level variables (containers that start
    empty, variables assigned with `global`, globals() itself) or set attributes by name: the places where threads can meet."""
    import dis
    import types
    out = set()
    for m in modules:
        codes = []

        def walk(code):
            codes.append(code)
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    walk(c)
        for v in list(vars(m).values()):
            if isinstance(v, types.FunctionType) and v.__module__ == m.__name__:
                walk(getattr(v, '__wrapped__', v).__code__)
            elif isinstance(v, type) and v.__module__ == m.__name__:
                for f in vars(v).values():
                    f = getattr(f, '__func__', f)
                    f = getattr(f, 'fget', f)
                    if isinstance(f, types.FunctionType):
                        walk(f.__code__)
        stored = set()
        uses = {}
        for c in codes:
            for ins in dis.get_instructions(c):
                if ins.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL'):
                    stored.add(ins.argval)
                if ins.opname in ('LOAD_GLOBAL', 'STORE_GLOBAL', 'DELETE_GLOBAL'):
                    uses.setdefault(c.co_qualname, set()).add(ins.argval)
        for q, names in uses.items():
            for n in names:
                v = vars(m).get(n)
                if n in stored or n in ('globals', 'setattr') or isinstance(v, (dict, list, set, bytearray)) and not v:
                    out.add(q)
    return out


class Modules(object):
    """The module-level and class-level state of modules, to be put back as it was."""

    def __init__(self, modules):
        self.saved = []
        for m in modules:
            self.saved.append((m, self.copy(vars(m))))
            for v in list(vars(m).values()):
                if isinstance(v, type) and v.__module__ == m.__name__:
                    self.saved.append((v, self.copy(vars(v))))

    @staticmethod
    def copy(d):
        return {k: (v, v.copy() if isinstance(v, (dict, list, set)) and not k.startswith('__') else None) for k, v in d.items()}

    def restore(self):
        for owner, state in self.saved:
            now = vars(owner)
            for k in [k for k in now if k not in state]:
                delattr(owner, k)
            for k, (v, content) in state.items():
                if now.get(k) is not v and not k.startswith('__'):
                    setattr(owner, k, v)
                if content is not None and v != content:
                    v.clear()
                    (v.extend if isinstance(v, list) else v.update)(content)
