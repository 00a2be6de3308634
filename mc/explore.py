"""Stateless exploration of environment answers: deviation-bounded, exhaustive within the bound.

The environment asks `chooser.choose(kind, n)` at every point where it could answer in n ways; 0 is the default answer.
`explore` runs the default execution, then every execution with one non-default answer, then two, ... up to `bound`
(None: no bound, every combination). Any divergence while replaying a prefix is a HarnessError.
"""
from .core import HarnessError


class Chooser(object):
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points = []            # (kind, n)
        self.choices = []
        self.enabled = True

    def choose(self, kind, n):
        if not self.enabled or n <= 1:
            return 0
        i = len(self.points)
        c = 0
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise HarnessError('replay diverged: point %d (%s) has %d answers, prefix wants %d' % (i, kind, n, c))
        self.points.append((kind, n))
        self.choices.append(c)
        return c

    def deviations(self):
        return sum(1 for c in self.choices if c)


def explore(run, bound=1, kinds=None, max_runs=None):
    """run(chooser) -> outcome (raises Violation). Yields (choices, outcome). Depth first, fewest deviations first
    per prefix. `kinds`: kinds at which to deviate (None: all)."""
    stack = [((), 0)]
    runs = 0
    while stack:
        prefix, dev = stack.pop()
        ch = Chooser(prefix)
        out = run(ch)
        if len(ch.choices) < len(prefix) or tuple(ch.choices[:len(prefix)]) != tuple(prefix):
            raise HarnessError('replay diverged: wanted %r got %r' % (prefix, ch.choices))
        runs += 1
        yield tuple(ch.choices), ch, out
        if max_runs and runs >= max_runs:
            raise HarnessError('more than %d executions' % max_runs)
        if bound is not None and dev >= bound:
            continue
        for i in range(len(ch.points) - 1, len(prefix) - 1, -1):
            kind, n = ch.points[i]
            if kinds is not None and kind not in kinds:
                continue
            for alt in range(n - 1, 0, -1):
                stack.append((tuple(ch.choices[:i]) + (alt,), dev + 1))


def graph(*roots):
    """Canonical form of everything reachable from the roots: equal forms mean equal structure (identities are numbered in
    order of first visit). Names of attributes do not matter to the caller, so refactored objects are handled as well."""
    import types
    seen, out = {}, []

    def walk(x):
        if x is None or isinstance(x, (bool, int, float, str, bytes, bytearray)):
            out.append(repr(x))
            return
        if isinstance(x, (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type, types.MethodType)):
            out.append(getattr(x, '__name__', '?'))
            return
        if id(x) in seen:
            out.append('#%d' % seen[id(x)])
            return
        seen[id(x)] = len(seen)
        keep.append(x)
        out.append(type(x).__name__)
        if isinstance(x, dict):
            for k in sorted(x, key=repr) if all(isinstance(k, (int, str)) for k in x) else x:
                walk(k)
                walk(x[k])
            out.append('}')
        elif isinstance(x, (list, tuple)):
            for e in x:
                walk(e)
            out.append(']')
        elif isinstance(x, (set, frozenset)):
            try:
                es = sorted(x)
            except TypeError:
                es = sorted(x, key=lambda e: seen.get(id(e), 1 << 30))
            for e in es:
                walk(e)
            out.append(')')
        elif hasattr(x, '__dict__') and type(x).__name__ != 'World':
            for k in sorted(vars(x)):
                out.append(k)
                walk(vars(x)[k])
            out.append('>')

    keep = []
    for r in roots:
        walk(r)
    return '|'.join(out)
