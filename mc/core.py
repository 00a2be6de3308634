"""Check runner: enumeration of cases over worker processes, watchdogs, known findings, evidence, replay.

A check module (mc/checks/cNN.py) defines PROP, LEVEL, TECHNIQUE, RULE, BOUNDS and `families(tier)`, a list of Family.
A Family enumerates JSON-able cases and runs each against the code in /repo; `run(case)` returns an Obs or raises
Violation. Every violation is written as a replayable case file.
"""
import collections
import contextlib
import hashlib
import io
import itertools
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time as _time
import types

REPO = os.environ.get('MC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('MC_WORKERS', '8'))
CPU_LIMIT_S = 30          # per case, CPU time of the process: only a runaway loop gets there

real_monotonic = _time.monotonic


class Violation(Exception):
    def __init__(self, msg, sig=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.sig = sig or msg.split(':')[0]


class Runaway(BaseException):
    """The code under test does not terminate (or waits for ever)."""


class HarnessError(Exception):
    """The harness itself is wrong (for example a replay diverged)."""


class Obs(object):
    """What one execution contributed: operations executed on the code, canonical outcome, number of executions."""
    __slots__ = ('steps', 'outcome', 'execs', 'outcomes')

    def __init__(self, steps=1, outcome=None, execs=1, outcomes=None):
        self.steps = steps
        self.outcome = outcome
        self.execs = execs
        self.outcomes = outcomes


class Family(object):
    """name; cases: callable giving an iterator of JSON-able cases; run: callable(case) -> Obs."""

    def __init__(self, name, cases, run, setup=None, what='', bound='', serial=False):
        self.name, self.cases, self.run, self.setup, self.what, self.bound = name, cases, run, setup, what, bound
        self.serial = serial


class Search(object):
    """A breadth-first search family: ops(hist) -> list of JSON-able operations, run(hist) -> (canon, steps)
    raising Violation. Level-synchronous; the frontier is spread over the workers."""

    def __init__(self, name, run, depth, what='', bound='', setup=None, merge=True, max_states=None, max_level=None):
        self.name, self.run, self.depth, self.what, self.bound, self.setup = name, run, depth, what, bound, setup
        self.merge, self.max_states, self.max_level = merge, max_states, max_level


def call(fn, *a, **k):
    """('ok', value) or ('exc', exception). Runaway is not an outcome: it is a violation."""
    try:
        return 'ok', fn(*a, **k)
    except (Runaway, HarnessError, Violation, KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException as e:  # SystemExit of the command-line tool included
        e.__traceback__ = None
        return 'exc', e


def expect_ok(what, fn, *a, **k):
    kind, v = call(fn, *a, **k)
    if kind != 'ok':
        raise Violation('%s: unexpected %s: %s' % (what, type(v).__name__, v), sig=what)
    return v


def expect_exc(what, types, fn, *a, **k):
    kind, v = call(fn, *a, **k)
    if kind == 'ok':
        raise Violation('%s: accepted (returned %r), expected %s' % (what, v, tnames(types)), sig=what)
    if not isinstance(v, types):
        raise Violation('%s: raised %s (%s), expected %s' % (what, type(v).__name__, v, tnames(types)), sig=what)
    return v


def tnames(types):
    return '/'.join(t.__name__ for t in (types if isinstance(types, tuple) else (types,)))


def check(cond, msg, sig=None):
    if not cond:
        raise Violation(msg, sig)


def eq(what, got, want):
    if not same(got, want):
        raise Violation('%s: got %r, expected %r' % (what, got, want), sig=what)


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


# ---------------------------------------------------------------- scratch space

_scratch_root = None


def scratch_root():
    global _scratch_root
    if _scratch_root is None or _scratch_root[1] != os.getpid():
        _scratch_root = (tempfile.mkdtemp(prefix='mcheck-'), os.getpid())
    return _scratch_root[0]


def scratch_cleanup():
    global _scratch_root
    if _scratch_root is not None and _scratch_root[1] == os.getpid():
        os.chdir('/')
        assert os.path.basename(_scratch_root[0]).startswith('mcheck-')
        shutil.rmtree(_scratch_root[0], ignore_errors=True)
        _scratch_root = None


_dir_seq = itertools.count()


def scratch_dir(name=None):
    d = os.path.join(scratch_root(), name or 'd%d' % next(_dir_seq))
    os.makedirs(d, exist_ok=True)
    return d


# ---------------------------------------------------------------- running cases

def _on_prof(sig, frame):
    raise Runaway('more than %d s of CPU time in one case' % CPU_LIMIT_S)


def limits():
    signal.signal(signal.SIGPROF, _on_prof)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def from_code(e):
    """Whether an exception nobody expected is the doing of the code under test: of the frames it passed, the last one that is
    not the standard library's belongs to it, or an object or module of its lacks a public attribute."""
    last, tb = None, e.__traceback__
    if isinstance(e, AttributeError) and e.name and not e.name.startswith('_'):
        owner = e.obj.__name__ if isinstance(e.obj, types.ModuleType) else type(e.obj).__module__
        if owner.split('.')[0] == 'sunspec':
            return True
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        for root in (REPO, VERIF):
            if f.startswith(os.path.realpath(root) + os.sep):
                last = root
        tb = tb.tb_next
    return last == REPO


def guarded(fn, *a):
    """(result, None) or (None, (msg, sig))."""
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT_S)
    try:
        return fn(*a), None
    except Violation as e:
        return None, (e.msg, e.sig)
    except Runaway as e:
        return None, ('does not terminate: %s' % e, 'runaway')
    except MemoryError:
        return None, ('does not terminate: memory exhausted', 'runaway')
    except HarnessError:
        raise
    except Exception as e:
        if not from_code(e):
            raise
        return None, ('the code under test raises %s: %s' % (type(e).__name__, e), 'unexpected exception')
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def still_going():
    """A long case has got somewhere: its time limit starts again."""
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT_S)


def run_case(fam, case):
    return guarded(fam.run, case)


def forked(fn):
    """fn() in a child process, so that nothing it leaves in the modules is seen again. Returns its (JSON-able) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                out = ['ok', fn()]
            except Violation as e:
                out = ['violation', e.msg, e.sig]
            except Runaway as e:
                out = ['violation', 'does not terminate: %s' % e, 'runaway']
            except BaseException:
                import traceback
                out = ['error', traceback.format_exc()]
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        data += d
    os.close(r)
    os.waitpid(pid, 0)
    out = json.loads(data) if data else ['error', 'the child process died']
    if out[0] == 'violation':
        raise Violation(out[1], out[2])
    if out[0] == 'error':
        raise HarnessError(out[1])
    return out[1]


def digest(x):
    return hashlib.blake2b(repr(x).encode('utf-8', 'backslashreplace'), digest_size=8).digest()


class Acc(object):
    def __init__(self):
        self.execs = self.steps = self.cases = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []      # (index, case, msg, sig)
        self.known = []

    def add(self, idx, case, obs):
        self.cases += 1
        if obs is None:
            obs = Obs()
        self.execs += obs.execs
        self.steps += obs.steps
        if obs.outcomes is not None:
            self.outcomes.update(digest(o) for o in obs.outcomes)
        else:
            self.outcomes.add(digest(obs.outcome if obs.outcome is not None else case))
        if len(self.samples) < 2:
            self.samples.append(case)


def known_match(known, prop, fam, case, sig):
    for k in known:
        if k.get('property') == prop and k.get('family') == fam and k.get('sig') == sig and \
                ('case' not in k or k['case'] == case):
            return k
    return None


def _worker(prop, fam, w, n, known, conn, limit):
    acc = Acc()
    err = None
    try:
        limits()
        sys.stdout = io.TextIOWrapper(open(os.devnull, 'wb'))
        if fam.setup:
            fam.setup()
        for i, case in enumerate(fam.cases()):
            if i % n != w:
                continue
            obs, bad = run_case(fam, case)
            if bad is None:
                acc.add(i, case, obs)
                continue
            k = known_match(known, prop, fam.name, case, bad[1])
            if k:
                acc.cases += 1
                if k['text'] not in acc.known:
                    acc.known.append(k['text'])
                continue
            acc.violations.append((i, case, bad[0], bad[1]))
            if len(acc.violations) >= limit:
                break
    except BaseException as e:
        import traceback
        err = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    finally:
        scratch_cleanup()
    conn.send((acc.cases, acc.execs, acc.steps, acc.outcomes, acc.samples, acc.violations, acc.known, err))
    conn.close()


def spread(prop, fam, known, limit=1, workers=None):
    n = 1 if fam.serial else (workers or WORKERS)
    ctx = multiprocessing.get_context('fork')
    jobs = []
    for w in range(n):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(prop, fam, w, n, known, b, limit))
        p.start()
        b.close()
        jobs.append((p, a))
    tot = Acc()
    for p, a in jobs:
        try:
            cases, execs, steps, outcomes, samples, viol, kn, err = a.recv()
        except EOFError:
            raise HarnessError('worker died (killed?) in family %s' % fam.name)
        p.join()
        if err:
            raise HarnessError('family %s: %s' % (fam.name, err))
        tot.cases += cases
        tot.execs += execs
        tot.steps += steps
        tot.outcomes |= outcomes
        tot.samples += samples
        tot.violations += viol
        tot.known += [k for k in kn if k not in tot.known]
    tot.violations.sort(key=lambda v: v[0])
    return tot


def _search_worker(search, conn):
    """Serves expansion requests: receives a list of histories, answers [(hist, [(op, canon|None, steps, bad)])]."""
    limits()
    sys.stdout = io.TextIOWrapper(open(os.devnull, 'wb'))
    try:
        if search.setup:
            search.setup()
        while True:
            batch = conn.recv()
            if batch is None:
                break
            out = []
            try:
                for hist in batch:
                    canon, steps, ops, bad = None, 0, [], None
                    res, bad = guarded(search.run, hist)
                    if bad is None:
                        canon, steps, ops = res
                        canon = digest(canon)
                    out.append((hist, canon, steps, ops, bad))
            except BaseException as e:
                import traceback
                conn.send(('err', ''.join(traceback.format_exception(type(e), e, e.__traceback__))))
                return
            conn.send(('ok', out))
    finally:
        scratch_cleanup()


class Duplex(object):
    def __init__(self, r, w):
        self.recv, self.send = r.recv, w.send


def bfs(prop, search, known):
    """run(hist) executes the whole history on fresh real objects and returns (canonical state, steps, enabled ops)."""
    n = WORKERS
    ctx = multiprocessing.get_context('fork')
    pool = []
    for _ in range(n):
        ra, wb = ctx.Pipe(False)          # one-way pipes: a duplex one would be a (simulated) socket
        rb, wa = ctx.Pipe(False)
        p = ctx.Process(target=_search_worker, args=(search, Duplex(rb, wb)), daemon=True)
        p.start()
        rb.close()
        wb.close()
        pool.append((p, Duplex(ra, wa)))
    seen, transitions, execs, steps = set(), 0, 0, 0
    samples, violations, kn = [], [], []
    frontier, level, closed = [[]], 0, False
    deepest = 0
    try:
        while frontier and not violations:
            chunks = [frontier[i::n] for i in range(n)]
            for (p, c), ch in zip(pool, chunks):
                c.send(ch)
            results = []
            for (p, c) in pool:
                try:
                    kind, val = c.recv()
                except EOFError:
                    raise HarnessError('search worker died in %s' % search.name)
                if kind == 'err':
                    raise HarnessError('search %s: %s' % (search.name, val))
                results += val
            order = {json.dumps(h): i for i, h in enumerate(frontier)}
            results.sort(key=lambda r: order[json.dumps(r[0])])
            nxt = []
            for hist, canon, st, ops, bad in results:
                execs += 1
                steps += st
                transitions += 1 if hist else 0
                if bad:
                    k = known_match(known, prop, search.name, hist, bad[1])
                    if k:
                        if k['text'] not in kn:
                            kn.append(k['text'])
                    else:
                        violations.append((execs, hist, bad[0], bad[1]))
                    continue
                if canon in seen and search.merge:
                    continue
                seen.add(canon)
                deepest = max(deepest, len(hist))
                if len(samples) < 4 or (len(samples) < 8 and len(hist) == level and level > 2):
                    samples.append(hist)
                if level < search.depth:
                    nxt += [hist + [op] for op in ops]
            frontier = nxt
            level += 1
            if search.max_level and len(frontier) > search.max_level:
                level = search.depth + 1      # states that never repeat (a counter, say): what was explored is exhaustive to this depth
                break
            if search.max_states and len(seen) > search.max_states:
                raise HarnessError('search %s: more than %d states' % (search.name, search.max_states))
        closed = level <= search.depth
    finally:
        for p, c in pool:
            try:
                c.send(None)
            except (OSError, ValueError):
                pass
        for p, c in pool:
            p.join(10)
            if p.is_alive():
                p.kill()
    acc = Acc()
    acc.cases = acc.execs = execs
    acc.steps = steps
    acc.outcomes = seen
    acc.samples = samples[-4:]
    acc.violations = violations
    acc.known = kn
    acc.transitions = transitions
    acc.deepest = deepest
    acc.closed = closed
    return acc


# ---------------------------------------------------------------- main

def load_known():
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))['findings'] if not k.get('fixed')]


def write_replay(prop, fam, case, msg):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    name = '%s-%s-%s.json' % (prop, fam, hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'family': fam, 'case': case, 'message': msg,
                   'replay_cmd': './run.sh %s --replay %s' % (prop, path)}, f, indent=1)
    return path


def main(mod, argv):
    t0 = real_monotonic()
    prop = mod.PROP
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = load_known()
    if '--replay' in argv:
        return replay(mod, argv[argv.index('--replay') + 1], tier)
    only = argv[argv.index('--family') + 1] if '--family' in argv else None
    fams = mod.families(tier)
    cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'states': 0, 'transitions': 0,
           'traces_validated_against_impl': 0, 'rule': mod.RULE, 'bounds': mod.BOUNDS, 'families': {}, 'samples': [],
           'exhaustive': True}
    bad, kn = None, []
    for fam in fams:
        if only and fam.name != only:
            continue
        t1 = real_monotonic()
        if isinstance(fam, Search):
            acc = bfs(prop, fam, known)
            trans = acc.transitions
            cov['families'][fam.name] = {
                'what': fam.what, 'bound': fam.bound, 'engine': 'state-space search over operation histories',
                'states': len(acc.outcomes), 'transitions': trans, 'executions': acc.execs, 'operations': acc.steps,
                'depth_of_deepest_new_state': acc.deepest, 'explored_to_closure': acc.closed,
                'merged': fam.merge, 'wall_s': round(real_monotonic() - t1, 2)}
        else:
            acc = spread(prop, fam, known)
            trans = acc.steps
            cov['families'][fam.name] = {
                'what': fam.what, 'bound': fam.bound, 'engine': 'exhaustive enumeration',
                'cases': acc.cases, 'executions': acc.execs, 'operations': acc.steps, 'distinct_outcomes': len(acc.outcomes),
                'wall_s': round(real_monotonic() - t1, 2)}
        cov['evaluations'] += acc.execs
        cov['distinct_nontrivial'] += len(acc.outcomes)
        cov['states'] += len(acc.outcomes)
        cov['transitions'] += trans
        cov['traces_validated_against_impl'] += acc.execs
        cov['samples'] += [{'family': fam.name, 'case': s} for s in acc.samples[:2]]
        kn += [k for k in acc.known if k not in kn]
        print('%s %-24s cases=%d executions=%d operations=%d distinct=%d %.1fs' % (
            prop, fam.name, acc.cases, acc.execs, acc.steps, len(acc.outcomes), real_monotonic() - t1), flush=True)
        if acc.cases == 0 and not acc.violations:
            raise HarnessError('family %s explored nothing' % fam.name)
        if acc.violations and bad is None:
            bad = (fam,) + acc.violations[0]
            cov['families'][fam.name]['violation'] = bad[3]
            break
    cov['samples'] = cov['samples'][:12]
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    cov['exhaustive'] = bad is None
    drop = ('states', 'transitions', 'traces_validated_against_impl') if mod.LEVEL != 'model_checking' else \
        ('evaluations', 'distinct_nontrivial')
    shown = {k: v for k, v in cov.items() if k not in drop}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': shown,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + BASE_ASSUMPTIONS,
          'wall_s': round(real_monotonic() - t0, 2), 'violations': 0 if bad is None else 1}
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
    if bad:
        fam, idx, case, msg, sig = bad
        path = write_replay(prop, fam.name, case, msg)
        print('violated by family %s (case %d): %s' % (fam.name, idx, msg))
        print('case: %s' % json.dumps(case)[:2000])
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        return 1
    print('%s held on everything explored: %d executions, %d operations, %d distinct outcomes, %.1fs' % (
        prop, cov['evaluations'], cov['transitions'], cov['distinct_nontrivial'], real_monotonic() - t0))
    return 0


BASE_ASSUMPTIONS = [
    'values outside the stated alphabets and histories beyond the stated depth are not covered',
    'the simulated serial line, socket and Modbus server (mc/wire.py) represent the real ones for what the client can see',
    'the reference model in mc/ref.py states the property correctly',
]


def replay(mod, path, tier):
    r = json.load(open(path))
    for t in (tier, 'thorough'):
        for fam in mod.families(t):
            if fam.name == r['family']:
                limits()
                try:
                    if fam.setup:
                        fam.setup()
                    if isinstance(fam, Search):
                        f2 = Family(fam.name, None, lambda h: (fam.run(h), Obs())[1])
                    else:
                        f2 = fam
                    out = [run_case(f2, r['case'])[1] for _ in range(2)]
                finally:
                    scratch_cleanup()
                if out[0] != out[1]:
                    print('replay is not deterministic: %r then %r' % (out[0], out[1]))
                if out[0]:
                    print(out[0][0])
                    print('VIOLATION property=%s replay=%s' % (mod.PROP, path))
                    return 1
                print('the case passes')
                return 0
    print('no such family: %s' % r['family'])
    return 2
