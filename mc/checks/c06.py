import itertools

from .. import core, ref, rig, wire, wmodel
from ..core import Family, Obs, Search, Violation, call, check, eq, expect_exc, expect_ok
from ..ref import P
from ..wire import SimDevice, world
from .c03 import pattern_points
from ..wmodel import KEYS, W, Client

PROP, LEVEL = 'C06', 'model_checking'
TECHNIQUE = ('explicit-state search over all histories of assignments, reads, writes and device changes on the real client with '
             'replay of each history, against a reference of pending modifications; every subset of modified points')
RULE = ('a state is the client values, scale factors, pending marks and the device registers; one transition per operation; every '
        'explored history is executed on the implementation')
BOUNDS = ('histories of <=3 (quick) or <=4 operations over all 13 points, <=5 (quick) or <=7 over 4 points; every subset of the 13 '
          'points in one write; 3 transports for the subsets; 13 values to refuse for each of the 13 points; models of 117..131, 240..254, 369, 370, 500 and 1000 registers in 14 patterns')

PATTERNS = [('ones',), ('mixed',), ('pads',)] + [('shift', s, k) for s, k in ((0, 2), (1, 2), (0, 4), (1, 4), (2, 4), (3, 4), (3, 8), (5, 8), (1, 3), (2, 16))]
SMALL = [(0, 'N'), (0, 'A'), (0, 'X'), (1, 'V'), (2, 'Y')]


def step(c, op, n):
    kind = op[0]
    if kind == 'set':
        key = tuple(op[1])
        c.assign(key, wmodel.raw_value(key, op[2]))
    elif kind == 'read':
        expect_ok('read', c.mod.read_points)
        c.note_read()
        c.compare('read')
    elif kind == 'write':
        before = len(world.requests)
        expect_ok('write', c.mod.write_points)
        if not c.pending:
            check(len(world.requests) == before, 'a write without modifications sent %d requests' % (len(world.requests) - before),
                  'needless request')
        c.expect_written(list(c.pending), 'write')
    elif kind == 'pwrite':
        key = tuple(op[1])
        p = c.point(key)
        # a point written on its own stores the value it shows, pending or not
        off, pt = wmodel.POINTS[key]
        raw = c.pending.get(key, p.value_base)
        if raw is None:
            return
        c.pending[key] = raw
        expect_ok('point write', p.write)
        c.expect_written([key], 'point write')
    elif kind == 'dev':
        ws = ref.fill(W, wmodel.REPEATS, 900 + op[1], lambda b, p, k: ref.encode('sunssf', wmodel.SFVAL[p.id] * (1 - 2 * op[1]))
                      if p.type == 'sunssf' else None)
        for i, w in enumerate(ws):
            c.sim.regs[wmodel.ADDR0 + i] = w
            c.regs[wmodel.ADDR0 + i] = w
    for k, raw in c.pending.items():
        check(core.same(c.point(k).value_base, raw), '%r: pending point %r holds %r, expected %r' % (op, k, c.point(k).value_base, raw),
              'pending value')


def run_hist(hist, ops):
    c = Client('tcp')
    for n, op in enumerate(hist):
        step(c, op, n)
    st = c.state()
    c.close()
    return st, max(1, len(hist)), ops


def families(tier):
    wide_ops = [['set', list(k), n] for k in KEYS for n in (0, 1)] + [['read'], ['write']] + [['pwrite', list(k)] for k in KEYS] + \
        [['dev', 1]]
    small_ops = [['set', list(k), 0] for k in SMALL] + [['set', list(SMALL[1]), 1], ['set', list(SMALL[3]), 1]] + \
        [['read'], ['write'], ['dev', 0], ['dev', 1]] + [['pwrite', list(k)] for k in SMALL[:1] + SMALL[3:]]

    def sub_cases():
        for t in rig.TRANSPORTS:
            for mask in range(1 << len(KEYS)):
                if t == 'tcp' or tier == 'thorough' or bin(mask).count('1') in (1, 2, 3, 12, 13):
                    yield [t, mask, True]
            for mask in (1, 5, 257, 8191):
                yield [t, mask, False]

    def sub_run(x):
        t, mask, connected = x
        c = Client(t, connected)
        keys = [k for i, k in enumerate(KEYS) if mask >> i & 1]
        for i, k in enumerate(reversed(keys) if mask % 2 else keys):
            c.assign(k, wmodel.raw_value(k, i))
        for again in range(2):
            n = len(world.requests)
            expect_ok('write', c.mod.write_points)
            if again:
                check(len(world.requests) == n, 'a second write sent %d requests' % (len(world.requests) - n), 'needless request')
            c.expect_written(list(c.pending), 'write')
        c.close()
        return Obs(steps=len(keys) + 2, outcome=x)

    def two_cases():
        """A second subset after a first write."""
        ks = KEYS[:3] + KEYS[5:7] + KEYS[8:10] if tier == 'quick' else KEYS[:9]
        for a in range(1 << len(ks)):
            for b in range(1 << len(ks)):
                yield [[list(k) for i, k in enumerate(ks) if a >> i & 1], [list(k) for i, k in enumerate(ks) if b >> i & 1]]

    def two_run(x):
        c = Client('tcp')
        for r, keys in enumerate(x):
            for k in keys:
                c.assign(tuple(k), wmodel.raw_value(tuple(k), r + 1))
            expect_ok('write', c.mod.write_points)
            c.expect_written(list(c.pending), 'write %d' % r)
        c.close()
        return Obs(steps=2, outcome=x)

    def raw_cases():
        """Unread model: assignments before any read are written as they are."""
        for k in KEYS:
            for j in KEYS:
                yield [list(k), list(j)]

    def raw_run(x):
        c = Client('tcp', read=False)
        for k in x:
            c.assign(tuple(k), wmodel.raw_value(tuple(k), 1))
        expect_ok('write', c.mod.write_points)
        c.expect_written(list(c.pending), 'write')
        c.close()
        return Obs(steps=2, outcome=x)

    # values that are refused are no modifications
    REFUSED = ['x', '', '1.5.', 'nan', 'inf', float('nan'), float('inf'), -float('inf'), [], {}, object(), b'x', None]

    def refused_cases():
        for k in KEYS:
            for v in range(len(REFUSED)):
                for other in [None] + SMALL:
                    for before in (0, 1):
                        for read in (True, False):
                            yield [list(k), v, other and list(other), before, read]

    def refused_run(x):
        key, v, other, before, read = tuple(x[0]), REFUSED[x[1]], x[2] and tuple(x[2]), x[3], x[4]
        c = Client('tcp', read=read)
        try:
            if before:
                c.assign(key, wmodel.raw_value(key, 1))
            if other:
                c.assign(other, wmodel.raw_value(other, 0))
            p = c.point(key)
            was = p.value_base
            k, e = call(setattr, p, 'value', v)
            if k == 'ok':
                return Obs(steps=1, outcome='accepted %s %d' % (key, x[1]))
            check(core.same(p.value_base, was), 'refused value %r of %s: the point holds %r, before %r' % (v, key, p.value_base, was), 'refused value kept')
            n = len(world.requests)
            expect_ok('write after a refused value', c.mod.write_points)
            check(c.pending or len(world.requests) == n, 'a refused value %r of %s is written' % (v, key), 'refused value written')
            c.expect_written(list(c.pending), 'write after the refused value %r of %s' % (v, key))
        finally:
            c.close()
        return Obs(steps=2, outcome=x)

    # models longer than a request
    def long_cases():
        near = range(117, 132) if tier == 'quick' else range(100, 150)
        for pat in PATTERNS:
            for n in list(near) + [x + 123 for x in near] + [369, 370, 500, 1000]:
                for reps in (0, 1):
                    for t in ('tcp', 'rtu') if n < 140 else ('tcp',):
                        yield [list(pat), n, reps, t]

    def long_run(x):
        pat, n, reps, t = x
        pts = pattern_points(pat, n)
        if reps:           # the same registers in blocks of seven
            m = ref.Model(64110, [P('N', 'uint16')], [P('a', 'uint16'), P('b', 'uint32'), P('c', 'uint64')], name='longrep')
            reps = n // 7 + 1
        else:
            m = ref.Model(64110, pts, name='long')
        rig.definitions([m], 'one')
        addr = wmodel.BASE + 4
        regs = ref.image(wmodel.BASE, [(m.id, m.length(reps), ref.fill(m, reps, 3))])
        sim = SimDevice(regs)
        dev = rig.client_device(sim, t)
        expect_ok('scan', dev.scan)
        mod = dev.models_list[0]
        check(mod.load_error is None, 'load: %s' % mod.load_error, 'load')
        expect_ok('read', mod.read_points)
        want = dict(sim.regs)
        keys = [(b, p, off) for b, p, off in m.value_points(reps)]
        # all; all but one, around the places where a request is full; every other one; the ends
        sets = [range(len(keys))]
        edge = [i for i, (b, p, off) in enumerate(keys) if 100 < off < 135 or 235 < off < 260]
        sets += [[i for i in range(len(keys)) if i != j] for j in edge]
        sets += [range(j, len(keys)) for j in edge] + [range(j) for j in edge]
        sets += [range(0, len(keys), 2), range(1, len(keys), 2), [0, len(keys) - 1]]
        for k, s in enumerate(sets):
            spans = []
            for i in s:
                b, p, off = keys[i]
                data = ref.sample(p.type, p.len, 7 * k + i)
                mod.blocks[b].points[p.id].value = ref.decode(p.type, data)
                want.update({addr + off + j: w for j, w in enumerate(ref.words(data))})
                spans.append((addr + off, addr + off + p.len))
            del world.requests[:], sim.applied[:]
            what = 'write %d of %r registers %s' % (k, n, pat)
            expect_ok(what, mod.write_points)
            touched = sorted(a + i for a, vals in sim.applied for i in range(len(vals)))
            eq(what + ': registers written', touched, [a for lo, hi in spans for a in range(lo, hi)])
            check(sim.regs == want, '%s: device registers %r' % (what, [(a, sim.regs[a], want[a]) for a in want if sim.regs[a] != want[a]][:5]), 'device registers')
            ends = set()
            for r in world.requests:
                a, c = int.from_bytes(r.pdu[1:3], 'big'), int.from_bytes(r.pdu[3:5], 'big')
                check(r.func == 16 and c <= 123, '%s: function %d with %d registers' % (what, r.func, c), 'request')
                ends |= {a, a + c}
            for lo, hi in spans:
                check(hi - lo > 123 or not any(lo < e < hi for e in ends), '%s: the point at %d..%d is split over two requests' % (what, lo, hi), 'split point')
            del world.requests[:]
            expect_ok(what, mod.write_points)
            eq(what + ': requests of a second write', len(world.requests), 0)
        dev.close()
        return Obs(steps=2 * len(sets), execs=len(sets), outcomes=[(x, i) for i in range(len(sets))])

    d1, d2 = (3, 5) if tier == 'quick' else (4, 7)
    return [
        Family('subsets', sub_cases, sub_run, wmodel.setup, what='every subset of modified points, written twice'),
        Family('pairs', two_cases, two_run, wmodel.setup, what='every pair of subsets of some points, written one after the other'),
        Family('refused', refused_cases, refused_run, wmodel.setup, what='13 values a point may refuse, between modifications'),
        Family('long', long_cases, long_run, what='models longer than a request, written in whole and in part'),
        Family('unread', raw_cases, raw_run, wmodel.setup, what='every pair of points assigned before the model was read'),
        Search('all-points', lambda h: run_hist(h, wide_ops), d1, setup=wmodel.setup, what='all operations on all points',
               bound='depth %d' % d1),
        Search('few-points', lambda h: run_hist(h, small_ops), d2, setup=wmodel.setup, what='longer histories on 5 points',
               bound='depth %d' % d2),
        Search('unmerged', lambda h: run_hist(h, small_ops[:5] + small_ops[7:9]), 4 if tier == 'quick' else 5, setup=wmodel.setup,
               merge=False, what='every history without merging states'),
    ]
