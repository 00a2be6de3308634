import itertools

from .. import core, ref, rig, wire
from ..core import Family, Obs, Violation, call, check, eq, expect_exc, expect_ok
from ..ref import P
from ..wire import ByIndex, SimDevice, world

PROP, LEVEL = 'C03', 'fault_enumeration'
TECHNIQUE = ('exhaustive enumeration of model sizes and point alignments around the request limit, of value histories per '
             'point type, and of every failure at every request of a read, on the real client against a reference decoder')
RULE = 'one evaluation per (model shape, repeats, transport), per value history, or per (request, failure) of a read'
BOUNDS = ('1200 model ids (thorough: all) in 3 shapes; model lengths 1..10 and within 6 (quick) or 16 (thorough) of 125, 250, 375 and 500 in 12 point patterns; register '
          'histories of 3 (quick) or 4 reads over 3 states per point; one failed request per read, or one that returns up to 250 bytes more or less')

MID = 64010
BASE = 40000


def pattern_points(pat, n):
    """Points filling exactly n registers."""
    out, off, i = [], 0, 0
    shift = 0
    if pat[0] == 'shift':
        shift, size = pat[1], pat[2]
    else:
        size = None
    while off < n:
        left = n - off
        if pat[0] == 'ones':
            k = 1
        elif pat[0] == 'shift':
            k = 1 if off < shift else size
        elif pat[0] == 'pads':              # a point, then padding
            k = 1 if i % 2 == 0 else 3
        elif pat[0] == 'mixed':
            k = (1, 2, 4, 8, 2, 1, 4)[i % 7]
        k = min(k, left)
        if pat[0] == 'pads' and i % 2 and k:
            for j in range(k):
                out.append(P('p%d_%d' % (i, j), 'pad', offset=off + j))
        else:
            t = {1: 'int16', 2: 'uint32', 4: 'uint64', 8: 'ipv6addr'}.get(k)
            if t is None or (pat[0] == 'shift' and pat[2] not in (1, 2, 4, 8) and off >= shift):
                out.append(P('s%d' % i, 'string', k, offset=off))
            else:
                out.append(P('v%d' % i, t, offset=off))
        off += k
        i += 1
    return out


def observe(mod, m, repeats):
    out = {}
    for b, p, off in m.value_points(repeats):
        q = mod.blocks[b].points[p.id]
        out[b, p.id] = (q.value_base, q.value_sf, q.value)
    for bl in mod.blocks:
        for pid, q in bl.points_sf.items():
            out[bl.index, pid] = q.value_base
    return out


def compare(mod, m, repeats, regs, what):
    want = m.expect(regs, int(mod.addr), repeats)
    for b, p, off in m.value_points(repeats):
        q = mod.blocks[b].points[p.id]
        base, sf, val = want[b, p.id]
        check(core.same(q.value_base, base) and (q.value is None if val is None else ref.close(q.value, val)),
              '%s: point %s of block %d shows %r (%r), registers hold %r (%r)' % (
                  what, p.id, b, q.value_base, q.value, base, val), 'point value')
        check(q.value_sf == sf, '%s: point %s of block %d: scale factor %r, registers hold %r' % (what, p.id, b, q.value_sf, sf),
              'scale factor')
    for b, p, off in m.points(repeats):
        if p.type == 'sunssf':
            raw = ref.decode('sunssf', ref.unwords([regs[int(mod.addr) + off]]))
            eq('%s: scale factor point' % what, mod.blocks[b].points_sf[p.id].value_base, raw)


def check_requests(reqs, m, repeats, addr, length, strict=True):
    spans = [(addr + off, addr + off + p.len) for b, p, off in m.points(repeats) if p.type != 'pad']
    asked = set()
    for r in reqs:
        a, n = int.from_bytes(r.pdu[1:3], 'big'), int.from_bytes(r.pdu[3:5], 'big')
        check(r.func == 3, 'function %d' % r.func, 'function')
        check(n <= 125, 'request for %d registers' % n, 'request size')
        check(addr <= a and a + n <= addr + length, 'request %d+%d outside the model %d+%d' % (a, n, addr, length),
              'request outside the model')
        check(asked.isdisjoint(range(a, a + n)), 'request %d+%d asks for registers again' % (a, n), 'registers asked for twice')
        asked.update(range(a, a + n))
        for s, e in spans:
            for edge in (a, a + n):
                check(not s < edge < e, 'point at %d..%d is split at %d' % (s, e, edge), 'split point')


def device_for(m, repeats, k=0, transport='tcp', which=None, extra=()):
    ws = ref.fill(m, repeats, k, which)
    regs = ref.image(BASE, [(m.id, len(ws), ws)])
    return SimDevice(regs), rig


def scan(sim, transport, plan=None, **kw):
    dev = rig.client_device(sim, transport, plan=plan, **kw)
    expect_ok('scan', dev.scan)
    mod = dev.models_list[0]
    check(mod.load_error is None, 'model not loaded: %s' % mod.load_error, 'load')
    return dev, mod


def refill(sim, m, repeats, k, which=None):
    ws = ref.fill(m, repeats, k, which)
    for i, w in enumerate(ws):
        sim.regs[BASE + 4 + i] = w


def live(dev, transport):
    """Make the device change its registers: a map holds its own copy of them."""
    return transport != 'mapped'


ALL_TYPES = ref.Model(MID + 1, [P('sf', 'sunssf')] + [
    P('f_' + t, t, 3 if t == 'string' else None, sf='sf' if t in ref.INT and t not in ('ipaddr', 'pad', 'sunssf') else None)
    for t in ref.VALUE_TYPES],
    [P('sfr', 'sunssf'), P('r_i', 'int16', sf='sfr'), P('r_j', 'int32', sf='sf'), P('r_k', 'uint16', sf='-3'), P('r_s', 'string', 2),
     P('pd', 'pad')])

# several requests: 1 + 124 + ... registers with repeating blocks, scale factors in both
LONG = ref.Model(MID + 2, [P('sf', 'sunssf')] + [P('v%d' % i, 'uint32', sf='sf' if i % 3 else None) for i in range(70)],
                 [P('x', 'int16', sf='sf'), P('y', 'string', 8), P('rsf', 'sunssf'), P('z', 'int32', sf='rsf')])


def setup():
    rig.definitions([ALL_TYPES, LONG])


COMMON = [P('Mn', 'string', 16), P('Md', 'string', 16), P('Opt', 'string', 8), P('Vr', 'string', 8), P('SN', 'string', 16), P('DA', 'uint16'), P('Pad', 'pad')]
# fixed block, repeating block, repeats, legacy length of the common model
SHAPES = [(COMMON, None, 0, False), (COMMON, None, 0, True),
          ([P('A', 'uint16', sf='A_SF'), P('A_SF', 'sunssf'), P('Evt', 'bitfield32'), P('St', 'enum16'), P('WH', 'acc32', sf='A_SF'), P('SN', 'string', 2), P('N', 'count')],
           [P('V', 'int16', sf='A_SF'), P('DA', 'uint16')], 2, False)]


def families(tier):
    thorough = tier == 'thorough'
    span = 6 if tier == 'quick' else 16
    lens = list(range(1, 11)) + sorted({c + d for c in (125, 250, 375, 500) for d in range(-span, span + 1)})
    pats = [('ones',), ('mixed',), ('pads',)] + [('shift', s, k) for s, k in
                                                  [(0, 2), (1, 2), (0, 4), (1, 4), (2, 4), (3, 4), (0, 8), (5, 8), (0, 16), (0, 30),
                                                   (7, 60), (0, 125)]]
    if tier == 'thorough':
        pats += [('shift', s, 8) for s in (1, 2, 3, 4, 6, 7)] + [('shift', s, 16) for s in range(1, 16)]

    def size_cases():
        for n in lens:
            for pat in pats:
                for t in ('tcp', 'rtu') if n > 300 or pat[0] != 'ones' else rig.TRANSPORTS:
                    yield [n, list(pat), None, t]
        reps = [(1, 10), (2, 10), (3, 7), (4, 5), (5, 13), (8, 20), (125, 1), (60, 4), (124, 2)] if tier == 'quick' else \
            [(r, k) for r in list(range(1, 20)) + [25, 31, 41, 60, 62, 63, 124, 125] for k in (1, 2, 3, 260 // r, 380 // r) if k]
        for fixed in (1, 2, 3, 50, 121, 124, 125, 126):
            for r, k in reps:
                for pat in (('ones',), ('mixed',), ('shift', 0, 4)):
                    yield [fixed, list(pat), [r, k], 'tcp']

    def size_run(c):
        n, pat, rep, t = c
        m = ref.Model(MID, pattern_points(pat, n), None if rep is None else pattern_points(pat, rep[0]))
        repeats = rep[1] if rep else 0
        rig.definitions([m], 'sized')
        sim = SimDevice(ref.image(BASE, [(MID, m.length(repeats), ref.fill(m, repeats, n))]))
        dev, mod = scan(sim, t)
        for k in (0, 1, 2, 3) if t != 'mapped' else (0, 2):
            if k == 1:
                refill(sim, m, repeats, n + 1)
            if k > 1:
                expect_ok('load again', mod.load)        # a model may be laid out anew at any time
            del world.requests[:]
            expect_ok('read', mod.read_points)
            compare(mod, m, repeats, sim.regs, 'read %d' % k)
            if t != 'mapped':
                check_requests(world.requests, m, repeats, BASE + 4, m.length(repeats))
                rig.check_wire()
        dev.close()
        return Obs(steps=4, outcome=c)

    depth = 3 if tier == 'quick' else 4

    def hist_cases():
        for t in ('tcp', 'rtu'):
            for h in itertools.product('abu', repeat=depth):
                for s in itertools.product('abu', repeat=2):
                    for how in (0, 1):
                        yield [t, ''.join(h), ''.join(s), how]

    def hist_run(c):
        """Points take the states of the history (all of them the same, or shifted by their position), scale factors those of
        their own; before each read every second point is assigned a value."""
        t, h, s, how = c
        repeats = 2
        m = ALL_TYPES

        def which_for(i):
            def which(b, p, n):
                st = (s[i % len(s)] if p.type == 'sunssf' else h[(i + n * how) % len(h)])
                if p.type == 'pad':
                    return None
                return ref.unimpl(p.type, p.len) if st == 'u' else ref.sample(p.type, p.len, n + 1000 * 'ab'.index(st))
            return which
        sim = SimDevice(ref.image(BASE, [(m.id, m.length(repeats), ref.fill(m, repeats, 0, which_for(0)))]))
        dev, mod = scan(sim, t)
        for i in range(len(h)):
            refill(sim, m, repeats, 0, which_for(i))
            if how:
                for b in mod.blocks:
                    for q in b.points_list[::2]:
                        if q.point_type.type in ('int16', 'uint32', 'enum16'):
                            q.value = 1
            expect_ok('read', mod.read_points if i % 2 else dev.read_points)
            compare(mod, m, repeats, sim.regs, 'read %d of history %s/%s' % (i, h, s))
        dev.close()
        return Obs(steps=len(h), outcome=c)

    FAULTS = [['drop'], ['exc', 1], ['exc', 2], ['exc', 4], ['exc', 6], ['exc', 11], ['trunc', 4], ['trunc', 20], ['pdu', [3, 2, 0, 1]],
              ['pdu', [4, 4, 0, 1, 0, 2]]]
    TCP_FAULTS = FAULTS + [['reset'], ['eof'], ['trunc_eof', 9], ['trunc_eof', 30], ['trunc_reset', 30]]
    nreq = {}

    def model_of(name):
        return (LONG, 12) if name == 'long' else (ALL_TYPES, 2)

    def fault_cases():
        for name in ('long', 'types'):
            for t in ('tcp', 'rtu'):
                for mode in (['auto', 'connected'] if t == 'tcp' else ['auto']):
                    for k in range(5 if name == 'long' else 1):
                        for f in (TCP_FAULTS if t == 'tcp' else FAULTS):
                            for first in (True, False):
                                yield [name, t, mode, k, f, first]
                    if t == 'tcp':
                        for k in range(5 if name == 'long' else 1):
                            for f in ('timeout', 'reset', 'eof'):
                                yield [name, t, mode, ['recv', k], f, False]
                            for f in ('reset', 'pipe', 'timeout', 'partial'):
                                yield [name, t, mode, ['send', k], f, False]
                            for f in ('refused', 'timeout', 'unreachable'):
                                if mode == 'auto':
                                    yield [name, t, mode, ['connect', k], f, False]
                    else:
                        for k in range(5 if name == 'long' else 1):
                            for kind, fs in (('read', ('error', 'timeout')), ('write', ('error', 'timeout', 'partial')), ('flush', ('error',))):
                                for f in fs:
                                    yield [name, t, mode, [kind, k], f, False]

    def fault_run(c):
        name, t, mode, k, f, first = c
        m, repeats = model_of(name)
        sim = SimDevice(ref.image(BASE, [(m.id, m.length(repeats), ref.fill(m, repeats, 1))]))
        dev, mod = scan(sim, t)
        if mode == 'connected':
            dev.modbus_device.connect()
        if not first:
            expect_ok('read', mod.read_points)
            compare(mod, m, repeats, sim.regs, 'first read')
        before = observe(mod, m, repeats)
        # the device has changed completely meanwhile: scale factors and implemented points too
        refill(sim, m, repeats, 5, lambda b, p, n: ref.unimpl(p.type, p.len) if n % 3 == 0 and p.type != 'pad' else None)
        ans = f
        if isinstance(f, list) and f[0] == 'pdu':
            ans = ['pdu', bytes(f[1])]
        plan = ByIndex({('reply', k) if isinstance(k, int) else tuple(k): tuple(ans) if isinstance(ans, list) else ans})
        world.plan = plan
        kind, e = call(mod.read_points)
        used = bool(plan.used)
        world.plan = wire.Healthy()
        if used and kind == 'ok':
            raise Violation('a read with a failed request (%r at %r) succeeded' % (f, k), 'failure swallowed')
        if kind == 'exc':
            check(used, 'read failed without a fault: %s' % e, 'spurious failure')
            check(isinstance(e, rig.CErr), 'read raised %s: %s' % (type(e).__name__, e), 'error type')
            after = observe(mod, m, repeats)
            diff = [x for x in before if not core.same(before[x], after[x])]
            check(not diff, 'a failed read (%r at request %r) changed points %r' % (f, k, diff[:5]), 'partial read')
        expect_ok('read after a failed one', mod.read_points)
        compare(mod, m, repeats, sim.regs, 'read after a failed one')
        dev.close()
        return Obs(steps=3, outcome=(c, used))

    # a device object of the program's own kind whose reads return other amounts than asked for
    def amount_cases():
        for name in ('long', 'types'):
            for t in ('tcp', 'rtu'):
                for k in range(5 if name == 'long' else 1):
                    for delta in (-1000, -4, -3, -2, -1, 1, 2, 3, 4, 250):
                        for first in (True, False):
                            yield [name, t, k, delta, first]

    def amount_run(c):
        name, t, k, delta, first = c
        m, repeats = model_of(name)
        sim = SimDevice(ref.image(BASE, [(m.id, m.length(repeats), ref.fill(m, repeats, 1))]))
        dev, mod = scan(sim, t)
        if not first:
            expect_ok('read', mod.read_points)
        before = observe(mod, m, repeats)
        refill(sim, m, repeats, 5, None)
        real, calls = dev.read, []

        def read(addr, count):
            data = real(addr, count)
            calls.append(count)
            if len(calls) != k + 1:
                return data
            return (data + b'\1' * delta) if delta > 0 else data[:max(delta, 1 - len(data)) % len(data)]
        dev.read = read
        kind, e = call(mod.read_points)
        dev.read = real
        used = len(calls) > k
        if used:
            check(kind == 'exc', 'read %d returned %+d bytes and the model was read' % (k, delta), 'wrong amount')
            check(isinstance(e, rig.CErr), 'read raised %s: %s' % (type(e).__name__, e), 'error type')
            after = observe(mod, m, repeats)
            diff = [x for x in before if not core.same(before[x], after[x])]
            check(not diff, 'read %d returned %+d bytes, points %r changed' % (k, delta, diff[:5]), 'partial read')
        expect_ok('read after a failed one', mod.read_points)
        compare(mod, m, repeats, sim.regs, 'read after a failed one')
        dev.close()
        return Obs(steps=3, outcome=(c, used))

    # every model id: the common model and others are read like any other
    def id_cases():
        for mid in range(1, 65535) if thorough else sorted(set(range(1, 1000)) | set(range(63000, 63020)) | set(range(63990, 64130)) |
                                                           {1 << i for i in range(16)} | {(1 << i) - 1 for i in range(1, 16)} | {65000, 65533, 65534}):
            for shape in range(len(SHAPES)):
                yield [mid, shape]

    def id_run(c):
        mid, shape = c
        fixed, rep, repeats, cut = SHAPES[shape]
        m = ref.Model(mid, fixed, rep, name='common' if shape % 2 else 'inverter')
        ws = ref.fill(m, repeats, mid)
        cut = 1 if cut and mid == 1 else 0
        rig.definitions([m], 'sized')
        sim = SimDevice(ref.image(BASE, [(mid, len(ws) - cut, ws[:len(ws) - cut])]))
        dev, mod = scan(sim, 'tcp' if mid % 2 else 'rtu')
        try:
            for k in range(3):
                if k:
                    ws = ref.fill(m, repeats, mid + k)
                    for i, w in enumerate(ws[:len(ws) - cut]):
                        sim.regs[BASE + 4 + i] = w
                expect_ok('read', mod.read_points if k % 2 else dev.read_points)
                compare(mod, m, repeats, sim.regs, 'model %d: read %d' % (mid, k + 1))
        finally:
            dev.close()
        return Obs(steps=3, outcome=c)

    return [
        Family('ids', id_cases, id_run, what='every model id, three reads of changing registers'),
        Family('sizes', size_cases, size_run, what='every model size and alignment; values and requests of two reads, and of reads after the model was loaded again'),
        Family('histories', hist_cases, hist_run, setup, what='every history of value/other value/unimplemented per point and scale factor'),
        Family('amounts', amount_cases, amount_run, setup, what='reads that return more or less than asked for, at every request'),
        Family('failures', fault_cases, fault_run, setup, what='every failure at every request of a multi-request read'),
    ]
