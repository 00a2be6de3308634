import itertools

from .. import core, ref, rig, wire, wmodel
from ..core import Family, Obs, Search, Violation, call, check, eq, expect_exc, expect_ok
from ..wire import ByIndex, Healthy, world
from .c03 import pattern_points
from ..wmodel import KEYS, W, Client

PROP, LEVEL = 'C07', 'fault_enumeration'
TECHNIQUE = ('exhaustive fault injection: every failure kind at every request and I/O call of a write, up to two failed writes '
             'with assignments between them, on the real client; the completing write is judged by the device registers')
RULE = 'one evaluation per (modified points, transport, sequence of failed writes); distinct by that tuple and its outcome'
BOUNDS = ('modified point sets of 1..7 runs, and runs of 130 and 251 registers in 6 patterns; <=2 failed writes (quick) or 3 (thorough), each with one '
          'fault out of 18; one failed write through the scripting objects; 13 unencodable points; a failed read of the model or the device between assignment and write')

N, A, B, S, X, F, Q = [(0, k) for k in 'N A B S X F Q'.split()]
V1, Z1, Y1, V2, Z2, Y2 = (1, 'V'), (1, 'Z'), (1, 'Y'), (2, 'V'), (2, 'Z'), (2, 'Y')
SETS = [[N], [N, A], [N, B], [A, S], [N, S, V1], [N, A, B, S, X], [X, V1, V2], [B, X, Q, Z1, Y2], [Q, V1, Z1], [N, X, V1, Y1, V2, Y2],
        [N, S, X, V1, Y1, V2, Y2]]

REPLY = ['drop', 'lost', ('exc', 1), ('exc', 4), ('exc', 6), ('pdu', b'\x10\x00\x01\x00\x09'), ('pdu', b'\x03\x02\x00\x00'), ('trunc', 4)]
TCP = REPLY + ['reset', 'reset_after', 'eof', 'eof_after', ('trunc_eof', 8), ('trunc_reset', 8)]
TCP_IO = [('send', x) for x in ('reset', 'pipe', 'timeout', 'partial')] + [('recv', x) for x in ('timeout', 'reset', 'eof')]
RTU_IO = [('write', x) for x in ('error', 'timeout', 'partial')] + [('read', x) for x in ('error', 'timeout')] + [('flush', 'error')]


def faults(transport, connected, nreq):
    """[(kind, index, answer)] for one write of up to nreq requests"""
    out = []
    for i in range(nreq):
        out += [('reply', i, a) for a in (TCP if transport == 'tcp' else REPLY)]
        out += [(k, i, a) for k, a in (TCP_IO if transport == 'tcp' else RTU_IO)]
        if transport == 'tcp' and not connected:
            out += [('connect', i, a) for a in ('refused', 'timeout', 'unreachable')]
            out += [('socket', i, 'error')]
    return out


def failed_write(c, fault, what, fn=None, keys=None):
    """A write under a fault: whatever is modified is stored or will be; nothing else changes."""
    kind, i, a = fault
    plan = ByIndex({(kind, i): a})
    world.plan = plan
    k, e = call(fn or c.mod.write_points)
    world.plan = Healthy()
    new = {}
    for key, raw in c.pending.items():
        new.update(c.registers(key, raw))
    for addr, vals in c.sim.applied:
        for j, v in enumerate(vals):
            if new.get(addr + j) != v:
                raise Violation('%s: register %d written with %d, not part of a modified point' % (what, addr + j, v), 'foreign register')
            c.regs[addr + j] = v
    del c.sim.applied[:]
    c.compare(what)
    if k == 'ok':
        if plan.used:
            raise Violation('%s: the write succeeded in spite of %r' % (what, fault), 'failure swallowed')
        for key in list(c.pending) if keys is None else keys:
            raw = c.pending.pop(key)
            regs = c.registers(key, raw)
            check(all(c.regs[x] == regs[x] for x in regs), '%s: point %r was not written' % (what, key), 'point not written')
    else:
        check(isinstance(e, (rig.CErr, rig.MErr)), '%s: raised %s: %s' % (what, type(e).__name__, e), 'error type')
        check(plan.used, '%s: failed without a fault: %s' % (what, e), 'spurious failure')
    return k


def finish(c, what, write=None):
    """The next healthy write completes the update; a second one sends nothing."""
    write = write or c.mod.write_points
    expect_ok('%s: healthy write' % what, write)
    for key, raw in c.pending.items():
        c.regs.update(c.registers(key, raw))
    del c.sim.applied[:]
    c.compare('%s: after the completing write' % what)
    n = len(world.requests)
    expect_ok('%s: second write' % what, write)
    check(len(world.requests) == n, '%s: a further write sent requests' % what, 'needless request')
    for key, raw in c.pending.items():
        check(core.same(c.point(key).value_base, raw), '%s: point %r shows %r' % (what, key, c.point(key).value_base), 'value')
    expect_ok('read', c.mod.read_points)
    for key, raw in c.pending.items():
        check(core.same(c.point(key).value_base, raw), '%s: point %r reads %r, written %r' % (what, key, c.point(key).value_base, raw),
              'value read back')


def nruns(keys):
    spans = sorted((wmodel.POINTS[k][0], wmodel.POINTS[k][0] + wmodel.POINTS[k][1].len) for k in keys)
    return sum(1 for i, s in enumerate(spans) if i == 0 or spans[i - 1][1] != s[0]) + 2


WAYS = [('tcp', True), ('tcp', False), ('rtu', True)]
PATTERNS = [('ones',), ('mixed',), ('shift', 0, 2), ('shift', 1, 2), ('shift', 2, 4), ('shift', 1, 3)]


def families(tier):
    def one_cases():
        for s, keys in enumerate(SETS):
            for w, (t, conn) in enumerate(WAYS):
                for f in faults(t, conn, nruns(keys)):
                    yield [s, w, [list(f)]]

    def two_cases():
        for s, keys in enumerate(SETS):
            if len(keys) > (5 if tier == 'quick' else 9):
                continue
            for w, (t, conn) in enumerate(WAYS):
                fs = faults(t, conn, min(3, nruns(keys)))
                for f in fs:
                    for g in fs:
                        yield [s, w, [list(f), list(g)]]

    def three_cases():
        for s in (2, 4, 6):
            for w, (t, conn) in enumerate(WAYS):
                fs = [f for f in faults(t, conn, 3) if f[0] == 'reply' or f[1] == 0]
                for fs3 in itertools.product(fs, repeat=3):
                    yield [s, w, [list(f) for f in fs3]]

    def run(x):
        s, w, fs = x
        t, conn = WAYS[w]
        c = Client(t, conn)
        keys = SETS[s]
        for i, k in enumerate(keys):
            c.assign(k, wmodel.raw_value(k, i))
        outs = []
        for n, f in enumerate(fs):
            f = [f[0], f[1], tuple(f[2]) if isinstance(f[2], list) else f[2]]
            if f[2] == 'pdu':
                f[2] = ('pdu', f[3])
            what = 'write %d of %r with %r over %s' % (n, keys, f, WAYS[w])
            outs.append(failed_write(c, f, what))
            # something new between the failures: another point, and a further change of one of the modified ones
            c.assign(A, 500 + n)
            if n == 0 and len(keys) > 1:
                c.assign(keys[-1], wmodel.raw_value(keys[-1], 7))
        finish(c, 'set %r, %r over %s' % (keys, fs, WAYS[w]))
        c.close()
        return Obs(steps=len(fs) + 2, outcome=(x, outs))

    def layer_cases():
        for s, keys in enumerate(SETS):
            for w, (t, conn) in enumerate(WAYS):
                for f in faults(t, conn, nruns(keys)):
                    yield [s, w, [list(f)]]

    def layer_run(x):
        """Assigned and written through the scripting objects."""
        s, w, (f,) = x
        outs = [layer_one(s, w, f, limit) for limit in (125, 5)]
        return Obs(steps=8, execs=2, outcomes=[(s, w, f, o) for o in enumerate(outs)])

    def layer_one(s, w, f, limit):
        t, conn = WAYS[w]
        c = Client(t, conn, script=True)
        keys = SETS[s]
        what = 'set %r, scripting write with %r over %s' % (keys, f, WAYS[w])
        for i, k in enumerate(keys):
            raw = wmodel.raw_value(k, i)
            sf = c.sf.get(k)
            setattr(c.smod if k[0] == 0 else c.smod.repeating[k[0]], k[1], raw * 10.0 ** sf if sf else raw)
            c.pending[k] = raw
        c.dev.modbus_device.max_count = limit
        out = failed_write(c, f, what, fn=c.smod.write)
        for k, raw in c.pending.items():
            check(core.same(c.point(k).value_base, raw), '%s: point %r shows %r' % (what, k, c.point(k).value_base), 'value')
        finish(c, what, c.smod.write)
        c.script.close()
        return out

    def enc(cases):
        """JSON-able: byte strings of the answers as lists"""
        def it():
            for s, w, fs in cases():
                out = []
                for kind, i, a in fs:
                    if isinstance(a, tuple) and isinstance(a[1], bytes):
                        a = ['pdu', a[1].hex()]
                    elif isinstance(a, tuple):
                        a = list(a)
                    out.append([kind, i, a])
                yield [s, w, out]
        return it

    def layer_enc(x):
        return run_enc(x, layer_run)

    def run_enc(x, run=run):
        s, w, fs = x
        out = []
        for kind, i, a in fs:
            if isinstance(a, list) and a[0] == 'pdu':
                a = ['pdu', bytes.fromhex(a[1])]
            out.append([kind, i, tuple(a) if isinstance(a, list) else a])
        return run([s, w, out])

    BAD = {'int16': (40000, -40000), 'uint16': (-1, 65536), 'uint32': (-1, 1 << 32), 'int32': (1 << 31,), 'uint64': (-1, 1 << 64),
           'float32': (1e300,)}

    def bad_cases():
        for w, (t, conn) in enumerate(WAYS):
            for bad in KEYS:
                for v in BAD.get(wmodel.POINTS[bad][1].type, ()):
                    for s in range(len(SETS)):
                        yield [w, list(bad), v, s]

    def bad_run(x):
        w, bad, v, s = x
        t, conn = WAYS[w]
        c = Client(t, conn)
        bad = tuple(bad)
        for i, k in enumerate(SETS[s]):
            if k != bad:
                c.assign(k, wmodel.raw_value(k, i))
        p = c.point(bad)
        sf = c.sf.get(bad)
        kind, e = call(setattr, p, 'value', v * 10.0 ** sf if sf else v)
        what = 'set %r with %r=%r' % (SETS[s], bad, v)
        if kind == 'ok':
            kind, e = call(c.mod.write_points)
            check(kind == 'exc', '%s: an unencodable value was written' % what, 'unencodable value written')
        new = {}
        for key, raw in c.pending.items():
            new.update(c.registers(key, raw))
        for addr, vals in c.sim.applied:
            for j, val in enumerate(vals):
                check(new.get(addr + j) == val, '%s: register %d written' % (what, addr + j), 'foreign register')
                c.regs[addr + j] = val
        c.compare(what)
        c.assign(bad, wmodel.raw_value(bad, 3))
        finish(c, what)
        c.close()
        return Obs(steps=3, outcome=x)

    def point_cases():
        for w, (t, conn) in enumerate(WAYS):
            for k in KEYS:
                for f in faults(t, conn, 2):
                    a = f[2]
                    if isinstance(a, tuple):
                        a = [a[0], a[1].hex() if isinstance(a[1], bytes) else a[1]]
                    for via in ('point', 'model'):
                        yield [w, list(k), [f[0], f[1], a], via]

    def point_run(x):
        """A failing write of a single point; completed by writing the point again, or the model."""
        w, k, f, via = x
        t, conn = WAYS[w]
        k = tuple(k)
        c = Client(t, conn)
        c.assign(k, wmodel.raw_value(k, 1))
        a = f[2]
        if isinstance(a, list):
            a = (a[0], bytes.fromhex(a[1]) if a[0] == 'pdu' else a[1])
        failed_write(c, (f[0], f[1], a), 'write of point %r with %r' % (k, f), c.point(k).write)
        if via == 'point' and k in c.pending:
            expect_ok('second point write', c.point(k).write)
            c.regs.update(c.registers(k, c.pending[k]))
            del c.sim.applied[:]
            c.compare('second write of point %r' % (k,))
        finish(c, 'point %r' % (k,))
        c.close()
        return Obs(steps=3, outcome=x)

    def long_cases():
        for w, (t, conn) in enumerate(WAYS):
            for f in faults(t, conn, 4):
                a = f[2]
                if isinstance(a, tuple):
                    a = [a[0], a[1].hex() if isinstance(a[1], bytes) else a[1]]
                for pat in PATTERNS:
                    for n in (130, 251):
                        for gap in (None, 30, 60):
                            yield [w, [f[0], f[1], a], list(pat), n, gap]

    def long_run(x):
        """Adjacent modified registers of two or three requests, or two runs, and one more run behind padding."""
        w, f, pat, n, gap = x
        t, conn = WAYS[w]
        pts = pattern_points(pat, n)
        m = ref.Model(64102, pts + [ref.P('pd', 'pad'), ref.P('q', 'uint16')])
        rig.definitions([m], 'long')
        sim = wire.SimDevice(ref.image(40000, [(m.id, n + 2, ref.fill(m, 0, 1))]))
        dev = rig.client_device(sim, t)
        expect_ok('scan', dev.scan)
        mod = dev.models_list[0]
        expect_ok('read', mod.read_points)
        if t == 'tcp' and conn:
            dev.modbus_device.connect()
        want = dict(sim.regs)
        for i, (b, p, off) in enumerate(m.value_points(0)):
            if i != gap:
                data = ref.sample(p.type, p.len, 500 + i)
                mod.points[p.id].value = ref.decode(p.type, data)
                want.update({40004 + off + k: v for k, v in enumerate(ref.words(data))})
        before = dict(sim.regs)
        a = f[2]
        if isinstance(a, list):
            a = (a[0], bytes.fromhex(a[1]) if a[0] == 'pdu' else a[1])
        world.plan = ByIndex({(f[0], f[1]): a})
        k, e = call(mod.write_points)
        used = world.plan.used
        world.plan = Healthy()
        check((k == 'exc') == bool(used), 'write: %s %r with faults %r' % (k, e, used), 'failure swallowed')
        check(all(sim.regs[r] in (before[r], want[r]) for r in before), 'registers after a failed write', 'device registers')
        expect_ok('healthy write', mod.write_points)
        check(sim.regs == want, 'registers after the completing write: %r' % (
            {r: (sim.regs[r], want[r]) for r in want if sim.regs[r] != want[r]},), 'device registers')
        dev.close()
        return Obs(steps=3, outcome=x)

    def read_cases():
        for s, keys in enumerate(SETS):
            for w, (t, conn) in enumerate(WAYS):
                for limit in (125, 5):
                    for f in faults(t, conn, 2 if limit == 125 else 5):
                        if f[0] == 'write' and limit == 125 and f[1]:
                            continue
                        for via in ('model', 'device', 'failed write before', 'failed write after'):
                            yield [s, w, limit, list(f), via]

    def read_run(x):
        """A read that fails between assignments and the write."""
        s, w, limit, f, via = x
        t, conn = WAYS[w]
        c = Client(t, conn)
        c.dev.modbus_device.max_count = limit
        keys = SETS[s]
        for i, k in enumerate(keys):
            c.assign(k, wmodel.raw_value(k, i))
        what = 'set %r, failed read (%s) with %r over %s, %d registers per request' % (keys, via, f, WAYS[w], limit)
        dead = ('flush', 0, 'error') if t == 'rtu' else ('reply', 0, 'drop')
        if via == 'failed write before':
            failed_write(c, dead, what)
        plan = world.plan = ByIndex({(f[0], f[1]): f[2]})
        kind, e = call(c.dev.read_points if via == 'device' else c.mod.read_points)
        world.plan = Healthy()
        if kind == 'ok':
            check(not plan.used, '%s: the read succeeded' % what, 'failure swallowed')
            c.pending = {}
            c.close()
            return Obs(steps=2, outcome=(x, None))
        check(isinstance(e, (rig.CErr, rig.MErr)), '%s: raised %s: %s' % (what, type(e).__name__, e), 'error type')
        check(not c.sim.applied, what + ': the read writes', 'foreign register')
        if via == 'device' and not any(c.point(key).dirty for key in c.pending):
            # another model of the device failed after this one was read
            want = W.expect(c.regs, wmodel.ADDR0, wmodel.REPEATS)
            for key in keys:
                check(core.same(c.point(key).value_base, want[key][0]), '%s: point %r shows %r' % (what, key, c.point(key).value_base), 'value')
            c.pending = {}
        for key, raw in c.pending.items():
            check(core.same(c.point(key).value_base, raw), '%s: point %r shows %r' % (what, key, c.point(key).value_base), 'value')
        c.assign(A, 700)
        if via == 'failed write after':
            failed_write(c, dead, what)
        finish(c, what)
        c.close()
        return Obs(steps=5, outcome=(x, type(e).__name__))

    def enc_read(cases):
        def it():
            for s, w, limit, f, via in cases():
                a = f[2]
                if isinstance(a, tuple):
                    a = ['pdu', a[1].hex()] if isinstance(a[1], bytes) else list(a)
                yield [s, w, limit, [f[0], f[1], a], via]
        return it

    def run_read(x):
        s, w, limit, f, via = x
        a = f[2]
        if isinstance(a, list):
            a = ('pdu', bytes.fromhex(a[1])) if a[0] == 'pdu' else tuple(a)
        return read_run([s, w, limit, (f[0], f[1], a), via])

    fams = [
        Family('failed-reads', enc_read(read_cases), run_read, wmodel.setup, what='every fault of a read between the assignments and the write'),
        Family('one-failure', enc(one_cases), run_enc, wmodel.setup, what='every fault at every request and I/O call of one write'),
        Family('scripting', enc(layer_cases), layer_enc, wmodel.setup, what='every fault of one write through the scripting objects'),
        Family('two-failures', enc(two_cases), run_enc, wmodel.setup, what='every pair of faults of two writes with changes between'),
        Family('unencodable', bad_cases, bad_run, wmodel.setup, what='every point with a value out of range among other modified points'),
        Family('single-point', point_cases, point_run, wmodel.setup, what='every fault of a single point write'),
        Family('long', long_cases, long_run, what='modified runs longer than one request'),
    ]
    if tier == 'thorough':
        fams.append(Family('three-failures', enc(three_cases), run_enc, wmodel.setup, what='every triple of faults'))
    return fams
