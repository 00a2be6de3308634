import collections
import itertools

from .. import core, ref, rig, wire, wmodel
from ..core import Family, HarnessError, Obs, Violation, call, check, eq
from ..wire import ByIndex, SimDevice, world

PROP, LEVEL = 'C31', 'model_checking'
TECHNIQUE = ('exhaustive exploration of operation histories of client and scripting devices on the real code against a reference of the registers each '
             'operation calls for, every request on the wire accounted for; and exhaustive fault injection at every request and I/O call of every operation')
RULE = 'one evaluation per history, or per (operation, way, fault, operation that follows); distinct by that tuple'
BOUNDS = ('up to 2 further scans (thorough: 3) at each base address; scans with pauses and progress reports; all histories of up to 3 of 22 operations (thorough: 4) on 5 ways (per-request and explicit connections, serial line, with and without a small request '
          'maximum); 28 faults at every request and I/O call of every operation, each followed by every operation')
ASSUMPTIONS = ['how a range is divided into requests is judged by C03, C06, C08 and C09; here every register is counted']

# (transport, explicit connection, registers per request, models read at first)
WAYS = [('tcp', False, 125, False), ('tcp', True, 125, True), ('rtu', None, 125, False), ('tcp', False, 3, True), ('rtu', None, 4, True)]
ABSENT = [(0, 'F'), (1, 'Z')]                           # points the device does not implement
N1 = wmodel.ADDR0 - 4                                   # the neighbour before
LEN = wmodel.W.length(wmodel.REPEATS)
N2 = wmodel.ADDR0 + LEN + 2                             # and the one after
CHAIN = [(N1, 2), (wmodel.ADDR0, LEN), (N2, 2)]
END = N2 + 2                                            # id of the end marker
BASES = [40000, 0, 50000]
UNIT, OTHER = 3, 1


def span(addr, n):
    return collections.Counter(range(addr, addr + n))


NOTHING = collections.Counter()
ALL = sum((span(a, n) for a, n in CHAIN), collections.Counter())


class Subject(object):
    def __init__(self, way, plan=None):
        t, conn, n, read = WAYS[way]
        self.t, self.conn, self.way = t, conn, way
        self.sim, self.foreign = wmodel.sim_device(), wmodel.sim_device()
        for k in ABSENT:
            off, q = wmodel.POINTS[k]
            for i, w in enumerate(ref.words(ref.unimpl(q.type))):
                self.sim.regs[wmodel.ADDR0 + off + i] = w
        world.reset(plan)
        a = rig.attach(self.sim, t, UNIT)
        if t == 'tcp':
            world.tcp[(rig.HOST, rig.PORT)][OTHER] = self.foreign
        else:
            world.ports[a['name']][OTHER] = self.foreign
        self.kind = rig.client.TCP if t == 'tcp' else rig.client.RTU
        self.args = a
        plain = rig.client.ClientDevice(self.kind, UNIT, **a)
        if world.requests:
            raise Violation('construction of a client device sends a request', 'unasked')
        plain.close()
        self.script = rig.client.SunSpecClientDevice(self.kind, UNIT, **a)
        self.check_scan(world.requests, 'construction of a scripting device')
        self.dev = self.script.device
        self.dev.modbus_device.max_count = n
        self.timeout = self.dev.modbus_device.client.timeout if t == 'rtu' else self.dev.modbus_device.timeout
        if conn:
            self.dev.modbus_device.connect()
        self.wrapped = list(self.dev.models_list)
        if read:
            self.dev.read_points()
        self.again = {}              # acknowledged in a run of registers the rest of which was not: may be written again
        self.gone = False            # a scan failed: the model list is that far
        self.dirty = {}              # (which model object, point key) -> {address: word}
        self.k = 0
        del world.requests[:]

    def target(self, which):
        """The wide model reached from the device, the one the scripting object holds, or the neighbour of the device."""
        return self.wrapped[1] if which == 'script' else self.dev.models_list[1 if which == 'dev' else 0]

    def owner(self, which):
        return id(self.target(which))

    def assign(self, which, keys):
        m = self.target(which)
        self.k += 1
        for k in keys:
            p = m.blocks[k[0]].points[k[1]]
            if which == 'near':
                raw = 7 + self.k
                p.value = raw
                self.dirty[(id(m), k)] = {N1 + (0 if k[1] == 'A' else 1): raw}
                continue
            raw = wmodel.raw_value(k, self.k)
            sf = p.value_sf
            if which == 'script' and k[0] == 0 and p.value_sf is None:
                setattr(self.script.wide, k[1], raw)
            elif which == 'script' and k[0] and p.value_sf is None:
                self.script.wide.repeating[k[0]][k[1]] = raw
            else:
                p.value = raw * 10.0 ** sf if sf else raw
            off, q = wmodel.POINTS[k]
            self.dirty[(id(m), k)] = {wmodel.ADDR0 + off + i: w for i, w in enumerate(ref.words(ref.encode(q.type, raw, q.len)))}

    def pending(self, which, keys=None):
        o = self.owner(which)
        out = {}
        for (m, k), regs in self.dirty.items():
            if m == o and (keys is None or k in keys):
                out.update(regs)
        return out

    def clean(self, which, acked=None):
        o = self.owner(which)
        for key in [key for key in self.dirty if key[0] == o and (acked is None or set(self.dirty[key]) <= acked)]:
            del self.dirty[key]

    # -- what was sent
    def sent(self, reqs, what):
        reads, writes, values = collections.Counter(), collections.Counter(), {}
        for r in reqs:
            check(r.unit == UNIT, '%s: request to unit %d' % (what, r.unit), 'other unit')
            addr, n = (int.from_bytes(r.pdu[i:i + 2], 'big') for i in (1, 3))
            if r.write:
                writes += span(addr, n)
                values.update(zip(range(addr, addr + n), ref.words(r.pdu[6:])))
            else:
                check(r.func == 3, '%s: function %d' % (what, r.func), 'function')
                reads += span(addr, n)
        check(not self.foreign.log, what + ': another unit is asked', 'other unit')
        return reads, writes, values

    def check_scan(self, reqs, what, again=False):
        reads, writes, values = self.sent(reqs, what)
        check(not writes, '%s writes registers %r' % (what, sorted(writes)), 'a scan writes')
        allowed = set(range(40000, END + 1))
        out = sorted(set(reads) - allowed)
        check(not out, '%s reads registers %r outside the map' % (what, out), 'read outside the map')
        check(END in reads, '%s does not reach the end marker' % what, 'end marker')
        check(len(reqs) <= 2 + 2 * len(CHAIN), '%s sends %d requests' % (what, len(reqs)), 'requests of a scan')


class Op(object):
    """fn(subject): the call; reads/writes(subject): registers called for; after(subject): reference afterwards."""

    def __init__(self, fn, reads=None, writes=None, after=None, scan=False):
        self.fn, self.reads, self.writes, self.after, self.scan = fn, reads, writes, after, scan


KEYS = wmodel.KEYS
RUN = [KEYS[0], KEYS[1], KEYS[2]]                         # adjacent points
APART = [KEYS[3], KEYS[6], KEYS[-1]]                      # separate ranges
WIDE_READ = lambda s: span(wmodel.ADDR0, LEN)             # noqa: E731


def use(s):
    """Everything that only looks."""
    for m in s.dev.models_list:
        str(m)
        for b in m.blocks:
            str(b)
            for p in b.points_list:
                (p.value, p.value_base, p.value_sf, p.dirty, str(p), p.impl)
    str(s.dev)
    str(s.script)
    str(s.script.wide)
    for w in [s.script.wide] + s.script.neighbour[1:]:
        for n in w.points:
            (getattr(w, n), w[n])
        for b in w.repeating[1:]:
            str(b)
            for n in b.points:
                (getattr(b, n), b[n])
    (s.script['wide'], s.script.models, s.dev.models, s.dev.base_addr)


def export(s):
    import sunspec.core.pics as pics
    import xml.etree.ElementTree as ET
    root = ET.Element(pics.PICS_ROOT)
    s.dev.to_pics(root, single_repeating=False)
    s.dev.to_pics(root)
    other = rig.device.Device()
    other.not_equal(s.dev)
    s.dev.not_equal(other)


def scanned(s):
    # assignments to models of the scripting object remain
    kept = id(s.wrapped[1])
    s.dirty = {k: v for k, v in s.dirty.items() if k[0] == kept}


def assign(which, keys):
    return Op(lambda s: s.assign(which, keys))


def read_done(*which):
    def after(s):
        for w in which:
            s.clean(w)
    return after


def write_raw(s):
    s.dev.write(wmodel.ADDR0 + 1, b'\0\7\0\x08')


OPS = {
    'scan': Op(lambda s: s.dev.scan(), after=scanned, scan=True),
    'device read': Op(lambda s: s.dev.read_points(), lambda s: ALL, after=read_done('dev', 'near')),
    'model read': Op(lambda s: s.target('dev').read_points(), WIDE_READ, after=read_done('dev')),
    'neighbour read': Op(lambda s: s.target('near').read_points(), lambda s: span(N1, 2), after=read_done('near')),
    'script read': Op(lambda s: s.script.read(), lambda s: ALL, after=read_done('dev', 'near')),
    'script model read': Op(lambda s: s.script.wide.read(), WIDE_READ, after=read_done('script')),
    'assign run': assign('dev', RUN),
    'assign apart': assign('dev', APART),
    'assign scaled': assign('dev', [KEYS[4]]),
    'assign neighbour': assign('near', [(0, 'B')]),
    'script assign': assign('script', [KEYS[1], KEYS[-2]]),
    'model write': Op(lambda s: s.target('dev').write_points(), None, lambda s: s.pending('dev'), read_done('dev')),
    'neighbour write': Op(lambda s: s.target('near').write_points(), None, lambda s: s.pending('near'), read_done('near')),
    'script model write': Op(lambda s: s.script.wide.write(), None, lambda s: s.pending('script'), read_done('script')),
    'point write': Op(lambda s: s.target('dev').blocks[KEYS[1][0]].points[KEYS[1][1]].write(), None, lambda s: s.pending('dev', [KEYS[1]]),
                      lambda s: s.dirty.pop((s.owner('dev'), KEYS[1]), None)),
    'read registers': Op(lambda s: s.dev.read(N1 - 2, 9), lambda s: span(N1 - 2, 9)),
    'write registers': Op(write_raw, None, lambda s: {wmodel.ADDR0 + 1: 7, wmodel.ADDR0 + 2: 8}),
    'use': Op(use),
    'export': Op(export),
    'connect': Op(lambda s: s.dev.modbus_device.connect()),
    'disconnect': Op(lambda s: s.dev.modbus_device.disconnect()),
    'close': Op(lambda s: s.script.close()),
}


def applicable(op, way):
    return not (op in ('connect', 'disconnect') and WAYS[way][0] != 'tcp')


def point_write_pending(s):
    return (s.owner('dev'), KEYS[1]) in s.dirty


def expected(s, name):
    """Registers read, registers written with their values."""
    op = OPS[name]
    writes = op.writes(s) if op.writes else {}
    if name == 'point write' and not writes:
        writes = None                       # writing a point that is not modified: its value or nothing
    return (op.reads(s) if op.reads else NOTHING), writes


def judge(s, name, want, reqs, what):
    if OPS[name].scan:
        s.check_scan(reqs, what)
        return
    reads, writes, values = s.sent(reqs, what)
    wr, ww = want
    check(reads == wr, '%s: registers read (missing %r, unasked or repeated %r)' % (what, sorted((wr - reads).elements()), sorted((reads - wr).elements())),
          'registers read')
    if ww is None:
        off, q = wmodel.POINTS[KEYS[1]]
        check(writes in (NOTHING, span(wmodel.ADDR0 + off, q.len)), '%s: registers written %r' % (what, sorted(writes)), 'registers written')
        return
    again = {a: v for a, v in s.again.items() if a in values and a not in ww} if name.endswith('write') else {}
    ww = {**ww, **again}
    w = collections.Counter(ww.keys())
    check(writes == w, '%s: registers written (missing %r, unasked or repeated %r)' % (
        what, sorted((w - writes).elements()), sorted((writes - w).elements())), 'registers written')
    eq(what + ': values written', values, ww)


def perform(s, name, what):
    if name == 'point write' and s.target('dev').blocks[KEYS[1][0]].points[KEYS[1][1]].value_base is None:
        return                              # never read nor assigned: nothing to write
    want = expected(s, name)
    del world.requests[:]
    clock = world.clock
    kind, v = call(OPS[name].fn, s)
    if kind != 'ok':
        raise Violation('%s: %s: %s' % (what, type(v).__name__, v), 'healthy operation fails')
    judge(s, name, want, world.requests, what)
    check(world.clock == clock, '%s: waits %g s though every request is answered' % (what, world.clock - clock), 'waits')
    if OPS[name].after:
        OPS[name].after(s)


# ---------------------------------------------------------------- faults

REPLIES = ['drop', 'late', 'lost', ('exc', 1), ('exc', 2), ('exc', 4), ('exc', 5), ('exc', 6), ('exc', 11), ('trunc', 3), ('trunc', 6), ('trunc_late', 5),
           ('pdu', b'\x03\0'), ('raw', b'\xff' * 9)]
FAULTS = {'tcp': [('reply', x) for x in REPLIES + ['reset', 'eof', 'reset_after', 'eof_after']] +
          [('send', x) for x in ('reset', 'pipe', 'timeout', 'partial')] + [('recv', x) for x in ('timeout', 'reset', 'eof')] +
          [('connect', x) for x in ('refused', 'timeout', 'unreachable')] + [('socket', 'error')],
          'rtu': [('reply', x) for x in REPLIES] + [('write', x) for x in ('error', 'timeout', 'partial')] + [('read', x) for x in ('error', 'timeout')] +
          [('flush', 'error')]}
BEFORE = ('connect', 'socket', 'send', 'write', 'flush')
LIMIT = 60
FAULTY = ['scan', 'device read', 'model read', 'neighbour read', 'script read', 'script model read', 'model write', 'script model write', 'point write',
          'read registers', 'write registers', 'connect']
FOLLOW = ['scan', 'device read', 'model read', 'script model read', 'model write', 'script model write', 'point write', 'read registers', 'write registers',
          'use', 'export']


AFTER_SCAN = ('scan', 'script model read', 'script model write', 'read registers', 'write registers')


def modified(way):
    s = Subject(way)
    s.assign('dev', RUN + APART)
    s.assign('script', [KEYS[1], KEYS[-2]])
    s.assign('near', [(0, 'B')])
    return s


def form(r):
    return (r.unit, r.pdu.hex())


def acked(reqs):
    out = set()
    for r in reqs:
        if r.write:
            a, n = (int.from_bytes(r.pdu[i:i + 2], 'big') for i in (1, 3))
            out |= set(range(a, a + n))
    return out


WHOSE = {'model write': 'dev', 'point write': 'dev', 'script model write': 'script'}


def faulted(s, name, fault, i, healthy, what):
    """One operation with a fault. Returns whether the fault was reached."""
    world.plan = plan = ByIndex({(fault[0], i): fault[1]})
    del world.requests[:]
    clock = world.clock
    t = s.target(WHOSE[name]) if name in WHOSE else None
    kind, v = call(OPS[name].fn, s)
    world.plan = wire.Healthy()
    if not plan.used:
        return False
    reqs = [form(r) for r in world.requests]
    waited = world.clock - clock
    what += ' (%s)' % ('succeeds' if kind == 'ok' else '%s: %s' % (type(v).__name__, v))
    s.sent(world.requests, what)
    check(len(set(reqs)) == len(reqs), '%s: a request is sent twice: %r' % (what, reqs), 'repeated request')
    if reqs == healthy and kind == 'ok':
        pass                                     # the fault did not matter
    elif OPS[name].scan and reqs[:1] == healthy[:1] and len(reqs) > 1 and reqs[1] not in healthy:
        probes = [int.from_bytes(r.pdu[1:3], 'big') for r in world.requests]
        check(probes == BASES[:len(probes)] and not any(r.write for r in world.requests), '%s: requests at %r' % (what, probes), 'probes')
    else:
        check(reqs == healthy[:len(reqs)], '%s: requests %r, without the fault %r' % (what, reqs, healthy), 'other requests')
        check(kind != 'ok', what + ': requests are missing though it succeeds', 'missing requests')
    limit = s.timeout * (len(BASES) if OPS[name].scan else 1)
    check(waited <= limit + 1e-9, '%s: waits %g s, the timeout is %g s' % (what, waited, s.timeout), 'waits too long')
    # what is known to be in the device is no longer pending
    if kind == 'ok':
        if OPS[name].after:
            OPS[name].after(s)
    elif OPS[name].scan:
        s.gone = True
        s.dirty = {k: x for k, x in s.dirty.items() if k[0] == id(s.wrapped[1])}
    elif name in WHOSE:
        sent = world.requests if fault[0] in BEFORE else world.requests[:-1]
        # (with a fault before the request arrives all requests that arrived are answered)
        done = acked(sent)
        o = id(t)
        if WAYS[s.way][2] < 125:
            for k, x in s.dirty.items():
                if k[0] == o and set(x) <= done:
                    s.again.update(x)
        s.dirty = {k: x for k, x in s.dirty.items() if not (k[0] == o and set(x) <= done)}
    elif name in ('device read', 'script read'):
        # models read before the failure show the device again
        done = collections.Counter()
        for r in world.requests[:-1] if fault[0] not in BEFORE else world.requests:
            a, n = (int.from_bytes(r.pdu[j:j + 2], 'big') for j in (1, 3))
            done += span(a, n)
        for w, (a, n) in (('near', CHAIN[0]), ('dev', CHAIN[1])):
            if set(range(a, a + n)) <= set(done):
                s.clean(w)
    return True


# ---------------------------------------------------------------- scans that pause and report

DELAYS = [None, 0, 0.25, 3]
BEFORE_BASE = ['exception', 'other', 'silent']          # what is at a base address before the one of the map

BETWEEN = ['nothing', 'read', 'failed read', 'other values', 'more models', 'listed anew']


def pauses(c):
    t, script, base, before, n, delay, stop = c
    world.reset(ByIndex({('reply', i): 'drop' for i, x in enumerate(before) if x == 'silent'}))
    near = wmodel.NEIGHBOUR.id
    regs = ref.image(BASES[base], [(near, 2, [1, 2])] * n)
    for b, x in zip(BASES, before):
        if x == 'other':
            regs.update({b: 1, b + 1: 2, b + 2: 3})
    sim = SimDevice(regs)
    a = rig.attach(sim, t.split()[0], UNIT)
    calls = []

    def progress(msg):
        calls.append((msg, world.clock))
        return stop is None or len(calls) <= stop
    kind = rig.client.RTU if t == 'rtu' else rig.client.TCP
    what = 'scan with a pause of %r, declined at %r' % (delay, stop)
    if script:
        k, v = call(lambda: rig.client.SunSpecClientDevice(kind, UNIT, scan_progress=progress, scan_delay=delay, timeout=1.5, **a))
        dev = v.device if k == 'ok' else None
    else:
        dev = rig.client.ClientDevice(kind, UNIT, timeout=1.5, **a)
        if t == 'tcp connected':
            dev.modbus_device.connect()
        k, v = call(dev.scan, progress, delay)
    if stop is None or stop >= n:
        check(k == 'ok', '%s: %s' % (what, v), 'healthy operation fails')
        eq(what + ': models', len(dev.models_list), n)
        eq(what + ': reports', len(calls), n)
    else:
        check(k == 'exc' and isinstance(v, rig.CErr), '%s: %r' % (what, v), 'declined')
        eq(what + ': reports', len(calls), stop + 1)
        if script:
            check(not world.open_conns((rig.HOST, rig.PORT)) if t == 'tcp' else not world.open_handles(a['name']), what + ': left open', 'left open')
    for m, _ in calls:
        check(str(near) in m, '%s: report %r does not name the model' % (what, m), 'report')
    # one time per base address tried and per model looked at
    reqs = [(int.from_bytes(r.pdu[1:3], 'big'), r.at) for r in world.requests]
    probes = [(x, at) for x, at in reqs if x in BASES[:base + 1]]
    eq(what + ': base addresses tried', [x for x, _ in probes], BASES[:base + 1])
    heads = [BASES[base] + 3 + 4 * i for i in range(n)]
    times = [at for _, at in probes]
    for i, h in enumerate(heads[:len(calls)]):
        at = [y for x, y in reqs if x <= h < x + 3 and x > BASES[base]]
        check(at, '%s: model %d is not looked at' % (what, i), 'models')
        times.append(max(at))
    d = delay or 0
    quiet = sum(1.5 for x in before if x == 'silent')
    first = len(probes)
    for i in range(1, len(times)):
        if i == first:
            continue                                    # the map was found: its first model may follow at once
        check(times[i] - times[i - 1] >= d - 1e-9, '%s: pauses %g s before step %d of %r' % (what, times[i] - times[i - 1], i, reqs), 'pause')
    if t != 'rtu':
        check(times[0] >= d - 1e-9, '%s: the first request follows the connection at once' % what, 'pause')
    check(world.clock <= d * (len(reqs) + 1) + quiet + 1e-9, '%s: takes %g s for %r' % (what, world.clock, reqs), 'pauses too long')
    return Obs(steps=len(reqs), outcome=c)


def families(tier):
    thorough = tier == 'thorough'

    def cases():
        for way in range(len(WAYS)):
            names = [n for n in OPS if applicable(n, way)]
            for d in range(1, (4 if thorough and way < 3 else 3) + 1):
                for ops in itertools.product(names, repeat=d):
                    if 'close' not in ops[:-1]:
                        yield [way, list(ops)]

    def run(c):
        way, ops = c
        s = Subject(way)
        for i, name in enumerate(ops):
            perform(s, name, '%s: %s' % (WAYS[way], ', '.join(ops[:i + 1])))
        s.script.close()
        return Obs(steps=len(ops), outcome=c)

    def fault_cases():
        for way in range(len(WAYS)):
            for name in FAULTY:
                if applicable(name, way):
                    for f in range(len(FAULTS[WAYS[way][0]])):
                        yield [way, name, f]

    def fault_run(c):
        way, name, f = c
        fault = FAULTS[WAYS[way][0]][f]
        s = modified(way)
        del world.requests[:]
        k, v = call(OPS[name].fn, s)
        if k != 'ok':
            raise Violation('%s %s: %s: %s' % (WAYS[way], name, type(v).__name__, v), 'healthy operation fails')
        healthy = [form(r) for r in world.requests]
        outs = []
        for i in range(LIMIT):
            hit = False
            for follow in FOLLOW:
                s = modified(way)
                what = '%s: %s with %r at %d' % (WAYS[way], name, fault, i)
                if not faulted(s, name, fault, i, healthy, what):
                    break
                hit = True
                if s.gone and follow not in AFTER_SCAN:
                    continue
                perform(s, follow, what + ', then ' + follow)
                s.script.close()
                outs.append((c, i, follow))
            if not hit:
                break
        else:
            raise HarnessError('too many calls in %r' % (c,))
        return Obs(steps=2 * len(outs), execs=len(outs), outcomes=outs)

    def pause_cases():
        for t in ('tcp', 'tcp connected', 'rtu'):
            for script in (False, True):
                if script and t == 'tcp connected':
                    continue
                for base in range(len(BASES)):
                    for before in itertools.product(BEFORE_BASE, repeat=base):
                        for n in range(7 if thorough else 5):
                            for d in DELAYS:
                                yield [t, script, base, list(before), n, d, None]
                                for stop in range(n + 1):
                                    yield [t, script, base, list(before), n, d, stop]

    def rescan_cases():
        for t in ('tcp', 'tcp connected', 'rtu'):
            for script in (False, True):
                if script and t == 'tcp connected':
                    continue
                for base in range(len(BASES)):
                    for between in itertools.product(BETWEEN, repeat=3 if thorough else 2):
                        yield [t, script, base, list(between)]

    def rescan(c):
        """Once a scan has found the base address, further ones look there only, whatever was done between them."""
        t, script, base, between = c
        world.reset()
        near = wmodel.NEIGHBOUR.id
        sim = SimDevice(ref.image(BASES[base], [(near, 2, [1, 2])] * 2))
        a = rig.attach(sim, t.split()[0], UNIT)
        kind = rig.client.RTU if t == 'rtu' else rig.client.TCP
        dev = rig.client.SunSpecClientDevice(kind, UNIT, **a).device if script else rig.client.ClientDevice(kind, UNIT, **a)
        if not script:
            dev.scan()
        if t == 'tcp connected':
            dev.modbus_device.connect()
        end = BASES[base] + 2 + 2 * 4
        for i, op in enumerate(between):
            if op == 'read':
                dev.read_points()
            elif op == 'failed read':
                world.plan = ByIndex({('reply', 0): ('exc', 4)})
                call(dev.read_points)
                world.plan = ByIndex({})
            elif op == 'other values':
                sim.regs[BASES[base] + 4] += 5
            elif op == 'more models':
                sim.regs.update(ref.image(BASES[base], [(near, 2, [1, 2])] * 3))
                end = BASES[base] + 2 + 3 * 4
            elif op == 'listed anew':
                dev.base_addr_list = list(dev.base_addr_list)
            del world.requests[:]
            what = 'base %d: scan after %s' % (BASES[base], between[:i + 1])
            k, v = call(dev.scan)
            check(k == 'ok', '%s: %s' % (what, v), 'healthy operation fails')
            asked = sorted(set(x for r in world.requests for x in range(int.from_bytes(r.pdu[1:3], 'big'), int.from_bytes(r.pdu[1:3], 'big') + int.from_bytes(r.pdu[3:5], 'big'))))
            out = [x for x in asked if not BASES[base] <= x <= end]
            check(not out, '%s reads registers %r outside the map' % (what, out), 'read outside the map')
            check(not any(r.write for r in world.requests), what + ' writes', 'a scan writes')
            eq(what + ': models', [int(m.id) for m in dev.models_list], [near] * ((end - BASES[base] - 2) // 4))
        dev.close()
        return Obs(steps=2 * len(between), outcome=c)

    return [
        Family('rescans', rescan_cases, rescan, wmodel.setup, what='scans again, at every base address'),
        Family('pauses', pause_cases, pauses, wmodel.setup, what='scans asked to pause and to report'),
        Family('histories', cases, run, wmodel.setup, what='operation histories'),
        Family('faults', fault_cases, fault_run, wmodel.setup, what='operations with a fault and what follows'),
    ]
