import itertools
import re

from .. import core, ref, rig, transfers, wire, wmodel
from ..core import Family, Obs, Search, Violation, call, check, eq, expect_ok
from ..wire import ByIndex, Healthy, Queue, SimDevice, world

PROP, LEVEL = 'C21', 'fault_enumeration'
TECHNIQUE = ('every transfer, fault and history is executed twice on the real clients, with and without a trace function, in worlds that answer '
             'alike; the runs are compared and the trace with the bytes on the line')
RULE = 'one evaluation per (transport, transfer or history, answers); distinct by that and the outcome'
BOUNDS = ('transfers of 1..64 registers over small limits and 100..250 over the real ones, every split of small replies; every truncation, exception code, '
          'function, length, changed byte and I/O error at every request of 9 transfers; histories of 3 (quick) or 4 (thorough) requests over '
          '12 answers; scan, read and write of client and scripting devices; 27 names of ports and hosts')
ASSUMPTIONS = ['the text in front of the hexadecimal bytes is not judged', 'trace functions that raise are not judged']

A0 = 40000
WAYS = [('rtu', None), ('tcp', False), ('tcp', True)]
TRANSFERS = [(3, 1, None), (3, 2, None), (3, 5, 2), (4, 2, None), (4, 3, 1), ('w', 1, None), ('w', 2, None), ('w', 5, 2), ('w', 3, 1)]


def signature(k, v):
    if k == 'ok':
        return (k, bytes(v) if isinstance(v, (bytes, bytearray)) else v)
    return (k, type(v).__name__, str(v))


def complete(transport, req, f):
    """The frame is a whole reply to the request, whether or not its content is what was asked for."""
    if isinstance(f, wire.Late):
        return False
    if transport == 'tcp':
        return len(f) >= 9 and len(f) == 6 + int.from_bytes(f[4:6], 'big')
    if len(f) < 5 or f[1] & 0x7f != req[1]:
        return False
    return len(f) == (5 if f[1] & 0x80 else 8 if f[1] == 16 else 5 + f[2])


def mandatory(transport):
    """Positions of the frames on the line that have to be in the trace besides the requests."""
    req, out = None, set()
    for i, (d, f) in enumerate(world.wire):
        if d == '>':
            req = f
        elif complete(transport, req, f):
            out.add(i)
        elif transport == 'tcp':       # what follows on the connection is out of step
            break
    return out


def match(lines, what, must, send_fault=False):
    """The trace lines are the frames of the wire, in order; none that is mandatory is missing."""
    ev = list(world.wire)
    i = 0
    for line in lines:
        if not isinstance(line, str):
            raise Violation('%s: trace called with %r' % (what, line), 'trace argument')
        tail = re.search(r'([0-9A-F]*)$', re.sub(r'\s', '', line).upper()).group(1)
        j = i
        while True:
            if j == len(ev):
                if send_fault:
                    break
                raise Violation('%s: trace line %r is nothing that went over the line next (%s)' % (
                    what, line, [d + f.hex() for d, f in ev[i:i + 3]]), 'trace content')
            d, f = ev[j]
            h = f.hex().upper()
            if tail == h:
                i = j + 1
                break
            if d == '<' and tail and j not in must:
                got = ''.join(g.hex().upper() for e, g in ev[:j + 1] if e == '<')
                if tail in got:        # what the client took as a reply, from all it was sent
                    i = j + 1
                    break
            if d == '>' or j in must:
                if send_fault:
                    break
                raise Violation('%s: trace line %r instead of %s %s' % (what, line, d, h), 'trace content')
            j += 1
    for j, (d, f) in enumerate(ev[i:], i):
        if d == '>' or j in must:
            raise Violation('%s: %s %s is missing from the trace' % (what, d, f.hex()), 'trace missing')


def sims():
    return SimDevice({A0 + i: transfers.reg(A0 + i) for i in range(400)}, inputs={A0 + i: transfers.reg(A0 + i) ^ 0x5A5A for i in range(400)})


def one_run(transport, connected, maxc, plan, steps, trace, unit=1, **settings):
    """Execute steps [(op, addr, n)] -> (signatures, wire, registers, connections)."""
    sim = sims()
    kw = {} if maxc is None else {'max_count': maxc}
    lines = []
    if trace:
        kw['trace_func'] = lines.append
    if transport == 'rtu':
        rig.wire.world.reset()
    world.reset(plan)
    at = settings.pop('at', None)
    a = rig.attach(sim, transport, int(unit), name=(at or '/dev/simT') if transport == 'rtu' else None)
    if at and transport == 'tcp':
        world.tcp[at, a.get('ipport', 502)] = {int(unit): sim}
        a['ipaddr'] = at
    cls = rig.modbus.ModbusClientDeviceRTU if transport == 'rtu' else rig.modbus.ModbusClientDeviceTCP
    a.update(kw, **settings)
    out = []
    k, dev = call(cls, unit, **a)
    out.append(signature(k, None if k == 'ok' else dev))
    if k == 'ok':
        if connected:
            out.append(signature(*call(dev.connect)))
        for op, addr, n in steps:
            if op == 'w':
                r = call(dev.write, addr, ref.unwords([(0x1357 + 7 * i + n) & 0xFFFF for i in range(n)]))
            elif op == 4:
                r = call(dev.read, addr, n, op=4)
            else:
                r = call(dev.read, addr, n)
            out.append(signature(*r))
        out.append(signature(*call(dev.close)))
    return lines, (out, list(world.wire), dict(sim.regs), [x for x, _ in world.conn_log], world.clock,
                   [bytes(x[1]) for x in world.malformed])


def twice(transport, connected, maxc, make_plan, steps, what, replies=True, send_fault=False, **settings):
    plan = make_plan()
    _, a = one_run(transport, connected, maxc, plan, steps, False, **settings)
    used = getattr(plan, 'used', True)
    plan = make_plan()
    lines, b = one_run(transport, connected, maxc, plan, steps, True, **settings)
    for name, x, y in zip(('outcomes', 'bytes on the line', 'device registers', 'connections', 'waiting time', 'malformed requests'), a, b):
        if x != y:
            if name == 'device registers':
                x, y = sorted(set(x.items()) - set(y.items()))[:4], sorted(set(y.items()) - set(x.items()))[:4]
            raise Violation('%s: %s differ: %r without trace, %r with it' % (what, name, x, y), 'trace changes ' + name)
    match(lines, what, mandatory(transport) if replies else set(), send_fault)
    return used, a[0], len(lines)


def families(tier):
    thorough = tier == 'thorough'

    def size_cases():
        for way in range(3):
            for op in (3, 4, 'w'):
                for m, n in transfers.sizes(tier):
                    yield [way, op, m, n]
                for m in (None, 125, 124, 123, 64):
                    for n in (1, 2, 63, 64, 100, 122, 123, 124, 125, 126, 127, 128, 129, 250, 255, 256):
                        yield [way, op, m, n]

    def size_run(c):
        way, op, m, n = c
        tr, conn = WAYS[way]
        used, out, lines = twice(tr, conn, m, Healthy, [(op, A0 + 3, n)], '%r of %d registers on %s' % (op, n, tr))
        check(all(o[0] == 'ok' for o in out), '%r of %d registers on %s: %r' % (op, n, tr, out), 'healthy transfer fails')
        return Obs(steps=2, execs=2, outcome=c)

    # slave ids and settings given in other ways
    def unit_cases():
        for way, (tr, conn) in enumerate(WAYS):
            for u in list(range(0 if tr == 'tcp' else 1, 256)) + [str(u) for u in range(1, 256)] + ['007', ' 7', '7 ', '+7', True]:
                for op in (3, 4, 'w'):
                    yield [way, u, op]

    def unit_run(c):
        way, u, op = c
        tr, conn = WAYS[way]
        sets = [{}, {'timeout': 2}] + ([{'baudrate': 19200}, {'parity': 'E'}] if tr == 'rtu' else [])
        for s in sets:
            for plan in (Healthy, lambda: ByIndex({('reply', 0): ('exc', 2)}), lambda: ByIndex({('reply', 1): 'drop'})):
                used, out, lines = twice(tr, conn, 2, plan, [(op, A0 + 3, 3)] + AFTER, 'slave id %r, settings %r' % (u, s), unit=u, **s)
        return Obs(steps=24 * len(sets), execs=3 * len(sets), outcome=c)

    # hosts and ports of any name
    NAMES = ['100%', '%s', '%d', '%(name)s', 'usb%20serial', '{}', '{0}', '{name}', '{', '}', '\\', '\\x', '$x', '~', '*?', '[x]', '#', ' a b ', "'", '"', '<&>', '->', '\u00fc', '\u65e5', 'ABCDEF', '0x12', '']

    def name_cases():
        for way in range(3):
            for i in range(len(NAMES)):
                for op in (3, 4, 'w'):
                    yield [way, i, op]

    def name_run(c):
        way, i, op = c
        tr, conn = WAYS[way]
        at = '/dev/' + NAMES[i] if tr == 'rtu' else NAMES[i] + '.local'
        for plan in (Healthy, lambda: ByIndex({('reply', 0): ('exc', 2)}), lambda: ByIndex({('reply', 1): 'drop'}), lambda: ByIndex({('reply', 1): ('trunc', 3)})):
            used, out, lines = twice(tr, conn, 2, plan, [(op, A0 + 3, 3)] + AFTER, '%r at %r' % (op, at), at=at)
            if plan is Healthy:
                check(all(o[0] == 'ok' for o in out), '%r at %r: %r' % (op, at, out), 'healthy transfer fails')
        return Obs(steps=32, execs=8, outcome=c)

    def split_cases():
        for way in range(3):
            for op, n in ((3, 1), (3, 2), ('w', 1)):
                ln = (5 + 2 * n if op != 'w' else 8) if WAYS[way][0] == 'rtu' else (9 + 2 * n if op != 'w' else 12)
                for mask in range(1 << (ln - 1)):
                    yield [way, op, n, ln, mask]

    def split_run(c):
        way, op, n, ln, mask = c
        tr, conn = WAYS[way]
        pcs, last = [], 0
        for i in range(1, ln):
            if mask >> (i - 1) & 1:
                pcs.append(i - last)
                last = i
        pcs.append(ln - last)
        used, out, lines = twice(tr, conn, None, lambda: Queue(pieces=lambda n_: pcs), [(op, A0 + 3, n)], 'reply in pieces %r' % pcs)
        check(all(o[0] == 'ok' for o in out), 'reply in pieces %r on %s: %r' % (pcs, tr, out), 'healthy transfer fails')
        return Obs(steps=2, execs=2, outcome=c)

    def reply_len(tr, op, n):
        return (5 + 2 * n if op != 'w' else 8) if tr == 'rtu' else (9 + 2 * n if op != 'w' else 12)

    AFTER = [(3, A0 + 11, 2), ('w', A0 + 15, 2), (4, A0 + 20, 1)]

    def answers(tr, op, n):
        ln = reply_len(tr, op, n)
        for code in range(256):
            yield ['exc', code]
        for how in ('drop', 'late', 'lost') + (('eof', 'eof_after', 'reset', 'reset_after') if tr == 'tcp' else ()):
            yield [how, None]
        for k in range(ln):
            for how in ('trunc', 'trunc_late') + (('trunc_eof', 'trunc_reset') if tr == 'tcp' else ()):
                yield [how, k]
            for x in (range(1, 256) if thorough else (1, 0x80, 0xff)):
                yield ['xor', [k, x]]
        for f in range(1, 256):
            yield ['pdu', [f, 2] if f & 0x80 else [f, 2 * n] + [7] * 2 * n]
        for k in range(0, 126, 1 if thorough else 5):
            yield ['pdu', [op if op != 'w' else 16, 2 * k] + [9] * (2 * k)]
        for u in range(256):
            yield ['unit', u]
        for extra in range(1, 5):
            yield ['extra', extra]

    def fault_cases():
        for way, (tr, conn) in enumerate(WAYS):
            for t, (op, n, maxc) in enumerate(TRANSFERS):
                m = maxc or 125
                for idx in range((n + m - 1) // m):
                    for a in answers(tr, op, min(m, n - idx * m)):
                        yield [way, t, idx, a]

    def fault_run(c):
        way, t, idx, (kind, arg) = c
        tr, conn = WAYS[way]
        op, n, maxc = TRANSFERS[t]
        if kind == 'xor':
            a = ('map', lambda r: r[:arg[0]] + bytes([r[arg[0]] ^ arg[1]]) + r[arg[0] + 1:] if arg[0] < len(r) else r)
        elif kind == 'extra':
            a = ('map', lambda r: r + b'\xa5' * arg)
        else:
            a = kind if arg is None else (kind, bytes(arg) if kind == 'pdu' else arg)
        used, out, lines = twice(tr, conn, maxc, lambda: ByIndex({('reply', idx): a}), [(op, A0 + 3, n)] + AFTER,
                                 'request %d of %r answered %s %s' % (idx, TRANSFERS[t], kind, arg))
        return Obs(steps=8, execs=2, outcome=(c, out[1 + bool(conn)][:2]))

    LOW = {'rtu': [('open', ['error']), ('flush', ['error']), ('write', ['error', 'timeout', 'partial']), ('read', ['error', 'timeout']), ('close', ['error'])],
           'tcp': [('socket', ['error']), ('connect', ['refused', 'timeout', 'unreachable']), ('send', ['reset', 'pipe', 'timeout', 'partial']),
                   ('recv', ['timeout', 'reset', 'eof'])]}

    def low_cases():
        for way, (tr, conn) in enumerate(WAYS):
            for t in range(len(TRANSFERS)):
                for kind, menu in LOW[tr]:
                    for a in menu:
                        for idx in range(8):
                            yield [way, t, kind, a, idx]

    def low_run(c):
        way, t, kind, a, idx = c
        tr, conn = WAYS[way]
        op, n, maxc = TRANSFERS[t]
        used, out, lines = twice(tr, conn, maxc, lambda: ByIndex({(kind, idx): a}), [(op, A0 + 3, n)] + AFTER,
                                 '%s at %s call %d of %r' % (a, kind, idx, TRANSFERS[t]), replies=kind not in ('read', 'recv'),
                                 send_fault=kind in ('flush', 'write', 'send'))
        return Obs(steps=8, execs=2, outcome=(c, [x[:2] for x in out]) if used else None)

    # histories over answers, one device
    ANS = [None, 'drop', ['exc', 2], ['trunc', 3], ['trunc', 8], 'late', ['trunc_late', 4], ['pdu', [3, 2, 9, 9]], ['unit', 7], ['xor', [4, 1]], 'lost', ['exc', 0]]

    def hist_cases():
        for way in range(3):
            for n in range(1, 5 if thorough else 4):
                for hs in itertools.product(range(len(ANS)), repeat=n):
                    yield [way, list(hs)]

    def hist_run(c):
        way, hs = c
        tr, conn = WAYS[way]

        def plan():
            d = {}
            for i, k in enumerate(hs):
                a = ANS[k]
                if a is None:
                    continue
                if isinstance(a, list):
                    kind, arg = a
                    if kind == 'xor':
                        a = ('map', lambda r: r[:4] + bytes([r[4] ^ 1]) + r[5:])
                    else:
                        a = (kind, bytes(arg) if kind == 'pdu' else arg)
                d['reply', i] = a
            return ByIndex(d)
        steps = [((3, 'w', 4)[i % 3], A0 + 5 * i, 1 + i % 2) for i in range(len(hs))] + [(3, A0, 2)]
        used, out, lines = twice(tr, conn, None, plan, steps, 'answers %r' % (hs,))
        return Obs(steps=2 * len(steps), execs=2, outcome=(c, [x[:2] for x in out]))

    # the same through client and scripting devices
    def device_cases():
        for tr in ('tcp', 'rtu'):
            for which in ('client', 'script'):
                yield [tr, which, None, None]
                for idx in range(14):
                    for a in ('drop', ['exc', 2], ['trunc', 4], ['unit', 9]) + (('reset', 'eof') if tr == 'tcp' else ()):
                        yield [tr, which, idx, a]

    def device_once(c, trace):
        tr, which, idx, a = c
        sim = wmodel.sim_device(3)
        lines = []
        plan = Healthy() if idx is None else ByIndex({('reply', idx): tuple(a) if isinstance(a, list) else a})
        world.reset(plan)
        args = rig.attach(sim, tr, 1, name='/dev/simT' if tr == 'rtu' else None)
        if trace:
            args['trace'] = lines.append
        cl = rig.client
        out = []
        k, dev = call(cl.ClientDevice if which == 'client' else cl.SunSpecClientDevice, cl.TCP if tr == 'tcp' else cl.RTU, 1, **args)
        out.append(signature(k, None if k == 'ok' else dev))
        if k == 'ok':
            if which == 'client':
                out.append(signature(*call(dev.scan)))
            core_dev = dev if which == 'client' else dev.device
            out.append(signature(*call(core_dev.read_points)))
            for m in core_dev.models_list[:2]:
                for b in m.blocks[:2]:
                    for p in list(b.points.values())[:3]:
                        if p.point_type.type != 'string':
                            out.append(signature(*call(setattr, p, 'value', 7)))
                out.append(signature(*call(m.write_points)))
                out.append(signature(*call(m.read_points)))
            out.append([[(pid, p.value_base, p.value_sf, p.dirty) for b in m.blocks for pid, p in sorted(b.points.items())] for m in core_dev.models_list])
            out.append(signature(*call(dev.close)))
        return lines, (repr(out), list(world.wire), dict(sim.regs), [x for x, _ in world.conn_log], world.clock)

    def device_run(c):
        _, a = device_once(c, False)
        lines, b = device_once(c, True)
        for name, x, y in zip(('outcomes', 'bytes on the line', 'device registers', 'connections', 'waiting time'), a, b):
            check(x == y, '%s device on %s, reply %s %s: %s differ with a trace' % (c[1], c[0], c[2], c[3], name), 'trace changes ' + name)
        match(lines, 'device', mandatory(c[0]))
        check(lines, 'nothing traced', 'no trace')
        return Obs(steps=2 * len(lines), execs=2, outcome=(c, len(lines)))

    return [
        Family('sizes', size_cases, size_run, what='transfers of all sizes'),
        Family('slave ids', unit_cases, unit_run, what='slave ids as numbers and as text, with other settings'),
        Family('names', name_cases, name_run, what='ports and hosts of 27 names'),
        Family('splits', split_cases, split_run, what='every split of small replies'),
        Family('replies', fault_cases, fault_run, what='every damaged, foreign or missing reply at every request'),
        Family('line', low_cases, low_run, what='I/O errors at every call'),
        Family('histories', hist_cases, hist_run, what='histories of answers'),
        Family('devices', device_cases, device_run, wmodel.setup, what='scan, read and write of client and scripting devices'),
    ]
