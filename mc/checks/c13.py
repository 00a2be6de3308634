import itertools
import os

from .. import core, ref, rig, wire, wmodel
from ..core import Family, HarnessError, Obs, Violation, call, check, eq, expect_ok
from ..ref import P
from ..wire import ByIndex, Healthy, SimDevice, world

PROP, LEVEL = 'C13', 'fault_enumeration'
TECHNIQUE = ('exhaustive fault injection: every failure kind at every I/O call and request of every operation on every transport, '
             'singly and in pairs, plus hostile replies, register contents and map documents, on the real client')
RULE = 'one evaluation per (operation, transport, fault set or hostile content); distinct by that tuple and its outcome'
BOUNDS = ('15 operations x 4 ways x every call index; single faults of up to 80 kinds, pairs over 14 kinds (triples in the thorough tier for '
          'construction and scan); hostile PDUs up to 12 bytes; map documents with each attribute set to 15 bad values; names, hosts and texts with % and braces')

REPLY = ['drop', 'late', 'lost', ('exc', 1), ('exc', 4), ('exc', 255), ('trunc', 3), ('trunc', 8), ('trunc_late', 6), ('pdu', b''), ('pdu', b'\x03'),
         ('pdu', b'\x83'), ('pdu', b'\x83\x02'), ('pdu', b'\x03\xff'), ('pdu', b'\x03\x00'), ('pdu', b'\x10\0\0\0\0'), ('raw', b''), ('raw', b'\0' * 9),
         ('raw', b'\xff' * 9), ('raw', b'\xff' * 300)]
TCP = REPLY + ['reset', 'eof', 'reset_after', 'eof_after', ('trunc_eof', 8), ('trunc_reset', 8)]
IO = {'tcp': [('send', x) for x in ('reset', 'pipe', 'timeout', 'partial')] + [('recv', x) for x in ('timeout', 'reset', 'eof')] +
      [('connect', x) for x in ('refused', 'timeout', 'unreachable')] + [('socket', 'error')],
      'rtu': [('write', x) for x in ('error', 'timeout', 'partial')] + [('read', x) for x in ('error', 'timeout')] +
      [('flush', 'error'), ('open', 'error')]}
# exceptions that are no OSError come out of the same calls (names that cannot be encoded, ports out of range, termios.error, ...)
for _t, _kinds in (('tcp', ('socket', 'connect', 'send', 'recv')), ('rtu', ('open', 'flush', 'write', 'read'))):
    IO[_t] += [(k, a) for k in _kinds for a in wire.ODD]
CLOSE = [('close', 'error')] + [('close', a) for a in wire.ODD]
FEW = {'tcp': [('reply', 'drop'), ('reply', ('exc', 2)), ('reply', ('trunc', 5)), ('reply', 'eof'), ('reply', ('pdu', b'\x03\0')), ('send', 'pipe'),
               ('recv', 'timeout'), ('recv', 'reset'), ('recv', 'eof'), ('connect', 'refused'), ('connect', 'timeout'), ('socket', 'error')],
       'rtu': [('reply', 'drop'), ('reply', ('exc', 2)), ('reply', ('trunc', 4)), ('reply', ('pdu', b'\x03\0')), ('write', 'error'), ('write', 'timeout'),
               ('read', 'error'), ('read', 'timeout'), ('flush', 'error'), ('open', 'error'), ('close', 'error')]}
WAYS = [('tcp', False), ('tcp', True), ('rtu', None)]


def prepare(way):
    transport, conn = WAYS[way]
    c = wmodel.Client(transport, connected=bool(conn))
    return c, c.dev


def conn_of(transport):
    world.reset()
    return rig.attach(wmodel.sim_device(), transport)


def op_construct(way):
    t, conn = WAYS[way]
    a = conn_of(t)
    kind = rig.client.TCP if t == 'tcp' else rig.client.RTU
    return lambda: rig.client.ClientDevice(kind, 1, **a), None, rig.CErr


def op_script(way):
    t, conn = WAYS[way]
    a = conn_of(t)
    kind = rig.client.TCP if t == 'tcp' else rig.client.RTU
    return lambda: rig.client.SunSpecClientDevice(kind, 1, **a), None, rig.CErr


def op_scan(way):
    t, conn = WAYS[way]
    a = conn_of(t)
    dev = rig.client.ClientDevice(rig.client.TCP if t == 'tcp' else rig.client.RTU, 1, **a)
    if conn:
        dev.modbus_device.connect()
    return dev.scan, dev, rig.CErr


def op_scan_delay(way):
    fn, dev, err = op_scan(way)
    return lambda: dev.scan(progress=lambda m: True, delay=0.1), dev, err


def op_modread(way):
    c, dev = prepare(way)
    return c.mod.read_points, dev, rig.CErr


def op_devread(way):
    c, dev = prepare(way)
    return dev.read_points, dev, rig.CErr


def dirty(c):
    for k in (wmodel.KEYS[0], wmodel.KEYS[3], wmodel.KEYS[4], wmodel.KEYS[6], wmodel.KEYS[-1]):
        c.assign(k, wmodel.raw_value(k, 1))


def op_modwrite(way):
    c, dev = prepare(way)
    dirty(c)
    return c.mod.write_points, dev, rig.CErr


def op_pointwrite(way):
    c, dev = prepare(way)
    dirty(c)
    return c.point(wmodel.KEYS[3]).write, dev, rig.CErr


def op_read(way):
    c, dev = prepare(way)
    return lambda: dev.read(40000, 5), dev, rig.CErr


def op_write(way):
    c, dev = prepare(way)
    return lambda: dev.write(wmodel.ADDR0, b'\0\1\0\2'), dev, rig.CErr


def scripted(way):
    t, conn = WAYS[way]
    a = conn_of(t)
    d = rig.client.SunSpecClientDevice(rig.client.TCP if t == 'tcp' else rig.client.RTU, 1, **a)
    d.read()
    if conn:
        d.device.modbus_device.connect()
    return d


def op_sread(way):
    d = scripted(way)
    return d.read, d, rig.CErr


def op_smread(way):
    d = scripted(way)
    return d.wide.read, d, rig.CErr


def op_smwrite(way):
    d = scripted(way)
    d.wide.A = 5
    d.wide.repeating[2].Z = 6
    return d.wide.write, d, rig.CErr


def raw_dev(way):
    t, conn = WAYS[way]
    dev = rig.modbus_device(wmodel.sim_device(), t, max_count=2)
    if conn:
        dev.connect()
    return dev


def op_mread(way):
    dev = raw_dev(way)
    return lambda: dev.read(40000, 5), dev, rig.MErr


def op_mwrite(way):
    dev = raw_dev(way)
    return lambda: dev.write(wmodel.ADDR0, bytes(10)), dev, rig.MErr


def op_mconnect(way):
    dev = raw_dev(way)
    if WAYS[way][0] != 'tcp':
        return lambda: rig.modbus.ModbusClientDeviceRTU(2, dev.name, 19200), dev, rig.MErr
    return dev.connect, dev, rig.MErr


OPS = [op_construct, op_script, op_scan, op_scan_delay, op_modread, op_devread, op_modwrite, op_pointwrite, op_read, op_write, op_sread, op_smread,
       op_smwrite, op_mread, op_mwrite, op_mconnect]
CONSTRUCT = (op_construct, op_script)


def run_faults(op, way, faults, what):
    """faults: {(kind, index): answer}. Returns (outcome, plan)."""
    fn, dev, err = op(way)
    plan = world.plan = ByIndex(faults)
    k, v = call(fn)
    world.plan = Healthy()
    if k == 'exc':
        if not plan.used and op is not op_mconnect:
            raise Violation('%s: failed although nothing went wrong: %s: %s' % (what, type(v).__name__, v), 'healthy operation fails')
        if not isinstance(v, err):
            raise Violation('%s: raised %s (%s)' % (what, type(v).__name__, v), 'error type')
        str(v), repr(v)
        if op in CONSTRUCT:
            check(not world.open_fds(), '%s: a failed construction leaves a socket open' % what, 'left open')
            check(not world.open_handles(), '%s: a failed construction leaves the port open' % what, 'left open')
            for name in world.ports:           # the port is free for other settings
                k2, v2 = call(rig.modbus.ModbusClientDeviceRTU, 1, name, 38400, 'E')
                if k2 != 'ok':
                    raise Violation('%s: the port is not released: %s' % (what, v2), 'left open')
                v2.close()
    elif op in CONSTRUCT:
        dev = v
    if dev is not None:
        call(dev.close)
        if hasattr(dev, 'device'):
            call(dev.device.close)
    return (k, type(v).__name__ if k == 'exc' else None), plan


def name_of(op):
    return op.__name__[3:]


LIMIT = 60          # no operation here has more I/O calls than this


def points_of(op, way):
    """Number of choice points of each kind in a healthy run of the operation."""
    fn, dev, err = op(way)
    plan = world.plan = ByIndex({})
    call(fn)
    world.plan = Healthy()
    return dict(plan.counts)


def build(a):
    return (a[0], bytes.fromhex(a[1]) if isinstance(a[1], str) else a[1]) if isinstance(a, list) else a


def enc(a):
    return [a[0], a[1].hex() if isinstance(a[1], bytes) else a[1]] if isinstance(a, tuple) else a


BADVALS = [None, '', ' ', 'x', '-1', '1.5', '0x10', '1e3', '65536', '70000', '\u00fc', '1 2', 'None', '[]', '08', '%s', '100% {0} {x} {'] 
DOC = ('<mbmap addr="40000" func="holding"><regs offset="0" len="2" type="string" access="r">SunS</regs>'
       '<regs offset="2" len="1" type="u16" access="r">64101</regs><regs offset="3" len="1" type="u16" access="r">2</regs>'
       '<regs offset="4" len="1" type="s16" access="rw">-5</regs><regs offset="5" len="1" type="hexstr" access="rw">0007</regs>'
       '<regs offset="6" len="1" type="u16" access="r">65535</regs><regs offset="7" len="1" type="u16" access="r">0</regs></mbmap>')
WHOLE = ['', ' ', 'x', '<', '<mbmap>', '<mbmap/>', '<other/>', '<mbmap addr="40000"><regs/></mbmap>', '\x00', '<?xml version="1.0"?>',
         '<?xml version="1.0" encoding="nonsense"?><mbmap/>', '<mbmap>&undefined;</mbmap>', '<mbmap addr="40000"><regs len="1000000" type="string"></regs></mbmap>',
         DOC + 'x', DOC * 2, DOC.replace('</mbmap>', '<zzz/></mbmap>'), DOC.replace('SunS', 'SunX'), DOC.replace('64101', '64999'),
         DOC.replace('>2<', '>3<'), DOC.replace('>2<', '>65535<'), DOC.replace('>2<', '>0<')]


def families(tier):
    thorough = tier == 'thorough'

    def single_cases():
        for o in range(len(OPS)):
            for way in range(len(WAYS)):
                t = WAYS[way][0]
                for a in (TCP if t == 'tcp' else REPLY):
                    yield [o, way, 'reply', enc(a)]
                for kind, a in IO[t] + (CLOSE if t == 'rtu' else []):
                    yield [o, way, kind, enc(a)]

    def single_run(c):
        o, way, kind, a = c
        outs = []
        for i in range(LIMIT):
            out, plan = run_faults(OPS[o], way, {(kind, i): build(a)}, '%s (%s) with %s %d: %s' % (name_of(OPS[o]), WAYS[way], kind, i, a))
            if not plan.used:
                break
            outs.append((c, i, out))
        else:
            raise HarnessError('too many I/O calls in %s' % (c,))
        return Obs(steps=len(outs) + 1, execs=len(outs) + 1, outcomes=outs or [c])

    def all_points(o, way):
        pts = points_of(OPS[o], way)
        out = []
        for kind, a in FEW[WAYS[way][0]]:
            # an earlier failure may lead to more calls (further base addresses), hence the margin
            for i in range(min(LIMIT, pts.get(kind, 0) + 3)):
                out.append((kind, i, a))
        return out

    def pair_cases():
        for o in range(len(OPS)):
            for way in range(len(WAYS)):
                for j in range(len(all_points(o, way))):
                    yield [o, way, j]

    def pair_run(c):
        o, way, j = c
        pts = all_points(o, way)
        outs, n = [], 0
        for g in pts[j + 1:]:
            f = pts[j]
            if f[:2] == g[:2]:
                continue
            out, plan = run_faults(OPS[o], way, {f[:2]: f[2], g[:2]: g[2]}, '%s (%s) with %r and %r' % (name_of(OPS[o]), WAYS[way], f, g))
            n += 1
            outs.append((c, g, out))
        return Obs(steps=n, execs=n, outcomes=outs or [c])

    def triple_cases():
        for o in (0, 1, 2, 6):
            for way in range(len(WAYS)):
                k = len(all_points(o, way))
                for i in range(k):
                    for j in range(i + 1, k):
                        yield [o, way, i, j]

    def triple_run(c):
        o, way, i, j = c
        pts = all_points(o, way)
        outs, n = [], 0
        f, g = pts[i], pts[j]
        if f[:2] == g[:2]:
            return Obs(steps=0, execs=0, outcome=c)
        for h in pts[j + 1:]:
            if h[:2] in (f[:2], g[:2]):
                continue
            out, plan = run_faults(OPS[o], way, {f[:2]: f[2], g[:2]: g[2], h[:2]: h[2]}, '%s (%s) with %r, %r and %r' % (
                name_of(OPS[o]), WAYS[way], f, g, h))
            n += 1
            outs.append((c, h, out))
        return Obs(steps=n, execs=n, outcomes=outs or [c])

    # ---- hostile replies to the first requests
    def hostile_cases():
        for way in range(len(WAYS)):
            for how in ('raw', 'pdu'):
                for n in range(0, 13):
                    for b in (0, 1, 3, 4, 6, 0x10, 0x53, 0x7f, 0x80, 0x83, 0x90, 0xff):
                        yield [way, how, n, b]

    def hostile_run(c):
        way, how, n, b = c
        outs, k = [], 0
        for o in (1, 2, 4, 6, 13, 14):
            for idx in range(5):
                for first in (None, 0x03, 0x83, 0x10, 0x90):
                    body = bytes([b]) * n
                    if first is not None and n:
                        pos = 0 if how == 'pdu' else (1 if WAYS[way][0] == 'rtu' else min(7, n - 1))
                        if pos >= n:
                            continue
                        body = body[:pos] + bytes([first]) + body[pos + 1:]
                    out, plan = run_faults(OPS[o], way, {('reply', idx): (how, body)}, '%s (%s), reply %d replaced by %s %s' % (
                        name_of(OPS[o]), WAYS[way], idx, how, body.hex()))
                    outs.append((c, o, idx, first, out))
                    k += 1
        return Obs(steps=k, execs=k, outcomes=outs)

    # ---- hostile registers: chains with any length and id, then read and write whatever was found
    LENS = [0, 1, 2, 3, 125, 126, 250, 32767, 32768, 65530, 65533, 65534, 65535]
    IDS = [0, 1, 64100, 64101, 64999, 65534]

    def regs_cases():
        for t in ('tcp', 'rtu', 'mapped'):
            for mid in IDS:
                for ln in LENS:
                    for nxt in IDS + [65535]:
                        for room in (0, 1, 2, 40):
                            yield [t, mid, ln, nxt, room]

    def regs_run(c):
        t, mid, ln, nxt, room = c
        regs = {40000: 0x5375, 40001: 0x6e53, 40002: mid, 40003: ln}
        for i in range(min(ln, room)):
            regs[40004 + i] = 0xA000 + i
        for i, w in enumerate([nxt, 1, 7, 0xFFFF, 0]):
            if 40004 + ln + i < 65536:
                regs[40004 + ln + i] = w
        sim = SimDevice(regs)
        k, dev = call(rig.client_device, sim, t)
        check(k == 'ok', 'construction failed: %r' % (dev,), 'construction')
        out = []
        for name, fn in [('scan', dev.scan), ('device read', dev.read_points)] + [
                ('model %d %s' % (i, n), m) for i in range(2) for n, m in (('read', i), ('write', i))]:
            if isinstance(fn, int):
                ms = dev.models_list
                if fn >= len(ms):
                    continue
                m = ms[fn]
                if name.endswith('write'):
                    for b in m.blocks:
                        for p in b.points_list[:2]:
                            if p.point_type.type == 'int16':
                                p.value = 3
                    fn = m.write_points
                else:
                    fn = m.read_points
            k, v = call(fn)
            if k == 'exc':
                check(isinstance(v, rig.CErr), '%s of %r raised %s: %s' % (name, c, type(v).__name__, v), 'error type')
            out.append((name, k))
        dev.close()
        return Obs(steps=len(out), outcome=(c, out))

    # ---- addresses
    def addr_cases():
        for t in ('tcp', 'rtu', 'mapped'):
            for level in ('client', 'modbus'):
                for addr in (-65536, -2, -1, 0, 1, 39999, 40000, 40010, 65535, 65536, 65537, 1 << 20, 1 << 40):
                    for n in (1, 2, 125, 126, 65535, 65536):
                        yield [t, level, addr, n]

    def addr_run(c):
        t, level, addr, n = c
        sim = wmodel.sim_device()
        dev = rig.client_device(sim, t)
        obj, err = (dev, rig.CErr) if level == 'client' else (dev.modbus_device, rig.MErr)
        before = dict(sim.regs)
        k, v = call(obj.read, addr, n)
        have = all(addr + i in sim.regs for i in range(n))
        check(k == ('ok' if have else 'exc'), 'read %d+%d: %s %r' % (addr, n, k, v), 'address range')
        check(k == 'ok' or isinstance(v, err), 'read %d+%d raised %s: %s' % (addr, n, type(v).__name__, v), 'error type')
        k, v = call(obj.write, addr, bytes(2 * n))
        if not have:
            check(k == 'exc', 'write %d+%d accepted' % (addr, n), 'address range')
        check(k == 'ok' or isinstance(v, err), 'write %d+%d raised %s: %s' % (addr, n, type(v).__name__, v), 'error type')
        if addr < 0 or addr >= 65536:
            check(sim.regs == before, 'registers changed by a refused write', 'device registers')
        dev.close()
        return Obs(steps=2, outcome=(c, k))

    # ---- map documents
    FILES = ['100%.xml', '%s.xml', '%d %(x)s.xml', '{}.xml', '{0} {x}.xml', '{', '}.xml', '\\n.xml', '$HOME', '~', '*', '[x].xml', '#1?', '\u00fc', ' a b ']

    def doc_cases():
        for i in range(len(WHOLE)):
            yield ['whole', i, None]
        yield ['missing', None, None]
        yield ['directory', None, None]
        yield ['noname', None, None]
        for i in range(len(FILES)):
            yield ['named', i, None]
            yield ['named', i, 'missing']
            yield ['named', i, 'damaged']
        import re
        n = len(re.findall(r'(\w+)="([^"]*)"', DOC))
        for i in range(n):
            for j in range(len(BADVALS)):
                yield ['attr', i, j]
        n = len(re.findall(r'>([^<>]+)<', DOC))
        for i in range(n):
            for j in range(1, len(BADVALS)):
                yield ['text', i, j]
        for i in range(0, len(DOC)):
            yield ['cut', i, None]

    def doc_run(c):
        import re
        how, i, j = c
        world.reset()
        path = os.path.join(core.scratch_dir('docs'), 'doc.xml' if how != 'named' else FILES[i])
        doc = DOC
        if how == 'named':
            how = j
            doc = DOC[:-9] if j == 'damaged' else DOC
            if j == 'missing' and os.path.exists(path):
                os.unlink(path)
        if how == 'whole':
            doc = WHOLE[i]
        elif how == 'cut':
            doc = DOC[:i]
        elif how == 'attr':
            m = list(re.finditer(r'(\w+)="([^"]*)"', DOC))[i]
            doc = DOC[:m.start()] + ('' if BADVALS[j] is None else '%s="%s"' % (m.group(1), BADVALS[j])) + DOC[m.end():]
        elif how == 'text':
            m = list(re.finditer(r'>([^<>]+)<', DOC))[i]
            doc = DOC[:m.start(1)] + BADVALS[j] + DOC[m.end(1):]
        if how == 'missing':
            path += '.none'
        elif how == 'directory':
            path = os.path.dirname(path)
        else:
            with open(path, 'w', encoding='utf-8') as f:
                f.write(doc)
        out = []
        for cls in (rig.client.ClientDevice, rig.client.SunSpecClientDevice):
            k, dev = call(cls, rig.client.MAPPED, 1, name=None if how == 'noname' else path)
            if k == 'exc':
                check(isinstance(dev, rig.CErr), 'construction with %r raised %s: %s' % (doc, type(dev).__name__, dev), 'error type')
                out.append('refused')
                continue
            check(how not in ('noname', 'missing', 'directory'), 'a mapped device is made without a map (%s)' % how, 'no map')
            d = getattr(dev, 'device', dev)
            for fn in (d.scan, d.read_points, lambda: [m.read_points() for m in d.models_list], lambda: d.read(40000, 8),
                       lambda: d.write(40004, b'\0\1'), lambda: d.write(40005, b'\0\1\0\2')):
                k, v = call(fn)
                check(k == 'ok' or isinstance(v, rig.CErr), 'with %r: %s: %s' % (doc, type(v).__name__, v), 'error type')
                out.append(k)
        return Obs(steps=len(out), outcome=(c, out))

    # ---- connection settings that cannot be
    HOSTS = [rig.HOST, 'plant..local', 'a' * 64, '\u00fc..x', '\u00fc' * 70, 'nul\0', '\udc80', '', None, 5, '100%', 'a%s', '{}', '{0}', '{x', '\\']
    TPORTS = [None, 502, 0, 65535, 65536, 70000, -1, 1 << 40, '502', '', 1.5, '%s', '{0}']
    NAMES = [None, '', '/dev/none', '\udc80', 'nul\0', 5, '/dev/100%', '/dev/%s', '/dev/{}', '/dev/{0} {x', 'COM\\1']
    BAUDS = [None, 9600, 0, -1, 'x', 1 << 40, 1.5]

    def settings_cases():
        for h in range(len(HOSTS)):
            for p in range(len(TPORTS)):
                yield ['tcp', h, p]
        for h in range(len(NAMES)):
            for p in range(len(BAUDS)):
                yield ['rtu', h, p]

    def settings_run(c):
        t, h, p = c
        out = []
        if t == 'tcp':
            host, port = HOSTS[h], TPORTS[p]
            good = host == rig.HOST and port in (None, 502)
            kw = {'ipaddr': host, 'ipport': port}
            steps = [('scan', rig.client.ClientDevice, rig.client.TCP, lambda d: d.scan()), ('read', rig.client.ClientDevice, rig.client.TCP, lambda d: d.read(40000, 2)),
                     ('write', rig.client.ClientDevice, rig.client.TCP, lambda d: d.write(wmodel.ADDR0, b'\0\1')),
                     ('script', rig.client.SunSpecClientDevice, rig.client.TCP, lambda d: d.read())]
        else:
            good = False
            kw = {'name': NAMES[h], 'baudrate': BAUDS[p]}
            steps = [('client', rig.client.ClientDevice, rig.client.RTU, lambda d: d.scan()), ('script', rig.client.SunSpecClientDevice, rig.client.RTU, lambda d: d.read())]
        for name, cls, kind, fn in steps:
            world.reset()
            rig.attach(wmodel.sim_device(), 'tcp')
            k, v = call(cls, kind, 1, **kw)
            if k == 'ok':
                dev = v
                k, v = call(fn, dev)
                call(getattr(dev, 'device', dev).close)
            if good:
                check(k == 'ok', '%s with %r: %r' % (name, kw, v), 'healthy operation fails')
            else:
                check(k == 'exc' and isinstance(v, rig.CErr), '%s with %r: %s %r' % (name, kw, k, v), 'error type')
            check(not world.open_fds() and not world.open_handles(), '%s with %r leaves something open' % (name, kw), 'left open')
            out.append(k)
        if t == 'tcp':
            dev = rig.modbus.ModbusClientDeviceTCP(1, host, port)
            for fn in (dev.connect, lambda: dev.read(40000, 1), lambda: dev.write(wmodel.ADDR0, b'\0\1')):
                k, v = call(fn)
                check(k == 'ok' if good else k == 'exc' and isinstance(v, rig.MErr), 'connection with %r: %s %r' % (kw, k, v), 'error type')
                out.append(k)
            dev.close()
        return Obs(steps=len(out), execs=len(out), outcome=(c, out))

    setup = wmodel.setup
    fams = [
        Family('single-faults', single_cases, single_run, setup, what='every failure kind at every I/O call or request of every operation'),
        Family('fault-pairs', pair_cases, pair_run, setup, what='every pair of failures'),
        Family('hostile-replies', hostile_cases, hostile_run, setup, what='replies that are not replies'),
        Family('hostile-registers', regs_cases, regs_run, setup, what='model chains with any id, length and missing registers'),
        Family('addresses', addr_cases, addr_run, setup, what='addresses and counts outside the register space or the device'),
        Family('settings', settings_cases, settings_run, setup, what='addresses, ports, port names and baud rates that cannot be'),
        Family('map-documents', doc_cases, doc_run, setup, what='damaged map documents'),
    ]
    if thorough:
        fams.append(Family('fault-triples', triple_cases, triple_run, setup, what='every triple of failures of construction, scan and write'))
    return fams
