import itertools

from .. import core, ref, rig, wire
from ..core import Family, Obs, Violation, call, check, eq, expect_ok
from ..ref import P
from ..wire import ByIndex, FakeSerial, FakeSocket, Healthy, SimDevice, world

PROP, LEVEL = 'C30', 'model_checking'
TECHNIQUE = ('exhaustive enumeration of settings x layers x histories of requests, connects, failures and closes, on the real objects over simulated networks '
             'and ports that note the settings in force at every single call')
RULE = 'one evaluation per (settings, layer, history); distinct by that tuple'
BOUNDS = ('3 layers; 2 hosts x 5 ports x 5 timeouts x 6 slave ids; 4 baud rates x 4 parities x 4 timeouts x 4 slave ids; 20 timeouts, 24 baud rates, 7 ports and all slave ids one at a time; histories of <=3 (thorough 5) of 6 '
          'operations; pairs of objects with different settings taking turns; names of ports and hosts with special characters')

M = ref.Model(64030, [P('A', 'uint16'), P('B', 'uint32')], name='set')
log = []


def note(cls, name, what):
    orig = cls.__dict__[name]

    def fn(self, *a, **k):
        if cls is FakeSocket:
            log.append((what, self, a[0] if what == 'connect' else getattr(self, 'peer', None), self._timeout))
        else:
            r = orig(self, *a, **k) if what == 'open' else None
            log.append((what, self, self.port, self.write_timeout if what == 'write' else self.timeout))
            if what == 'open':
                return r
        return orig(self, *a, **k)
    setattr(cls, name, fn)


def setup():
    rig.definitions([M])
    if getattr(wire, 'noted', False):
        return
    wire.noted = True
    for n in ('connect', 'send', 'recv'):
        note(FakeSocket, n, n)
    for n in ('open', 'write', 'read'):
        note(FakeSerial, n, n)


def sim():
    return SimDevice(ref.image(40000, [(M.id, 3, [7, 0, 9])]))


HOSTS = ['10.1.2.3', 'inverter.local']
MORE_HOSTS = ['100%', 'fe80::1%eth0', '{}', '{0}', 'a%s', 'UPPER.local', '::1']
MORE_NAMES = ['COM3', '/dev/100%', '/dev/%s', '/dev/{}', '/dev/{0}', '\\\\.\\COM10', 'socket://{x', '/dev/serial/by-id/usb-A B:1.0-port0', 'com3']
PORTS = ['absent', None, 502, 1502, 65535]
TIMES = ['absent', None, 0.5, 3, 10.0]
UNITS = [1, 0, 126, 247, 255, '7']
# more of each, used one at a time
MORE_PORTS = [1, 80, 503, 1024, 5020, 8502, 49152]
MORE_TIMES = [0.001, 0.01, 0.1, 1, 1.5, 2.0, 4.999, 5, 9, 15, 30, 59.5, 60, 61, 90.0, 120, 300, 3600, 86400, 1e6]
MORE_UNITS = list(range(256))
MORE_BAUDS = [50, 75, 110, 134, 150, 200, 300, 600, 1000, 1200, 1800, 2400, 4800, 14400, 28800, 38400, 57600, 76800, 230400, 250000, 460800, 921600, 1000000, 4000000]
BAUDS = [None, 9600, 19200, 115200]
PARS = ['absent', None, 'N', 'E']
RTIMES = ['absent', None, 0.25, 5]
RUNITS = [1, 17, 247, '7']
LAYERS = ['modbus', 'client', 'script']


def kw(**k):
    return {a: b for a, b in k.items() if b != 'absent'}


class Tcp(object):
    OPS = ['read', 'write', 'connect', 'disconnect', 'fail', 'scan']

    def __init__(self, layer, host, port, timeout, unit):
        port, timeout, unit = (PORTS + MORE_PORTS)[port], (TIMES + MORE_TIMES)[timeout], (UNITS + MORE_UNITS)[unit]
        self.layer, self.host, self.unit = layer, (HOSTS + MORE_HOSTS)[host], unit
        self.port = 502 if port in ('absent', None) else port
        self.given = None if timeout in ('absent', None) else timeout
        self.sim = sim()
        world.tcp.setdefault((self.host, self.port), {})[int(self.unit)] = self.sim
        a = kw(ipaddr=self.host, ipport=port, timeout=timeout)
        self.what = 'TCP device with %r, slave %r (%s)' % (a, self.unit, LAYERS[layer])
        if layer == 0:
            self.top = self.m = expect_ok(self.what, lambda: rig.modbus.ModbusClientDeviceTCP(self.unit, **a))
            self.own = []
        else:
            cls = rig.client.SunSpecClientDevice if layer == 2 else rig.client.ClientDevice
            self.top = expect_ok(self.what, lambda: cls(rig.client.TCP, self.unit, **a))
            self.c = self.top.device if layer == 2 else self.top
            self.m = self.c.modbus_device
            eq(self.what + ': slave id', (self.c.slave_id, self.c.type), (self.unit, rig.client.TCP))
        eq(self.what + ': attributes', (self.m.slave_id, self.m.ipaddr, self.m.ipport), (self.unit, self.host, self.port))
        if self.given is not None:
            eq(self.what + ': timeout', self.m.timeout, self.given)
        self.judge(self.what)

    def judge(self, what):
        for kind, s, where, t in log:
            eq('%s: %s goes to' % (what, kind), tuple(where) if where else where, (self.host, self.port))
            if self.given is not None:
                check(t == self.given, '%s: %s with a timeout of %r' % (what, kind, t), 'timeout')
            else:
                check(t is not None and t > 0, '%s: %s without a timeout' % (what, kind), 'timeout')
        for r in world.requests:
            eq(what + ': slave id of a request', (r.unit, r.where), (int(self.unit), (self.host, self.port)))
        del log[:], world.requests[:]

    def do(self, op, what):
        d = self.m if self.layer == 0 else self.c
        if op == 'read':
            expect_ok(what, d.read, 40000, 5)
        elif op == 'write':
            expect_ok(what, d.write, 40004, b'\0\1')
            eq(what + ': register', self.sim.regs[40004], 1)
        elif op == 'connect':
            expect_ok(what, self.m.connect)
        elif op == 'disconnect':
            self.m.disconnect()
        elif op == 'fail':
            world.plan = ByIndex({('reply', 0): 'drop'})
            call(d.read, 40000, 5)
            world.plan = Healthy()
        elif op == 'scan':
            if self.layer:
                expect_ok(what, self.c.scan)
        self.judge(what)

    def close(self):
        self.top.close()
        check(not world.open_conns((self.host, self.port)), self.what + ': open after close', 'left open')


class Rtu(object):
    OPS = ['read', 'write', 'fail', 'scan', 'reopen']
    number = 0

    def __init__(self, layer, baud, parity, timeout, unit, name=None):
        baud, timeout, unit = (BAUDS + MORE_BAUDS)[baud], (RTIMES + MORE_TIMES)[timeout], (RUNITS + MORE_UNITS)[unit]
        self.layer, self.unit = layer, unit
        Rtu.number += 1
        self.name = MORE_NAMES[name] if isinstance(name, int) else name or '/dev/set%d' % Rtu.number
        self.baud = baud or 9600
        self.parity = 'E' if PARS[parity] == 'E' else 'N'
        self.given = None if timeout in ('absent', None) else timeout
        self.sim = sim()
        world.ports.setdefault(self.name, {})[int(self.unit)] = self.sim
        p = {'N': rig.modbus.PARITY_NONE, 'E': rig.modbus.PARITY_EVEN}.get(PARS[parity], PARS[parity])
        self.a = kw(name=self.name, baudrate=baud or 'absent', parity=p, timeout=timeout)
        self.what = 'RTU device with %r, slave %r (%s)' % (self.a, self.unit, LAYERS[layer])
        self.open()

    def open(self):
        if self.layer == 0:
            self.top = self.d = expect_ok(self.what, lambda: rig.modbus.ModbusClientDeviceRTU(self.unit, **self.a))
        else:
            cls = rig.client.SunSpecClientDevice if self.layer == 2 else rig.client.ClientDevice
            self.top = expect_ok(self.what, lambda: cls(rig.client.RTU, self.unit, **self.a))
            self.d = self.top.device if self.layer == 2 else self.top
            eq(self.what + ': slave id', (self.d.slave_id, self.d.type, self.d.name), (self.unit, rig.client.RTU, self.name))
        self.judge(self.what)

    def judge(self, what):
        for kind, s, where, t in log:
            eq('%s: port' % what, where, self.name)
            eq('%s: settings at %s' % (what, kind), (s.baudrate, s.parity, s.bytesize, s.stopbits), (self.baud, self.parity, 8, 1))
            if kind == 'open':
                continue
            if self.given is not None:
                check(t == self.given, '%s: %s with a timeout of %r' % (what, kind, t), 'timeout')
            else:
                check(t is not None and t > 0, '%s: %s without a timeout' % (what, kind), 'timeout')
        for r in world.requests:
            eq(what + ': slave id of a request', (r.unit, r.where), (int(self.unit), self.name))
        del log[:], world.requests[:]

    def do(self, op, what):
        d = self.d
        if op == 'read':
            expect_ok(what, d.read, 40000, 5)
        elif op == 'write':
            expect_ok(what, d.write, 40004, b'\0\1')
            eq(what + ': register', self.sim.regs[40004], 1)
        elif op == 'fail':
            world.plan = ByIndex({('reply', 0): 'drop'})
            call(d.read, 40000, 5)
            world.plan = Healthy()
        elif op == 'scan':
            if self.layer:
                expect_ok(what, d.scan)
        elif op == 'reopen':
            self.top.close()
            self.open()
        self.judge(what)

    def close(self):
        self.top.close()
        check(not world.open_handles(self.name), self.what + ': open after close', 'left open')


def families(tier):
    depth = 3 if tier == 'quick' else 5
    long = {Tcp: [list(s) for k in range(depth + 1) for s in itertools.product(Tcp.OPS, repeat=k)],
            Rtu: [list(s) for k in range(depth + 1) for s in itertools.product(Rtu.OPS, repeat=k)]}
    short = {Tcp: [['read', 'connect', 'read', 'fail', 'read', 'scan', 'write']], Rtu: [['read', 'fail', 'write', 'scan', 'reopen', 'read']]}
    CLS = {'tcp': Tcp, 'rtu': Rtu}
    ranges = {'tcp': (2, 5, 5, 6), 'rtu': (4, 4, 4, 4)}

    def cases():
        for t in CLS:
            for layer in range(3):
                for s in itertools.product(*map(range, ranges[t])):
                    yield [t, layer, list(s), None]

    def history_cases():
        for t in CLS:
            for layer in range(3):
                for s in (((0, 3, 2, 1), (1, 0, 4, 5), (0, 1, 1, 3)) if t == 'tcp' else ((2, 3, 2, 1), (0, 0, 3, 3), (3, 1, 1, 2))):
                    for h in range(len(long[CLS[t]])):
                        yield [t, layer, list(s), h]

    def run(c):
        t, layer, s, h = c
        world.reset()
        del log[:]
        hist = long[CLS[t]][h] if h is not None else short[CLS[t]][0]
        d = CLS[t](layer, *s)
        for i, op in enumerate(hist):
            d.do(op, '%s, %s' % (d.what, hist[:i + 1]))
        d.close()
        del log[:], world.requests[:]
        return Obs(steps=len(hist) + 1, outcome=c)

    # one setting at a time, many values
    def value_cases():
        for layer in range(3):
            for i in range(len(MORE_NAMES)):
                yield ['rtu', layer, [1, 0, 2, 1, i], None]
            for at, first, more in ((0, HOSTS, MORE_HOSTS), (1, PORTS, MORE_PORTS), (2, TIMES, MORE_TIMES), (3, UNITS, MORE_UNITS)):
                for i in range(len(more)):
                    s = [0, 3, 2, 1]
                    s[at] = len(first) + i
                    yield ['tcp', layer, s, None]
            for at, first, more in ((0, BAUDS, MORE_BAUDS), (2, RTIMES, MORE_TIMES), (3, RUNITS, MORE_UNITS)):
                for i in range(len(more)):
                    for par in range(len(PARS)):
                        s = [1, par, 2, 1]
                        s[at] = len(first) + i
                        if at == 3 and MORE_UNITS[i] == 0 or at != 0 and par > 1:
                            continue
                        yield ['rtu', layer, s, None]

    # two objects with different settings, taking turns
    def pair_cases():
        sets = {'tcp': [(0, 3, 2, 1), (1, 0, 4, 5), (0, 4, 0, 1), (0, 3, 3, 2)], 'rtu': [(2, 3, 2, 1), (0, 0, 3, 3), (3, 0, 0, 1)]}
        for (t1, a), (t2, b) in itertools.permutations([(t, s) for t in sets for s in sets[t]], 2):
            if t1 == t2 == 'tcp' and a[:2] == b[:2] and a[3] == b[3]:
                continue
            for l1, l2 in itertools.product(range(3), repeat=2):
                yield [t1, list(a), t2, list(b), l1, l2]

    def pair_run(c):
        t1, a, t2, b, l1, l2 = c
        world.reset()
        del log[:]
        x = CLS[t1](l1, *a)
        y = CLS[t2](l2, *b)
        n = 0
        for i in range(6):
            for d, o in ((x, y), (y, x)):
                op = d.OPS[i % len(d.OPS)]
                d.do(op, '%s next to %s, %s' % (d.what, o.what, op))
                n += 1
        x.close()
        del log[:], world.requests[:]
        y.do('read', '%s after %s was closed' % (y.what, x.what))
        y.close()
        del log[:], world.requests[:]
        return Obs(steps=n, outcome=c)

    # two objects on one port; the second asks for no timeout of its own, or for the same
    def port_cases():
        for baud, par in itertools.product(range(len(BAUDS)), range(len(PARS))):
            for t1 in range(len(RTIMES)):
                for t2 in range(len(RTIMES)):
                    if RTIMES[t2] in ('absent', None) or t1 == t2:
                        for l1, l2 in itertools.product(range(3), repeat=2):
                            yield [baud, par, t1, t2, l1, l2]

    def port_run(c):
        baud, par, t1, t2, l1, l2 = c
        world.reset()
        del log[:]
        x = Rtu(l1, baud, par, t1, 1)
        y = Rtu(l2, baud, par, t2, 2, x.name)
        n = 0
        for i in range(2 * len(Rtu.OPS)):
            for d, o in ((x, y), (y, x)):
                op = Rtu.OPS[i % len(Rtu.OPS)]
                if op == 'reopen' and d is x and x.given != y.given:
                    continue
                d.do(op, '%s on one port with %s, %s' % (d.what, o.what, op))
                n += 1
        y.top.close()
        x.do('read', '%s after the other one on its port was closed' % x.what)
        x.close()
        del log[:], world.requests[:]
        return Obs(steps=n + 1, outcome=c)

    # the timeout of one connection
    def connect_cases():
        for t in (None, 0.25, 1, 30.0):
            for own in range(5):
                for layer in range(3):
                    yield [t, own, layer]

    def connect_run(c):
        t, own, layer = c
        world.reset()
        del log[:]
        d = Tcp(layer, 0, 3, own, 1)
        expect_ok('connect(%r)' % t, d.m.connect, t)
        want = t if t is not None else d.given
        got = [x[3] for x in log if x[0] == 'connect']
        check(len(got) == 1 and got[0] and (want is None or got[0] == want), '%s: connect(%r) with a timeout of %r' % (d.what, t, got), 'timeout')
        del log[:], world.requests[:]
        d.m.disconnect()
        d.do('read', d.what + ': read after connect(%r) and disconnect' % t)
        d.close()
        del log[:], world.requests[:]
        return Obs(steps=3, outcome=c)

    return [
        Family('settings', cases, run, setup, what='every combination of settings'),
        Family('values', value_cases, run, setup, what='many values of each setting'),
        Family('histories', history_cases, run, setup, what='every history of operations'),
        Family('pairs', pair_cases, pair_run, setup, what='two objects with different settings taking turns'),
        Family('one port', port_cases, port_run, setup, what='two objects on one port, the second with the timeout of the first or none'),
        Family('connect', connect_cases, connect_run, setup, what='connect with its own timeout'),
    ]
