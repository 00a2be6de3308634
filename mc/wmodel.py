"""The model used for write histories (C06, C07): adjacent points, wide points, padding, scale factors, repeating blocks,
neighbouring models; and the reference client: pending modifications over device registers."""
import math

from . import core, ref, rig, wire
from .core import Violation, check, eq, expect_ok
from .ref import P
from .wire import SimDevice, world

BASE = 40000
W = ref.Model(64100, [P('N', 'uint16'), P('A', 'int16'), P('B', 'uint32'), P('pd', 'pad'), P('S', 'string', 2), P('SF', 'sunssf'),
                      P('X', 'int16', sf='SF', access='rw'), P('F', 'float32'), P('Q', 'uint64')],
              [P('V', 'int16', sf='SF'), P('Z', 'uint16'), P('p2', 'pad'), P('RSF', 'sunssf'), P('Y', 'int32', sf='RSF')], name='wide')
NEIGHBOUR = ref.Model(64101, [P('A', 'int16'), P('B', 'int16')], name='neighbour')
REPEATS = 2
KEYS = [(b, p.id) for b, p, off in W.value_points(REPEATS)]
POINTS = {(b, p.id): (off, p) for b, p, off in W.value_points(REPEATS)}
ADDR0 = BASE + 2 + 2 + 2 + 2          # after the neighbour before

# two values per point: (assigned, register value with scale factor SF=-1 / RSF=1)
SFVAL = {'SF': -1, 'RSF': 1}


def setup():
    rig.definitions([W, NEIGHBOUR])


def raw_value(key, n):
    """n-th register value to assign to a point"""
    off, p = POINTS[key]
    k = 100 + 37 * n + 11 * KEYS.index(key)
    if p.type == 'string':
        return ('w%dx' % (n % 10))[:3 + n % 2]
    if p.type == 'float32':
        return k + 0.5
    if p.type == 'uint64':
        return (1 << 33) + k
    if p.type == 'uint32':
        return (1 << 17) + k
    if p.type == 'int16' and n % 2:
        return -k
    return k


def sim_device(k=0, which=None):
    def default(b, p, n):
        if p.type == 'sunssf':
            return ref.encode('sunssf', SFVAL[p.id])
        return None
    nb = [1000, 2000]
    return SimDevice(ref.image(BASE, [(NEIGHBOUR.id, 2, nb), (W.id, W.length(REPEATS), ref.fill(W, REPEATS, k, which or default)),
                                      (NEIGHBOUR.id, 2, nb)]))


class Client(object):
    """The real client next to its reference: what the device holds (regs), what is pending, what each point shows."""

    def __init__(self, transport='tcp', connected=True, plan=None, read=True, k=0, script=False):
        self.sim = sim_device(k)
        self.transport = transport
        if script:
            self.script = expect_ok('scripting device', lambda: rig.script_device(self.sim, transport))
            self.dev = self.script.device
        else:
            self.dev = rig.client_device(self.sim, transport)
            expect_ok('scan', self.dev.scan)
        self.mod = self.dev.models_list[1]
        if script:
            self.smod = [x for x in vars(self.script).values() if getattr(x, 'model', None) is self.mod][0]
        check(self.mod.load_error is None and int(self.mod.addr) == ADDR0, 'model not loaded: %s' % self.mod.load_error, 'load')
        if transport == 'tcp' and connected:
            self.dev.modbus_device.connect()
        self.regs = dict(self.sim.regs)
        self.pending = {}
        self.sf = {}
        if read:
            expect_ok('read', self.mod.read_points)
            self.note_read()
        del world.requests[:]

    def point(self, key):
        return self.mod.blocks[key[0]].points[key[1]]

    def note_read(self):
        self.pending = {}
        for key, (raw, sf, v) in W.expect(self.regs, ADDR0, REPEATS).items():
            self.sf[key] = sf

    def assign(self, key, raw):
        sf = self.sf.get(key)
        v = raw * math.pow(10, sf) if sf else raw
        self.point(key).value = v
        self.pending[key] = raw

    def registers(self, key, raw):
        off, p = POINTS[key]
        return {ADDR0 + off + i: w for i, w in enumerate(ref.words(ref.encode(p.type, raw, p.len)))}

    def device_regs(self):
        return self.dev.modbus_device.modbus_map and map_regs(self.dev) if self.transport == 'mapped' else self.sim.regs

    def expect_written(self, keys, what):
        """All of keys stored now; every register written belongs to one of them, once."""
        for k in keys:
            self.regs.update(self.registers(k, self.pending[k]))
        if self.transport != 'mapped':
            touched = [a + i for a, vals in self.sim.applied for i in range(len(vals))]
            allowed = sorted(a for k in keys for a in self.registers(k, self.pending[k]))
            check(sorted(touched) == allowed, '%s: registers written %r, expected %r' % (what, sorted(touched), allowed), 'registers written')
            del self.sim.applied[:]
        for k in keys:
            self.pending.pop(k, None)
        self.compare(what)

    def compare(self, what):
        got = self.device_regs()
        diff = {a: (got.get(a), self.regs.get(a)) for a in set(got) | set(self.regs) if got.get(a) != self.regs.get(a)}
        check(not diff, '%s: device registers (got, expected) %r' % (what, dict(sorted(diff.items())[:6])), 'device registers')

    def state(self):
        out = []
        for k in KEYS:
            p = self.point(k)
            out.append((p.value_base, p.value_sf, p.dirty))
        return tuple(out) + (tuple(sorted(self.device_regs().items())), tuple(sorted(self.pending.items(), key=repr)))

    def close(self):
        self.dev.close()


def map_regs(dev):
    m = dev.modbus_device.modbus_map
    out = {}
    for r in m.regs:
        for i, w in enumerate(ref.words(r.data)):
            out[int(m.base_addr) + r.offset + i] = w
    return out
