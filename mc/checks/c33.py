import gc
import itertools
import os
import sys
import threading
import types
import xml.etree.ElementTree as ET
import zipfile

from .. import core, ref, rig, wire
from ..core import Family, Obs, Violation, call, check, eq
from ..ref import P
from ..wire import ByIndex, Healthy, SimDevice, world

import sunspec.core.data as sdata
import sunspec.core.device as device
import sunspec.core.client as client
import sunspec.core.util as util
import sunspec.core.modbus.client as modbus
import sunspec.core.modbus.mbmap as mbmap

PROP, LEVEL = 'C33', 'model_checking'
TECHNIQUE = ('exhaustive exploration of all cyclic programs up to a length, executed on the real code: after each lap the state of the process is measured '
             '(everything reachable from the modules, classes, functions and the device in use, all objects alive, connections, ports, files, threads) and '
             'the requests, results and times are compared with those of the lap before')
RULE = 'one evaluation per (way, cycle of operations); distinct by that pair'
BOUNDS = 'all cycles of up to 2 of 30 operations (thorough: 3 in three of the ways), 3 laps each after 1 to 3 to warm up, around a device in use in 8 ways; 1400 values, places or names never used before of 13 kinds in each way'
ASSUMPTIONS = ['accumulation is growth in every lap; a buffer that is bounded but not yet full after these laps would be reported, the library has none']
LAPS = 3                                    # compared; as many as the cycle has operations (at least one) come before

A = ref.Model(65001, [P('A', 'int16', sf='SF', access='rw'), P('E', 'enum16', access='rw', symbols=[('ON', 1), ('OFF', 2)]), P('S', 'string', 2, access='rw'),
                      P('SF', 'sunssf')], [P('V', 'int16', sf='-1', access='rw')], name='ma', block_name='ch')
B = ref.Model(65002, [P('K', 'uint32', access='rw')], name='mb')
TRANSPORTS = ('tcp', 'tcp connected', 'rtu', 'mapped')
KIND = {'tcp': client.TCP, 'rtu': client.RTU, 'mapped': client.MAPPED}
HOST2 = '10.3.3.3'
dirs = []


def one(b, p, n):
    if p.type == 'sunssf':
        return ref.encode('sunssf', -2)


def chain(k):
    # a model twice, an unknown one
    return [(A.id, A.length(2), ref.fill(A, 2, k, one)), (B.id, 2, ref.fill(B, 0, k)), (65003, 2, [k, k]), (A.id, A.length(1), ref.fill(A, 1, k + 1, one))]


def setup():
    d = rig.definitions([A, B])
    with open(os.path.join(d, 'doc.xml'), 'w') as f:
        f.write('<sunSpecPics v="1"><device addr="40000"><model id="%d" len="6"><block><point id="A">5</point><point id="SF">-1</point></block>'
                '<block type="repeating"><point id="V">70</point></block></model></device></sunSpecPics>' % A.id)
    with open(os.path.join(d, 'map.xml'), 'w') as f:
        f.write(ref.mbmap_xml(ref.image(40000, chain(3))))
    with open(os.path.join(d, 'map.hex'), 'w') as f:
        f.write('# header\n01 02 03 04\n05 06\n')
    with zipfile.ZipFile(os.path.join(d, 'z.zip'), 'w') as z:
        z.writestr('in/note.txt', 'note')
    dirs[:] = [d]


def snap(dev):
    return [(m.id, m.len, m.index, m.addr, m.load_error and str(m.load_error),
             [[(pid, p.value_base, p.value_sf, p.value, bool(p.dirty)) for pid, p in b.points.items()] for b in m.blocks]) for m in dev.models_list]


def wrapped(d):
    out = []
    for name in d.models:
        for w in (d[name][1:] if isinstance(d[name], list) else [d[name]]):
            out.append((w.name, list(w.points), [getattr(w, p) for p in w.points], [[getattr(b, p) for p in b.points] for b in w.repeating[1:]]))
    return out


class Subject(object):
    """A device in use, and what else there is for the operations."""

    def __init__(self, transport, script):
        world.reset()
        self.t = transport.split()[0]
        self.sims = [SimDevice(ref.image(40000, chain(3 + i))) for i in range(2)]
        self.a = dict(rig.attach(self.sims[0], self.t, 1, {'tcp': None, 'rtu': '/dev/long', 'mapped': 'long.xml'}[self.t]))
        if self.t == 'tcp':
            world.tcp[(rig.HOST, rig.PORT)][2] = self.sims[1]
        elif self.t == 'rtu':
            world.ports['/dev/long'][2] = self.sims[1]
        if script:
            self.script = client.SunSpecClientDevice(KIND[self.t], 1, **self.a)
            self.dev = self.script.device
        else:
            self.script = None
            self.dev = client.ClientDevice(KIND[self.t], 1, **self.a)
            self.dev.scan()
        if transport == 'tcp connected':
            self.dev.modbus_device.connect()

    def model(self):
        ms = self.dev.models_list
        return ms[0] if ms and ms[0].blocks else None

    def trim(self):
        """The simulated world and devices do not keep what happened in earlier laps."""
        for l in (world.requests, world.wire, world.conn_log, self.sims[0].log, self.sims[1].log, self.sims[0].applied, self.sims[1].applied,
                  self.sims[0].illegal, self.sims[1].illegal, world.malformed):
            del l[:]
        for f in world.fds:
            del f.timeouts[:]
        world.fds = [f for f in world.fds if not f.closed]
        world.handles = [h for h in world.handles if h.open]
        world.calls = 0


def op_read(s):
    (s.script or s.dev).read() if s.script else s.dev.read_points()
    return snap(s.dev), wrapped(s.script) if s.script else None


def op_assign(s):
    if s.script:
        m = s.script.ma[1]
        m.A, m['E'], m.S = 1.5, 2, 'xy'
        m.ch[2].V = 2.5
    elif s.model():
        m = s.model()
        m.points['A'].value, m.points['E'].value, m.points['S'].value = 1.5, 2, 'xy'
        m.blocks[2].points['V'].value = 2.5
    return snap(s.dev)


def op_write(s):
    if s.script:
        s.script.ma[1].write()
    elif s.model():
        s.model().write_points()
    return snap(s.dev)


def op_assign_write(s):
    op_assign(s)
    return op_write(s)


def op_point_write(s):
    p = s.model() and s.model().points['E']
    if p:
        p.value = 1
        p.write()


def op_scan(s):
    s.dev.scan()
    return snap(s.dev)


def op_connect(s):
    if s.t == 'tcp':
        s.dev.modbus_device.connect()


def op_disconnect(s):
    if s.t == 'tcp':
        s.dev.modbus_device.disconnect()


def op_raw(s):
    return s.dev.read(40000, 20)


def op_raw_write(s):
    return s.dev.write(40002 + 2, ref.unwords([1, 2]))


def failing(op, fault):
    def run(s):
        world.plan = ByIndex(fault)
        try:
            return op(s)
        finally:
            world.plan = Healthy()
    return run


def op_show(s):
    root = ET.Element('r')
    s.dev.to_pics(root)
    return str(s.script or s.dev), ET.tostring(root), bool(s.dev.not_equal(s.dev))


def op_load(s):
    for m in s.dev.models_list:
        call(m.load)
    return snap(s.dev)


def other(cls, unit=2, **kw):
    def run(s):
        a = dict(s.a)
        a.update(kw)
        d = cls(KIND[s.t], unit, **a)
        try:
            if cls is client.ClientDevice:
                d.scan()
            d.read_points() if cls is client.ClientDevice else d.read()
            return snap(d if cls is client.ClientDevice else d.device)
        finally:
            d.close()
    return run


def op_elsewhere(s):
    """A device elsewhere that is not there."""
    if s.t == 'rtu':
        return client.ClientDevice(client.RTU, 1, name='/dev/none')
    if s.t == 'mapped':
        return client.ClientDevice(client.MAPPED, 1, name='none.xml')
    return client.SunSpecClientDevice(client.TCP, 1, ipaddr=HOST2)


def op_port(s):
    """A raw device on a port of its own, used and closed twice."""
    world.ports['/dev/short'] = {1: s.sims[1]}
    d = modbus.ModbusClientDeviceRTU(1, '/dev/short', 19200, 'E', timeout=0.25)
    try:
        out = d.read(40000, 4)
    finally:
        d.close()
        d.close()
        del world.ports['/dev/short']
    return out


def op_traced(s):
    lines = []
    d = modbus.ModbusClientDeviceTCP(1, HOST2, trace_func=lines.append, max_count=3)
    world.tcp[(HOST2, 502)] = {1: s.sims[1]}
    try:
        out = d.read(40000, 8)
        d.write(40004, ref.unwords([s.sims[1].regs[40004 + i] for i in range(5)]))
        d.close()
    finally:
        del world.tcp[(HOST2, 502)]
    return out, lines


def op_record(s):
    sd = sdata.SunSpecData()
    d = sd.device_add('u1', 'man', timestamp=1000, namespace='ns')
    m = d.model_add(A.id)
    m.point_add('A', 3, sf=-1)
    t = sd.to_xml_str(pretty_print=True)
    sd2 = sdata.SunSpecData()
    sd2.from_xml(ET.fromstring(t))
    return t, sd2.to_xml_str()


def op_map(s):
    m = mbmap.ModbusMap(1)
    m.from_xml('map.xml', util.PathList(dirs))
    m.regs_add(addr=40200, count=2)
    m.write(40004, b'\0\1')
    h = mbmap.ModbusMap(1)
    h.from_hex(os.path.join(dirs[0], 'map.hex'))
    return m.read(40000, 4), ET.tostring(m.to_xml()), str(h), str(m.not_equal(h))


def op_pics(s):
    d = device.Device()
    d.from_pics(filename='doc.xml', pathlist=util.PathList(dirs))
    root = ET.Element('r')
    d.to_pics(root, single_repeating=False)
    return snap(d), ET.tostring(root)


def op_definitions(s):
    out = []
    for i in (A.id, str(B.id)):
        t = device.model_type_get(i)
        u = device.ModelType()
        u.from_smdx(ET.parse(os.path.join(dirs[0], 'smdx_%05d.xml' % int(i))).getroot())
        out.append((str(t), [(k, str(v)) for k, v in t.symbols.items()], [(k, str(v)) for k, v in u.symbols.items()], bool(t.not_equal(u))))
    return out


def op_unknown(s):
    return device.model_type_get(65009)


def op_paths(s):
    p = util.PathList([dirs[0]])
    p.add(os.path.join(dirs[0], 'z.zip', 'in'))
    return p.read('note.txt'), call(p.read, 'nothing')[0], str(p).count('zip')


# operations with a value, place or name never used before: n is their number

def fresh_read(s, n):
    at = 40000 + 4
    data = ref.unwords([n % 30000, 1 + n % 2])
    if s.t == 'mapped':
        s.dev.modbus_device.modbus_map.write(at, data)
    else:
        for i, w in enumerate(ref.words(data)):
            s.sims[0].regs[at + i] = w
    (s.script or s.dev).read() if s.script else s.dev.read_points()
    return s.model().points['A'].value_base == n % 30000


def fresh_write(s, n):
    m = s.model()
    m.points['A'].value_base, m.points['A'].dirty = n % 30000, True
    m.points['S'].value = 'abcd'[n % 4] + '%03d' % (n % 1000)
    m.write_points()
    return s.dev.read(40004, 4) == ref.unwords([n % 30000]) + s.dev.read(40005, 1) + m.points['S'].value.encode()


def fresh_range(s, n):
    at = [40000, 40002, 40004, 40005, 40007][n % 5]
    return len(s.dev.read(at + n // 5 % 3, 1 + n // 15 % 9)) == 2 + n // 15 % 9 * 2


def fresh_raw(s, n):
    return s.dev.write(40004, ref.unwords([n % 65536, 1])) is None and s.dev.read(40004, 1) == ref.unwords([n % 65536])


def fresh_refused(s, n):
    k, e = call(s.dev.read, n % 39000, 1)
    return k == 'error' or isinstance(e, Exception)


def fresh_host(s, n):
    if s.t == 'tcp':
        host = '10.7.%d.%d' % (n // 250 % 250, n % 250)
        world.tcp[(host, 502)] = {1: s.sims[1]}
        try:
            d = client.ClientDevice(client.TCP, 1, ipaddr=host)
            d.scan()
            d.close()
            return len(d.models_list) == 4
        finally:
            del world.tcp[(host, 502)]
    if s.t == 'rtu':
        name = '/dev/fresh%d' % n
        world.ports[name] = {1: s.sims[1]}
        try:
            d = client.ClientDevice(client.RTU, 1, name=name)
            d.scan()
            d.close()
            return len(d.models_list) == 4
        finally:
            del world.ports[name]
    name = os.path.join(dirs[0], 'fresh%d.xml' % n)
    os.link(os.path.join(dirs[0], 'map.xml'), name)
    try:
        d = client.ClientDevice(client.MAPPED, 1, name=name)
        d.scan()
        d.close()
        return len(d.models_list) == 4
    finally:
        os.remove(name)


def fresh_unit(s, n):
    """A device whose id on the bus was not used before."""
    if s.t == 'mapped':
        d = client.ClientDevice(client.MAPPED, 1 + n, name='map.xml', pathlist=util.PathList(dirs))
        d.scan()
        return len(d.models_list) == 4
    units = world.tcp[(rig.HOST, rig.PORT)] if s.t == 'tcp' else world.ports['/dev/long']
    unit = 3 + n % 240
    units[unit] = s.sims[1]
    try:
        d = client.ClientDevice(KIND[s.t], unit, **s.a)
        d.scan()
        d.close()
    finally:
        del units[unit]
    return len(d.models_list) == 4


def fresh_error(s, n):
    k, e = call(client.ClientDevice, client.MAPPED, 1, name='none%d.xml' % n)
    return str(n) in str(e)


def fresh_record(s, n):
    sd = sdata.SunSpecData()
    sd.device_add('u%d' % n, 'man', timestamp=1000 + n).model_add(A.id).point_add('A%d' % n, n, sf=-1)
    return str(n) in sdata.SunSpecData(data_record=sd.to_xml_str()).to_xml_str()


def fresh_paths(s, n):
    p = util.PathList([os.path.join(dirs[0], 'none%d' % n), dirs[0], os.path.join(dirs[0], 'z%d.zip' % n)])
    call(p.read, 'nothing%d' % n)
    return len(p.read('map.hex')) > 3


def fresh_map(s, n):
    m = mbmap.ModbusMap(n)
    m.regs_add(offset=n % 60000, count=2)
    m.write(m.base_addr + n % 60000, ref.unwords([n % 65536, 1]))
    o = mbmap.ModbusMap(n)
    o.from_xml(element=ET.fromstring(ET.tostring(m.to_xml())))
    return not o.not_equal(m)


def fresh_show(s, n):
    fresh_read(s, n)
    return str(n % 30000) in str(s.model())


def fresh_pics(s, n):
    fresh_read(s, n)
    root = ET.Element('r')
    s.dev.to_pics(root)
    return str(n % 30000) in ET.tostring(root).decode()


FRESH = {'registers read': fresh_read, 'values written': fresh_write, 'ranges': fresh_range, 'data written': fresh_raw, 'addresses refused': fresh_refused, 'hosts, ports and files': fresh_host,
         'units': fresh_unit, 'errors': fresh_error, 'records': fresh_record, 'paths': fresh_paths, 'maps': fresh_map, 'texts': fresh_show, 'PICS': fresh_pics}
FULL = 1100                                 # a cache of up to so many entries is no accumulation


OPS = {
    'read': op_read, 'assign': op_assign, 'write': op_write, 'point write': op_point_write, 'scan': op_scan, 'connect': op_connect, 'disconnect': op_disconnect,
    'raw read': op_raw, 'raw write': op_raw_write, 'show': op_show, 'load': op_load,
    'silent read': failing(op_read, {('reply', 1): 'drop'}), 'refused read': failing(op_read, {('reply', 0): ('exc', 2)}),
    'cut scan': failing(op_scan, {('reply', 3): 'drop', ('recv', 5): 'reset'}), 'failing write': failing(op_assign_write, {('reply', 0): 'drop'}),
    'no connection': failing(op_scan, {('connect', 0): 'refused'}), 'other client': other(client.ClientDevice), 'other scripting': other(client.SunSpecClientDevice),
    'same unit': other(client.ClientDevice, 1), 'other fails': failing(other(client.SunSpecClientDevice), {('reply', 2): 'drop'}),
    'mismatch': lambda s: other(client.ClientDevice, **({'baudrate': 1200} if s.t == 'rtu' else {'timeout': 0.5}))(s),
    'elsewhere': op_elsewhere, 'port': op_port, 'traced': op_traced, 'record': op_record, 'map': op_map, 'pics': op_pics, 'definitions': op_definitions,
    'unknown': op_unknown, 'paths': op_paths,
}


def outcome(r):
    k, v = r
    return repr(v) if k == 'ok' else '%s: %s' % (type(v).__name__, v)


PRIMITIVE = (type(None), bool, int, float, complex)


def footprint(roots):
    """Number of things reachable from the library's modules and the roots (elements of containers, characters of texts)."""
    seen = set()
    n = 0
    todo = list(roots)
    for name, m in list(sys.modules.items()):
        if name.split('.')[0] == 'sunspec' and m is not None:
            todo.append({k: v for k, v in vars(m).items() if not k.startswith('__')})
    keep = [todo[:]]
    while todo:
        x = todo.pop()
        n += 1
        if isinstance(x, PRIMITIVE):
            continue
        if isinstance(x, (str, bytes, bytearray)):
            n += len(x) >> 4            # a text that grows, not a number in it
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        mod = getattr(type(x), '__module__', '') or ''
        if isinstance(x, types.ModuleType) or mod.startswith('mc.'):
            continue
        if isinstance(x, type):
            if x.__module__.startswith('sunspec'):
                todo += list(vars(x).values())
            continue
        if isinstance(x, types.FunctionType):
            if (x.__module__ or '').startswith('sunspec'):
                todo += list(x.__defaults__ or ()) + list((x.__kwdefaults__ or {}).values()) + list(vars(x).values())
                for c in x.__closure__ or ():
                    try:
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
            continue
        if isinstance(x, dict):
            todo += list(x.keys()) + list(x.values())
        elif isinstance(x, (list, tuple, set, frozenset)) or type(x).__name__ == 'deque':
            todo += list(x)
        elif isinstance(x, property):
            todo += [x.fget, x.fset]
        elif isinstance(x, types.MethodType):
            todo += [x.__self__, x.__func__]
        d = getattr(x, '__dict__', None)
        if isinstance(d, dict):
            todo += list(d.values())
    del keep
    return n


def measure(s):
    gc.collect()
    return {'things reachable from the library': footprint([s.dev, s.script]), 'objects alive': len(gc.get_objects()),
            'open connections': len(world.fds), 'open ports': len(world.handles), 'open files': len(os.listdir('/proc/self/fd')), 'threads': threading.active_count(),
            'environment and module search': len(os.environ) + len(sys.path) + len(sys.modules)}


def quiet(f, *a):
    out = sys.stdout
    sys.stdout = null[0]
    try:
        return call(f, *a)
    finally:
        sys.stdout = out


null = [open(os.devnull, 'w')]


WIRED = ('read', 'assign write', 'refused read', 'point write', 'scan', 'other client', 'other scripting', 'connect')


DEEP = (('tcp', False), ('rtu', True), ('tcp connected', True))


def families(tier):
    thorough = tier == 'thorough'

    def cases():
        for t in TRANSPORTS:
            names = [n for n in OPS if t.startswith('tcp') or n not in ('connect', 'disconnect', 'no connection')]
            for script in (False, True):
                for k in range(1, 4 if thorough and (t, script) in DEEP else 3):
                    for c in itertools.product(names, repeat=k):
                        yield [t, script, list(c)]

    def run(case):
        t, script, cycle = case
        s = Subject(t, script)
        what = '%s %s device, repeating %s' % (t, 'scripting' if script else 'client', ' / '.join(cycle))
        gc.collect()
        gc.freeze()
        try:
            before = sizes = None
            warm = max(1, len(cycle))           # what is in one place reaches the next in a later lap
            for lap in range(warm + LAPS):
                now = []
                for name in cycle:
                    n, at = len(world.requests), world.clock
                    r = quiet(OPS[name], s)
                    now.append((name, outcome(r), [(q.unit, bytes(q.pdu)) for q in world.requests[n:]], round(world.clock - at, 6)))
                    del r
                s.trim()
                if lap > warm:
                    for x, y in zip(before, now):
                        if x != y:
                            raise Violation('%s: in lap %d %s gives %r, in the lap before %r' % (what, lap + 1, x[0], y[1:], x[1:]), 'differs between laps')
                before = now
                m = measure(s)
                if sizes is None:
                    sizes = {k: [] for k in m}
                for k in m:
                    sizes[k].append(m[k])
            for k, v in sizes.items():
                check(not v[warm] < v[warm + 1] < v[warm + 2], '%s: %s after each lap: %r' % (what, k, v), 'accumulates: ' + k)
            s.dev.close()
        finally:
            gc.unfreeze()
            modbus.modbus_rtu_clients.clear() if isinstance(getattr(modbus, 'modbus_rtu_clients', None), dict) else None
        return Obs(steps=(warm + LAPS) * len(cycle), outcome=case)

    def fresh_cases():
        for t in TRANSPORTS:
            for script in (False, True):
                for name in FRESH:
                    yield [t, script, name]

    def fresh_run(case):
        """Something new every time."""
        t, script, name = case
        s = Subject(t, script)
        what = '%s %s device, always new %s' % (t, 'scripting' if script else 'client', name)
        sizes = {}
        try:
            for n in range(1000, 1000 + FULL + 6 * 50):
                check(quiet(FRESH[name], s, n) == ('ok', True), '%s: the %dth does not give what it should' % (what, n - 999), 'wrong result')
                s.trim()
                if n % 100 == 0:
                    core.still_going()
                k = n - 999 - FULL
                if k >= 0 and k % 50 == 0:
                    m = measure(s)
                    m['memory blocks'] = sys.getallocatedblocks()
                    for x in m:
                        sizes.setdefault(x, []).append(m[x])
            for k, v in sizes.items():
                check(not all(b - a >= (50 if k == 'memory blocks' else 1) for a, b in zip(v[1:], v[2:])), '%s: %s after 50 each: %r' % (what, k, v), 'accumulates: ' + k)
            s.dev.close()
        finally:
            modbus.modbus_rtu_clients.clear() if isinstance(getattr(modbus, 'modbus_rtu_clients', None), dict) else None
        return Obs(steps=FULL + 300, outcome=case)

    def long_cases():
        for t in TRANSPORTS:
            for script in (False, True):
                for name in OPS:
                    if t.startswith('tcp') or name not in ('connect', 'disconnect', 'no connection'):
                        yield [t, script, name, 'requests' if name in ('raw read', 'raw write') or thorough and name in WIRED else 'times']

    def long_run(case):
        """One operation again and again, until the counters of a byte (and, for requests, of a word) are full."""
        t, script, name, until = case
        s = Subject(t, script)
        what = '%s %s device, %s again and again' % (t, 'scripting' if script else 'client', name)
        total, first, n = 0, None, 0
        try:
            while n < 600 if until == 'times' else (total if t != 'mapped' else n) < 66000:
                at = world.clock
                r = quiet(OPS[name], s)
                now = (r[0], r[1] if r[0] == 'ok' else (type(r[1]).__name__, str(r[1])), [(q.unit, bytes(q.pdu)) for q in world.requests], round(world.clock - at, 6))
                n += 1
                total += len(world.requests)
                if n == 5:
                    first = now
                elif n > 5 and now != first:
                    raise Violation('%s: the %dth time (request %d) gives %r, before %r' % (what, n, total, now, first), 'differs between laps')
                s.trim()
                if n % 500 == 0:
                    core.still_going()
                    if not world.requests and n > 70000:
                        break
            s.dev.close()
        finally:
            modbus.modbus_rtu_clients.clear() if isinstance(getattr(modbus, 'modbus_rtu_clients', None), dict) else None
        return Obs(steps=n, outcome=case)

    return [Family('fresh', fresh_cases, fresh_run, setup, what='values, places and names never used before, again and again', bound='1400 of each of 13 kinds'),
            Family('long', long_cases, long_run, setup, what='one operation again and again', bound='66000 reads or writes of registers, 600 times of every other operation (thorough: 66000 requests)'),
            Family('cycles', cases, run, setup, what='cyclic programs', bound='all cycles of up to %d of %d operations, %d laps after warming up' % (3 if thorough else 2, len(OPS), LAPS))]
