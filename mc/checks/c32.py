import copy
import decimal
import gc
import itertools
import locale
import logging
import os
import random
import signal
import socket
import ssl
import sys
import threading
import time
import xml.etree.ElementTree as ET

from .. import core, ref, rig, wire
from ..core import Family, HarnessError, Obs, Violation, call, check, eq
from ..ref import P
from ..wire import SimDevice, world

import sunspec.core.data as sdata
import sunspec.core.device as device
import sunspec.core.client as client
import sunspec.core.pics as pics
import sunspec.core.util as util
import sunspec.core.modbus.client as modbus
import sunspec.core.modbus.mbmap as mbmap

PROP, LEVEL = 'C32', 'model_checking'
TECHNIQUE = ('exhaustive exploration of all interleavings of the operation histories of two objects, for every pair of kinds of object, on the real code; '
             'every result and every final state compared with that of the history alone, and everything passed in compared with what it was')
RULE = 'one evaluation per (kinds, two histories, interleaving); distinct by that tuple'
BOUNDS = ('14 kinds of object; two objects of one kind: all pairs of histories of creation and up to 2 (together 3) of 4 to 8 operations (thorough: also 3 and 1, 2 and 2), every interleaving; '
          'two objects of different kinds: creation and 1 operation (thorough: 2 of one of them)')
ASSUMPTIONS = ['objects that are told to use the same registers, the module-wide path list, and a list that a path list was created from share these on purpose']

A = ref.Model(64901, [P('A', 'int16', sf='SF', access='rw'), P('E', 'enum16', symbols=[('ON', 1), ('OFF', 2)]), P('SF', 'sunssf')],
              [P('V', 'int16', sf='-1', access='rw')], name='one', block_name='ch')
# another definition of the same model
A2 = ref.Model(64901, [P('X', 'int16', access='rw'), P('Y', 'enum16', symbols=[('ON', 3), ('LOW', 4)]), P('Z', 'uint16')],
               [P('Q', 'uint16', access='rw')], name='two', block_name='phase')
B = ref.Model(64902, [P('K', 'uint32', access='rw')], name='small')
dirs = []


def setup():
    del dirs[:]
    for i, models in enumerate(([A, B], [A2, B])):
        d = core.scratch_dir('defs%d' % i)
        for m in models:
            m.write(d)
        with open(os.path.join(d, 'note.txt'), 'w') as f:
            f.write('note %d' % i)
        dirs.append(d)
    rig.use_dir(dirs[0])
    with open(os.path.join(dirs[0], 'map.xml'), 'w') as f:
        f.write(ref.mbmap_xml(ref.image(40000, chain(3))))


def one(b, p, n):
    if p.type == 'sunssf':
        return ref.encode('sunssf', -2)


def chain(k):
    return [(A.id, A.length(2), ref.fill(A, 2, k, one)), (B.id, B.length(0), ref.fill(B, 0, k))]


def xml(e):
    return ET.tostring(e).decode()


class Shared(object):
    """What is passed to both objects: it must come out as it went in."""

    def __init__(self):
        world.reset()
        self.record = ET.fromstring('<sunSpecData v="1"><d lid="1" man="m" t="2020-01-01T00:00:00Z"><m id="1" x="2"><p id="A" index="3" sf="2">5</p></m></d></sunSpecData>')
        self.map = ET.fromstring('<mbmap addr="100" func="holding"><regs offset="0" len="2" type="s32" access="rw">77</regs><regs offset="4" type="string" len="3" '
                                 'access="rw">ab</regs></mbmap>')
        dev = device.Device(addr=40000)
        m = device.Model(dev, A.id, 40004, A.length(2))
        m.load()
        for i, b in enumerate(m.blocks):
            for j, p in enumerate(b.points_list):
                p.value_base = 1
        dev.add_model(m)
        root = ET.Element(pics.PICS_ROOT)
        dev.to_pics(root, single_repeating=False)
        self.pics = root.find(pics.PICS_DEVICE) if root.find(pics.PICS_DEVICE) is not None else root
        self.pathlist = util.PathList([dirs[0]])
        self.bases = [10, 40000]
        self.smdx = [ET.parse(os.path.join(d, 'smdx_%05d.xml' % A.id)).getroot() for d in dirs]
        # two devices behind one address, two on one serial port
        self.sims = {t: [SimDevice(ref.image(40000, chain(50 * n + 3))) for n in (0, 1)] for t in ('tcp', 'rtu')}
        world.tcp[('10.0.0.9', 502)] = {1: self.sims['tcp'][0], 2: self.sims['tcp'][1]}
        world.ports['/dev/both'] = {1: self.sims['rtu'][0], 2: self.sims['rtu'][1]}

    def state(self):
        return [xml(self.record), xml(self.map), xml(self.pics), list(self.pathlist.path), list(self.bases), [xml(e) for e in self.smdx],
                list(device.file_pathlist.path)]


def values(dev):
    return [(m.id, m.index, m.len, str(m.load_error),
             [[(pid, p.value_base, p.value_sf, p.value, p.dirty) for pid, p in b.points.items()] for b in m.blocks]) for m in dev.models_list]


class Kind(object):
    ops = ()

    def __init__(self, sh, n):
        self.sh, self.n = sh, n
        self.make()

    def final(self):
        return None

    def end(self):
        pass


class PathLists(Kind):
    ops = ('add first', 'add second', 'read', 'show')

    def make(self):
        self.o = util.PathList() if self.n == 0 else util.PathList([dirs[1]])

    def do(self, op):
        if op == 'read':
            return self.o.read('note.txt')
        if op == 'show':
            return str(self.o)
        self.o.add(dirs[op == 'add second'] + '/' * self.n)

    def final(self):
        return list(self.o.path)


class Maps(Kind):
    ops = ('add', 'add after', 'load element', 'load file', 'write', 'read', 'export')

    def make(self):
        self.o = mbmap.ModbusMap(base_addr=100 * self.n)

    def do(self, op):
        o, n = self.o, self.n
        if op == 'add':
            o.regs_add(offset=n, count=2 + n)
            return
        if op == 'add after':
            o.regs_add(offset=8, count=2)
            return
        if op == 'load element':
            return o.from_xml(element=self.sh.map)
        if op == 'load file':
            return o.from_xml(filename='map.xml', pathlist=self.sh.pathlist)
        if op == 'write':
            return o.write(int(o.base_addr) + n, bytes([n, 1, 2, 3 + n]))
        if op == 'read':
            return o.read(int(o.base_addr) + n, 2)
        e = ET.Element('root')
        o.to_xml(e)
        return xml(e)

    def final(self):
        return self.o.func, self.o.base_addr, [(r.offset, r.count, r.data, r.access) for r in self.o.regs]


class Records(Kind):
    ops = ('add device', 'add model', 'add point', 'load element', 'load text', 'export', 'text')

    def make(self):
        self.o = sdata.SunSpecData()

    def do(self, op):
        o, n = self.o, self.n
        if op == 'add device':
            o.device_add(logger_id='L%d' % n, man='man%d' % n, timestamp=1000 + n)
        elif op == 'add model' and o.device_data:
            o.device_data[-1].model_add(1 + n, 2 + n)
        elif op == 'add point' and o.device_data and o.device_data[-1].model_data:
            o.device_data[-1].model_data[-1].point_add('P%d' % n, 3 + n, 2, 1)
        elif op == 'load element':
            o.from_xml(element=self.sh.record)
        elif op == 'load text':
            o.from_xml(data_record=xml(self.sh.record).replace('man="m"', 'man="n%d"' % n))
        elif op == 'export':
            e = ET.Element('root')
            o.to_xml(e)
            return xml(e)
        elif op == 'text':
            return o.to_xml_str(), o.to_xml_str(pretty_print=True)

    def final(self):
        return self.o.version, self.o.to_xml_str()


class Devices(Kind):
    """Core devices"""
    ops = ('load element', 'load other definitions', 'add model', 'assign', 'export', 'print', 'compare')

    def make(self):
        self.o = device.Device()

    def do(self, op):
        o, n = self.o, self.n
        if op == 'load element':
            return o.from_pics(element=self.sh.pics, pathlist=self.sh.pathlist)
        if op == 'load other definitions':
            return o.from_pics(element=self.sh.pics, pathlist=util.PathList([dirs[1]]))
        if op == 'add model':
            m = device.Model(o, A.id if n == 0 else B.id, 40004, A.length(1) if n == 0 else B.length(0))
            m.load()
            return o.add_model(m)
        if op == 'assign':
            for m in o.models_list:
                for b in m.blocks:
                    for p in b.points_list:
                        p.value = 2 + n
            return
        if op == 'export':
            e = ET.Element('root')
            o.to_pics(e, single_repeating=bool(n))
            return xml(e)
        if op == 'print':
            return str(o), [str(m) for m in o.models_list], [str(b) for m in o.models_list for b in m.blocks]
        d = device.Device()
        d.from_pics(element=self.sh.pics, pathlist=self.sh.pathlist)
        return bool(o.not_equal(d)), bool(d.not_equal(o))

    def final(self):
        return self.o.base_addr, values(self.o), sorted((k, len(v)) for k, v in self.o.models.items())


class Definitions(Kind):
    ops = ('load', 'load other', 'symbols', 'print', 'add symbol')

    def make(self):
        self.o = device.ModelType()

    def do(self, op):
        o = self.o
        if op.startswith('load'):
            return o.from_smdx(self.sh.smdx[(op == 'load other') ^ self.n])
        if op == 'symbols' and o.fixed_block:
            return [(p.id, [(s.id, s.value) for s in p.symbols]) for p in o.fixed_block.points_list]
        if op == 'print':
            return str(o) if o.fixed_block else None
        if op == 'add symbol' and o.fixed_block:
            s = device.Symbol('NEW%d' % self.n)
            s.value = str(70 + self.n)
            o.symbol_add(s, o.fixed_block.points_list[0].id)
            return o.symbol_get('NEW%d' % self.n, o.fixed_block.points_list[0].id) is s, o.symbol_get('NEW%d' % (1 - self.n), o.fixed_block.points_list[0].id)

    def final(self):
        o = self.o
        bs = [b for b in (o.fixed_block, o.repeating_block) if b]
        return o.id, o.len, o.name, [(b.name, b.len, [(p.id, p.type, p.sf, p.access, [(s.id, s.value) for s in p.symbols]) for p in b.points_list])
                                     for b in bs], sorted(map(str, o.symbols))


KINDS_OF = {'tcp': client.TCP, 'rtu': client.RTU, 'mapped': client.MAPPED}


def address(t, sh, n):
    if t == 'tcp':
        return 1 + n, {'ipaddr': '10.0.0.9'}
    if t == 'rtu':
        return 1 + n, {'name': '/dev/both'}
    return 1, {'name': 'map.xml', 'pathlist': sh.pathlist}


class Clients(Kind):
    ops = ('scan', 'scan with bases', 'read', 'assign', 'write', 'add base', 'values', 'close')
    t = None

    def make(self):
        u, a = address(self.t, self.sh, self.n)
        self.o = client.ClientDevice(KINDS_OF[self.t], u, **a)
        self.closed = False

    def do(self, op):
        o, n = self.o, self.n
        if op == 'close':
            self.closed = True
            return o.close()
        if self.closed and op in ('scan', 'scan with bases', 'read', 'write'):
            return
        if op == 'scan':
            return o.scan()
        if op == 'scan with bases':
            o.base_addr_list = self.sh.bases
            return o.scan()
        if op == 'read':
            o.read_points()
            return o.read(40000, 4)
        if op == 'assign':
            for m in o.models_list:
                b = m.blocks[-1]
                for p in b.points_list:
                    p.value = 5 + n
            return
        if op == 'write':
            for m in o.models_list:
                m.write_points()
            return
        if op == 'add base':
            if o.base_addr_list is not self.sh.bases:
                o.base_addr_list.append(60 + n)
            return list(o.base_addr_list)
        return values(o)

    def final(self):
        o = self.o
        return o.base_addr, list(o.base_addr_list), values(o), self.sim()

    def sim(self):
        if self.t == 'mapped':
            return [(r.offset, r.data) for r in self.o.modbus_device.modbus_map.regs] if self.o.modbus_device.modbus_map else None
        s = self.sh.sims[self.t][self.n]
        return sorted(s.regs.items()), s.log

    def end(self):
        if not self.closed:
            self.o.close()


class Scripts(Kind):
    ops = ('read', 'assign', 'write', 'print', 'names', 'scan again', 'close')
    t = None

    def make(self):
        u, a = address(self.t, self.sh, self.n)
        old = device.file_pathlist
        with device.fresh_file_pathlist(dirs[self.n]):
            self.o = client.SunSpecClientDevice(KINDS_OF[self.t], u, **a)
        check(device.file_pathlist is old, 'path list not restored', 'path list')
        self.closed = False

    def do(self, op):
        o = self.o
        if op == 'close':
            self.closed = True
            return o.close()
        if self.closed and op in ('scan again', 'read', 'write'):
            return
        w = o[o.models[0]]
        if op == 'read':
            o.read()
        elif op == 'assign':
            w[w.points[0]] = 4 + self.n
            b = w.repeating[2]
            setattr(b, b.points[0], 6 + self.n)
        elif op == 'write':
            w.write()
        elif op == 'print':
            return str(o), str(w), str(w.repeating[1])
        elif op == 'names':
            return o.models, w.name, list(w.points), [(p, getattr(w, p), w[p]) for p in w.points], w.repeating_name, \
                [(b.name, list(b.points), [(p, getattr(b, p)) for p in b.points]) for b in w.repeating[1:]], \
                [hasattr(w, p) for p in ('A', 'X', 'E', 'Y')], [hasattr(w.repeating[1], p) for p in ('V', 'Q')]
        elif op == 'scan again':
            o.device.scan()

    def final(self):
        o = self.o
        return o.models, values(o.device), [(p, o[o.models[0]][p]) for p in o[o.models[0]].points], \
            None if self.t == 'mapped' else (sorted(self.sh.sims[self.t][self.n].regs.items()), self.sh.sims[self.t][self.n].log)

    def end(self):
        if not self.closed:
            self.o.close()


class Modbus(Kind):
    ops = ('read', 'write', 'limit', 'trace', 'shown', 'connect', 'refused', 'close')
    t = None

    def make(self):
        u, a = address(self.t, self.sh, self.n)
        self.o = {'tcp': modbus.ModbusClientDeviceTCP, 'rtu': modbus.ModbusClientDeviceRTU, 'mapped': modbus.ModbusClientDeviceMapped}[self.t](u, **a)
        self.closed = False
        self.trace = []

    def do(self, op):
        o, n = self.o, self.n
        if op == 'close':
            self.closed = True
            return o.close()
        if self.closed and op not in ('limit', 'trace', 'shown'):
            return
        if op == 'read':
            return o.read(40000 + n, 6)
        if op == 'write':
            return o.write(40004, bytes([n, 7, n, 8]))
        if op == 'limit' and self.t != 'mapped':
            o.max_count = 2 + n
        if op == 'trace' and self.t != 'mapped':
            o.trace_func = self.trace.append
        if op == 'shown':
            return list(self.trace)
        if op == 'connect' and self.t == 'tcp':
            return o.connect(timeout=1.5 + n)
        if op == 'refused':
            return o.read(10, 2)

    def final(self):
        if self.t == 'mapped':
            return [(r.offset, r.data) for r in self.o.modbus_map.regs] if self.o.modbus_map else None
        s = self.sh.sims[self.t][self.n]
        return sorted(s.regs.items()), s.log, self.trace

    def end(self):
        if not self.closed:
            self.o.close()


def on(base, t):
    return type(base.__name__ + t, (base,), {'t': t})


KINDS = {'path list': PathLists, 'map': Maps, 'record': Records, 'device': Devices, 'definition': Definitions}
for _t in ('tcp', 'rtu', 'mapped'):
    KINDS['client ' + _t] = on(Clients, _t)
    KINDS['script ' + _t] = on(Scripts, _t)
    KINDS['modbus ' + _t] = on(Modbus, _t)


def observe(k, v):
    if k == 'ok':
        return 'ok', copy.deepcopy(v)
    return type(v).__name__, str(v)


def process():
    """What belongs to the program as a whole"""
    um = os.umask(0o22)
    os.umask(um)
    return {'default socket timeout': socket.getdefaulttimeout(), 'directory': os.getcwd(), 'environment': dict(os.environ), 'umask': um, 'module path': list(sys.path),
            'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(), 'locale': locale.setlocale(locale.LC_ALL),
            'signal handlers': [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM, signal.SIGHUP, signal.SIGCHLD)],
            'streams': [id(sys.stdin), id(sys.stdout), id(sys.stderr)], 'arguments': list(sys.argv), 'threads': threading.active_count(), 'random': hash(random.getstate()),
            'hooks': [sys.excepthook, sys.gettrace(), sys.getprofile(), threading.excepthook], 'collector': (gc.isenabled(), gc.get_threshold()), 'time zone': time.tzname,
            'decimals': str(decimal.getcontext()), 'log handlers': list(logging.getLogger().handlers), 'log level': (logging.getLogger().level, logging.root.manager.disable),
            'certificates': ssl._create_default_https_context}


def execute(plan):
    """plan: [(which, kind, n, operation or None for creation)]. Returns the observations and final states per object."""
    sh = Shared()
    before, was = sh.state(), process()
    objs, seen, dead = {}, {0: [], 1: []}, set()
    for w, kind, n, op in plan:
        if op is None:
            k, v = call(KINDS[kind], sh, n)
            if k == 'ok':
                objs[w] = v
            else:
                dead.add(w)
            seen[w].append((k, None if k == 'ok' else str(v)))
        elif w in objs:
            seen[w].append(observe(*call(objs[w].do, op)))
    for w in objs:
        seen[w].append(copy.deepcopy(objs[w].final()))
    after = sh.state()
    for w in objs:
        call(objs[w].end)
    for k, v in process().items():
        check(v == was[k], '%s of the process is %r after %s, before %r' % (k, v, [(kind, op) for _, kind, _, op in plan], was[k]), 'process state')
    left = len(world.open_fds()), len(world.open_handles())
    return seen, before, after, left


alone_memo = {}


def alone(kind, n, ops):
    key = (kind, n, ops)
    if key not in alone_memo:
        seen, before, after, left = execute([(0, kind, n, None)] + [(0, kind, n, op) for op in ops])
        if seen[0][0][0] != 'ok':
            raise Violation('creation of a %s: %s' % (kind, seen[0][0][1]), 'healthy operation fails')
        eq('arguments after %s of a %s' % (list(ops), kind), after, before)
        alone_memo[key] = seen[0]
    return alone_memo[key]


def shuffles(a, b):
    """All interleavings of a steps of the first and b of the second, as tuples of 0 and 1."""
    for pos in itertools.combinations(range(a + b), a):
        yield tuple(0 if i in pos else 1 for i in range(a + b))


def families(tier):
    thorough = tier == 'thorough'
    LIMIT = 4 if thorough else 3

    def histories(kind, depth):
        for d in range(depth + 1):
            for ops in itertools.product(KINDS[kind].ops, repeat=d):
                yield ops

    def together(x, y, first, second):
        outs = []
        ref_ = {0: alone(x, 0, first), 1: alone(y, 1, second)}
        for sh in shuffles(len(first) + 1, len(second) + 1):
            pos = [0, 0]
            plan = []
            for w in sh:
                kind, ops = ((x, first), (y, second))[w]
                plan.append((w, kind, w, None if pos[w] == 0 else ops[pos[w] - 1]))
                pos[w] += 1
            seen, before, after, left = execute(plan)
            what = ', '.join('%s %s: %s' % ('first' if w == 0 else 'second', kind, op or 'created') for w, kind, n, op in plan)
            for w in (0, 1):
                if not core.same(seen[w], ref_[w]):
                    i = [k for k in range(max(len(seen[w]), len(ref_[w]))) if k >= len(seen[w]) or k >= len(ref_[w]) or not core.same(seen[w][k], ref_[w][k])][0]
                    raise Violation('%s; step %d of the %s gives %r, alone %r' % (
                        what, i, ('first', 'second')[w], seen[w][i:i + 1], ref_[w][i:i + 1]), 'not independent: %s, %s' % (x, y))
            if not core.same(after, before):
                raise Violation('%s: what was passed in is modified: %r, before %r' % (what, after, before), 'argument modified')
            check(left == (0, 0), '%s: left open after closing both: %r' % (what, left), 'left open')
            outs.append((x, y, first, second, sh))
        return outs

    def cases():
        for kind in KINDS:
            for first in histories(kind, LIMIT - 1):
                yield [kind, list(first)]

    def run(c):
        kind, first = c
        outs = []
        for second in histories(kind, min(LIMIT - len(first), LIMIT - 1)):
            if len(first) == 1 and len(second) == 3:
                continue            # as three operations of the first and one of the second
            outs += together(kind, kind, tuple(first), second)
        return Obs(steps=sum(len(o[4]) for o in outs), execs=len(outs), outcomes=outs)

    def mixed_cases():
        for x in KINDS:
            for y in KINDS:
                if x != y:
                    for first in histories(x, 2 if thorough else 1):
                        yield [x, y, list(first)]

    def mixed_run(c):
        outs = []
        x, y, first = c
        for second in histories(y, 1):
            outs += together(x, y, tuple(first), second)
        return Obs(steps=sum(len(o[4]) for o in outs), execs=len(outs), outcomes=outs)

    return [
        Family('same kind', cases, run, setup, what='pairs of histories of two objects of one kind'),
        Family('different kinds', mixed_cases, mixed_run, setup, what='pairs of histories of objects of different kinds'),
    ]
