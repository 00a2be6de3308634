import gc
import itertools
import os
import sys
import xml.etree.ElementTree as ET
import zipfile

from .. import core, ref, rig, threads, wire, wmodel
from ..core import Family, HarnessError, Obs, Violation, call, check, eq, expect_ok
from ..rig import device, util
from ..wire import FakeSerial, FakeSocket, SimDevice, world

PROP, LEVEL = 'C29', 'fault_enumeration'
TECHNIQUE = ('exhaustive enumeration of interruption points: every operation on every transport is interrupted before and after every I/O call, sleep and '
             'callback it makes, singly and in pairs of operations, and the real objects are judged and used afterwards')
RULE = 'one evaluation per (operation, transport, interruption point, kind of interruption, what follows); distinct by that tuple'
BOUNDS = ('16 operations x 3 ways x every I/O call (before and after it) x 4 kinds of interruption x 3 operations that follow; pairs of interrupted operations '
          '(triples in the thorough tier, the first two interrupted before a call); every line of the library of every operation and of 7 uses of documents '
          '(quick: the first two and the last execution of each)')
ASSUMPTIONS = ['interruptions while a connection or port is being closed, and in the moment between the creation of a socket or port and its first use, are not judged',
               'a serial reply has arrived when the next request is made']


class Interrupt(BaseException):
    """As the timeouts of cooperative schedulers"""


KINDS = [KeyboardInterrupt, SystemExit, Interrupt, GeneratorExit]


class Points(object):
    """Counts the calls and interrupts one of them."""

    def __init__(self, at=None, when=None, exc=None):
        self.at, self.when, self.exc = at, when, exc
        self.n = 0
        self.log = []
        self.used = False

    def around(self, name, fn, *a, **k):
        i, self.n = self.n, self.n + 1
        self.log.append(name)
        if i == self.at and self.when == 'before':
            self.used = True
            raise self.exc
        r = fn(*a, **k)
        if i == self.at and self.when == 'after':
            self.used = True
            raise self.exc
        return r


points = None
SKIP_AFTER = ('open',)


def wrap(cls, name, label, orig):
    def fn(*a, **k):
        if points is None:
            return orig(*a, **k)
        return points.around(label, orig, *a, **k)
    fn.__name__ = name
    setattr(cls, name, fn)


def install():
    if getattr(wire, 'interruptible', False):
        return
    wire.interruptible = True
    for cls, names in ((FakeSocket, ('connect', 'send', 'recv')), (FakeSerial, ('open', 'write', 'read', 'reset_input_buffer'))):
        for n in names:
            wrap(cls, n, n, cls.__dict__[n])
    FakeSerial.flushInput = FakeSerial.reset_input_buffer
    import time
    wrap(time, 'sleep', 'sleep', time.sleep)


def setup():
    wmodel.setup()
    install()


def interrupted(fn, p):
    """Runs fn with the interruption. Returns the exception, or None if the point was not reached."""
    global points
    points = p
    try:
        fn()
    except BaseException as e:
        if isinstance(e, (HarnessError, Violation, core.Runaway)):
            raise
        return e
    finally:
        points = None
    return None


def healthy(what, fn, *a, **kw):
    k, v = call(lambda: fn(*a, **kw))
    if k != 'ok':
        raise Violation('%s: %s: %s' % (what, type(v).__name__, v), 'unusable after an interruption')
    return v


class AtLine(object):
    """Interrupts before the n-th line of the library that is executed, or counts the lines (with where they are)."""

    def __init__(self, at=None, exc=None):
        self.at, self.exc = at, exc
        self.n = 0
        self.where = []
        self.used = False
        self.raised = None
        self.handling = False

    def call(self, frame, event, arg):
        return self.line if threads.library(frame.f_code.co_filename) else None

    def line(self, frame, event, arg):
        if event == 'exception':
            self.raised = frame             # the line that follows enters its handler; the interpreter forgets to let go of the exception there
        elif event == 'line' and self.raised is frame:
            self.raised = None
        elif event == 'line':
            self.raised = None
            if self.at is None:
                self.where.append((frame.f_code.co_filename, frame.f_lineno))
            elif self.n == self.at:
                self.used = True
                # inside a handler the interpreter may not let go of the exception handled when interrupted by a tracing function
                self.handling = sys.exc_info()[1] is not None
                self.where.append('%s line %d' % (frame.f_code.co_name, frame.f_lineno))
                sys.settrace(None)
                raise self.exc
            self.n += 1
        return self.line

    def run(self, fn):
        e = None
        sys.settrace(self.call)
        try:
            fn()
        except BaseException as x:
            if isinstance(x, (HarnessError, Violation, core.Runaway)):
                raise
            e = x
        finally:
            sys.settrace(None)
        return e


WAYS = [('tcp', False), ('tcp', True), ('rtu', None)]


def answer(*a):
    """A callback of the user, interruptible too."""
    if points is not None:
        points.around('callback', lambda: None)
    return True


class Subject(object):
    """A device with modifications pending, and what it must hold."""

    def __init__(self, way, script=False):
        t, conn = WAYS[way]
        self.t, self.conn = t, conn
        self.sim = wmodel.sim_device()
        kind = rig.client.TCP if t == 'tcp' else rig.client.RTU
        world.reset()
        self.args = rig.attach(self.sim, t)
        self.wrapper = None
        if script:
            self.wrapper = rig.client.SunSpecClientDevice(kind, 1, **self.args)
            self.dev = self.wrapper.device
        else:
            self.dev = rig.client.ClientDevice(kind, 1, **self.args)
            self.dev.scan()
        self.mod = self.dev.models_list[1]
        self.mod.read_points()
        self.dev.models_list[0].read_points()
        self.dev.models_list[2].read_points()
        if conn:
            self.dev.modbus_device.connect()
        self.pending = {}
        self.other = None
        if t == 'rtu':               # another device on the same port
            self.sim2 = SimDevice({0: 4711})
            world.ports[self.args['name']][2] = self.sim2
            self.other = rig.modbus.ModbusClientDeviceRTU(2, self.args['name'])

    def dirty(self):
        for k in (wmodel.KEYS[0], wmodel.KEYS[3], wmodel.KEYS[4], wmodel.KEYS[6], wmodel.KEYS[-1]):
            raw = wmodel.raw_value(k, 1)
            sf = self.point(k).value_sf
            self.point(k).value = raw * 10.0 ** sf if sf else raw
            off, p = wmodel.POINTS[k]
            for i, w in enumerate(ref.words(ref.encode(p.type, raw, p.len))):
                self.pending[wmodel.ADDR0 + off + i] = w

    def point(self, k):
        return self.mod.blocks[k[0]].points[k[1]]

    def values(self):
        return [(m.id, b.index, q.point_type.id, q.value_base, q.value_sf) for m in self.dev.models_list for b in m.blocks
                for q in b.points_list + [b.points_sf[k] for k in sorted(b.points_sf)]]

    def change(self):
        """New contents in every value register, so that an old reply shows."""
        inst = {wmodel.ADDR0 + off + i for b, p, off in wmodel.W.points(wmodel.REPEATS) if p.type == 'sunssf' for i in range(p.len)}
        lo, hi = wmodel.ADDR0, wmodel.ADDR0 + wmodel.W.length(wmodel.REPEATS)
        for a in range(lo, hi):
            if a not in inst and a not in self.pending:
                self.sim.regs[a] = (self.sim.regs[a] + 3) & 0x7fff

    def judge_read(self, what):
        """Registers read now are those of the device."""
        lo, n = wmodel.ADDR0, wmodel.W.length(wmodel.REPEATS)
        data = healthy(what + ': read that follows', self.dev.read, lo, n)
        eq(what + ': registers read afterwards', ref.words(data), [self.sim.regs[lo + i] for i in range(n)])

    def judge_rest(self, what):
        if self.other is not None:
            eq(what + ': the other device on the port', healthy(what + ': other device', self.other.read, 0, 1), b'\x12\x67')
        if self.t == 'tcp' and not self.conn:
            check(not world.open_fds(), what + ': a connection stays open', 'left open')
        check(len(world.open_fds()) <= 1, what + ': more than one connection open', 'left open')

    def close(self, what):
        healthy(what + ': close', self.dev.close)
        if self.other is not None:
            healthy(what + ': close', self.other.close)
        check(not world.open_fds() and not world.open_handles(), what + ': open after close', 'left open')


def arguments(way):
    t = WAYS[way][0]
    world.reset()
    a = rig.attach(wmodel.sim_device(), t)
    return (rig.client.TCP if t == 'tcp' else rig.client.RTU), a


# operations on a Subject; `read` operations must leave the values as they were when interrupted
OPS = {
    'scan': lambda s: s.dev.scan,
    'scan with delay': lambda s: lambda: s.dev.scan(progress=answer, delay=0.5),
    'device read': lambda s: s.dev.read_points,
    'model read': lambda s: s.mod.read_points,
    'model write': lambda s: s.mod.write_points,
    'point write': lambda s: s.point(wmodel.KEYS[3]).write,
    'read': lambda s: lambda: s.dev.read(wmodel.ADDR0 - 4, 9),
    'read as long as the next': lambda s: lambda: s.dev.read(wmodel.ADDR0 - 4, wmodel.W.length(wmodel.REPEATS)),
    'write': lambda s: lambda: s.dev.write(wmodel.ADDR0, b'\0\7\0\x08'),
    'modbus read in parts': lambda s: lambda: limited(s, 2).read(wmodel.ADDR0, 5),
    'modbus write in parts': lambda s: lambda: limited(s, 1).write(wmodel.ADDR0, b'\0\1\0\2\0\3'),
    'traced read': lambda s: lambda: traced(s).read(wmodel.ADDR0, 5),
    'script read': lambda s: s.wrapper.read,
    'script model read': lambda s: s.wrapper.wide.read,
    'script model write': lambda s: s.wrapper.wide.write,
    'connect': lambda s: s.dev.modbus_device.connect,
}
CONSTRUCT = ['client device', 'scripting device', 'modbus device']
READS = ('device read', 'model read', 'read', 'read as long as the next', 'script read', 'script model read')


def limited(s, n):
    s.dev.modbus_device.max_count = n
    return s.dev.modbus_device


def traced(s):
    s.dev.modbus_device.trace_func = answer
    return s.dev.modbus_device


def restore(s):
    s.dev.modbus_device.max_count = 125
    s.dev.modbus_device.trace_func = None


FOLLOW = ['read', 'write', 'scan', 'read model', 'close']


def follow(s, kind, what):
    w = '%s, then %s' % (what, kind)
    if kind == 'read':
        s.change()
        s.judge_read(w)
    elif kind == 'read model':
        s.change()
        mods = [m for m in s.dev.models_list if m.id == wmodel.W.id]
        if not mods:              # a scan did not come this far
            return
        mod = mods[0]
        healthy(w, mod.read_points)
        want = wmodel.W.expect(s.sim.regs, wmodel.ADDR0, wmodel.REPEATS)
        for k, (raw, sf, v) in want.items():
            p = mod.blocks[k[0]].points[k[1]]
            check(p.value == v or (isinstance(v, float) and abs(p.value - v) <= 1e-9 * abs(v)),
                  '%s: %s is %r, the device holds %r' % (w, k, p.value, v), 'value afterwards')
    elif kind == 'write':
        if s.pending:
            healthy(w, s.mod.write_points)
            got = {a: s.sim.regs[a] for a in s.pending}
            eq(w + ': modifications in the device', got, s.pending)
        else:
            healthy(w, s.dev.write, wmodel.ADDR0, b'\x01\x02\x03\x04')
            eq(w + ': registers', [s.sim.regs[wmodel.ADDR0 + i] for i in range(2)], [0x0102, 0x0304])
    elif kind == 'scan':
        healthy(w, s.dev.scan)
        eq(w + ': models', [(m.id, m.index, int(m.addr)) for m in s.dev.models_list],
           [(wmodel.NEIGHBOUR.id, 1, 40004), (wmodel.W.id, 1, wmodel.ADDR0), (wmodel.NEIGHBOUR.id, 2, wmodel.ADDR0 + wmodel.W.length(wmodel.REPEATS) + 2)])


def applicable(op, way):
    return not (op == 'connect' and WAYS[way][0] != 'tcp')


def one(op, way, p, what):
    """One interrupted operation on a fresh subject. Returns the subject, or None when the point was not reached."""
    s = Subject(way, script=op.startswith('script'))
    if op.endswith('write') and op not in ('write',):
        s.dirty()
    again(s, op, p, what)
    return s


def again(s, op, p, what):
    before = s.values()
    fn = OPS[op](s)
    e = interrupted(fn, p)
    restore(s)
    if not p.used:
        if e is not None:
            raise Violation('%s: fails without an interruption: %s: %s' % (what, type(e).__name__, e), 'healthy operation fails')
        return
    check(e is p.exc, '%s: the caller sees %s (%s) instead of the interruption' % (what, type(e).__name__, e), 'interruption hidden')
    if op in READS:
        check(s.values() == before, what + ': values changed in part', 'torn read')
    if s.t == 'tcp' and not s.conn:
        check(not world.open_fds(), what + ': a connection stays open', 'left open')


LIMIT = 80
LINE_PARTS = 8
SEQ_PARTS = 8
dirs = {}


def snapshot(d):
    return [(m.id, m.index, m.addr, m.load_error, [(b.index, q.point_type.id, q.value_base, q.value_sf, q.value) for b in m.blocks for q in b.points_list])
            for m in d.models_list]


def load_definition(d):
    t = device.model_type_get(wmodel.W.id)
    return str(t), [(b.type, b.len, [(q.id, q.type, q.offset) for q in b.points_list]) for b in (t.fixed_block, t.repeating_block)]


def load_element(d):
    t = device.ModelType()
    name = [n for n in sorted(os.listdir(d)) if n.startswith('smdx')][0]
    t.from_smdx(ET.parse(os.path.join(d, name)).getroot())
    return str(t)


def load_device(d):
    x = device.Device()
    x.from_pics(filename='doc.xml', pathlist=util.PathList([d]))
    root = ET.Element('r')
    x.to_pics(root)
    return snapshot(x), ET.tostring(root), str(x)


def load_map(d):
    m = rig.mbmap.ModbusMap(1)
    m.from_xml('map.xml', util.PathList([d]))
    h = rig.mbmap.ModbusMap(1)
    h.from_hex(os.path.join(d, 'map.hex'))
    return ET.tostring(m.to_xml()), [(r.offset, r.data) for r in h.regs]


def load_mapped(d):
    x = rig.client.SunSpecClientDevice(rig.client.MAPPED, 1, name=os.path.join(d, 'map.xml'))
    x.read()
    x.close()
    return snapshot(x.device), str(x)


def load_record(d):
    r = rig.data.SunSpecData()
    e = r.device_add('u', 'man', timestamp=1000)
    e.model_add(wmodel.W.id).point_add('A', 3, sf=-1)
    t = r.to_xml_str(pretty_print=True)
    back = rig.data.SunSpecData()
    back.from_xml(ET.fromstring(t))
    return t, back.to_xml_str()


def load_paths(d):
    p = util.PathList([d])
    p.add(os.path.join(d, 'z.zip', 'in'))
    return p.read('note.txt'), p.read('doc.xml')


LOADS = {'definition': load_definition, 'definition element': load_element, 'device document': load_device, 'map': load_map, 'mapped device': load_mapped,
         'record': load_record, 'paths': load_paths}


def families(tier):
    thorough = tier == 'thorough'

    def cases():
        for op in OPS:
            for way in range(len(WAYS)):
                if applicable(op, way):
                    for when in ('before', 'after'):
                        for x in range(len(KINDS)):
                            for f in FOLLOW:
                                yield [op, way, when, x, f]

    def run(c):
        op, way, when, x, f = c
        outs = []
        for i in range(LIMIT):
            exc = KINDS[x]('interrupted')
            p = Points(i, when, exc)
            what = '%s (%s) interrupted %s call %d by %s' % (op, WAYS[way], when, i, KINDS[x].__name__)
            s = one(op, way, p, what)
            if not p.used:
                break
            what += ' (%s)' % p.log[i]
            if f != 'close':
                follow(s, f, what)
                s.judge_rest(what)
            s.close(what)
            outs.append((c, i))
        else:
            raise HarnessError('too many calls in %s' % (c,))
        return Obs(steps=2 * len(outs), execs=len(outs), outcomes=outs)

    def build_cases():
        for kind in CONSTRUCT:
            for t in (0, 2):
                for when in ('before', 'after'):
                    for x in range(len(KINDS)):
                        yield [kind, t, when, x]

    def build_run(c):
        kind, way, when, x = c
        outs = []
        for i in range(LIMIT):
            ct, a = arguments(way)
            exc = KINDS[x]('interrupted')
            p = Points(i, when, exc)
            what = 'construction of a %s (%s) interrupted %s call %d by %s' % (kind, WAYS[way][0], when, i, KINDS[x].__name__)
            made = []
            fn = {'client device': lambda: made.append(rig.client.ClientDevice(ct, 1, **a)),
                  'scripting device': lambda: made.append(rig.client.SunSpecClientDevice(ct, 1, scan_progress=answer, scan_delay=0.5, **a)),
                  'modbus device': lambda: made.append((rig.modbus.ModbusClientDeviceTCP if ct == rig.client.TCP else rig.modbus.ModbusClientDeviceRTU)(1, **a))}[kind]
            e = interrupted(fn, p)
            if not p.used:
                check(e is None, '%s: %r' % (what, e), 'healthy operation fails')
                break
            what += ' (%s)' % p.log[i]
            check(e is exc, '%s: the caller sees %s (%s)' % (what, type(e).__name__, e), 'interruption hidden')
            outs.append((c, i))
            if p.log[i] == 'open' and when == 'after':
                continue
            check(not world.open_fds(), what + ': leaves a connection open', 'left open')
            check(not world.open_handles(), what + ': leaves the port open', 'left open')
            if ct == rig.client.RTU:
                b = healthy(what + ': opening the port with other settings', rig.modbus.ModbusClientDeviceRTU, 1, a['name'], 38400, 'E')
                eq(what + ': settings of the port', [(h.baudrate, h.parity) for h in world.open_handles()], [(38400, 'E')])
                b.close()
            d = healthy(what + ': second attempt', rig.client.SunSpecClientDevice, ct, 1, **a)
            d.read()
            eq(what + ': second attempt', d.models, ['neighbour', 'wide'])
            d.close()
        else:
            raise HarnessError('too many calls in %s' % (c,))
        return Obs(steps=2 * len(outs), execs=len(outs), outcomes=outs)

    # several interrupted operations on one object
    SEQ = ['model read', 'model write', 'read as long as the next', 'write', 'scan']

    def seq_cases():
        for way in range(len(WAYS)):
            for ops in itertools.product(SEQ, repeat=3 if thorough else 2):
                if ops[-1] == 'scan' and 'model write' in ops:
                    continue
                for f in ('read', 'write'):
                    for part in range(SEQ_PARTS if thorough else 1):
                        yield [way, list(ops), f, part]

    def seq_run(c):
        way, ops, f, part = c
        n = 0
        todo = [()]
        outs = []
        # depth first over the points of each operation, given those of the operations before
        while todo:
            pre = todo.pop()
            k = len(pre)
            i, step = (part, SEQ_PARTS if thorough else 1) if not k else (0, 1)
            while True:
                for when in ('before', 'after') if len(ops) < 3 or k == 2 else ('before',):
                    plan = pre + ((i, when),)
                    s = Subject(way)
                    s.dirty()
                    used = True
                    what = ''
                    for op, (j, w) in zip(ops, plan):
                        exc = KeyboardInterrupt('interrupted')
                        p = Points(j, w, exc)
                        what += '%s%s interrupted %s call %d' % (', then ' if what else '%s: ' % (WAYS[way],), op, w, j)
                        if op == 'scan':
                            s.pending = {}       # the model objects are replaced
                        if op == 'write':
                            s.pending.pop(wmodel.ADDR0, None)
                        again(s, op, p, what)
                        used = p.used
                        n += 1
                    if not used:
                        break
                    if k + 1 < len(ops):
                        todo.append(plan)
                        continue
                    if f == 'write' and ('scan' in ops or 'write' in ops):
                        s.pending = {}
                    follow(s, f, what)
                    s.judge_rest(what)
                    s.close(what)
                    outs.append((c, plan))
                if not used:
                    break
                i += step
                if i > LIMIT:
                    raise HarnessError('too many calls in %s' % (c,))
        return Obs(steps=n, execs=len(outs), outcomes=outs)

    # interrupted before every line of the library
    def picked(where):
        """Quick: the first two executions of each line and the last one."""
        if thorough:
            return list(range(len(where)))
        seen, out = {}, set()
        for i, w in enumerate(where):
            seen.setdefault(w, []).append(i)
        for l in seen.values():
            out.update(l[:2] + l[-1:])
        return sorted(out)

    def line_cases():
        for op in OPS:
            for way in range(len(WAYS)):
                if applicable(op, way):
                    for part in range(LINE_PARTS):
                        yield [op, way, part]

    def subject(op, way):
        s = Subject(way, script=op.startswith('script'))
        if op.endswith('write') and op != 'write':
            s.dirty()
        return s

    def line_run(c):
        op, way, part = c
        s = subject(op, way)
        p = AtLine()
        e = p.run(OPS[op](s))
        check(e is None, '%s (%s): %r' % (op, WAYS[way], e), 'healthy operation fails')
        todo = picked(p.where)
        outs = []
        for i in todo[part::LINE_PARTS]:
            s = subject(op, way)
            p = AtLine(i, KeyboardInterrupt('interrupted'))
            e = p.run(OPS[op](s))
            restore(s)
            if not p.used:
                raise HarnessError('%s: line %d not reached again' % (c, i))
            what = '%s (%s) interrupted before %s (%d)' % (op, WAYS[way], p.where[0], i)
            check(e is p.exc, '%s: the caller sees %s (%s) instead of the interruption' % (what, type(e).__name__, e), 'interruption hidden')
            if s.t == 'tcp' and (not s.conn or op == 'connect' or 'scan' in op):
                healthy(what + ': disconnect', s.dev.modbus_device.disconnect)
                s.conn = False
            for f in ('read', 'write', 'read model', 'scan', 'read model'):
                follow(s, f, what)
                if f == 'scan':
                    s.mod = s.dev.models_list[1]
            s.judge_rest(what)
            s.close(what)
            outs.append((c, i))
        return Obs(steps=7 * len(outs), execs=len(outs), outcomes=outs)

    def load_setup():
        setup()
        d = core.scratch_dir('c29')
        wmodel.W.write(d)
        with open(os.path.join(d, 'doc.xml'), 'w') as f:
            f.write('<sunSpecPics v="1"><device addr="40000"><model id="%d"><block><point id="A">5</point><point id="SF">-1</point><point id="X" sf="-1">7</point></block>'
                    '<block type="repeating" index="1"><point id="Z">3</point></block></model></device></sunSpecPics>' % wmodel.W.id)
        with open(os.path.join(d, 'map.xml'), 'w') as f:
            f.write(ref.mbmap_xml(wmodel.sim_device().regs))
        with open(os.path.join(d, 'map.hex'), 'w') as f:
            f.write('# header\n01 02 03 04\n05 06\n')
        with zipfile.ZipFile(os.path.join(d, 'z.zip'), 'w') as z:
            wmodel.W.write(d)
            name = [n for n in sorted(os.listdir(d)) if n.startswith('smdx')][0]
            z.write(os.path.join(d, name), 'in/' + name)
            z.writestr('in/note.txt', 'note')
        dirs['d'] = d

    def load_cases():
        for name in LOADS:
            for where in ('directory', 'archive'):
                for x in range(len(KINDS)):
                    for part in range(LINE_PARTS):
                        yield [name, where, x, part]

    def load_run(c):
        name, where, x, part = c
        d = dirs['d']
        rig.use_dir(d if where == 'directory' else os.path.join(d, 'z.zip', 'in'))
        fn = LOADS[name]
        want = healthy('%s (%s)' % (name, where), fn, d)
        rig.use_dir(d if where == 'directory' else os.path.join(d, 'z.zip', 'in'))
        p = AtLine()
        p.run(lambda: fn(d))
        todo = picked(p.where)
        outs = []
        for i in todo[part::LINE_PARTS]:
            rig.use_dir(d if where == 'directory' else os.path.join(d, 'z.zip', 'in'))
            gc.disable()
            before = len(os.listdir('/proc/self/fd'))
            p = AtLine(i, KINDS[x]('interrupted'))
            e = p.run(lambda: fn(d))
            what = '%s (%s) interrupted before %s (%d)' % (name, where, p.where[0] if p.used else '', i)
            if not p.used:
                raise HarnessError(what + ': not reached again')
            check(e is p.exc, '%s: the caller sees %s (%s) instead of the interruption' % (what, type(e).__name__, e), 'interruption hidden')
            e.__traceback__ = None
            e.__context__ = None
            handling = p.handling
            del e, p
            after = len(os.listdir('/proc/self/fd'))
            if after > before:
                gc.collect()
                after = len(os.listdir('/proc/self/fd'))
            gc.enable()
            check(handling or after == before, '%s: %d open files, %d before' % (what, after, before), 'left open')
            eq(what + ': result afterwards', healthy(what + ': once more', fn, d), want)
            outs.append((c, i))
        return Obs(steps=2 * len(outs), execs=len(outs), outcomes=outs)

    return [
        Family('lines', line_cases, line_run, setup, what='operations interrupted at every line of the library and what follows'),
        Family('loads', load_cases, load_run, load_setup, what='uses of documents interrupted at every line of the library, then repeated'),
        Family('operations', cases, run, setup, what='one interrupted operation and what follows'),
        Family('constructions', build_cases, build_run, setup, what='interrupted constructions'),
        Family('sequences', seq_cases, seq_run, setup, what='several interrupted operations'),
    ]
