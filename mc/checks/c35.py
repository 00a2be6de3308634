import contextlib
import copy
import decimal
import gc
import itertools
import json
import os
import random
import re
import socket
import subprocess
import sys
import threading
import time
import warnings
import xml.etree.ElementTree as ET

from .. import core, ref, rig, wire
from ..core import Family, HarnessError, Obs, Violation, call, check, eq
from ..wire import world
from . import c32
from .c32 import A, B, KINDS, Kind, Shared, client, device, mbmap, modbus, pics, sdata, util

PROP, LEVEL = 'C35', 'model_checking'
TECHNIQUE = ('exhaustive exploration of operation histories of every kind of object times every change of the surroundings at every position of the history, on the '
             'real code; results, requests, final states and what is left open compared with those of the same history in quiet surroundings')
RULE = 'one evaluation per (kind, history, change, positions) or (kind, part, history, moment of the drop) or (kind, interpreter settings); distinct by that tuple'
BOUNDS = ('15 kinds of object, histories of creation and up to 2 operations (thorough: 3), 18 changes of the surroundings at each single step and at all of them; 24 parts of '
          'objects used on for up to 2 operations (thorough: 3) after their owner was dropped; 200 other objects of the kind in use; everything passed to a step wrecked before the next; files vanished, '
          'exchanged or damaged at every moment; 8 actions of progress and 5 of trace functions at every call; 16 interpreter settings')
ASSUMPTIONS = ['the module-wide path list and relative file names are arguments, not surroundings']


# ---------------------------------------------------------------- files with text that is not ASCII

TEXT = 'M\u00fcller \u20ac \u65e5'
here = []


def setup():
    c32.setup()
    d = core.scratch_dir('texts')
    here[:] = [d]

    def put(name, text):
        with open(os.path.join(d, name), 'wb') as f:
            f.write(text.encode('utf-8'))
    put('smdx_64950.xml', '<sunSpecModels v="1"><model id="64950" len="4" name="texts"><block len="4"><point id="T" offset="0" type="string" len="4" access="rw"/></block></model>'
        '<strings id="64950" locale="en"><model><label>%s</label><description>%s</description></model><point id="T"><label>%s</label><notes>%s</notes></point>'
        '</strings></sunSpecModels>' % (TEXT, TEXT, TEXT, TEXT))
    put('doc.xml', '<!-- %s --><sunSpecPics v="1"><device addr="40000"><model id="64950" len="4"><block><point id="T">M\u00fc</point></block></model></device></sunSpecPics>' % TEXT)
    put('map.xml', '<!-- %s --><mbmap addr="40000" func="holding" mapid="%s" time="%s"><regs offset="0" len="2" type="string" access="r">SunS</regs>'
        '<regs offset="2" len="4" type="string" access="rw">abc</regs><regs offset="6" type="hexstr" len="2">0102ff04</regs></mbmap>' % (TEXT, TEXT, TEXT))
    put('map.hex', '# %s\n01 02 03 04\n05 06\n' % TEXT)
    put('record.xml', '<sunSpecData v="1"><d lid="%s" man="%s" t="2020-01-01T00:00:00Z"><m id="1"><p id="A" desc="%s">%s</p></m></d></sunSpecData>' % (TEXT, TEXT, TEXT, TEXT))


class Texts(Kind):
    """Everything that reads or writes text."""
    ops = ('definition', 'document', 'map', 'hex', 'record', 'record text', 'path list', 'timestamp')

    def make(self):
        self.p = util.PathList([here[0]])
        self.o = self.p

    def do(self, op):
        if op == 'definition':
            with device.fresh_file_pathlist(here[0]):
                t = device.model_type_get('64950')
            return str(t), t.label, t.description, t.fixed_block.points_list[0].label, t.fixed_block.points_list[0].notes
        if op == 'document':
            d = device.Device()
            with device.fresh_file_pathlist(here[0]):
                d.from_pics(filename='doc.xml', pathlist=self.p)
            root = ET.Element('r')
            k, v = call(d.to_pics, root)
            return c32.values(d), k, ET.tostring(root), str(d)
        if op == 'map':
            m = mbmap.ModbusMap(1)
            m.from_xml('map.xml', self.p)
            e = m.to_xml()
            return m.mapid, m.time, m.read(40000, 6), ET.tostring(e), str(m)
        if op == 'hex':
            m = mbmap.ModbusMap(1)
            m.from_hex(os.path.join(here[0], 'map.hex'))
            return [(r.offset, r.count, r.data) for r in m.regs]
        if op == 'record':
            with open(os.path.join(here[0], 'record.xml'), 'rb') as f:
                text = f.read()
            r = sdata.SunSpecData()
            r.from_xml(data_record=text)
            return r.to_xml_str(), r.to_xml_str(pretty_print=True)
        if op == 'record text':
            r = sdata.SunSpecData()
            r.device_add(TEXT, TEXT, timestamp=1.5e9, namespace='mac').model_add(1, 2).point_add('P', TEXT, 1, -2, desc=TEXT)
            return r.to_xml_str(), r.to_xml_str(pretty_print=True)
        if op == 'path list':
            return [self.p.read(f) for f in sorted(os.listdir(here[0]))]
        r = sdata.SunSpecData()
        r.device_add('L', 'M', timestamp=1.6e9)
        r.device_add('L', 'M', timestamp=951782400)
        return r.to_xml_str()

    def final(self):
        return list(self.p.path)


ALL = dict(KINDS)
ALL['texts'] = Texts


# ---------------------------------------------------------------- surroundings

def aside(fn):
    out = []
    t = threading.Thread(target=lambda: out.append(fn()))
    t.start()
    t.join()
    if not out:
        raise HarnessError('nothing came back from the thread')
    return out[0]


def deep(fn, n=500):
    return fn() if n == 0 else deep(fn, n - 1)


def handling(fn):
    try:
        raise KeyError('an error of the program')
    except KeyError:
        return fn()


def warned(fn):
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        return fn()


def speechless(fn):
    out = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = None
    try:
        return fn()
    finally:
        sys.stdout, sys.stderr = out


def strict(fn):
    with decimal.localcontext() as c:
        c.prec = 2
        c.rounding = decimal.ROUND_UP
        c.traps[decimal.Inexact] = True
        return fn()


def generated(fn):
    return next(x for x in (fn() for _ in (0,)))


def traced(fn):
    sys.settrace(lambda *a: None)
    try:
        return fn()
    finally:
        sys.settrace(None)


def subject(fn):
    """Called from a finaliser."""
    class X(object):
        def __del__(self):
            self.out.append(fn())
    out = []
    x = X()
    x.out = out
    del x
    return out[0]


DURING = {'in another thread': aside, 'deep in the stack': deep, 'while an exception is handled': handling, 'with warnings as errors': warned, 'without output streams': speechless,
          'with another decimal context': strict, 'inside a generator': generated, 'under a tracer': traced, 'inside a finaliser': subject}


def shift(seconds):
    def go():
        world.clock += seconds
    return go


def back():
    wire.wall[0] -= 7200


def zone():
    os.environ['TZ'] = 'XYZ-11:30'
    time.tzset()


def elsewhere():
    os.chdir(here[0])


def bare():
    os.environ.clear()


BEFORE = {'a minute later': shift(61), 'a month later': shift(2.7e6), 'when the clock was set back': back, 'after a garbage collection': gc.collect, 'in another directory': elsewhere,
          'in another time zone': zone, 'without an environment': bare, 'with another default timeout of sockets': lambda: socket.setdefaulttimeout(0.001),
          'after the random numbers were seeded': lambda: random.seed(1)}
CHANGES = sorted(DURING) + sorted(BEFORE)


@contextlib.contextmanager
def surroundings():
    env, cwd, rnd = dict(os.environ), os.getcwd(), random.getstate()
    wire.wall[0] = 0.0
    try:
        yield
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        time.tzset()
        socket.setdefaulttimeout(None)
        random.setstate(rnd)
        wire.wall[0] = 0.0


def ports_closed():
    c = getattr(modbus, 'modbus_rtu_clients', None)
    if isinstance(c, dict):
        c.clear()


def observe(k, v):
    if k == 'ok':
        return 'ok', copy.deepcopy(v)
    return type(v).__name__, str(v)


def perform(kind, ops, change=None, at=(), hook=None):
    """What can be seen of a history: results, requests, final state, what is left open."""
    sh = Shared()
    passed = sh.state()
    seen, o = [], []

    def make():
        k, v = call(ALL[kind], sh, 0)
        if k == 'ok':
            o.append(v)
            return 'ok', None
        return observe(k, v)
    with surroundings():
        steps = [make] + [lambda op=op: observe(*call(o[0].do, op)) for op in ops] + [lambda: observe(*call(o[0].final)), lambda: observe(*call(o[0].end))]
        for i, step in enumerate(steps):
            if i and not o:
                break
            if hook:
                hook(i, sh)
            n = len(world.requests)
            if i in at:
                if change in BEFORE:
                    BEFORE[change]()
                r = DURING[change](step) if change in DURING else step()
            else:
                r = step()
            # what the simulated devices saw of the operation
            seen.append((r, [(q.unit, bytes(q.pdu)) for q in world.requests[n:]]) if not hook else (r,))
        seen.append(('arguments unchanged', core.same(sh.state(), passed)))
        if not hook:
            seen.append(('left open', len(world.open_fds()), len(world.open_handles())))
    ports_closed()
    return seen


memo = {}


def quiet(kind, ops):
    key = (kind, tuple(ops))
    if key not in memo:
        memo[key] = perform(kind, ops)
    return memo[key]


def compare(what, got, want):
    if not core.same(got, want):
        i = [k for k in range(max(len(got), len(want))) if k >= len(got) or k >= len(want) or not core.same(got[k], want[k])][0]
        raise Violation('%s: step %d gives %r, otherwise %r' % (what, i, got[i:i + 1], want[i:i + 1]), 'depends on its surroundings')


# ---------------------------------------------------------------- parts of objects whose owner is dropped

def use_models(ms, op, n):
    if op == 'read':
        for m in ms:
            m.read_points()
    elif op == 'assign':
        for m in ms:
            for b in m.blocks:
                for p in b.points_list:
                    if p.point_type.type != 'sunssf':
                        p.value = 2 + n
    elif op == 'write':
        for m in ms:
            m.write_points()
    return [[(p.point_type.id, p.value, p.value_base, p.value_sf, p.dirty, str(p)) for p in b.points_list] for m in ms for b in m.blocks]


def use_block(b, op, n):
    if op == 'read':
        b.model.read_points()
    elif op == 'assign':
        b.points_list[0].value = 3 + n
    elif op == 'write':
        b.points_list[0].write()
    return [(p.point_type.id, p.value, p.value_base, p.value_sf, p.dirty, str(p)) for p in b.points_list], str(b), b.index


def use_point(p, op, n):
    if op == 'read':
        p.block.model.read_points()
    elif op == 'assign':
        p.value = 4 + n
    elif op == 'write':
        p.write()
    return p.value, p.value_base, p.value_sf, p.dirty, str(p), p.point_type.id, p.addr


def use_modbus(d, op, n):
    if op == 'read':
        return d.read(40000, 6)
    if op == 'assign':
        return d.slave_id
    return d.write(40004, bytes([n, 1, 2, n]))


def use_wrapper(w, op, n):
    if op == 'read':
        w.read()
    elif op == 'assign':
        w[w.points[0]] = 4 + n
        w.repeating[1][w.repeating[1].points[0]] = 5 + n
    else:
        w.write()
    return w.name, [(p, getattr(w, p)) for p in w.points], [[(p, b[p]) for p in b.points] for b in w.repeating[1:]], str(w)


def use_repeating(bs, op, n):
    b = bs[2]
    if op == 'assign':
        b[b.points[0]] = 5 + n
    return [(b.name, [(p, b[p], getattr(b, p)) for p in b.points], str(b)) for b in bs[1:]]


def use_device(d, op, n):
    if op == 'read':
        d.read_points()
    elif op == 'assign':
        d.models_list[0].blocks[0].points_list[0].value = 6 + n
    else:
        for m in d.models_list:
            m.write_points()
    return c32.values(d), str(d), d.base_addr


def use_records(ds, op, n):
    if op == 'read':
        return [(d.logger_id, d.man, len(d.model_data)) for d in ds]
    if op == 'assign':
        ds[0].model_add(7, n).point_add('Q', n)
    return [(d.logger_id, [(m.model_id, m.index, [(p.point_id, p.value) for p in m.point_data]) for m in d.model_data]) for d in ds]


def use_types(b, op, n):
    return b.name, b.len, [(p.id, p.type, p.sf, p.offset, [(s.id, s.value) for s in p.symbols]) for p in b.points_list], str(b)


def use_map_regs(rs, op, n):
    if op == 'assign':
        rs[0].data = bytes([n]) * len(rs[0].data)
    return [(r.offset, r.count, r.data, r.access, str(r)) for r in rs]


def use_core(m, op, n):
    if op == 'assign':
        for b in m.blocks:
            for p in b.points_list:
                p.value = 2 + n
    elif op == 'read':
        m.load()
    return m.id, m.index, [[(p.point_type.id, p.value, p.dirty) for p in b.points_list] for b in m.blocks], str(m)


PARTS = {}
for _t in ('tcp', 'rtu', 'mapped'):
    PARTS['client ' + _t] = {
        'models': (['scan'], lambda o: o.models_list, use_models), 'model': (['scan'], lambda o: [o.models_list[0]], use_models),
        'block': (['scan', 'read'], lambda o: o.models_list[0].blocks[2], use_block), 'point': (['scan', 'read'], lambda o: o.models_list[0].points['A'], use_point),
        'models by id': (['scan'], lambda o: o.models[A.id], use_models),
        'underlying device': ([], lambda o: o.modbus_device, use_modbus)}
    PARTS['script ' + _t] = {
        'model': ([], lambda o: o[o.models[0]], use_wrapper), 'model by attribute': ([], lambda o: getattr(o, o.models[0]), use_wrapper),
        'repeating blocks': (['read'], lambda o: o[o.models[0]].repeating, use_repeating),
        'device': ([], lambda o: o.device, use_device), 'models of the device': ([], lambda o: o.device.models_list, use_models)}
PARTS['record'] = {'devices': (['add device', 'add model'], lambda o: o.device_data, use_records)}
PARTS['definition'] = {'block': (['load'], lambda o: o.fixed_block, use_types), 'repeating block': (['load'], lambda o: o.repeating_block, use_types)}
PARTS['map'] = {'registers': (['add'], lambda o: o.regs, use_map_regs), 'loaded registers': (['load element'], lambda o: o.regs, use_map_regs)}
PARTS['device'] = {'model': (['load element'], lambda o: o.models_list[0], use_core)}
PART_OPS = ('read', 'assign', 'write')


def part_history(kind, part, ops, drop):
    """ops on a part; the owner is dropped before the operation of number drop (None: kept)."""
    before, get, use = PARTS[kind][part]
    sh = Shared()
    seen = []
    k = ALL[kind](sh, 0)
    for op in before:
        k.do(op)
    x = get(k.o)
    for i, op in enumerate(ops):
        if drop == i:
            k = None
            gc.collect()
        n = len(world.requests)
        r = observe(*call(use, x, op, i + 1))
        seen.append((op, r, [(q.unit, bytes(q.pdu)) for q in world.requests[n:]]))
    seen.append([sorted(s.regs.items()) for t in ('tcp', 'rtu') for s in sh.sims[t]])
    ports_closed()
    return seen


# ---------------------------------------------------------------- arguments and files that do not last

def wrecker():
    """Before each step everything that was passed in before is wrecked, and the step gets fresh arguments."""
    fresh = []

    def wreck(e):
        for x in list(e.iter()):
            x.clear()
            x.tag = 'wrecked'

    def hook(i, sh):
        names = ('record', 'map', 'pics', 'smdx', 'pathlist')
        if not fresh:
            fresh.append(copy.deepcopy([getattr(sh, n) for n in names]))
        if i:
            for e in [sh.record, sh.map, sh.pics] + sh.smdx:
                wreck(e)
            del sh.pathlist.path[:]
        for n, v in zip(names, copy.deepcopy(fresh[0])):
            setattr(sh, n, v)
    return hook


FILES = ('vanished', 'other content', 'damaged')


@contextlib.contextmanager
def files(how):
    """The definitions and documents are no longer what they were when they were loaded."""
    if how is None:
        yield
        return
    kept = {}
    for d in c32.dirs:
        for f in os.listdir(d):
            with open(os.path.join(d, f), 'rb') as h:
                kept[os.path.join(d, f)] = h.read()
    try:
        for f in kept:
            if how == 'vanished':
                os.remove(f)
            else:
                other = os.path.join(c32.dirs[f.startswith(c32.dirs[0])], os.path.basename(f))
                with open(f, 'wb') as h:
                    h.write(kept.get(other, b'<mbmap addr="0"/>') if how == 'other content' else b'\0<')
        yield
    finally:
        for f, data in kept.items():
            with open(f, 'wb') as h:
                h.write(data)


def file_history(kind, part, ops, how, at):
    before, get, use = PARTS[kind][part]
    sh = Shared()
    seen = []
    k = ALL[kind](sh, 0)
    for op in before:
        k.do(op)
    x = get(k.o)
    for i, op in enumerate(ops):
        n = len(world.requests)
        with files(how if i >= at else None):
            r = observe(*call(use, x, op, i + 1))
        seen.append((op, r, [(q.unit, bytes(q.pdu)) for q in world.requests[n:]]))
    seen.append([sorted(s.regs.items()) for t in ('tcp', 'rtu') for s in sh.sims[t]])
    k.end()
    ports_closed()
    return seen


# ---------------------------------------------------------------- callbacks that use the library

class Stuck(object):
    pass


def within(fn, limit=20):
    """fn in a thread; a call that waits for a lock for ever is given up."""
    out = []
    t = threading.Thread(target=lambda: out.append(call(fn)), daemon=True)
    t.start()
    t.join(limit)
    return out[0] if out else Stuck()


def others(sh, t):
    """Another device of the same type, not in use otherwise."""
    if t == 'tcp':
        world.tcp[('10.0.0.8', 502)] = {1: sh.sims['tcp'][1]}
        return client.TCP, {'ipaddr': '10.0.0.8'}
    if t == 'rtu':
        world.ports['/dev/other'] = {1: sh.sims['rtu'][1]}
        return client.RTU, {'name': '/dev/other'}
    return client.MAPPED, {'name': 'map.xml', 'pathlist': sh.pathlist}


def other_read(d, sh, t):
    k, a = others(sh, t)
    o = client.ClientDevice(k, 1, **a)
    r = o.read(40000, 6)
    o.close()
    return r


def other_scan(d, sh, t):
    k, a = others(sh, t)
    o = client.ClientDevice(k, 1, **a)
    o.scan()
    o.read_points()
    r = c32.values(o)
    o.close()
    return r


def same_line(d, sh, t):
    """The other unit behind the same address or on the same port."""
    u, a = c32.address(t, sh, 1)
    o = client.ClientDevice(c32.KINDS_OF[t], u, **a)
    r = o.read(40000, 6)
    o.close()
    return r


def found(d, sh, t):
    for m in d.models_list:
        m.read_points()
    return c32.values(d)


def all_found(d, sh, t):
    d.read_points()
    return c32.values(d)


def offline(d, sh, t):
    """Everything that needs no device."""
    x = device.Device()
    x.from_pics(element=sh.pics, pathlist=sh.pathlist)
    m = mbmap.ModbusMap(1)
    m.from_xml('map.xml', sh.pathlist)
    r = sdata.SunSpecData(element=sh.record)
    return c32.values(x), m.read(40000, 6), r.to_xml_str(), sh.pathlist.read('note.txt')


# those that use the connection of the request being traced are left to the progress report
IN_REPORT = {'registers read': lambda d, sh, t: d.read(40000, 6), 'models so far read': found, 'device read': all_found, 'device printed': lambda d, sh, t: str(d), 'unit on the same line read': same_line,
             'other device read': other_read, 'other device scanned': other_scan, 'documents loaded': offline}
IN_TRACE = {'device printed': lambda d, sh, t: str(d), 'other device read': other_read, 'other device scanned': other_scan, 'documents loaded': offline}


def callback_history(t, wrapper, where, action, at):
    """A scan and a read; the callback performs the action the at'th time it is called. Returns what the program saw, and
    what the action gave."""
    sh = Shared()
    u, a = c32.address(t, sh, 0)
    n, gave, seen, box, busy = [0], [], [], [], []

    def callback(msg):
        if busy:
            return True
        n[0] += 1
        if n[0] == at and action:
            busy.append(1)
            try:
                gave.append(observe(*call((IN_REPORT if where == 'report' else IN_TRACE)[action], box[0] if box else None, sh, t)))
            finally:
                busy.pop()
        seen.append(re.sub('0x[0-9a-f]{8,}', '', str(msg)))
        return True
    if where == 'trace':
        a['trace'] = callback
    report = callback if where == 'report' else None
    try:
        if wrapper:
            with device.fresh_file_pathlist(c32.dirs[0]):
                s = client.SunSpecClientDevice(c32.KINDS_OF[t], u, scan_progress=report, **a)
            d = s.device
            box.append(d)
        else:
            d = client.ClientDevice(c32.KINDS_OF[t], u, **a)
            box.append(d)
            d.scan(report)
        d.read_points()
        d.models_list[0].blocks[0].points_list[0].value = 5
        d.models_list[0].write_points()
        out = [c32.values(d), d.base_addr, d.read(40000, 12), sorted(sh.sims[t][0].regs.items()) if t in sh.sims else None, seen]
        d.close()
        out.append((len(world.open_fds()), len(world.open_handles())))
    finally:
        ports_closed()
    return out, gave, n[0]


# ---------------------------------------------------------------- other settings of the interpreter

SETTINGS = {
    'optimised': (['-O'], {}), 'without docstrings': (['-OO'], {}), 'development mode': (['-X', 'dev', '-W', 'ignore'], {}), 'bytes warnings': (['-bb'], {}),
    'warnings as errors': (['-W', 'error'], {}), 'isolated': (['-E', '-s'], {}),
    'C locale': ([], {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}), 'ASCII streams': ([], {'PYTHONIOENCODING': 'ascii:strict'}),
    'UTF-8 mode': (['-X', 'utf8'], {}), 'time zone': ([], {'TZ': 'ABC+7'}), 'no home': ([], {'HOME': '/nonexistent', 'TMPDIR': '/tmp'}),
    'hash seed 1': ([], {'PYTHONHASHSEED': '1'}), 'hash seed 2': ([], {'PYTHONHASHSEED': '2'}), 'hash seed 3': ([], {'PYTHONHASHSEED': '3'}),
    'hash seed 4': ([], {'PYTHONHASHSEED': '4'}), 'narrow terminal': ([], {'COLUMNS': '10', 'LINES': '5'}),
}
CHILD = ('import sys; sys.path.insert(0, %r); from mc import core; sys.path.insert(0, core.REPO); import mc.checks.c35 as m\n'
         'try:\n m.child(%d)\nfinally:\n core.scratch_cleanup()')


def child(depth):
    """Everything that can be seen of all histories of all kinds, as text."""
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    setup()
    lines = []
    for kind in ALL:
        for d in range(depth + 1):
            for ops in itertools.product(ALL[kind].ops, repeat=d):
                core.still_going()
                text = ascii(perform(kind, ops))
                text = text.replace(core.scratch_root(), 'SCRATCH')
                lines.append([kind, list(ops), text])
    out.write(json.dumps(lines))
    out.flush()


def run_child(setting, depth):
    flags, env = SETTINGS[setting] if setting else ([], {})
    e = dict(os.environ, PYTHONHASHSEED='0')
    e.update(env)
    import signal
    p = subprocess.run([sys.executable] + (flags or ['-W', 'ignore']) + ['-c', CHILD % (core.VERIF, depth)], cwd=core.VERIF, env=e, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lambda: signal.signal(signal.SIGPROF, signal.SIG_DFL))
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')


# ---------------------------------------------------------------- crowd

def crowd(n=200):
    """Many other objects of all kinds, made in the middle of a history and kept."""
    kept = []

    def hook_for(kind, where):
        def hook(i, sh):
            if i != where:
                return
            if kind.startswith(('client', 'script', 'modbus')):
                t = kind.split()[1]
                for j in range(n):
                    if t == 'tcp':
                        host = '10.9.%d.%d' % (j // 100, j % 100)
                        world.tcp[host, 502] = {1: sh.sims['tcp'][1]}
                        a = {'ipaddr': host}
                        d = modbus.ModbusClientDeviceTCP(1, **a)
                        d.connect()
                    elif t == 'rtu':
                        name = '/dev/crowd%d' % j
                        world.ports[name] = {1: sh.sims['rtu'][1]}
                        a = {'name': name}
                        d = modbus.ModbusClientDeviceRTU(1, **a)
                    else:
                        a = {'name': 'map.xml', 'pathlist': sh.pathlist}
                        d = modbus.ModbusClientDeviceMapped(1, **a)
                    d.read(40000, 2)
                    kept.append(d)
                    if j % 10 == 0 and not kind.startswith('modbus'):
                        c = client.ClientDevice({'tcp': client.TCP, 'rtu': client.RTU, 'mapped': client.MAPPED}[t], 1, **a)
                        c.scan()
                        kept.append(c)
            else:
                for j in range(n):
                    k = ALL[kind](sh, 0)
                    for op in k.ops[:2]:
                        call(k.do, op)
                    kept.append(k)
        return hook
    return kept, hook_for


def families(tier):
    thorough = tier == 'thorough'

    def histories(kind, depth):
        for d in range(depth + 1):
            for ops in itertools.product(ALL[kind].ops, repeat=d):
                yield ops

    def change_cases():
        for kind in ALL:
            for ops in histories(kind, 3 if thorough else 2):
                yield [kind, list(ops)]

    def change_run(c):
        kind, ops = c
        want = quiet(kind, ops)
        outs = []
        n = len(ops) + 3
        for change in CHANGES:
            for at in ([tuple(range(n))] + [(i,) for i in range(n)] if len(ops) < 3 else [tuple(range(n))]):
                got = perform(kind, ops, change, at)
                compare('%s: %s, step %s %s' % (kind, ', '.join(['created'] + list(ops) + ['final state', 'closed']), ' '.join(map(str, at)), change), got, want)
                outs.append((kind, ops, change, at))
        return Obs(steps=n * len(outs), execs=len(outs), outcomes=outs)

    def part_cases():
        for kind in PARTS:
            for part in PARTS[kind]:
                for d in range(1, (4 if thorough else 3) + 1):
                    for ops in itertools.product(PART_OPS, repeat=d):
                        yield [kind, part, list(ops)]

    def part_run(c):
        kind, part, ops = c
        want = part_history(kind, part, ops, None)
        for drop in range(len(ops)):
            got = part_history(kind, part, ops, drop)
            compare('%s: %s used for %s, the owner dropped before number %d' % (kind, part, ', '.join(ops), drop), got, want)
        return Obs(steps=len(ops) * (len(ops) + 1), execs=len(ops) + 1, outcomes=[(c, i) for i in range(len(ops) + 1)])

    def crowd_cases():
        for kind in ALL:
            for ops in histories(kind, 2 if thorough else 1):
                for where in range(len(ops) + 2):
                    yield [kind, list(ops), where]

    def crowd_run(c):
        kind, ops, where = c
        want = perform(kind, ops, hook=lambda i, sh: None)
        kept, hook_for = crowd()
        got = perform(kind, ops, hook=hook_for(kind, where))
        compare('%s: %s, 200 others in use since step %d' % (kind, ', '.join(['created'] + list(ops) + ['final state', 'closed']), where), got, want)
        for x in kept:
            call(x.close if hasattr(x, 'close') else x.end)
        del kept[:]
        check(not world.open_fds() and not world.open_handles(), '%s %s: left open after closing all' % (kind, ops), 'left open')
        return Obs(steps=len(ops) + 200, execs=1, outcome=c)

    def wreck_cases():
        for kind in ALL:
            for ops in histories(kind, 4 if thorough and len(ALL[kind].ops) < 6 else 3):
                if len(ops) < 3 or thorough or len(ALL[kind].ops) < 6:
                    yield [kind, list(ops)]

    def wreck_run(c):
        kind, ops = c
        want = perform(kind, ops, hook=lambda i, sh: None)
        got = perform(kind, ops, hook=wrecker())
        compare('%s: %s, with everything passed to a step wrecked afterwards' % (kind, ', '.join(['created'] + list(ops) + ['final state', 'closed'])), got, want)
        return Obs(steps=len(ops) + 3, execs=2, outcome=c)

    def file_cases():
        for kind in PARTS:
            for part in PARTS[kind]:
                if kind != 'device':
                    for d in range(1, (3 if thorough else 2) + 1):
                        for ops in itertools.product(PART_OPS, repeat=d):
                            yield [kind, part, list(ops)]

    def file_run(c):
        kind, part, ops = c
        want = file_history(kind, part, ops, None, 0)
        outs = []
        for how in FILES:
            for at in range(len(ops)):
                got = file_history(kind, part, ops, how, at)
                compare('%s: %s used for %s, files %s from number %d on' % (kind, part, ', '.join(ops), how, at), got, want)
                outs.append((c, how, at))
        return Obs(steps=len(ops) * len(outs), execs=len(outs), outcomes=outs)

    def callback_cases():
        for t in ('tcp', 'rtu', 'mapped'):
            for wrapper in (0, 1):
                for where, actions in (('report', IN_REPORT), ('trace', IN_TRACE)):
                    if where == 'report' or t != 'mapped':
                        for action in actions:
                            yield [t, wrapper, where, action]

    def callback_run(c):
        t, wrapper, where, action = c
        want, _, n = callback_history(t, wrapper, where, None, 0)
        outs, last = [], None
        for at in range(1, n + 1):
            r = within(lambda: callback_history(t, wrapper, where, action, at))
            what = '%s device%s: %s in call %d of the %s function' % (t, ' (scripting)' if wrapper else '', action, at, where)
            if isinstance(r, Stuck):
                raise Violation('%s: never comes back' % what, 'never comes back')
            k, v = r
            if k != 'ok':
                raise Violation('%s: %s %s' % (what, type(v).__name__, v), 'callback')
            got, gave, _ = v
            compare(what, got, want)
            check(len(gave) == 1, '%s: action not performed' % what, 'callback')
            if not (wrapper and action in ('registers read', 'models so far read', 'device read', 'device printed')):
                check(gave[0][0] == 'ok', '%s: %r' % (what, gave[0]), 'callback')
                if action not in ('device printed', 'models so far read', 'device read'):
                    if last is not None:
                        compare(what + ', the action', [gave[0]], [last])
                    last = gave[0]
                    if action in ('registers read', 'unit on the same line read', 'other device read') and t != 'mapped':
                        sim = sh_regs(c)
                        eq(what, gave[0][1], sim)
            outs.append((c, at))
        return Obs(steps=n * len(outs), execs=len(outs), outcomes=outs)

    def sh_regs(c):
        """What the device holds: the first registers, of the first or the second unit."""
        sh = Shared()
        sim = sh.sims[c[0]][c[3] != 'registers read']
        return b''.join(sim.regs[40000 + i].to_bytes(2, 'big') for i in range(6))

    def setting_cases():
        for s in SETTINGS:
            yield [s]

    base = {}

    def setting_run(c):
        s, depth = c[0], 3 if thorough else 2
        for name in [None, s] if not base else [s]:
            code, out, err = run_child(name, depth)
            if code:
                raise Violation('with %s: process ends with %d: %s' % (name, code, err[-400:]), 'process fails')
            if name is None:
                base['lines'] = json.loads(out)
        got = json.loads(out)
        for (kind, o1, t1), (_, o2, t2) in zip(base['lines'], got):
            if t1 != t2:
                i = next(i for i in range(max(len(t1), len(t2))) if t1[i:i + 1] != t2[i:i + 1])
                raise Violation('%s, %s, with %s: ...%s, otherwise ...%s' % (kind, o1, s, t2[max(0, i - 60):i + 100], t1[max(0, i - 60):i + 100]), 'depends on its surroundings')
        eq('%s: histories' % s, len(got), len(base['lines']))
        return Obs(steps=len(got), execs=len(got), outcomes=[(c, k, o) for k, o, _ in got])

    return [
        Family('changes', change_cases, change_run, setup, what='a change of the surroundings during or before a step, or at every step'),
        Family('parts', part_cases, part_run, setup, what='parts of an object used after the object itself was dropped'),
        Family('wrecked', wreck_cases, wreck_run, setup, what='everything passed to an operation wrecked after it'),
        Family('files', file_cases, file_run, setup, what='definitions and documents vanished, exchanged or damaged after they were loaded'),
        Family('callbacks', callback_cases, callback_run, setup, what='progress and trace functions that use the library themselves'),
        Family('crowd', crowd_cases, crowd_run, setup, what='many other objects in use'),
        Family('settings', setting_cases, setting_run, setup, what='other settings of the interpreter and its environment'),
    ]
