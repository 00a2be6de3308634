import itertools
import pathlib
import types
import xml.etree.ElementTree as ET

from .. import core, ref, rig, wire
from ..core import Family, Obs, Violation, call, check, eq
from ..wire import SimDevice, world
from . import c32
from .c32 import A, B, client, device, mbmap, modbus, pics, sdata, util

PROP, LEVEL = 'C36', 'model_checking'
TECHNIQUE = ('exhaustive enumeration of the ways of writing a call (which arguments are given, how many of them by position) for every public operation, executed on the real '
             'code; objects, results and requests compared with those of the call that names every argument')
RULE = 'one evaluation per (operation, set of arguments given, number of them by position); distinct by that tuple'
BOUNDS = ('72 public operations with up to 16 parameters; every set of optional arguments (for more than 8 parameters: up to 2 given or up to 1 left out; thorough: 3 and 2), each '
          'with every number of arguments by position; all ordered pairs of spellings of 18 values')
ASSUMPTIONS = ['the documented order, names and defaults of the parameters are those of the documentation at the pinned commit']

NEED = object()
FUN = []


def see(x, depth=4, seen=()):
    """What can be told about an object without its identity."""
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return repr(x)
    if id(x) in seen or depth == 0:
        return type(x).__name__
    seen = seen + (id(x),)
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [see(y, depth, seen) for y in x]
    if isinstance(x, dict):
        return {str(k): see(v, depth, seen) for k, v in x.items()}
    if isinstance(x, ET.Element):
        return ET.tostring(x)
    if isinstance(x, types.FunctionType):
        return 'function'
    mod = type(x).__module__
    if mod.startswith('sunspec') or mod == 'sunspec':
        return {k: see(v, depth - 1, seen) for k, v in vars(x).items()}
    if isinstance(x, wire.FakeSerial):
        return ['serial', x.port, x.baudrate, x.parity, x.timeout, x.write_timeout]
    return type(x).__name__


class Fs(object):
    """A path of the program's own kind."""

    def __init__(self, path):
        self.path = path

    def __fspath__(self):
        return self.path


class OddBlock(device.Block):
    """A program's own kind of block."""


class OddPoint(device.Point):
    """A program's own kind of point."""


def hexfile():
    import os
    p = os.path.join(c32.dirs[0], 'map.hex')
    with open(p, 'w') as f:
        f.write('# map\n00 01 ab CD\n')
    return p


class World(object):
    """Fresh things to call and to pass, the same every time."""

    kept = None

    def keep(self, x):
        self.kept = x
        return x

    def __init__(self):
        self.sh = c32.Shared()
        self.trace = []
        self.reports = []
        self.pl = self.sh.pathlist
        world.tcp[('10.0.0.9', 503)] = {1: self.sh.sims['tcp'][0], 3: self.sh.sims['tcp'][1], 2: self.sh.sims['tcp'][1]}
        for u in self.sh.sims['rtu']:
            u.read_funcs = (3, 4)
        for u in self.sh.sims['tcp']:
            u.read_funcs = (3, 4)
            u.inputs = {k: v ^ 1 for k, v in u.regs.items()}

    def progress(self, msg):
        self.reports.append(msg)
        return True

    def tracer(self, msg):
        self.trace.append(str(msg))

    def tcp(self, **k):
        return modbus.ModbusClientDeviceTCP(1, '10.0.0.9', **k)

    def rtu(self):
        return modbus.ModbusClientDeviceRTU(1, '/dev/both')

    def mapped(self):
        return modbus.ModbusClientDeviceMapped(1, 'map.xml', self.pl)

    def dev(self, t='tcp', scan=True):
        u, a = c32.address(t, self.sh, 0)
        d = client.ClientDevice(c32.KINDS_OF[t], u, **a)
        if scan:
            d.scan()
        return d

    def core(self):
        d = device.Device()
        d.from_pics(element=self.sh.pics, pathlist=self.pl)
        return d

    def most(self):
        return max(self.core().models_list, key=lambda m: len(m.blocks))

    def client(self):
        return modbus.modbus_rtu_client('/dev/both')

    def map(self):
        m = mbmap.ModbusMap(7)
        m.from_xml(element=self.sh.map)
        return m

    def record(self):
        r = sdata.SunSpecData()
        r.device_add('L', 'M').model_add(1)
        return r


def use_modbus(w, d, r):
    if d is None:
        return None
    if getattr(d, 'tls', False):
        return see(d)
    out = [see(call(d.read, 40000, 20)[1])]
    call(d.close)
    return out


def use_dev(w, d, r):
    m = d.modbus_device
    out = [see(d.models), see([str(x) for x in d.models_list])]
    if not getattr(m, 'tls', False):
        out.append(see(call(d.read, 40000, 20)[1]))
    call(d.close)
    return out


def use_script(w, d, r):
    out = [see(d.models), str(d), see(d.device.modbus_device)]
    call(d.close)
    return out


TCP_P = [('slave_id', NEED, 3), ('ipaddr', NEED, '10.0.0.9'), ('ipport', 502, 503), ('timeout', None, 1.25), ('ctx', None, 'ctx'), ('trace_func', None, lambda w: w.tracer),
         ('tls', False, True), ('cafile', None, 'ca'), ('certfile', None, 'cert'), ('keyfile', None, 'key'), ('insecure_skip_tls_verify', False, True), ('max_count', 125, 7)]
RTU_P = [('slave_id', NEED, 2), ('name', NEED, '/dev/both'), ('baudrate', None, 19200), ('parity', None, 'E'), ('timeout', None, 1.25), ('ctx', None, 'ctx'),
         ('trace_func', None, lambda w: w.tracer), ('max_count', 125, 7)]
MAP_P = [('slave_id', NEED, 5), ('name', NEED, 'map.xml'), ('pathlist', None, lambda w: w.pl), ('max_count', None, 7), ('ctx', None, 'ctx')]


def dev_p(kind, name, pathlist, ip, script):
    """tls is left out: the scan of a scripting device would need it."""
    p = [('device_type', NEED, kind), ('slave_id', None, 2 if kind != client.MAPPED else 1), ('name', None, name), ('pathlist', None, pathlist), ('baudrate', None, 19200 if kind == client.RTU else None),
         ('parity', None, 'E' if kind == client.RTU else None), ('ipaddr', None, ip), ('ipport', None, 503 if ip else None)]
    p += [('tls', False, False if script else True), ('cafile', None, 'ca'), ('certfile', None, 'cert'), ('keyfile', None, 'key'), ('insecure_skip_tls_verify', False, True),
          ('timeout', None, 1.25), ('trace', False, lambda w: w.tracer)]
    if script:
        p += [('scan_progress', None, lambda w: w.progress), ('scan_delay', None, 0.5)]
    return p


def only(names, p):
    """The given names have to be given."""
    return [(n, NEED if n in names else d, s) for n, d, s in p]


REG_P = [('addr', NEED, 40001), ('count', NEED, 3)]
DATA_P = [('addr', NEED, 40004), ('data', NEED, b'\0\5\0\6')]
REC_P = [('logger_id', None, 'L2'), ('man', None, 'man'), ('mod', None, 'mod'), ('sn', None, 'sn'), ('timestamp', None, 1600000000), ('cid', None, 'cid'), ('device_id', None, 'did'),
         ('ifc', None, 'ifc'), ('namespace', None, 'mac')]
BLK_P = [('model', NEED, lambda w: w.most()), ('addr', NEED, 40010), ('blen', NEED, 3), ('block_type', NEED, lambda w: w.most().blocks[0].block_type), ('index', 1, 2)]
PT_P = [('block', None, lambda w: w.most().blocks[0]), ('point_type', NEED, lambda w: w.most().blocks[0].points_list[0].point_type), ('addr', None, 40012),
        ('sf_point', None, lambda w: w.most().blocks[0].points_list[-1]), ('value', None, 7)]
PNT_P = [('point_id', None, 'P'), ('value', None, 5), ('index', None, 2), ('sf', None, -1), ('units', None, 'V'), ('desc', None, 'text'), ('time', None, '2020-01-01T00:00:00Z')]

# name -> (what to call, parameters (name, default, another value), what to look at besides the result)
OPS = {
    'ModbusClientDeviceTCP': (lambda w: modbus.ModbusClientDeviceTCP, TCP_P, use_modbus),
    'ModbusClientDeviceRTU': (lambda w: modbus.ModbusClientDeviceRTU, RTU_P, use_modbus),
    'ModbusClientDeviceMapped': (lambda w: modbus.ModbusClientDeviceMapped, only(('pathlist',), MAP_P), use_modbus),
    'ClientDevice TCP': (lambda w: client.ClientDevice, dev_p(client.TCP, None, None, '10.0.0.9', False), use_dev),
    'ClientDevice RTU': (lambda w: client.ClientDevice, only(('name',), dev_p(client.RTU, '/dev/both', None, None, False)), use_dev),
    'ClientDevice MAPPED': (lambda w: client.ClientDevice, only(('name', 'pathlist'), dev_p(client.MAPPED, 'map.xml', lambda w: w.pl, None, False)), use_dev),
    'SunSpecClientDevice TCP': (lambda w: client.SunSpecClientDevice, only(('slave_id', 'ipaddr'), dev_p(client.TCP, None, None, '10.0.0.9', True)), use_script),
    'SunSpecClientDevice RTU': (lambda w: client.SunSpecClientDevice, only(('slave_id', 'name'), dev_p(client.RTU, '/dev/both', None, None, True)), use_script),
    'SunSpecClientDevice MAPPED': (lambda w: client.SunSpecClientDevice, only(('slave_id', 'name', 'pathlist'), dev_p(client.MAPPED, 'map.xml', lambda w: w.pl, None, True)), use_script),
    'TCP read': (lambda w: w.tcp().read, REG_P + [('op', 3, 4)], None), 'RTU read': (lambda w: w.rtu().read, REG_P + [('op', 3, 4)], None),
    'mapped read': (lambda w: w.mapped().read, REG_P + [('op', None, 3)], None),
    'TCP write': (lambda w: w.tcp().write, DATA_P, None), 'RTU write': (lambda w: w.rtu().write, DATA_P, None), 'mapped write': (lambda w: w.mapped().write, DATA_P, None),
    'TCP connect': (lambda w: w.tcp().connect, [('timeout', None, 0.75)], lambda w, o, r: [f.timeouts for f in world.fds]),
    'client read': (lambda w: w.dev().read, REG_P, None), 'client write': (lambda w: w.dev('rtu').write, DATA_P, None),
    'scan': (lambda w: w.dev(scan=False).scan, [('progress', None, lambda w: w.progress), ('delay', None, 0.25)], None),
    'Device': (lambda w: device.Device, [('addr', 40000, 100)], lambda w, o, r: see(o)),
    'Model': (lambda w: device.Model, [('device', None, lambda w: w.core()), ('mid', NEED, A.id), ('addr', 0, 40004), ('mlen', 0, A.length(1)), ('index', 1, 2)], lambda w, o, r: (see(o), loaded(o))),
    'ClientModel': (lambda w: client.ClientModel, [('dev', None, lambda w: w.dev()), ('mid', NEED, A.id), ('addr', 0, 40004), ('mlen', None, A.length(2)), ('index', 1, 2)],
                    lambda w, o, r: (see(o), loaded(o))),
    'Device.add_model': (lambda w: w.core().add_model, [('model', NEED, lambda w: w.core().models_list[0])], None),
    'Device.from_pics': (lambda w: device.Device().from_pics, [('element', NEED, lambda w: w.sh.pics), ('filename', None, 'absent.xml'), ('pathlist', None, lambda w: w.pl)], None),
    'Device.from_pics file': (lambda w: device.Device().from_pics, [('element', None, None), ('filename', NEED, 'doc.xml'), ('pathlist', None, lambda w: w.pl)], None),
    'Device.to_pics': (lambda w: w.core().to_pics, [('parent', NEED, lambda w: w.keep(ET.Element('r'))), ('single_repeating', True, False)], lambda w, o, r: ET.tostring(w.kept)),
    'Device.not_equal': (lambda w: w.core().not_equal, [('device', NEED, lambda w: device.Device())], None),
    'ModelType': (lambda w: device.ModelType, [('mid', None, 64901)], lambda w, o, r: see(o)),
    'ModelType.from_smdx': (lambda w: device.ModelType().from_smdx, [('element', NEED, lambda w: w.sh.smdx[0])], None),
    'model_type_get': (lambda w: device.model_type_get, [('model_id', NEED, A.id)], lambda w, o, r: see(o)),
    'BlockType': (lambda w: device.BlockType, [('btype', None, 'repeating'), ('blen', 0, 5), ('name', None, 'nm'), ('model_type', None, lambda w: device.ModelType(3))], lambda w, o, r: see(o)),
    'PointType': (lambda w: device.PointType, [('pid', None, 'A'), ('offset', None, 3), ('ptype', None, 'uint16'), ('plen', None, 1), ('mandatory', None, True), ('access', None, 'rw'),
                                               ('sf', None, 'SF'), ('block_type', None, lambda w: device.BlockType())], lambda w, o, r: see(o)),
    'Symbol': (lambda w: device.Symbol, [('sid', None, 'ON')], lambda w, o, r: see(o)),
    'ModbusMap': (lambda w: mbmap.ModbusMap, [('slave_id', None, 4), ('func', 'holding', 'input'), ('base_addr', 40000, 100), ('ns', None, 'mac'), ('lid', None, 'l'), ('mapid', None, 'm'),
                                              ('time', None, 't')], lambda w, o, r: (see(o), ET.tostring(o.to_xml()))),
    'ModbusMap.from_xml': (lambda w: mbmap.ModbusMap().from_xml, [('filename', NEED, 'map.xml'), ('pathlist', NEED, lambda w: w.pl), ('element', None, lambda w: w.sh.map)], None),
    'ModbusMap.from_xml element': (lambda w: mbmap.ModbusMap().from_xml, [('filename', None, None), ('pathlist', None, lambda w: w.pl), ('element', NEED, lambda w: w.sh.map)], None),
    'ModbusMap.to_xml': (lambda w: w.map().to_xml, [('parent', None, lambda w: w.keep(ET.Element('r'))), ('no_data', False, True)], lambda w, o, r: (see(o), see(w.kept))),
    'ModbusMap.regs_add': (lambda w: w.map().regs_add, [('addr', None, 120), ('offset', NEED, 20), ('count', 1, 3), ('access', 'rw', 'r')], None),
    'ModbusMap.read': (lambda w: w.map().read, [('addr', NEED, 100), ('count', NEED, 2), ('op', None, 3)], None),
    'ModbusMap.write': (lambda w: w.map().write, [('addr', NEED, 100), ('data', NEED, b'\1\2')], None),
    'ModbusMapRegs': (lambda w: mbmap.ModbusMapRegs, [('offset', NEED, 3), ('count', NEED, 1), ('data', NEED, b'ab'), ('access', 'r', 'rw')], lambda w, o, r: see(o)),
    'SunSpecData.device_add': (lambda w: w.record().device_add, REC_P, lambda w, o, r: see(o)),
    'DeviceData': (lambda w: sdata.DeviceData, REC_P, lambda w, o, r: see(o)),
    'DeviceData.model_add': (lambda w: w.record().device_data[0].model_add, [('model_id', None, 3), ('index', None, 2), ('namespace', None, 'mac')], lambda w, o, r: see(o)),
    'ModelData.point_add': (lambda w: w.record().device_data[0].model_data[0].point_add, PNT_P, lambda w, o, r: see(o)),
    'PointData': (lambda w: sdata.PointData, PNT_P, lambda w, o, r: see(o)),
    'SunSpecData': (lambda w: sdata.SunSpecData, [('element', None, lambda w: w.sh.record), ('data_record', None, None)], lambda w, o, r: o.to_xml_str()),
    'SunSpecData text': (lambda w: sdata.SunSpecData, [('element', None, None), ('data_record', None, '<sunSpecData v="1"><d lid="9"/></sunSpecData>')], lambda w, o, r: o.to_xml_str()),
    'SunSpecData.from_xml': (lambda w: sdata.SunSpecData().from_xml, [('element', NEED, lambda w: w.sh.record), ('data_record', None, '<sunSpecData v="1"><d lid="9"/></sunSpecData>')], None),
    'SunSpecData.to_xml_str': (lambda w: w.record().to_xml_str, [('pretty_print', False, True)], None),
    'SunSpecData.to_xml': (lambda w: w.record().to_xml, [('parent', None, lambda w: w.keep(ET.Element('r')))], lambda w, o, r: (see(o), see(w.kept))),
    'PathList': (lambda w: util.PathList, [('path_list', None, lambda w: [c32.dirs[0]])], lambda w, o, r: see(o)),
    'PathList.add': (lambda w: w.pl.add, [('path', NEED, '/x')], lambda w, o, r: see(w.pl)),
    'PathList.read': (lambda w: w.pl.read, [('filename', NEED, 'note.txt')], None),
    'Model.to_pics': (lambda w: w.most().to_pics, [('parent', NEED, lambda w: w.keep(ET.Element('r'))), ('single_repeating', True, False)], lambda w, r, o: ET.tostring(w.kept)),
    'Block.to_pics': (lambda w: w.most().blocks[-1].to_pics, [('parent', NEED, lambda w: w.keep(ET.Element('r')))], lambda w, r, o: ET.tostring(w.kept)),
    'Model.load': (lambda w: device.Model(w.core(), A.id, 40004, A.length(2)).load, [('block_class', device.Block, OddBlock), ('point_class', device.Point, OddPoint)],
                   lambda w, r, o: [(type(b).__name__, [(p, type(x).__name__, str(x)) for p, x in b.points.items()]) for b in o.blocks]),
    'Block': (lambda w: device.Block, BLK_P, lambda w, r, o: see(r)), 'ClientBlock': (lambda w: client.ClientBlock, BLK_P, lambda w, r, o: see(r)),
    'Point': (lambda w: device.Point, PT_P, lambda w, r, o: see(r)), 'ClientPoint': (lambda w: client.ClientPoint, PT_P, lambda w, r, o: see(r)),
    'ScaleFactor': (lambda w: device.ScaleFactor, [('value', None, -3)], lambda w, r, o: see(r)),
    'DeviceData.timestamp_add': (lambda w: w.record().device_data[0].timestamp_add, [('timestamp', NEED, 1500000000)], lambda w, r, o: o.timestamp),
    'Symbol.from_smdx': (lambda w: device.Symbol().from_smdx, [('element', NEED, lambda w: ET.fromstring('<symbol id="ON"><label>l</label>1</symbol>')), ('strings', False, True)], None),
    'modbus_rtu_client': (lambda w: modbus.modbus_rtu_client, [('name', NEED, '/dev/both'), ('baudrate', None, 19200), ('parity', None, 'E')], lambda w, r, o: r.read(1, 40000, 2)),
    'RTU client read': (lambda w: w.client().read, [('slave_id', NEED, 1), ('addr', NEED, 40001), ('count', NEED, 3), ('op', 3, 4), ('trace_func', None, lambda w: w.tracer), ('max_count', 125, 2)], None),
    'RTU client write': (lambda w: w.client().write, [('slave_id', NEED, 1), ('addr', NEED, 40004), ('data', NEED, b'\0\5\0\6'), ('trace_func', None, lambda w: w.tracer), ('max_count', 125, 1)], None),
    'ModbusMapRegs.append': (lambda w: mbmap.ModbusMapRegs(3, 1, b'ab').append, [('offset', NEED, 4), ('count', NEED, 1), ('data', NEED, b'cd'), ('access', 'r', 'rw')], lambda w, r, o: see(o)),
    'ModbusMapRegs.read': (lambda w: mbmap.ModbusMapRegs(3, 2, b'abcd').read, [('offset', NEED, 4), ('count', NEED, 1)], None),
    'ModbusMapRegs.write': (lambda w: mbmap.ModbusMapRegs(3, 2, b'abcd', 'rw').write, [('offset', NEED, 4), ('data', NEED, b'xy')], None),
    'ModbusMap.from_hex': (lambda w: mbmap.ModbusMap(7).from_hex, [('name', NEED, lambda w: hexfile()), ('pathlist', None, lambda w: w.pl)], lambda w, r, o: see(o)),
}
# parameters that have no effect one could see
SILENT = {('ModbusClientDeviceMapped', 'max_count'), ('mapped read', 'op'), ('Device.from_pics', 'filename'), ('Device.from_pics', 'pathlist'),
          ('Device.from_pics file', 'element'), ('Device.from_pics file', 'pathlist'), ('ModbusMap.from_xml', 'element'), ('ModbusMap.from_xml element', 'filename'),
          ('ModbusMap.from_xml element', 'pathlist'), ('ModbusMap.from_hex', 'pathlist'), ('ModbusMapRegs.append', 'access'), ('ModbusMap.regs_add', 'addr'), ('ModbusMap.read', 'op'), ('SunSpecData', 'data_record'), ('SunSpecData text', 'element')}


TLS_P = ('tls', 'cafile', 'certfile', 'keyfile', 'insecure_skip_tls_verify')
for _k in ('ClientDevice ', 'SunSpecClientDevice '):
    SILENT |= {(_k + t, p) for t in ('RTU', 'MAPPED') for p in TLS_P + ('ipaddr', 'ipport')}
    SILENT |= {(_k + 'MAPPED', p) for p in ('timeout', 'baudrate', 'parity', 'trace')}


def loaded(m):
    k, v = call(m.load)
    return k, [[(p, str(x)) for p, x in b.points.items()] for b in m.blocks]


def value(w, v):
    return v(w) if isinstance(v, types.FunctionType) else v


def perform(name, given, npos, defaults):
    """Calls the operation; given: the optional parameters that get another value; npos arguments by position; defaults: whether
    the defaults of the others are written."""
    fn, params, look = OPS[name]
    w = World()
    f = fn(w)
    del world.requests[:]
    args, kw = [], {}
    for i, (p, d, s) in enumerate(params):
        v = value(w, s) if d is NEED or p in given else value(w, d)
        if i < npos:
            args.append(v)
        elif d is NEED or p in given or defaults:
            kw[p] = v
    k, r = call(f, *args, **kw)
    owner = getattr(f, '__self__', None)
    out = [k, see(r) if k == 'ok' else (type(r).__name__, str(r)), see(owner) if owner is not None else None]
    if k == 'ok' and look:
        out.append(look(w, r, owner))
    out += [[(q.unit, bytes(q.pdu)) for q in world.requests], w.trace, w.reports, round(world.clock, 6), [f.peer for f in world.fds], [(h.port, h.baudrate, h.parity, h.timeout) for h in world.handles]]
    for o in (r, owner, getattr(r, 'device', None)):
        if o is not None and hasattr(o, 'close'):
            call(o.close)
    c = getattr(modbus, 'modbus_rtu_clients', None)
    if isinstance(c, dict):
        c.clear()
    return out


def text(name, given, npos, defaults):
    return '%s with %s, %d by position%s' % (name, ', '.join(given) or 'nothing optional', npos, '' if defaults else ', the rest left out')


def setup():
    c32.setup()
    import os
    with open(os.path.join(c32.dirs[0], 'doc.xml'), 'w') as f:
        f.write('<sunSpecPics v="1"><device addr="40000"><model id="%d" len="%d"><block><point id="K">5</point></block></model></device></sunSpecPics>' % (B.id, B.length(0)))


# ---------------------------------------------------------------- spellings of one value

def line(t, u):
    """A device of the type, with its unit spelled as given, read and written."""
    def use(w):
        c = {'tcp': modbus.ModbusClientDeviceTCP, 'rtu': modbus.ModbusClientDeviceRTU, 'mapped': modbus.ModbusClientDeviceMapped}[t]
        a = c32.address(t, w.sh, 0)[1]
        d = c(u, **a)
        out = [observed(d.read, 40000, 6), observed(d.write, 40004, b'\0\x09'), observed(d.read, 40004, 1)]
        if t == 'tcp':
            d.connect()
            out.append(observed(d.read, 40000, 2))
        d.close()
        return out
    return use


def line_client(t, u):
    def use(w):
        a = c32.address(t, w.sh, 0)[1]
        d = client.ClientDevice(c32.KINDS_OF[t], u, **a)
        d.scan()
        d.read_points()
        d.models_list[0].points['A'].value = 5
        d.models_list[0].write_points()
        d.models_list[0].points['E'].write()
        out = c32.values(d), observed(d.read, 40004, 2)
        d.close()
        return out
    return use


def observed(f, *a, **k):
    k, v = call(f, *a, **k)
    return (k, v) if k == 'ok' else (k, type(v).__name__, str(v))


def written(t, data):
    def use(w):
        d = {'tcp': w.tcp, 'rtu': w.rtu, 'mapped': w.mapped}[t]()
        out = observed(d.write, 40004, data), d.read(40004, 4)
        d.close()
        return out
    return use


def shown_model(cls, mid, mlen):
    def use(w):
        m = cls(w.dev() if cls is client.ClientModel else w.core(), mid, 40004, mlen)
        return m.id, m.len, loaded(m), m.model_type.id, str(m)
    return use


def a_map(base, slave=None):
    def use(w):
        m = mbmap.ModbusMap(slave, base_addr=base)
        m.regs_add(offset=0, count=4)
        return observed(m.write, 101, b'\0\1\0\2'), observed(m.read, 100, 4), observed(m.read, 99, 1), xml_of(m)
    return use


def xml_of(m):
    r = ET.Element('r')
    m.to_xml(r)
    return ET.tostring(r)


def a_path(path):
    def use(w):
        with device.fresh_file_pathlist(path(c32.dirs[1])) as p:
            return list(p.path), p.read('note.txt'), str(device.model_type_get(A.id))
    return use


def a_record(text):
    def use(w):
        a, b = sdata.SunSpecData(data_record=text), sdata.SunSpecData()
        b.from_xml(data_record=text)
        return a.to_xml_str(), b.to_xml_str()
    return use


def a_point(value, index, sf):
    def use(w):
        r = w.record()
        r.device_data[0].model_add(3, index).point_add('P', value, index, sf)
        return r.to_xml_str(), r.to_xml_str(pretty_print=True)
    return use


def a_scan(answer, delay, bases):
    def use(w):
        d = w.dev(scan=False)
        d.base_addr_list = bases
        r = observed(d.scan, lambda msg: answer, delay)
        out = r, c32.values(d), d.base_addr
        d.close()
        return out
    return use


def a_timeout(t, timeout):
    def use(w):
        d = w.tcp(timeout=timeout) if t == 'tcp' else modbus.ModbusClientDeviceRTU(1, '/dev/both', timeout=timeout)
        world.tcp[('10.0.0.9', 502)].clear()
        world.ports['/dev/both'].clear()
        out = observed(d.read, 40000, 2), round(world.clock, 6)
        check(out[0][0] != 'ok' and world.clock > 0, 'read of a device that does not answer: %r' % (out,), 'spelling')
        d.close()
        return out
    return use


REC = '<sunSpecData v="1"><d lid="L" t="2020-01-01T00:00:00Z"><m id="1" x="2"><p id="A" x="3" sf="-1">5</p></m></d></sunSpecData>'
BYTES = b'\x12\x34\xff\x00'
SPELLINGS = {}
for _t in ('tcp', 'rtu', 'mapped'):
    SPELLINGS['unit, %s' % _t] = [line(_t, u) for u in (1, '1')]
    SPELLINGS['unit, client %s' % _t] = [line_client(_t, u) for u in (1, '1')]
for _t in ('tcp', 'rtu'):
    SPELLINGS['data, %s' % _t] = [written(_t, x) for x in (BYTES, BYTES.decode('latin-1'))]
    SPELLINGS['timeout, %s' % _t] = [a_timeout(_t, x) for x in (1, 1.0)]
SPELLINGS['model id'] = [shown_model(device.Model, x, y) for x in (A.id, str(A.id)) for y in (A.length(1), str(A.length(1)))]
SPELLINGS['client model id'] = [shown_model(client.ClientModel, x, A.length(1)) for x in (A.id, str(A.id))]
SPELLINGS['definition id'] = [lambda w, x=x: str(device.model_type_get(x)) for x in (A.id, str(A.id))]
SPELLINGS['base address of a map'] = [a_map(x, u) for x in (100, '100') for u in (None, 5, '5')]
SPELLINGS['directory'] = [a_path(x) for x in (str, pathlib.Path, Fs)]
SPELLINGS['record'] = [a_record(x) for x in (REC, REC.encode(), '<?xml version="1.0"?>' + REC, ('<?xml version="1.0" encoding="utf-8"?>' + REC).encode())]
SPELLINGS['point'] = [a_point(v, i, sf) for v in (5, '5') for i in (2,) for sf in (-1, '-1')]
SPELLINGS['scan'] = [a_scan(x, d, b) for x in (True, 1, 'go on') for d in (None, 0, 0.0) for b in ([10, 40000], (10, 40000))]


def families(tier):
    thorough = tier == 'thorough'

    def spelling_cases():
        for name in SPELLINGS:
            for i in range(len(SPELLINGS[name])):
                for j in range(len(SPELLINGS[name])):
                    if i != j:
                        yield [name, i, j]

    def spelling_run(c):
        """One way of writing the value, and after it another, as if nothing had been before."""
        name, i, j = c
        outs = []
        for k in (i, j):
            w = World()
            del world.requests[:]
            k, v = call(SPELLINGS[name][k], w)
            check(k == 'ok', '%s, spelling %d: %s %s' % (name, c[1 + len(outs)], type(v).__name__, v), 'spelling refused')
            outs.append((v, [(q.unit, bytes(q.pdu)) for q in world.requests]))
            x = getattr(modbus, 'modbus_rtu_clients', None)
            if isinstance(x, dict):
                x.clear()
        if not core.same(outs[0], outs[1]):
            raise Violation('%s: spelling %d gives %r, spelling %d %r' % (name, i, outs[0], j, outs[1]), 'spelling')
        return Obs(steps=2, execs=2, outcome=c)
    few, many = (3, 2) if thorough else (2, 1)

    def cases():
        for name, (_, params, _) in OPS.items():
            opt = [p for p, d, s in params if d is not NEED]
            for r in range(len(opt) + 1):
                if len(params) <= 8 or r <= few or r >= len(opt) - many:
                    for given in itertools.combinations(opt, r):
                        yield [name, list(given)]

    def run(c):
        name, given = c
        params = OPS[name][1]
        want = perform(name, given, 0, True)
        if want[0] != 'ok' and want[1][0] == 'TypeError':
            raise Violation('%s: %s' % (text(name, given, 0, True), want[1]), 'argument refused')
        outs = [(name, given, 0, True)]
        for npos in range(len(params) + 1):
            for defaults in (True, False):
                got = perform(name, given, npos, defaults)
                if not core.same(got, want):
                    i = [i for i in range(max(len(got), len(want))) if got[i:i + 1] != want[i:i + 1]][0]
                    raise Violation('%s: %r, with every argument named %r' % (text(name, given, npos, defaults), got[i:i + 1], want[i:i + 1]), 'arguments: ' + name)
                outs.append((name, given, npos, defaults))
        if len(given) == 1 and (name, given[0]) not in SILENT:
            p, d, s = [x for x in params if x[0] == given[0]][0]
            if d != s:
                check(not core.same(want, perform(name, [], 0, True)), '%s: %s has no effect' % (name, given[0]), 'argument without effect')
        return Obs(steps=len(outs), execs=len(outs), outcomes=outs)

    return [Family('calls', cases, run, setup, what='every way of writing every call'),
            Family('spellings', spelling_cases, spelling_run, setup, what='every pair of spellings of one value (number and text, text and bytes, path and text)')]
