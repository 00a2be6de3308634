"""Glue between the library under test and the simulated world: fresh devices on each transport."""
import itertools
import os

from . import core, ref, wire
from .wire import SimDevice, world

import sunspec.core.client as client
import sunspec.core.data as data
import sunspec.core.device as device
import sunspec.core.modbus.client as modbus
import sunspec.core.modbus.mbmap as mbmap
import sunspec.core.util as util

HOST, PORT = '10.0.0.1', 502
TRANSPORTS = ('tcp', 'rtu', 'mapped')
MErr, MTimeout, MExc = modbus.ModbusClientError, modbus.ModbusClientTimeout, modbus.ModbusClientException
CErr = client.SunSpecClientError
SErr = util.SunSpecError

_ports = itertools.count()


def definitions(models, name=None):
    """Write model definitions to a scratch directory and make it the module-wide path list."""
    d = core.scratch_dir(name)
    for m in models:
        m.write(d)
    use_dir(d)
    return d


def use_dir(*dirs):
    device.file_pathlist = util.PathList(list(dirs))
    cache = getattr(device, 'model_types', None)
    if isinstance(cache, dict):
        cache.clear()


def fresh(sim=None, transport='tcp', unit=1, plan=None):
    """Reset the world and put the device on the given transport. Returns connection arguments for it."""
    world.reset(plan)
    return attach(sim, transport, unit)


def attach(sim, transport='tcp', unit=1, name=None):
    if transport == 'tcp':
        world.tcp[(name or HOST, PORT)] = {unit: sim}
        return {'ipaddr': name or HOST}
    if transport == 'rtu':
        name = name or '/dev/sim%d' % next(_ports)
        world.ports.setdefault(name, {})[unit] = sim
        return {'name': name}
    path = os.path.join(core.scratch_dir('maps'), name or 'm%d.xml' % next(_ports))
    with open(path, 'w') as f:
        f.write(ref.mbmap_xml(sim.regs))
    return {'name': path}


def client_device(sim, transport='tcp', unit=1, plan=None, **kw):
    a = fresh(sim, transport, unit, plan)
    a.update(kw)
    return client.ClientDevice({'tcp': client.TCP, 'rtu': client.RTU, 'mapped': client.MAPPED}[transport], unit, **a)


def script_device(sim, transport='tcp', unit=1, plan=None, **kw):
    a = fresh(sim, transport, unit, plan)
    a.update(kw)
    return client.SunSpecClientDevice({'tcp': client.TCP, 'rtu': client.RTU, 'mapped': client.MAPPED}[transport], unit, **a)


def modbus_device(sim, transport='tcp', unit=1, plan=None, **kw):
    a = fresh(sim, transport, unit, plan)
    a.update(kw)
    if transport == 'tcp':
        return modbus.ModbusClientDeviceTCP(unit, **a)
    if transport == 'rtu':
        return modbus.ModbusClientDeviceRTU(unit, **a)
    return modbus.ModbusClientDeviceMapped(unit, **a)


def check_wire():
    """Everything the client sent was a well-formed request within the Modbus limits."""
    if world.malformed:
        raise core.Violation('malformed request on the %s wire: %s' % (
            world.malformed[0][0], world.malformed[0][1].hex()), sig='malformed request')
    for r in world.requests:
        n = int.from_bytes(r.pdu[3:5], 'big')
        lim = wire.WRITE_MAX if r.write else wire.READ_MAX
        if not 1 <= n <= lim:
            raise core.Violation('request for %d registers exceeds the Modbus limit' % n, sig='request size')
