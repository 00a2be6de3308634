import itertools
import os
import xml.etree.ElementTree as ET

from .. import core, ref, rig, threads, wire
from ..core import Family, HarnessError, Obs, Violation, call, check, eq
from ..ref import P
from ..wire import Healthy, SimDevice, world

import sunspec.core.data as sdata
import sunspec.core.device as device
import sunspec.core.client as client
import sunspec.core.suns as suns
import sunspec.core.util as util
import sunspec.core.smdx as smdx
import sunspec.core.pics as pics
import sunspec.core.modbus.client as modbus
import sunspec.core.modbus.mbmap as mbmap

PROP, LEVEL = 'C26', 'model_checking'
TECHNIQUE = ('systematic exploration of all thread schedules up to a preemption bound: real threads running the library under a controlled '
             'scheduler that can switch before every line of the library, every outcome compared with that of the thread running alone')
RULE = 'one evaluation per schedule; distinct by the pair of programs and the lines before which the threads are switched'
BOUNDS = ('15 programs of up to 5100 lines; every pair (quick: with itself and 2 others) with one preemption before any line; two preemptions, and three threads, '
          'before lines of functions that use mutable module variables (quick: each program with itself); thorough: two preemptions before any line for short programs')
ASSUMPTIONS = ['threads are switched between lines, not within a line of the library nor inside the standard library',
               'objects shared between threads, devices on one serial port and changes of the module-wide path list are not judged']

A = ref.Model(64801, [P('A', 'int16', sf='SF', access='rw'), P('SF', 'sunssf')], [P('V', 'int16', sf='-1', access='rw')], name='ma', block_name='ch')

# a point of every type
T = ref.Model(64802, [P('P' + t, t, ref.TYPES[t] or 4, access='rw') for t in ref.VALUE_TYPES] + [P('pad', 'pad')] * (sum(ref.TYPES[t] or 4 for t in ref.VALUE_TYPES) % 2),
              name='mt')


def one(b, p, n):
    if p.type == 'sunssf':
        return ref.encode('sunssf', -2)


def chain(k):
    return [(A.id, A.length(2), ref.fill(A, 2, k, one))]


class Env(object):
    """The devices of thread n: each thread has its own, of the same content kind but with its own values."""

    def __init__(self, n):
        self.n = n
        self.sims = {}

    def sim(self, transport, ch=None):
        s = SimDevice(ref.image(40000, chain(50 * self.n + 3) if ch is None else ch))
        host = '10.1.%d.%d' % (self.n, len(self.sims))
        name = {'tcp': host, 'rtu': '/dev/thread%d.%d' % (self.n, len(self.sims)), 'mapped': 't%d.%d.xml' % (self.n, len(self.sims))}[transport]
        a = rig.attach(s, transport, 1, name)
        self.sims[name] = s
        return a

    def seen(self):
        """What reached the devices of this thread and what they hold now."""
        return [(where, s.log, sorted(s.regs.items())) for where, s in sorted(self.sims.items())]


KIND = {'tcp': client.TCP, 'rtu': client.RTU, 'mapped': client.MAPPED}


def snap(dev):
    return [(m.id, m.len, m.index, m.addr, m.load_error and str(m.load_error),
             [[(pid, p.value_base, p.value_sf, p.value, bool(p.impl), bool(p.dirty)) for pid, p in b.points.items()] for b in m.blocks])
            for m in dev.models_list]


def wrappers(d):
    out = []
    for name in d.models:
        for w in (d[name][1:] if isinstance(d[name], list) else [d[name]]):
            out.append((w.name, list(w.points), [(p, getattr(w, p), w[p]) for p in w.points], w.repeating_name,
                        [(b.name, list(b.points), [(p, getattr(b, p), b[p]) for p in b.points]) for b in w.repeating[1:]]))
    return out


def scripting(env, transport):
    a = env.sim(transport)

    def run():
        d = client.SunSpecClientDevice(KIND[transport], 1, **a)
        d.read()
        out = [wrappers(d)]
        d.ma.A = 1.5 + env.n
        d.ma.ch[2].V = 2.5 + env.n
        if transport != 'mapped':
            d.ma.write()
        out += [snap(d.device), str(d)]
        d.close()
        return out
    return run


def plain(env, transport):
    a = env.sim(transport)

    def run():
        d = client.ClientDevice(KIND[transport], 1, **a)
        d.scan()
        d.read_points()
        out = [snap(d)]
        d.models_list[0].points['A'].value = 3 + env.n
        if transport != 'mapped':
            d.models_list[0].write_points()
        out.append(snap(d))
        d.close()
        return out
    return run


def every_type(env, transport):
    a = env.sim(transport, [(T.id, T.length(0), ref.fill(T, 0, 40 * env.n))])

    def run():
        d = client.ClientDevice(KIND[transport], 1, **a)
        d.scan()
        m = d.models_list[0]
        m.read_points()
        out = [snap(d)]
        for i, t in enumerate(ref.VALUE_TYPES):
            m.points['P' + t].value = ref.decode(t, ref.sample(t, ref.TYPES[t] or 4, 77 * env.n + i))
        out.append(call(m.write_points)[0])
        m.read_points()
        out.append(snap(d))
        d.close()
        return out
    return run


def raw(env, transport):
    a = env.sim(transport)
    cls = {'tcp': modbus.ModbusClientDeviceTCP, 'rtu': modbus.ModbusClientDeviceRTU}[transport]
    trace = []

    def run():
        d = cls(1, trace_func=trace.append, max_count=3, **a)
        out = [d.read(40000, 4)]
        if transport == 'tcp':
            d.connect()
        d.write(40004, bytes(range(env.n, env.n + 8)))
        out.append(d.read(40006, 2))
        d.close()
        return out, trace
    return run


def failing(env, transport, answer):
    a = env.sim(transport)
    fail_at[next(iter(env.sims))] = answer

    def run():
        out = []
        for cls in (client.ClientDevice, client.SunSpecClientDevice):
            k, v = call(cls, KIND[transport], 1, **a)
            if k == 'ok' and cls is client.ClientDevice:
                k2, v2 = call(v.scan)
                out.append((k2, type(v2).__name__, str(v2)))
                v.close()
            else:
                out.append((k, type(v).__name__, str(v)))
        return out
    return run


def definitions(env):
    def run():
        out = []
        for i in (A.id, 1234):
            k, m = call(device.model_type_get, i)
            if k != 'ok':
                out.append((type(m).__name__, str(m)))
                continue
            for b in (m.fixed_block, m.repeating_block):
                if b is not None:
                    out.append((m.id, m.name, m.len, b.name, b.len, [(p.id, p.offset, p.type, p.len, p.sf, p.access) for p in b.points_list]))
        return out
    return run


def pics_doc(env):
    s = ('<sunSpecPics v="1"><device addr="40000"><model id="%d" len="4"><block><point id="A">%d</point><point id="SF">-1</point></block>'
         '<block type="repeating"><point id="V">%d</point></block></model></device></sunSpecPics>' % (A.id, 5 + env.n, 70 + env.n))
    d = core.scratch_dir('pics%d' % env.n)
    with open(os.path.join(d, 'doc.xml'), 'w') as f:
        f.write(s)

    def run():
        dev = device.Device()
        dev.from_pics(filename='doc.xml', pathlist=util.PathList([d]))
        root = ET.Element('sunSpecPics')
        dev.to_pics(root)
        return snap(dev), ET.tostring(root)
    return run


def map_doc(env):
    d = core.scratch_dir('map%d' % env.n)
    with open(os.path.join(d, 'map.xml'), 'w') as f:
        f.write(ref.mbmap_xml({40000 + a: a * (3 + env.n) & 0xffff for a in (0, 1, 5)}, 40000))

    def run():
        m = mbmap.ModbusMap(1)
        m.from_xml('map.xml', util.PathList([d]))
        m.regs_add(40006, count=2)
        m.write(40000, bytes([env.n, 1]))
        e = ET.Element('x')
        m.to_xml(e)
        return m.read(40000, 2), m.read(40005, 3), ET.tostring(e), str(m)
    return run


def files(env):
    '''Documents and maps by absolute names, by names relative to the working directory, and on path lists of relative entries.'''
    d = core.scratch_dir('cwd26')
    far = core.scratch_dir('far%d/a/b' % env.n)
    mine = 'mine%d' % env.n
    core.scratch_dir('cwd26/' + mine)

    def put(where, k):
        with open(os.path.join(where, 'doc.xml'), 'w') as f:
            f.write('<sunSpecPics v="1"><device addr="40000"><model id="%d"><block><point id="A">%d</point></block></model></device></sunSpecPics>' % (A.id, k + env.n))
        with open(os.path.join(where, 'map.xml'), 'w') as f:
            f.write(ref.mbmap_xml({40000: k + env.n}, 40000))
    put(far, 100)
    put(os.path.join(d, mine), 200)

    def run():
        out = []
        for name, pl in ((far + '/%s', None), (mine + '/%s', None), ('%s', util.PathList([mine])), ('%s', util.PathList(['.', './' + mine]))):
            dev = device.Device()
            dev.from_pics(filename=name % 'doc.xml', pathlist=pl)
            m = mbmap.ModbusMap(1)
            m.from_xml(name % 'map.xml', pl)
            out.append((dev.models_list[0].blocks[0].points['A'].value_base, m.read(40000, 1)))
        return out
    return run


def record(env):
    def run():
        sd = sdata.SunSpecData()
        d = sd.device_add('u%d' % env.n, 'man', namespace='ns%d' % env.n)
        m = d.model_add(A.id)
        m.point_add('A', 3 + env.n, sf=-1)
        m.point_add('V', 4 + env.n, index=1)
        s = sd.to_xml_str(pretty_print=True)
        sd2 = sdata.SunSpecData()
        sd2.from_xml(ET.fromstring(s))
        return s, sd2.to_xml_str()
    return run


PROGRAMS = {
    'script tcp': lambda e: scripting(e, 'tcp'),
    'script rtu': lambda e: scripting(e, 'rtu'),
    'script mapped': lambda e: scripting(e, 'mapped'),
    'client tcp': lambda e: plain(e, 'tcp'),
    'client rtu': lambda e: plain(e, 'rtu'),
    'types rtu': lambda e: every_type(e, 'rtu'),
    'raw tcp': lambda e: raw(e, 'tcp'),
    'raw rtu': lambda e: raw(e, 'rtu'),
    'silent tcp': lambda e: failing(e, 'tcp', 'drop'),
    'refusing rtu': lambda e: failing(e, 'rtu', ('exc', 2)),
    'definitions': definitions,
    'pics': pics_doc,
    'map': map_doc,
    'files': files,
    'record': record,
}
fail_at = {}
QUICK = ('script tcp', 'refusing rtu')       # what interrupts the other programs in the quick tier, besides themselves


class Plan(Healthy):
    def choose(self, kind, menu, ctx=None):
        if kind == 'reply':
            return fail_at.get(ctx.where if isinstance(ctx.where, str) else ctx.where[0])


MODULES = [client, device, modbus, mbmap, sdata, suns, util, smdx, pics]
_alone = {}
fresh = []


def setup():
    rig.definitions([A, T])
    os.chdir(core.scratch_dir('cwd26'))
    _alone.clear()
    fresh.append(threads.Modules(MODULES))


def world_reset():
    world.reset(Plan())
    fail_at.clear()
    os.chdir(core.scratch_dir('cwd26'))
    fresh[-1].restore()


def programs(names):
    world_reset()
    envs = [Env(i + 1) for i in range(len(names))]
    return envs, [PROGRAMS[n](e) for n, e in zip(names, envs)]


def outcome(result, env):
    k, v = result
    return repr((k, v if k == 'ok' else (type(v).__name__, str(v)), env.seen()))


def alone(names, i, fns=None):
    """(outcome, points, lines) of program i when the others do not run at all."""
    key = (tuple(names), i, fns is not None)
    if key not in _alone:
        envs, ps = programs(names)
        res, counts, lines = threads.run([ps[i]], [], fns, record=True)
        _alone[key] = outcome(res[0], envs[i]), counts[0], lines[0]
        envs, ps = programs(names)
        if outcome(threads.run([ps[i]], [], fns)[0][0], envs[i]) != _alone[key][0]:
            raise HarnessError('program %s is not deterministic' % names[i])
    return _alone[key]


def together(names, schedule, fns=None):
    want = [alone(names, i, fns) for i in range(len(names))]
    envs, ps = programs(names)
    res, counts, _ = threads.run(ps, schedule, fns)
    for i, (r, e) in enumerate(zip(res, envs)):
        got = outcome(r, e)
        if got != want[i][0]:
            a, b = got, want[i][0]
            j = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            where = ['%s line %d' % want[t][2][s] if s is not None and s < len(want[t][2]) else 'its end' for t, s in schedule]
            raise Violation('%s (thread %d of %s), switched before %s: ...%s..., alone ...%s...' % (
                names[i], i + 1, ' / '.join(names), ', '.join(where), a[max(0, j - 60):j + 80], b[max(0, j - 60):j + 80]), 'disturbed by another thread')
    check(not world.malformed, 'malformed request %r' % world.malformed[:1], 'malformed request')
    if len(world.open_fds()):
        # a connection left open by a program alone is not this property's business: programs here leave none
        raise Violation('%d sockets left open by %s' % (len(world.open_fds()), ' / '.join(names)), 'left open')
    if world.open_handles():
        raise Violation('%d serial ports left open by %s' % (len(world.open_handles()), ' / '.join(names)), 'left open')
    return sum(counts)


def families(tier):
    thorough = tier == 'thorough'
    shared = threads.touching_shared_state(MODULES)

    def pairs():
        return itertools.combinations_with_replacement(PROGRAMS, 2)

    def one_cases():
        for x, y in pairs():
            for first in (0, 1):
                if first and x == y:
                    continue
                if not thorough and x != y and (y, x)[first] not in QUICK:
                    continue
                n = alone([x, y], first)[1]
                for i in range(n):
                    yield [x, y, first, i]

    def one_run(c):
        x, y, first, i = c
        return Obs(steps=together([x, y], [(first, i), (1 - first, None)]), outcome=c)

    def two_cases():
        for x, y in pairs():
            if not thorough and (x != y or x == 'files'):
                continue
            for first in (0, 1):
                if first and x == y:
                    continue
                n, m = alone([x, y], first, shared)[1], alone([x, y], 1 - first, shared)[1]
                for i in range(n):
                    for j in range(m):
                        yield [x, y, first, i, j]

    def two_run(c):
        x, y, first, i, j = c
        return Obs(steps=together([x, y], [(first, i), (1 - first, j), (first, None)], shared), outcome=c)

    def every_cases():
        for x in ('definitions', 'map'):
            n = alone([x, x], 0)[1]
            for i in range(n):
                for j in range(n):
                    yield [x, x, 0, i, j]

    def every_run(c):
        x, y, first, i, j = c
        return Obs(steps=together([x, y], [(first, i), (1 - first, j), (first, None)]), outcome=c)

    TRIPLES = [('script tcp', 'script tcp', 'script tcp')] + ([('script tcp', 'script rtu', 'definitions'), ('client rtu', 'refusing rtu', 'raw rtu'),
                                                                ('script mapped', 'pics', 'script tcp')] if thorough else [])

    # the first is switched to the second, that to the third, which runs to its end; then the other two go on, in both orders
    def three_cases():
        for names in TRIPLES:
            n, m = alone(names, 0, shared)[1], alone(names, 1, shared)[1]
            for i in range(n):
                for j in range(m):
                    for back in ((0, 1), (1, 0)):
                        yield [list(names), i, j, list(back)]

    def three_run(c):
        names, i, j, back = c
        return Obs(steps=together(names, [(0, i), (1, j), (2, None)] + [(b, None) for b in back], shared), outcome=c)

    out = [
        Family('one preemption', one_cases, one_run, setup, what='pairs of programs, switched before every line',
               bound='%s pairs of the %d programs' % ('all' if thorough else 'each program interrupted by itself, by a scripting device or by a failing one, of', len(PROGRAMS))),
        Family('two preemptions', two_cases, two_run, setup, what='pairs of programs, switched twice, before lines of functions that use module variables',
               bound='all pairs' if thorough else 'each program but files with itself'),
        Family('three threads', three_cases, three_run, setup, what='three programs, switched at two lines of functions that use module variables'),
    ]
    if thorough:
        out.append(Family('two preemptions anywhere', every_cases, every_run, setup, what='short programs, switched twice before any line'))
    return out
