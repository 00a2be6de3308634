import itertools

from .. import core, explore, ref, rig, transfers, wire
from ..core import Family, Obs, Search, Violation, call, check, eq, expect_ok
from ..wire import ByIndex, Healthy, SimDevice, world

PROP, LEVEL = 'C12', 'model_checking'
TECHNIQUE = ('explicit-state search over histories of opening, closing, failing and using device objects on simulated serial ports, '
             'every step executed on the real registry in lockstep with a reference model of it')
RULE = 'one state per distinct structure of the real registry, clients and device objects; transitions are operations executed'
BOUNDS = ('9 port names in pairs; 2 ports x 2 slaves x 6 settings, modbus and SunSpec device objects; up to 3 objects, depth 4 (quick) or 6 (thorough) '
          'merged; all histories of a reduced set to depth 5 or 6 unmerged')
NOTE = 'The model is bound to the code by construction: every transition of the model is executed on the real objects. '

PORTS = ['/dev/simA', '/dev/simB']
# ports are told apart by their whole name
NAMES = ['/dev/ttyUSB1', '/dev/ttyUSB10', '/dev/ttyUSB11', '/dev/serial/ttyUSB1', '/dev/TTYUSB1', 'ttyUSB1', 'COM1', 'COM11', 'USB1']
SETTINGS = [(None, None), (9600, None), (9600, 'N'), (19200, None), (None, 'E'), (19200, 'E')]
BASE = 40000


def module_state():
    """Whatever the module keeps between calls (the registry, under any name)."""
    return {k: v for k, v in vars(rig.modbus).items() if isinstance(v, (dict, list, set)) and not k.startswith('__')
            and 'crc' not in k.lower()}


def forget(m):
    """Nothing of an earlier (violating) history may remain registered."""
    for v in module_state().values():
        v.clear()


class Model(object):
    def __init__(self, ports=PORTS):
        world.reset()
        forget(self)
        self.ports = ports
        for i, p in enumerate(ports):
            world.ports[p] = {s: SimDevice(ref.image(BASE, [(64300 + 10 * i + s, 2, [i * 100 + s, 7])])) for s in (1, 2)}
        self.objs = []            # [object, port index, slave, kind, open?]
        self.settings = {}        # port index -> (baudrate, parity)
        self.handle = {}          # port index -> open handle

    def users(self, p):
        return [o for o in self.objs if o[1] == p and o[4]]

    def step(self, op, what):
        name = op[0]
        if name == 'open':
            _, p, slave, st, kind, fail = op
            baud, par = SETTINGS[st]
            plan = world.plan = ByIndex({('open', 0): 'error'} if fail else {})
            if kind == 'c':
                k, v = call(rig.client.ClientDevice, rig.client.RTU, slave, name=self.ports[p], baudrate=baud, parity=par)
                err = rig.CErr
            else:
                k, v = call(rig.modbus.ModbusClientDeviceRTU, slave, self.ports[p], baud, par)
                err = rig.MErr
            world.plan = Healthy()
            cur = self.settings.get(p)
            if cur:
                ok = (baud is None or baud == cur[0]) and (par is None or par == cur[1])
                check(not plan.used, '%s: the port was opened a second time' % what, 'port opened twice')
            else:
                ok = not plan.used
            if ok:
                if k != 'ok':
                    raise Violation('%s: refused: %s: %s' % (what, type(v).__name__, v), 'open refused')
                self.objs.append([v, p, slave, kind, True])
                if not cur:
                    self.settings[p] = (baud or 9600, par or 'N')
                    hs = world.open_handles(self.ports[p])
                    check(len(hs) == 1, '%s: %d handles open' % (what, len(hs)), 'handles')
                    self.handle[p] = hs[0]
            else:
                if k == 'ok':
                    raise Violation('%s: accepted, settings in use are %r' % (what, cur), 'mismatch accepted')
                check(isinstance(v, err), '%s: raised %s: %s' % (what, type(v).__name__, v), 'error type')
        elif name == 'close':
            o = self.objs[op[1]]
            plan = world.plan = ByIndex({('close', 0): 'error'} if op[2] else {})
            k, v = call(o[0].close)
            world.plan = Healthy()
            check(k == 'ok' or (plan.used and isinstance(v, (rig.MErr, rig.CErr))), '%s: raised %s: %s' % (what, type(v).__name__, v), 'close fails')
            o[4] = False
            if not self.users(o[1]):
                self.settings.pop(o[1], None)
                self.handle.pop(o[1], None)
        elif name == 'fail':              # a request that fails on the wire
            o = self.objs[op[1]]
            world.plan = ByIndex({tuple(op[2][:2]): op[2][2]})
            k, v = call(o[0].read, BASE, 3)
            world.plan = Healthy()
            check(k == 'exc' and isinstance(v, (rig.MErr, rig.CErr)), '%s: %s %r' % (what, k, v), 'error type')
        self.invariant(what)

    def invariant(self, what):
        for p, name in enumerate(self.ports):
            hs = world.open_handles(name)
            if self.users(p):
                check(len(hs) == 1, '%s: port %s has %d open handles while in use' % (what, name, len(hs)), 'handles')
                check(hs[0] is self.handle[p], '%s: port %s was reopened while in use' % (what, name), 'port reopened')
                check((hs[0].baudrate, hs[0].parity) == self.settings[p], '%s: port %s is open with %r, expected %r' % (
                    what, name, (hs[0].baudrate, hs[0].parity), self.settings[p]), 'settings')
            else:
                check(not hs, '%s: port %s is open although no device object uses it' % (what, name), 'port not released')
        for i, o in enumerate(self.objs):
            if o[4]:
                k, v = call(o[0].read, BASE, 4 if i % 2 else 5)
                if k != 'ok':
                    raise Violation('%s: device object %d no longer works: %s: %s' % (what, i, type(v).__name__, v), 'open object unusable')
                want = [0x5375, 0x6e53, 64300 + 10 * o[1] + o[2], 2, o[1] * 100 + o[2]]
                check(ref.words(v) == want[:len(v) // 2], '%s: device object %d reads %r' % (what, i, v), 'wrong device')

    def finish(self, what):
        for i, o in enumerate(self.objs):
            if o[4]:
                self.step(['close', i, False], what + ', then close %d' % i)
        for p in range(len(self.ports)):       # every port can be opened anew with other settings
            self.step(['open', p, 2, 5, 'm', False], what + ', then reopen')
        for i, o in enumerate(self.objs):
            if o[4]:
                self.step(['close', i, False], what + ', then close %d' % i)

    def canon(self):
        return explore.graph(module_state(), [o[0] for o in self.objs], [o[1:] for o in self.objs])


FAILS = [['reply', 0, 'drop'], ['read', 0, 'error'], ['write', 0, 'error']]


def families(tier):
    thorough = tier == 'thorough'
    maxobj = 3

    def ops_of(m):
        out = []
        if len(m.objs) < maxobj:
            for p in range(2):
                for s in (1, 2):
                    for st in range(len(SETTINGS)):
                        out.append(['open', p, s, st, 'm', False])
                    out.append(['open', p, s, 0, 'c', False])
                    out.append(['open', p, s, 4, 'c', False])
                    out.append(['open', p, s, 0, 'm', True])
                    out.append(['open', p, s, 0, 'c', True])
        for i, o in enumerate(m.objs):
            out.append(['close', i, False])
            out.append(['close', i, True])
            if o[4]:
                out += [['fail', i, f] for f in FAILS]
        return out

    def bfs_run(hist):
        m = Model()
        try:
            for i, op in enumerate(hist):
                m.step(op, 'step %d of %s' % (i, hist))
            c, ops = m.canon(), ops_of(m)
            m.finish('after %s' % (hist,))
        finally:
            forget(m)
        return c, len(hist), ops

    SMALL = [['open', 0, 1, 0, 'm', False], ['open', 0, 1, 5, 'c', False], ['open', 0, 2, 1, 'm', False], ['open', 1, 1, 0, 'm', False],
             ['open', 0, 2, 4, 'm', True], ['close', 0, False], ['close', 1, False], ['close', 2, False], ['close', -1, True]]

    def hist_cases():
        for pre in itertools.product(range(len(SMALL)), repeat=5 if thorough else 4):
            yield list(pre)

    def hist_run(pre):
        outs, n = [], 0
        for last in range(len(SMALL)):
            h = [SMALL[i] for i in pre + [last]]
            m = Model()
            try:
                for i, op in enumerate(h):
                    if op[0] == 'close' and not -len(m.objs) <= op[1] < len(m.objs):
                        continue
                    m.step(op, 'step %d of %s' % (i, h))
                outs.append((pre, last, repr(m.settings), [o[4] for o in m.objs]))
                m.finish('after %s' % (h,))
            finally:
                forget(m)
            n += 1
        return Obs(steps=n * len(h), execs=n, outcomes=outs)

    def name_cases():
        for ports in itertools.permutations(NAMES, 2):
            for h in itertools.product(range(5), range(4 if thorough else 3), range(4)):
                yield list(ports), list(h)

    # one object on the first port with settings a, one on the second with settings b, then what is done to them
    def name_run(c):
        ports, (a, b, then) = c
        m = Model(ports)
        h = [['open', 0, 1, a, 'm', False], ['open', 1, 2, [5, 0, 2, 1][b], 'c', False]] + [
            [['close', 0, False], ['close', 1, False]], [['close', 1, False], ['open', 1, 1, 4, 'm', False]],
            [['fail', 0, FAILS[1]], ['open', 0, 2, 0, 'm', False], ['close', 0, False]],
            [['open', 1, 1, 0, 'm', False], ['open', 0, 2, 0, 'c', False], ['close', 1, True], ['close', 0, False]]][then]
        try:
            for i, op in enumerate(h):
                m.step(op, 'step %d of %s on %s' % (i, h, ports))
            m.finish('after %s on %s' % (h, ports))
        finally:
            forget(m)
        return Obs(steps=len(h), outcome=c)

    return [
        Family('port names', name_cases, name_run, what='two ports of similar names', bound='all ordered pairs of %d names x settings x what is done to the objects' % len(NAMES)),
        Search('registry', bfs_run, 6 if thorough else 4, what='every operation from every distinct registry structure', max_level=400000),
        Family('histories', hist_cases, hist_run, what='all histories of a reduced operation set (no merging)', bound='depth 5 (thorough 6)'),
    ]
