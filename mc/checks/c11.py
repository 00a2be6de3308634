import itertools

from .. import core, ref, rig, transfers, wire
from ..core import Family, HarnessError, Obs, Search, Violation, call, check, eq, expect_ok
from ..wire import ByIndex, Healthy, SimDevice, world

PROP, LEVEL = 'C11', 'model_checking'
TECHNIQUE = ('explicit-state search over histories of connect, disconnect, close, requests and scans of the real client with every '
             'failure of the simulated network at every request and socket call, in lockstep with a connection state model')
RULE = 'one state per distinct (connection model, client object, socket contents) or history; transitions are operations executed'
BOUNDS = ('one device object: about 217 operations (failing closes of sockets included), all histories to depth 2 (quick) or 3 (thorough, one of the first two operations among 26 kinds) and merged search to closure '
          '(depth 6); 26 operations to depth 3 (quick) or 4; two device objects to depth 4 or 5; scans with up to 2 or 3 failing ones in a row')
NOTE = 'The model is bound to the code by construction: every transition of the model is executed on the real client. '

A0 = 40000
PEER = (rig.HOST, rig.PORT)
REPLY = ['drop', 'late', 'lost', ['exc', 2], ['exc', 6], 'reset', 'eof', 'reset_after', 'eof_after', ['trunc', 5], ['trunc_late', 8],
         ['trunc_eof', 8], ['trunc_reset', 9], ['pdu', [7, 2, 0, 0]]]
SEND = ['reset', 'pipe', 'timeout', 'partial']
RECV = ['timeout', 'reset', 'eof']
CONN = ['refused', 'timeout', 'unreachable']


def ops_all():
    out = [['connect', None], ['connect-t', None]] + [['connect', ['connect', 0, a]] for a in CONN] + [['connect', ['socket', 0, 'error']]]
    out += [['disconnect', None], ['close', None], ['idle', None], ['day', None]]
    out += [[op, ['sclose', 0, 'error']] for op in ('connect', 'disconnect', 'close', 'read', 'write', 'read5', 'write5')]
    for req, n in (('read', 1), ('write', 1), ('read5', 3), ('write5', 3)):
        out.append([req, None])
        for i in range(n):
            out += [[req, ['reply', i, a]] for a in REPLY]
            out += [[req, ['send', i, a]] for a in SEND]
        for i in range(n + 1):
            out += [[req, ['recv', i, a]] for a in RECV]
        out += [[req, ['connect', 0, a]] for a in CONN] + [[req, ['socket', 0, 'error']]]
    return out


def ops_few():
    out = [['idle', None], ['connect', None], ['connect', ['connect', 0, 'refused']], ['connect', ['socket', 0, 'error']], ['disconnect', None], ['close', None],
           ['read', None], ['write', None], ['read5', None]]
    for req in ('read', 'write'):
        out += [[req, f] for f in (['reply', 0, 'drop'], ['reply', 0, ['exc', 2]], ['reply', 0, 'eof'], ['send', 0, 'reset'], ['connect', 0, 'refused'])]
    out += [['read5', ['reply', 1, 'reset']], ['write5', ['reply', 2, 'late']], ['read5', ['recv', 2, 'timeout']],
            ['read', ['reply', 0, ['trunc_late', 8]]], ['write5', None]]
    out += [[op, ['sclose', 0, 'error']] for op in ('connect', 'disconnect', 'read')]
    return out


ALL, FEW = ops_all(), ops_few()


class Model(object):
    """auto: no connection; explicit: connected, nothing failed since; broken: connected once, but a request failed since."""

    def __init__(self, host=rig.HOST, salt=0):
        self.sim = SimDevice({A0 + i: transfers.reg(A0 + i + salt) for i in range(20)})
        world.tcp[host, rig.PORT] = {1: self.sim}
        self.peer = (host, rig.PORT)
        self.dev = rig.modbus.ModbusClientDeviceTCP(1, host, max_count=2)
        self.state = 'auto'
        self.held = None
        self.n = salt

    def opens(self):
        return [f for k, f in world.conn_log if k == 'open' and f.peer == self.peer]

    def unclosed(self):
        return world.open_conns(self.peer)

    def step(self, op, what):
        name, fault = op
        if name in ('idle', 'day'):      # nothing is asked for a while
            world.clock += 400.0 if name == 'idle' else 90000.0
            return name, None
        before = len(self.opens())
        if fault:
            a = fault[2]
            if isinstance(a, list):
                a = (a[0], bytes(a[1]) if isinstance(a[1], list) else a[1])
            plan = ByIndex({(fault[0], fault[1]): a})
        else:
            plan = ByIndex({})
        world.plan = plan
        world.max_conns = len(self.unclosed())
        want = None
        self.n += 1
        if name == 'connect':
            k, v = call(self.dev.connect)
        elif name == 'connect-t':
            k, v = call(self.dev.connect, 0.25)
        elif name == 'disconnect':
            k, v = call(self.dev.disconnect)
        elif name == 'close':
            k, v = call(self.dev.close)
        elif name.startswith('read'):
            addr, cnt = A0 + self.n % 9, 5 if name == 'read5' else 1
            want = ref.unwords([self.sim.regs[addr + i] for i in range(cnt)])
            k, v = call(self.dev.read, addr, cnt)
        else:
            addr, cnt = A0 + self.n % 9, 5 if name == 'write5' else 1
            data = [(self.n * 77 + i) & 0xFFFF for i in range(cnt)]
            k, v = call(self.dev.write, addr, ref.unwords(data))
        world.plan = Healthy()
        failed = bool(plan.used)
        if k == 'ok' and failed and fault[0] != 'sclose':       # what was asked for may be done although closing failed
            raise Violation('%s: succeeded in spite of the failure' % what, 'failure swallowed')
        if k == 'exc':
            if not failed:
                raise Violation('%s: failed with %s: %s although nothing went wrong' % (what, type(v).__name__, v), 'healthy request fails')
            check(isinstance(v, rig.MErr), '%s: raised %s (%s)' % (what, type(v).__name__, v), 'error type')
        if k == 'ok' and want is not None:
            check(v == want, '%s: returned %r, expected %r' % (what, v, want), 'wrong data')
        if k == 'ok' and name.startswith('write'):
            check([self.sim.regs[addr + i] for i in range(cnt)] == data, '%s: registers of the device' % what, 'device registers')
        # connections
        dangling = [f for f in world.fds if not f.closed and not f.connected]
        check(not dangling, '%s: a socket that is not connected is left open' % what, 'socket left open')
        check(world.max_conns <= 1, '%s: %d connections open at once' % (what, world.max_conns), 'more than one connection')
        opened = self.opens()[before:]
        now = self.unclosed()
        check(len(now) <= 1, '%s: %d connections open' % (what, len(now)), 'more than one connection')
        if name in ('disconnect', 'close'):
            check(not now and not opened, '%s: a connection is open afterwards' % what, 'open after close')
            self.state, self.held = 'auto', None
        elif name.startswith('connect'):
            if k == 'ok':
                check(len(now) == 1 and len(opened) <= 1, '%s: %d connections after connect' % (what, len(now)), 'connect')
                self.state, self.held = 'explicit', now[0]
            else:
                self.state, self.held = ('auto', None) if not now else ('broken', None)
                if fault[0] == 'sclose':
                    self.state = 'broken'
        elif self.state == 'auto':
            lim = 0 if failed and fault[0] in ('connect', 'socket') else 1
            check(len(opened) == lim, '%s: %d connections opened for one request' % (what, len(opened)), 'one connection per request')
            check(not now, '%s: the connection is not closed again' % what, 'connection left open')
        elif self.state == 'explicit':
            if k == 'ok' or isinstance(v, rig.MExc):
                check(not opened and now == [self.held], '%s: does not use (or keep) the connection made by connect' % what, 'connection shared')
            else:
                self.state, self.held = 'broken', None
        return k, type(v).__name__ if k == 'exc' else None

    def canon(self):
        s = self.dev.socket
        sock = None
        if s is not None:
            sock = (s.fd.closed, s.fd.connected, s._timeout, tuple(repr(p) for p in s.rx), tuple(s.late), s.tx, repr(s.dead))
        rest = tuple(sorted((k, repr(x)) for k, x in vars(self.dev).items() if k != 'socket'))
        return self.state, sock, rest, len(self.unclosed())


def run_history(hist):
    world.reset()
    m = Model()
    out = []
    for i, op in enumerate(hist):
        out.append(m.step(op, 'step %d (%s) of %s' % (i, op, hist)))
    return m, out


def probe(m, hist):
    """Whatever happened, a healthy request works; close leaves nothing."""
    for op in (['read', None], ['write', None]):
        m.step(op, 'healthy %s after %s' % (op[0], hist))
    m.step(['close', None], 'close after %s' % (hist,))
    m.step(['close', None], 'second close after %s' % (hist,))
    m.step(['read', None], 'read after close after %s' % (hist,))
    check(not world.open_fds(), 'after %s: a socket is left open' % (hist,), 'socket left open')


CHAIN = [(64201, 3, [1, 2, 3]), (64202, 4, [4, 5, 6, 7])]


def scan_faults():
    out = []
    for i in range(12):
        out += [['reply', i, a] for a in REPLY]
        out += [['send', i, 'reset'], ['send', i, 'timeout']]
        out += [['recv', i, a] for a in RECV]
    for i in range(3):
        out += [['connect', i, a] for a in CONN] + [['socket', i, 'error']]
    return out


def families(tier):
    thorough = tier == 'thorough'

    def bfs_run(hist):
        m, out = run_history(hist)
        c = m.canon()
        probe(m, hist)
        return c, len(hist) + 5, ALL

    def hist_cases():
        for a in ALL:
            if thorough:
                for b in ALL:
                    if a in FEW or b in FEW:
                        yield [a, b]
            else:
                yield [a]

    def hist_run(pre):
        outs, n = [], 0
        for last in ALL:
            h = pre + [last]
            m, out = run_history(h)
            probe(m, h)
            outs.append((pre, last, out))
            n += 1
        return Obs(steps=n * (len(pre) + 6), execs=n, outcomes=outs)

    def few_cases():
        for pre in itertools.product(FEW, repeat=3 if thorough else 2):
            yield list(pre)

    def few_run(pre):
        outs, n = [], 0
        for last in FEW:
            h = pre + [last]
            m, out = run_history(h)
            probe(m, h)
            outs.append((pre, last, out))
            n += 1
        return Obs(steps=n * (len(pre) + 6), execs=n, outcomes=outs)

    TWO = [['connect', None], ['disconnect', None], ['close', None], ['read', None], ['write5', None], ['read', ['reply', 0, 'drop']],
           ['read5', ['reply', 1, 'eof']]]

    def two_cases():
        for pre in itertools.product(range(2), range(len(TWO)), repeat=3 if thorough else 2):
            yield list(pre)

    def two_run(pre):
        pre = [(pre[i], pre[i + 1]) for i in range(0, len(pre), 2)]
        outs, n = [], 0
        for tail in itertools.product(itertools.product(range(2), range(len(TWO))), repeat=2):
            h = pre + list(tail)
            world.reset()
            ms = [Model('10.0.0.%d' % (i + 1), 50 * i) for i in range(2)]
            out = []
            for i, (d, o) in enumerate(h):
                other = ms[1 - d]
                conns, opens = other.unclosed(), len(other.opens())
                what = 'step %d of %s' % (i, [(x, TWO[y]) for x, y in h])
                out.append(ms[d].step(TWO[o], what))
                check(other.unclosed() == conns and len(other.opens()) == opens, '%s: connection of the other device touched' % what, 'other device')
            for m in ms:
                m.step(['read', None], 'read after %s' % (h,))
                m.step(['close', None], 'close after %s' % (h,))
            outs.append((h, out))
            n += 1
        return Obs(steps=n * (len(h) + 4), execs=n, outcomes=outs)

    # ---- scan
    def client_fresh():
        sim = SimDevice(ref.image(A0, CHAIN))
        return sim, rig.client_device(sim, 'tcp')

    def scan_step(dev, fault, what, pre):
        a = None
        if fault:
            a = fault[2]
            if isinstance(a, list):
                a = (a[0], bytes(a[1]) if isinstance(a[1], list) else a[1])
        if pre == 'connect':
            expect_ok('connect', dev.modbus_device.connect)
        before = sum(1 for x in world.conn_log if x[0] == 'open')
        plan = world.plan = ByIndex({(fault[0], fault[1]): a} if fault else {})
        k, v = call(dev.scan)
        world.plan = Healthy()
        if k == 'exc':
            check(plan.used, '%s: healthy scan failed: %s: %s' % (what, type(v).__name__, v), 'healthy scan fails')
            check(isinstance(v, rig.CErr), '%s: raised %s: %s' % (what, type(v).__name__, v), 'error type')
        elif not plan.used:
            eq(what + ': models', [(int(m.id), int(m.len)) for m in dev.models_list], [c[:2] for c in CHAIN])
            n = sum(1 for x in world.conn_log if x[0] == 'open') - before
            check(n == 1, '%s: %d connections for one scan' % (what, n), 'one connection per scan')
        check(world.max_conns <= 1, '%s: more than one connection at once' % what, 'more than one connection')
        check(not world.open_fds(), '%s: socket left open' % what, 'socket left open')
        return k, type(v).__name__ if k == 'exc' else None

    SF = scan_faults()

    def scan_cases():
        firsts = [None] + SF
        for pre in (None, 'connect'):
            for f in firsts:
                if thorough:
                    for g in SF:
                        yield [pre, [f, g]]
                else:
                    yield [pre, [f]]

    def scan_run(c):
        pre, faults = c
        seconds = SF if not thorough else [s for s in SF if s[0] in ('connect', 'socket') or s[1] < 5]
        outs, n = [], 0
        for s in seconds:
            sim, dev = client_fresh()
            out = []
            for i, f in enumerate(faults + [s, None]):
                out.append(scan_step(dev, f, 'scan %d of %s' % (i, faults + [s, None]), pre if i == 0 else None))
            expect_ok('close', dev.close)
            check(not world.open_fds(), 'socket open after close', 'socket left open')
            outs.append((c, s, out))
            n += 1
        return Obs(steps=n * (len(faults) + 2), execs=n, outcomes=outs)

    return [
        Search('closure', bfs_run, 6, what='every operation and failure from every distinct state', bound='depth 6', max_level=30000),
        Family('histories', hist_cases, hist_run, what='all histories of the full operation set (no merging)', bound='depth 2 (thorough 3)'),
        Family('deeper', few_cases, few_run, what='all histories of a reduced operation set (no merging)', bound='depth 3 (thorough 4)'),
        Family('two-devices', two_cases, two_run, what='all interleaved histories of two device objects', bound='depth 4 (thorough 5)'),
        Family('scans', scan_cases, scan_run, lambda: rig.definitions([]), what='sequences of scans with failures, then a healthy one'),
    ]
