import itertools
import re

from .. import core, ref, rig, transfers, wire
from ..core import Family, Obs, Violation, call, check, eq, expect_ok
from ..wire import ByIndex, Healthy, Queue, SimDevice, world

PROP, LEVEL = 'C10', 'fault_enumeration'
TECHNIQUE = ('exhaustive injection of damaged, foreign, truncated, late and missing replies at every request of a transfer on the '
             'real clients, followed by healthy requests')
RULE = 'one evaluation per (transport, transfer, damaged request, damage); distinct by that tuple and its outcome'
BOUNDS = ('transfers of 1..3 requests; every byte value at every reply position, every pair of flipped bits, every truncation, every '
          'exception code; histories of 3 requests (quick) or 4 (thorough) over 10-13 answers')

A0 = 40000
# (operation, registers, maximum per request)
TRANSFERS = [(3, 1, None), (3, 2, None), (3, 5, 2), (4, 2, None), ('w', 1, None), ('w', 2, None), ('w', 5, 2)]
WAYS = [('rtu', None), ('tcp', False), ('tcp', True)]


def open_dev(transport, connected, maxc=None):
    sim = SimDevice({A0 + i: transfers.reg(A0 + i) for i in range(40)},
                    inputs={A0 + i: transfers.reg(A0 + i) ^ 0x5A5A for i in range(40)})
    kw = {} if maxc is None else {'max_count': maxc}
    dev = rig.modbus_device(sim, transport, 1, **kw)
    if connected:
        dev.connect()
    return sim, dev


def perform(sim, dev, op, addr, n, salt=0):
    """(kind, value, right data or None)"""
    if op == 'w':
        data = ref.unwords([(0x1357 + 7 * i + salt) & 0xFFFF for i in range(n)])
        k, v = call(dev.write, addr, data)
        return k, v, None
    if op == 4:
        k, v = call(dev.read, addr, n, op=4)
        return k, v, ref.unwords([sim.inputs[addr + i] for i in range(n)])
    k, v = call(dev.read, addr, n)
    return k, v, ref.unwords([sim.regs[addr + i] for i in range(n)])


def healthy_after(sim, dev, what):
    """Requests of several shapes, each answered with its own data."""
    world.plan = Healthy()
    for j, (op, addr, n) in enumerate([(3, A0 + 11, 2), (4, A0 + 20, 1), ('w', A0 + 15, 2), (3, A0 + 15, 3)]):
        k, v, want = perform(sim, dev, op, addr, n, 77)
        if k != 'ok':
            raise Violation('%s: healthy request %d afterwards failed: %s: %s' % (what, j, type(v).__name__, v), 'next request fails')
        if op != 'w':
            check(v == want, '%s: healthy request %d afterwards returned %s, expected %s' % (what, j, v.hex(), want.hex()),
                  'next request gets foreign data')
        else:
            eq('%s: registers after a healthy write' % what, [sim.regs[addr + i] for i in range(n)],
               [(0x1357 + 7 * i + 77) & 0xFFFF for i in range(n)])


def fails(what, k, v, types=None, code=None):
    if k == 'ok':
        raise Violation('%s: accepted, returned %r' % (what, v), 'damaged reply accepted')
    if not isinstance(v, types or rig.MErr):
        raise Violation('%s: raised %s (%s)' % (what, type(v).__name__, v), 'error type')
    if code is not None:
        check(re.search(r'(?<!\d)%d(?!\d)' % code, str(v)), '%s: the error does not name the code: %s' % (what, v), 'exception code')


def requests_of(op, n, maxc):
    return (n + (maxc or 125) - 1) // (maxc or 125)


def reply_len(transport, op, n):
    return (5 + 2 * n if op != 'w' else 8) if transport == 'rtu' else (9 + 2 * n if op != 'w' else 12)


def size_of(op, n, maxc, idx):
    m = maxc or 125
    return min(m, n - idx * m)


def damaged(case, answer, judge, what):
    """One transfer with one damaged reply, then healthy requests."""
    way, t, idx = case[:3]
    transport, connected = WAYS[way]
    op, n, maxc = TRANSFERS[t]
    sim, dev = open_dev(transport, connected, maxc)
    plan = ByIndex({('reply', idx): answer})
    world.plan = plan
    k, v, want = perform(sim, dev, op, A0 + 3, n)
    if not plan.used:
        raise core.HarnessError('request %d not reached' % idx)
    judge('%s on %s, request %d of %r' % (what, transport, idx, TRANSFERS[t]), k, v, want, op)
    if transport == 'tcp' and connected is False:
        check(not world.open_conns(), '%s: connection left open' % what, 'connection left')
    healthy_after(sim, dev, what)
    dev.close()
    return Obs(steps=5, outcome=(case, k, type(v).__name__))


def must_fail(what, k, v, want, op):
    fails(what, k, v)


def not_believed(what, k, v, want, op):
    """A reply of which the CRC does not hold, or of another device or function, does not even say that the device refuses."""
    fails(what, k, v)
    check(not isinstance(v, rig.MExc), '%s: taken for an exception reply: %s' % (what, v), 'damaged exception')


def own_or_fail(what, k, v, want, op):
    """Damage that cannot be told from a good reply, or need not be: the right data or an error."""
    if k == 'ok':
        check(op == 'w' or v == want, '%s: returned %r, expected %r' % (what, v, want), 'wrong data')
    else:
        fails(what, k, v)


def families(tier):
    thorough = tier == 'thorough'

    def each(transport=None):
        for way, (tr, conn) in enumerate(WAYS):
            if transport and tr != transport:
                continue
            for t, (op, n, maxc) in enumerate(TRANSFERS):
                for idx in range(requests_of(op, n, maxc)):
                    yield way, t, idx, reply_len(tr, op, size_of(op, n, maxc, idx))

    # ---- bytes
    def byte_cases():
        for way, t, idx, ln in each():
            tcp = WAYS[way][0] == 'tcp'
            for pos in range(ln):
                if tcp and pos >= 8 and not (pos == 8 and TRANSFERS[t][0] != 'w'):
                    continue              # data and (for a write) the acknowledged range: no redundancy to judge by
                yield [way, t, idx, pos]

    def byte_run(c):
        way, t, idx, pos = c
        tcp = WAYS[way][0] == 'tcp'
        op = TRANSFERS[t][0]
        outs = []
        for x in range(1, 256):
            def flip(reply):
                return reply[:pos] + bytes([reply[pos] ^ x]) + reply[pos + 1:]
            judged = own_or_fail if tcp and pos in (0, 1, 2, 3, 6) else must_fail if tcp else not_believed
            if tcp and pos == 7 and x == 0x80 and op == 'w':
                judged = must_fail
            outs.append(damaged(c, ('map', flip), judged, 'reply with byte %d changed by %02x' % (pos, x)).outcome)
        return Obs(steps=255 * 5, execs=255, outcomes=[(c, i, o) for i, o in enumerate(outs)])

    def bit_cases():
        for way, t, idx, ln in each('rtu'):
            for i in range(ln * 8):
                yield [way, t, idx, i, ln * 8]

    def bit_run(c):
        way, t, idx, i, bits = c
        outs = []
        for j in range(i + 1, bits):
            def flip(reply):
                b = bytearray(reply)
                b[i // 8] ^= 0x80 >> i % 8
                b[j // 8] ^= 0x80 >> j % 8
                return bytes(b)
            outs.append((j, damaged(c, ('map', flip), not_believed, 'reply with bits %d and %d flipped' % (i, j)).outcome))
        return Obs(steps=5 * len(outs), execs=len(outs), outcomes=outs)

    def burst_cases():
        for way, t, idx, ln in each('rtu'):
            for i in range(ln - 1):
                for x in range(1, 256):
                    yield [way, t, idx, i, x]

    def burst_run(c):
        way, t, idx, i, x = c
        outs = []
        for y in range(1, 256):
            def flip(reply):
                return reply[:i] + bytes([reply[i] ^ x, reply[i + 1] ^ y]) + reply[i + 2:]
            outs.append((y, damaged(c, ('map', flip), not_believed, 'reply with bytes %d.. changed by %02x%02x' % (i, x, y)).outcome))
        return Obs(steps=5 * len(outs), execs=len(outs), outcomes=outs)

    # ---- truncation, silence, end of stream
    def trunc_cases():
        for way, t, idx, ln in each():
            tcp = WAYS[way][0] == 'tcp'
            for k in range(ln):
                for how in ('trunc', 'trunc_late') + (('trunc_eof', 'trunc_reset') if tcp else ()):
                    yield [way, t, idx, how, k]
            for how in ('drop', 'late', 'lost') + (('eof', 'eof_after', 'reset', 'reset_after') if tcp else ()):
                yield [way, t, idx, how, None]

    def trunc_run(c):
        way, t, idx, how, k = c

        def judge(what, kk, v, want, op):
            silent = how in ('drop', 'late', 'lost') or (how in ('trunc', 'trunc_late') and k == 0)
            fails(what, kk, v, rig.MTimeout if silent else None)
        return damaged(c, how if k is None else (how, k), judge, 'reply %s %s' % (how, k))

    # ---- exceptions, foreign replies
    def exc_cases():
        for way, t, idx, ln in each():
            yield [way, t, idx]

    def exc_run(c):
        outs = []
        for code in range(256):
            outs.append(damaged(c, ('exc', code), lambda what, k, v, want, op: fails(what, k, v, rig.MExc, code),
                                'exception %d' % code).outcome)
        return Obs(steps=5 * 256, execs=256, outcomes=[(c, i, o) for i, o in enumerate(outs)])

    def dexc_cases():
        for way, t, idx, ln in each('rtu'):
            for code in (1, 2, 3, 4, 6, 11, 128, 255):
                yield [way, t, idx, code]

    def dexc_run(c):
        way, t, idx, code = c
        outs = []
        for pos in range(5):
            for x in range(1, 256):
                def flip(reply):
                    r = bytes([reply[0], reply[1] | 0x80, code])
                    r += wire.crc16(r)
                    return r[:pos] + bytes([r[pos] ^ x]) + r[pos + 1:]
                outs.append((pos, x, damaged(c, ('map', flip), not_believed, 'exception %d with byte %d changed by %02x' % (code, pos, x)).outcome))
        return Obs(steps=5 * len(outs), execs=len(outs), outcomes=outs)

    def foreign_cases():
        for way, t, idx, ln in each():
            tcp = WAYS[way][0] == 'tcp'
            op, n, maxc = TRANSFERS[t]
            m = size_of(op, n, maxc, idx)
            for f in range(1, 256):                     # another function, normal or exception
                if f & 0x7f != (16 if op == 'w' else op):
                    body = [f & 0x7f, 2 * m] + [7] * (2 * m) if op != 'w' else [f & 0x7f, 0x9c, 0x43, 0, m]
                    yield [way, t, idx, 'pdu', [f, 2] if f & 0x80 else body]
            if op != 'w':
                for k in range(0, 126):
                    if k != m:
                        yield [way, t, idx, 'pdu', [op, 2 * k] + [9] * (2 * k)]       # wrong length, consistent
                for k in (2 * m - 1, 2 * m + 1):
                    yield [way, t, idx, 'pdu', [op, k] + [9] * k]
                for k in range(0, 2 * m):
                    yield [way, t, idx, 'pdu', [op, 2 * m] + [9] * k]                 # byte count right, data missing
                if tcp:
                    for k in range(2 * m + 1, 2 * m + 6):
                        yield [way, t, idx, 'pdu', [op, 2 * m] + [9] * k]             # byte count right, header and data longer
            if not tcp:
                for u in range(256):
                    if u != 1:
                        yield [way, t, idx, 'unit', u]
                        yield [way, t, idx, 'unit-exc', u]
                if op == 'w':
                    at = A0 + 3 + idx * (maxc or 125)

                    def others(v, extra):
                        """Those that share a byte with v, those that differ in one bit, and some more"""
                        near = [v & 0xff00 | x for x in range(256)] + [x << 8 | v & 0xff for x in range(256)] + [v ^ 1 << b for b in range(16)]
                        return sorted(set(near + extra) - {v})
                    for a in others(at, [A0, A0 + 2, A0 + 4, A0 + 3 + n, 0, 65535]):
                        yield [way, t, idx, 'pdu', [16, a >> 8, a & 255, 0, m]]
                    for k in others(m, list(range(0, 130)) + [256 * m, 65535]):
                        yield [way, t, idx, 'pdu', [16, at >> 8, at & 255, k >> 8, k & 255]]

    def foreign_run(c):
        way, t, idx, how, arg = c
        if how == 'pdu':
            a = ('pdu', bytes(arg))
        elif how == 'unit':
            a = ('unit', arg)
        else:
            def other(reply):
                r = bytes([arg, reply[1] | 0x80, 2])
                return r + wire.crc16(r)
            a = ('map', other)
        return damaged(c, a, not_believed, 'foreign reply %s %r' % (how, arg))

    def extra_cases():
        for way, t, idx, ln in each('rtu'):
            for tail in ([0], [0xFF], [1, 3, 2, 0, 0], [1, 3, 2, 9, 9, 0, 0, 1, 2, 3]):
                for front in (False, True):
                    yield [way, t, idx, tail, front]

    def extra_run(c):
        tail, front = bytes(c[3]), c[4]
        return damaged(c, ('map', lambda r: tail + r if front else r + tail), own_or_fail, 'reply with extra bytes %r' % (c[3],))

    # ---- histories
    REQS = [(3, A0 + 1, 2), (3, A0 + 9, 3), (4, A0 + 1, 2), ('w', A0 + 20, 2)]

    def answers(transport):
        a = [None, 'drop', 'late', ('trunc', 5), ('trunc', 7), ('trunc_late', 7), ('exc', 2), ('exc', 6), 'wfunc', 'wlen']
        return a + (['unit', 'crc'] if transport == 'rtu' else ['eof', 'reset', ('trunc_eof', 8)])

    def hist_cases():
        for way, (tr, conn) in enumerate(WAYS):
            na = len(answers(tr))
            for first in itertools.product(range(len(REQS)), range(na)):
                for second in itertools.product(range(len(REQS)), range(na)):
                    if thorough:
                        for third in itertools.product(range(len(REQS)), range(na)):
                            yield [way, [first, second, third]]
                    else:
                        yield [way, [first, second]]

    def one(sim, dev, transport, req, a, what):
        op, addr, n = req
        ans = a
        if a == 'wfunc':
            ans = ('pdu', bytes([4 if op == 3 else 3, 2 * n] + [5] * (2 * n)))
        elif a == 'wlen':
            ans = ('pdu', bytes([op, 2 * n + 2] + [5] * (2 * n + 2))) if op != 'w' else ('pdu', bytes([3, 2, 0, 0]))
        elif a == 'unit':
            ans = ('unit', 9)
        elif a == 'crc':
            ans = ('map', lambda r: r[:-1] + bytes([r[-1] ^ 0x55]))
        world.plan = Queue([ans])
        k, v, want = perform(sim, dev, op, addr, n)
        if a is None:
            if k != 'ok':
                raise Violation('%s: healthy request failed: %s: %s' % (what, type(v).__name__, v), 'next request fails')
            check(op == 'w' or v == want, '%s: got %r, expected %r' % (what, v, want), 'next request gets foreign data')
        elif isinstance(a, tuple) and a[0] == 'exc':
            fails(what, k, v, rig.MExc, a[1])
        else:
            fails(what, k, v, rig.MTimeout if a in ('drop', 'late') else None)
        return k, type(v).__name__

    def hist_run(c):
        way, hist = c
        tr, conn = WAYS[way]
        al = answers(tr)
        outs, execs = [], 0
        for last in itertools.product(range(len(REQS)), range(len(al))):
            sim, dev = open_dev(tr, conn)
            out = []
            for i, (q, a) in enumerate(hist + [last]):
                out.append(one(sim, dev, tr, REQS[q], al[a], 'request %d of history %r on %s' % (
                    i, [(REQS[x], al[y]) for x, y in hist + [last]], tr)))
            healthy_after(sim, dev, 'after history %r on %s' % ([(REQS[x], al[y]) for x, y in hist + [last]], tr))
            dev.close()
            outs.append((last, tuple(out)))
            execs += 1
        return Obs(steps=execs * (len(hist) + 5), execs=execs, outcomes=[(c, o) for o in outs])

    fams = [
        Family('bytes', byte_cases, byte_run, what='every other value of every reply byte (TCP: of every byte that has redundancy)'),
        Family('bit-pairs', bit_cases, bit_run, what='every pair of flipped bits of a serial reply'),
        Family('truncations', trunc_cases, trunc_run, what='every prefix of a reply then silence, a late rest, end of stream or reset'),
        Family('damaged exceptions', dexc_cases, dexc_run, what='every other value of every byte of a serial exception reply'),
        Family('exceptions', exc_cases, exc_run, what='every exception code'),
        Family('foreign', foreign_cases, foreign_run, what='well-formed replies of another slave, function, length or write range'),
        Family('extra', extra_cases, extra_run, what='noise before or after a serial reply'),
        Family('histories', hist_cases, hist_run, what='all sequences of 3 (thorough: 4) requests and answers on one device object'),
    ]
    if thorough:
        fams.insert(2, Family('byte-pairs', burst_cases, burst_run, what='every change of two adjacent bytes of a serial reply'))
    return fams
