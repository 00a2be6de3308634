"""Raw register transfers on one transport (C08: RTU, C09: TCP)."""
import itertools

from . import ref, rig, wire
from .core import Family, Obs, check, eq, expect_ok, Violation
from .wire import Queue, SimDevice, world


def reg(a):
    return (a * 40503 + 257 * (a & 0xFF) + 17) & 0xFFFF


def sim_for(addr, count, margin=3):
    lo, hi = max(0, addr - margin), min(65536, addr + count + margin)
    return SimDevice({a: reg(a) for a in range(lo, hi)}, read_funcs=(3,), inputs={a: reg(a) ^ 0x5A5A for a in range(lo, hi)})


def covers(reqs, addr, count, limit):
    """The requests cover [addr, addr+count) once, in order."""
    at = addr
    for r in reqs:
        a, n = int.from_bytes(r.pdu[1:3], 'big'), int.from_bytes(r.pdu[3:5], 'big')
        check(1 <= n <= limit, 'request for %d registers, limit %d' % (n, limit), 'request size')
        check(a == at, 'request at %d, expected %d (range %d+%d)' % (a, at, addr, count), 'request order')
        at += n
    check(at == addr + count, 'requests cover up to %d of %d+%d' % (at, addr, count), 'range not covered')


def transfer(transport, op, addr, count, maxc, unit, pieces, mode='auto', accepts=()):
    sim = sim_for(addr, count)
    other = sim_for(addr, count)
    for a in other.regs:
        other.regs[a] ^= 0xFFFF
    kw = {} if maxc is None else {'max_count': maxc}
    dev = rig.modbus_device(sim, transport, unit, **kw)
    o_unit = 5 if unit != 5 else 6
    if transport == 'rtu':
        world.ports[dev.name][o_unit] = other
    else:
        world.tcp[rig.HOST, rig.PORT][o_unit] = other
        if mode == 'connected':
            expect_ok('connect', dev.connect)
    world.plan = Queue(pieces=pieces)
    world.plan.accepts = tuple(accepts)
    limit = min(maxc or 125, wire.WRITE_MAX if op == 'w' else wire.READ_MAX)
    before = dict(sim.regs)
    if op == 'w':
        data = ref.unwords([(reg(a) * 7 + 0x1357) & 0xFFFF for a in range(addr, addr + count)])
        expect_ok('write', dev.write, addr, data)
        after = dict(before)
        after.update(zip(range(addr, addr + count), ref.words(data)))
    else:
        if op == 4:
            got = expect_ok('read', dev.read, addr, count, op=4)
            want = ref.unwords([sim.inputs[a] for a in range(addr, addr + count)])
        else:
            got = expect_ok('read', dev.read, addr, count)
            want = ref.unwords([sim.regs[a] for a in range(addr, addr + count)])
        eq('data read', got, want)
        check(isinstance(got, bytes), 'data read is %s' % type(got).__name__, 'data type')
        after = before
    check(not world.malformed, 'malformed request: %r' % (world.malformed[:1],), 'malformed request')
    for r in world.requests:
        eq('unit addressed', r.unit, unit)
        eq('function', r.func, 16 if op == 'w' else op)
    covers(world.requests, addr, count, limit)
    check(sim.regs == after, 'registers of the device after %s' % op, 'device registers')
    check(not other.log, 'another unit was addressed')
    n = len(world.requests)
    dev.close()
    return n


MAXES_Q = [1, 2, 3, 5, 16]
BIG = [40, 100, 122, 123, 124, 125, None]


def sizes(tier):
    for m in (MAXES_Q if tier == 'quick' else range(1, 33)):
        for n in range(1, 3 * m + 2):
            yield m, n
    for m in BIG:
        k = m or 125
        if tier == 'thorough':
            ns = range(1, 3 * k + 2)
        else:
            ns = sorted({1, 2, k - 1, k, k + 1, k + 2, 2 * k - 1, 2 * k, 2 * k + 1, 3 * k, 3 * k + 1} |
                        {122, 123, 124, 125, 126, 245, 246, 247, 249, 250, 251, 369, 370})
        for n in ns:
            yield m, n


def families(transport, tier):
    modes = ['auto', 'connected'] if transport == 'tcp' else ['auto']

    def cases_sizes():
        for m, n in sizes(tier):
            for op in (3, 4, 'w'):
                for mode in modes:
                    yield [op, m, n, mode]

    def run_sizes(c):
        op, m, n, mode = c
        k = transfer(transport, op, 40000, n, m, 1, None, mode)
        return Obs(steps=k, outcome=(op, m, n))

    def cases_place():
        top = 256 if transport == 'tcp' else 248
        for unit in range(0 if transport == 'tcp' else 1, top):
            for op in (3, 4, 'w'):
                yield [unit, 40000, 130, op]
        units = [1, 2, 126, 127, 128, 247] if tier == 'quick' else list(range(1, 248))
        for unit in units:
            for addr, n in [(0, 1), (0, 3), (1, 2), (255, 2), (256, 1), (32767, 3), (40000, 5), (65535, 1), (65532, 4),
                            (65411, 125), (65286, 250), (0, 130)]:
                for op in (3, 4, 'w'):
                    yield [unit, addr, n, op]

    def run_place(c):
        unit, addr, n, op = c
        return Obs(steps=transfer(transport, op, addr, n, None, unit, None), outcome=c)

    def reply_len(op, n):
        return (5 + 2 * n if op != 'w' else 8) if transport == 'rtu' else (9 + 2 * n if op != 'w' else 12)

    def cases_comp():
        for op, n in [(3, 1), (3, 2), (4, 1), ('w', 1), ('w', 3)] + ([(3, 3), (3, 4), (4, 2)] if tier == 'thorough' else []):
            ln = reply_len(op, n)
            for mask in range(1 << (ln - 1)):
                yield [op, n, mask, ln]

    def run_comp(c):
        op, n, mask, ln = c
        pcs, last = [], 0
        for i in range(1, ln):
            if mask >> (i - 1) & 1:
                pcs.append(i - last)
                last = i
        pcs.append(ln - last)
        return Obs(steps=transfer(transport, op, 40000, n, None, 1, lambda k: pcs, modes[-1]), outcome=c)

    def cases_split():
        for op, n, m in [(3, 125, None), (3, 50, None), (3, 251, None), (3, 7, 3), ('w', 7, 3), ('w', 250, None)]:
            ln = max(reply_len(op, k) for k in {min(n, m or 125)})
            for a in range(1, ln):
                yield [op, n, m, [a]]
            bs = range(1, ln) if tier == 'thorough' and ln < 130 else [1, 2, 3, 4, 5, 6, 8, 9, 10, 11]
            for a in bs:
                for b in bs:
                    if a + b < ln:
                        yield [op, n, m, [a, b]]
            for k in (1, 2, 3, 4, 5, 7, 8, 9, 64):
                yield [op, n, m, [k] * (ln // k)]

    def run_split(c):
        op, n, m, pcs = c
        return Obs(steps=transfer(transport, op, 40000, n, m, 1, lambda k: pcs, modes[-1]), outcome=c)

    # requests the socket takes in pieces: every composition of a read request, every one or two cuts of longer ones, uniform pieces
    def cases_taken():
        for mode in modes:
            for op in (3, 4):
                for mask in range(1 << 11):
                    cuts = [i for i in range(1, 12) if mask >> (i - 1) & 1] + [12]
                    yield [op, 2, None, mode, [b - a for a, b in zip([0] + cuts, cuts)]]
            for n in (1, 3, 40) + ((122, 123) if tier == 'thorough' else ()):
                ln = 13 + 2 * n
                for a in range(1, ln):
                    yield ['w', n, None, mode, [a]]
                    for b in range(1, ln - a) if n < 40 or tier == 'thorough' and n == 40 else (1, ln - a - 1):
                        yield ['w', n, None, mode, [a, b]]
            for op, n, m in ((3, 251, None), (4, 7, 3), ('w', 250, None), ('w', 7, 3), ('w', 123, None)):
                for k in (1, 2, 3, 5, 6, 7, 11, 12, 13, 100, 258):
                    yield [op, n, m, mode, [k] * 600]

    def run_taken(c):
        op, n, m, mode, taken = c
        return Obs(steps=transfer(transport, op, 40000, n, m, 1, None, mode, taken), outcome=c)

    out = [
        Family('sizes', cases_sizes, run_sizes, what='every transfer size around multiples of the per-request maximum',
               bound='sizes 1..3*max+1 (all for small maxima, boundaries for large ones in the quick tier)'),
        Family('places', cases_place, run_place, what='units and addresses at the ends of their ranges'),
        Family('compositions', cases_comp, run_comp, what='every way a short reply can be cut into arriving pieces',
               bound='replies up to 9-13 bytes, all 2^(n-1) compositions'),
        Family('splits', cases_split, run_split, what='long and multi-request replies in 2 or 3 pieces, or uniform pieces'),
    ]
    if transport == 'tcp':
        out.append(Family('taken', cases_taken, run_taken, what='every way the socket can take a request in pieces',
                          bound='all compositions of a read request; 1-2 cuts of write requests; uniform pieces of multi-request transfers'))
    return out
