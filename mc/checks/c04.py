import struct

from .. import core, ref, rig, wire
from ..core import Family, Obs, Violation, call, check, eq, expect_ok
from ..ref import P
from ..wire import SimDevice, world

PROP, LEVEL = 'C04', 'exploration'
TECHNIQUE = ('exhaustive enumeration of register patterns per point type, each read from and written back to a simulated '
             'device by the real client, against an independent codec table')
RULE = 'one evaluation per (type, register pattern or value); patterns are distinct by construction'
BOUNDS = ('all 65536 patterns of every 16-bit type; all 256 values of every byte over boundary backgrounds and all '
          'combinations of 8 (quick) or 16 boundary words for wider types; strings of 1..10 registers (and 16, 20, 64) with '
          'contents of 0..2n+3 characters')
ASSUMPTIONS = ['acc64 above 2^63-1, eui48 with a zero address or (except for all registers 0xFFFF) an all-ones one, and strings starting with NUL are outside the standard '
               'and not judged']

BASE = 40000
SIXTEEN = ['int16', 'uint16', 'count', 'acc16', 'enum16', 'bitfield16', 'pad', 'sunssf']
BYTES = {t: 2 * n for t, n in ref.TYPES.items() if n}


def lanes(n, words):
    """Byte lanes over boundary backgrounds, then all combinations of boundary words (one word per 16 bits)."""
    seen = set()
    for bg in (b'\0' * n, b'\xff' * n, b'\x80' + b'\0' * (n - 1), b'\x7f' + b'\xff' * (n - 1), b'\0' * (n - 1) + b'\x01'):
        for i in range(n):
            for x in range(256):
                p = bg[:i] + bytes([x]) + bg[i + 1:]
                if p not in seen:
                    seen.add(p)
                    yield p
    ws = words if n <= 8 else words[:3]
    k = len(ws)
    for c in range(k ** (n // 2)):
        p = b''
        for _ in range(n // 2):
            p += struct.pack('>H', ws[c % k])
            c //= k
        if p not in seen:
            seen.add(p)
            yield p


W_QUICK = [0, 0xFFFF, 0x8000, 0x7FFF, 1, 0x00FF, 0x1234, 0xABCD]
W_THOROUGH = W_QUICK + [0xFF00, 0x7FC0, 0x0100, 0x5555, 0xFFFE]


def floats():
    for s in (0, 1):
        for e in range(256):
            for m in (0, 1, 2, 0x3FFFFF, 0x400000, 0x400001, 0x2AAAAA, 0x7FFFFE, 0x7FFFFF):
                yield struct.pack('>L', s << 31 | e << 23 | m)


def patterns(t, tier):
    if t in SIXTEEN:
        return [struct.pack('>H', x) for x in range(65536)]
    ws = W_QUICK if tier == 'quick' else W_THOROUGH
    if t == 'float32':
        return list(dict.fromkeys(list(floats()) + list(lanes(4, ws))))
    out = list(lanes(BYTES[t], ws))
    if t == 'acc64':
        out = [p for p in out if p[0] < 0x80]
    if t == 'eui48':
        out = [p for p in out if any(p[2:]) and (p[2:] != b'\xff' * 6 or p == b'\xff' * 8)]
    return out


def load(t, n, length=None):
    """A scanned client device with one model of n points of type t (rw)."""
    mid = 64000 + sorted(ref.TYPES).index(t)
    pts = [P('p%d' % i, t, length=length, access='rw') for i in range(n)]
    m = ref.Model(mid, pts)
    rig.definitions([m])
    sim = SimDevice(ref.image(BASE, [(mid, m.len, [0] * m.len)]))
    dev = rig.client_device(sim)
    expect_ok('scan', dev.scan)
    mod = dev.models_list[0]
    check(mod.load_error is None, 'model does not load: %s' % mod.load_error, 'model load')
    return m, sim, dev, mod


def put(sim, at, data):
    for i, w in enumerate(ref.words(data)):
        sim.regs[at + i] = w


def get(sim, at, n):
    return ref.unwords([sim.regs[at + i] for i in range(n)])


def points_of(mod, t):
    d = dict(mod.points_sf if t == 'sunssf' else mod.points)
    return d


_pats = {}


def pats(t, tier):
    if (t, tier) not in _pats:
        _pats[t, tier] = patterns(t, tier)
    return _pats[t, tier]


def same_value(t, got, want):
    if t == 'float32' and isinstance(got, float) and isinstance(want, float):
        return struct.pack('>d', got) == struct.pack('>d', want)
    return type(got) is type(want) and got == want


def families(tier):
    per = {t: min(100, 120 // (n or 1)) for t, n in ref.TYPES.items()}

    def read_cases():
        for t in BYTES:
            if t == 'pad':
                continue
            k = len(pats(t, tier))
            for c in range((k + per[t] - 1) // per[t]):
                yield [t, c]

    def read_run(c):
        t, chunk = c
        ps = pats(t, tier)[chunk * per[t]:(chunk + 1) * per[t]]
        n = ref.TYPES[t]
        m, sim, dev, mod = load(t, len(ps))
        at = BASE + 4
        put(sim, at, b''.join(ps))
        expect_ok('read', mod.read_points)
        pts = points_of(mod, t)
        eq('number of points', len(pts), len(ps))
        writable = []
        for i, p in enumerate(ps):
            want = ref.decode(t, p)
            got = pts['p%d' % i].value_base
            check(same_value(t, got, want), '%s %s reads %r, expected %r' % (t, p.hex(), got, want), 'read %s' % t)
            if t != 'sunssf':
                got = pts['p%d' % i].value
                check(same_value(t, got, want), '%s %s value %r, expected %r' % (t, p.hex(), got, want), 'read %s' % t)
                if want is not None and not (t == 'eui48' and p[:2] != b'\0\0'):
                    writable.append((i, p, want))
        if t == 'sunssf':
            return Obs(execs=len(ps), steps=len(ps), outcomes=[(t, p) for p in ps])
        # write the values back over other content
        put(sim, at, bytes(x ^ 0xFF for p in ps for x in p))
        for i, p, v in writable:
            pts['p%d' % i].value = v
        if writable:
            expect_ok('write', mod.write_points)
        after = get(sim, at, n * len(ps))
        w = {i: p for i, p, v in writable}
        for i, p in enumerate(ps):
            now = after[2 * n * i:2 * n * (i + 1)]
            want = w.get(i, bytes(x ^ 0xFF for x in p))
            if t == 'eui48' and i in w:
                want, now = want[2:], now[2:]
            check(now == want, '%s value of %s writes %s' % (t, p.hex(), now.hex()), 'write %s' % t)
        rig.check_wire()
        if writable:
            expect_ok('read', mod.read_points)
            for i, p, v in writable:
                got = pts['p%d' % i].value
                check(same_value(t, got, v), '%s reads back %r, written %r' % (t, got, v), 'read back %s' % t)
        return Obs(execs=len(ps), steps=2 * len(ps), outcomes=[(t, p) for p in ps])

    # ---- strings
    def contents(n):
        """(bytes in the registers)"""
        full = bytes(65 + i % 26 for i in range(2 * n))
        for k in range(2 * n + 1):
            yield full[:k] + bytes(2 * n - k)
        for k in range(1, 2 * n):
            yield full[:k] + b'\0' + full[k + 1:]            # NUL inside
            yield full[:k] + b' ' * (2 * n - k)              # trailing blanks
        for x in range(1, 256):
            yield bytes([x]) + bytes(2 * n - 1)
            yield full[:-1] + bytes([x])
            if n > 1:
                yield b'A' + bytes([x]) + bytes(2 * n - 2)

    lens = list(range(1, 11)) + [16, 20, 64]

    def str_cases():
        for n in lens:
            for i in range(len(list(contents(n))) // 20 + 1):
                yield [n, i]

    def str_run(c):
        n, chunk = c
        ps = list(contents(n))[chunk * 20:(chunk + 1) * 20]
        if not ps:
            return Obs(execs=0, steps=0, outcomes=[])
        m, sim, dev, mod = load('string', 3, n)
        at = BASE + 4
        for p in ps:
            put(sim, at, b'zz' * n + p + b'zz' * n)
            expect_ok('read', mod.read_points)
            want = ref.decode('string', p)
            got = mod.points['p1'].value
            check(same_value('string', got, want), 'string %r reads %r, expected %r' % (p, got, want), 'read string')
            if want is None:
                continue
            put(sim, at, b'\xaa' * (6 * n))
            mod.points['p1'].value = want
            expect_ok('write', mod.write_points)
            now = get(sim, at, 3 * n)
            check(now == b'\xaa' * (2 * n) + p + b'\xaa' * (2 * n),
                  'string %r of %d registers writes %r' % (want, n, now), 'write string')
            rig.check_wire()
        return Obs(execs=len(ps), steps=2 * len(ps), outcomes=[(n, p) for p in ps])

    def strw_cases():
        for n in lens:
            for k in range(1, 2 * n + 4):
                yield [n, k]
            yield [n, 200]

    def strw_run(c):
        n, k = c
        s = ''.join(chr(97 + i % 26) for i in range(k))
        want = ref.encode('string', s, n)
        m, sim, dev, mod = load('string', 3, n)
        at = BASE + 4
        for how in ('model', 'point', 'adjacent'):
            put(sim, at, b'\xaa' * (6 * n))
            exp = b'\xaa' * (2 * n) + want + b'\xaa' * (2 * n)
            mod.points['p1'].value = s
            if how == 'point':
                expect_ok('write', mod.points['p1'].write)
            else:
                if how == 'adjacent':
                    mod.points['p0'].value = s
                    mod.points['p2'].value = s
                    exp = want * 3
                expect_ok('write', mod.write_points)
            now = get(sim, at, 3 * n)
            check(now == exp, 'string of %d characters in %d registers (%s) writes %r' % (k, n, how, now), 'write string')
            rig.check_wire()
            expect_ok('read', mod.read_points)
            eq('string read back', mod.points['p1'].value, s[:2 * n])
        return Obs(execs=3, steps=6, outcomes=[(n, k, h) for h in 'mpa'])

    # ---- ranges
    ints = [t for t in ref.INT if t not in ('pad', 'sunssf')]

    def range_cases():
        for t in ints + ['float32']:
            if t == 'float32':
                vals = [1e39, -1e39, 3.5e38, 1e300]
            else:
                lo, hi = ref.int_range(t)
                bits = ref.INT[t][0]
                vals = [lo - 1, hi + 1, lo - 2, hi + 2, 2 * hi + 2, lo - hi, 1 << bits, -(1 << bits), (1 << bits) + 1, 1 << 70,
                        -(1 << 70), -1 if lo == 0 else hi + 3]
                if t == 'acc64':
                    vals = [v for v in vals if v < 0 or v >= 1 << 64]
            for v in sorted(set(vals)):
                for how in ('model', 'point'):
                    yield [t, v, how]

    def range_run(c):
        t, v, how = c
        m, sim, dev, mod = load(t, 3)
        expect_ok('read', mod.read_points)
        before = dict(sim.regs)
        pt = mod.points['p1']
        k, e = call(setattr, pt, 'value', v)
        if k == 'ok':
            k, e = call(mod.write_points if how == 'model' else pt.write)
        check(k == 'exc', '%s accepts %r' % (t, v), 'range %s' % t)
        check(sim.regs == before and not sim.applied, '%s: %r refused but something was written' % (t, v), 'range %s' % t)
        return Obs(outcome=c)

    def edge_cases():
        for t in ints:
            lo, hi = ref.int_range(t)
            if t == 'acc64':
                hi = (1 << 63) - 1
            for v in sorted({lo, lo + 1, -1 if lo < 0 else 1, 0, 1, hi - 1, hi, hi // 2, hi // 2 + 1, hi // 3}):
                if ref.decode(t, ref.encode(t, v)) is not None:
                    for how in ('model', 'point'):
                        yield [t, v, how]

    def edge_run(c):
        t, v, how = c
        m, sim, dev, mod = load(t, 3)
        n = ref.TYPES[t]
        at = BASE + 4
        put(sim, at, b'\x5a' * (6 * n))
        expect_ok('read', mod.read_points)
        pt = mod.points['p1']
        expect_ok('assign', setattr, pt, 'value', v)
        expect_ok('write', mod.write_points if how == 'model' else pt.write)
        now = get(sim, at, 3 * n)
        check(now == b'\x5a' * (2 * n) + ref.encode(t, v) + b'\x5a' * (2 * n), '%s %r writes %s' % (t, v, now.hex()), 'write %s' % t)
        rig.check_wire()
        expect_ok('read', mod.read_points)
        eq('value read back', mod.points['p1'].value, v)
        return Obs(outcome=c)

    # ---- the conversion functions on their own
    conv = {'s16': (2, True), 'u16': (2, False), 's32': (4, True), 'u32': (4, False), 's64': (8, True), 'u64': (8, False)}

    def conv_cases():
        for k in conv:
            for i in range(8):
                yield [k, i]
        yield ['double', 0]
        yield ['float', 0]

    def conv_run(c):
        k, part = c
        u = rig.util
        if k == 'float' or k == 'double':
            ps = list(floats()) if k == 'float' else [
                struct.pack('>Q', s << 63 | e << 52 | m) for s in (0, 1) for e in range(2048)
                for m in (0, 1, 1 << 51, (1 << 51) - 1, (1 << 51) + 1, (1 << 52) - 1)]
            for p in ps:
                f = struct.unpack('>f' if k == 'float' else '>d', p)[0]
                want = None if f != f else f
                got = getattr(u, 'data_to_' + k)(p)
                check(same_value('float32', got, want), 'data_to_%s(%s) = %r' % (k, p.hex(), got), 'data_to_' + k)
                if want is not None:
                    enc = u.float_to_data(want) if k == 'double' else u.float32_to_data(want)
                    check(enc == p, 'float to data of %r = %s' % (want, enc.hex()), 'float to data')
            return Obs(execs=len(ps), steps=2 * len(ps), outcomes=[(k, p) for p in ps])
        n, signed = conv[k]
        ps = ([struct.pack('>H', x) for x in range(65536)] if n == 2 else list(lanes(n, W_QUICK)))[part::8]
        for p in ps:
            want = int.from_bytes(p, 'big', signed=signed)
            eq('data_to_%s(%s)' % (k, p.hex()), getattr(u, 'data_to_' + k)(p), want)
            eq('%s_to_data(%d)' % (k, want), getattr(u, k + '_to_data')(want), p)
        return Obs(execs=len(ps), steps=2 * len(ps), outcomes=[(k, p) for p in ps])

    return [
        Family('patterns', read_cases, read_run, what='every pattern of every fixed-size type read and written back'),
        Family('strings', str_cases, str_run, what='string register contents read and written back'),
        Family('string-writes', strw_cases, strw_run, what='strings shorter, equal and longer than their point'),
        Family('out-of-range', range_cases, range_run, what='numbers outside the range of the type are refused'),
        Family('edges', edge_cases, edge_run, what='values at the ends of each range written through model and point'),
        Family('conversions', conv_cases, conv_run, what='the conversion functions on their own'),
    ]
