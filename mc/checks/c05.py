import decimal
import fractions
import itertools
import math
import struct

from .. import core, ref, rig, wire
from ..core import Family, Obs, Violation, call, check, eq, expect_exc, expect_ok
from ..ref import P
from ..wire import SimDevice, world
from . import c03

PROP, LEVEL = 'C05', 'exploration'
TECHNIQUE = ('exhaustive enumeration: all 65536 register values of 16-bit points times every scale factor, read, assigned back '
             'and written through the real client; boundary values for wider points; all histories of scale factor changes')
RULE = 'one evaluation per (point type, register value, scale factor, kind of scale factor) or per history'
BOUNDS = ('int16, uint16, acc16: all values x scale factors -10..10 and unimplemented (thorough: count and constant scale '
          'factors too, for which quick takes boundary values); 32/64-bit: powers of 2 and 10 +-2 (64-bit up to 2^50, '
          'beyond which a float cannot hold the value, but all with scale factor 0 or none); histories of 4 (quick) or 5 steps; all sequences of 2 (quick) or 3 of 16 look-alike values for 10 types; 17 numbers of 15 kinds for 12 types under 5 scale factors')
ASSUMPTIONS = ['64-bit points beyond 2^50 are judged with scale factor 0 or none only: otherwise the scaled value is a float']

NUM = 120
BASE = 40000
SFS = list(range(-10, 11))
# all points of a block share the scale factor of the kind under test
M16 = {}
for _t in ('int16', 'uint16', 'acc16', 'count'):
    M16[_t] = ref.Model(64020 + len(M16), [P('SF', 'sunssf')] + [P('p%d' % i, _t, sf='SF') for i in range(NUM)])
WIDE = {}
for _t in ('int32', 'uint32', 'acc32', 'int64', 'uint64', 'acc64', 'enum32', 'bitfield32'):
    WIDE[_t] = ref.Model(64030 + len(WIDE), [P('SF', 'sunssf')] + [P('p%d' % i, _t, sf='SF') for i in range(30)])
CONST = {n: ref.Model(64050 + n + 10, [P('p%d' % i, 'int16', sf=str(n)) for i in range(NUM)]) for n in SFS}
# every binding: fixed block, own block, constant, shadowed name
HIST = ref.Model(64080, [P('A_SF', 'sunssf'), P('a', 'int16', sf='A_SF'), P('B_SF', 'sunssf'), P('b', 'uint32', sf='B_SF'),
                         P('c', 'int16', sf='-2'), P('d', 'int16')],
                 [P('x', 'int16', sf='A_SF'), P('B_SF', 'sunssf'), P('y', 'int16', sf='B_SF'), P('z', 'int16', sf='3')])

ALIKE = [0, 0.0, -0.0, False, '0', '-0', 1, 1.0, True, '1', ' 1', -1, -1.0, '-1', 2 ** 11, float(2 ** 11)]
ALIKE_TYPES = ('int16', 'uint16', 'int32', 'uint32', 'int64', 'enum16', 'bitfield32', 'acc32', 'float32', 'string')
ALIKE_MODELS = {(_t, _sf): ref.Model(64100 + 2 * _i + bool(_sf), [P('A', _t, 8 if _t == 'string' else None, sf=_sf, access='rw')])
                for _i, _t in enumerate(ALIKE_TYPES) for _sf in (None, '-1')}


class Whole(int):
    pass


class Real(float):
    pass


class Text(str):
    pass


class Meter(object):
    """A number of another library: it is only known how it becomes a float or an int."""

    def __init__(self, n):
        self.n = n

    def __float__(self):
        return float(self.n)

    def __int__(self):
        return int(self.n)


class Index(object):
    """An integer of another library."""

    def __init__(self, n):
        self.n = int(n)

    def __index__(self):
        return self.n

    def __int__(self):
        return self.n

    def __float__(self):
        return float(self.n)


def enum(n):
    return __import__('enum').IntEnum('Named', {'ONE': int(n)}).ONE


# kinds of numbers: (what they are, can be a fraction, of a given number)
KINDS = [('int', False, int), ('float', True, float), ('str', True, str), ('Decimal', True, lambda n: decimal.Decimal(str(n))), ('Decimal of zeros', True, lambda n: decimal.Decimal(str(n)) + decimal.Decimal('0.000')),
         ('Fraction', True, fractions.Fraction), ('subclass of int', False, Whole), ('subclass of float', True, Real), ('subclass of str', True, lambda n: Text(n)),
         ('IntEnum', False, enum), ('number of another library', True, Meter), ('integer of another library', False, Index), ('bool', False, bool),
         ('str in blanks', True, lambda n: ' %s\n' % n), ('str with sign', True, lambda n: '%s' % n if n < 0 else '+%s' % n)]
KIND_VALUES = [0, 1, 2, -1, 7, 12.5, -3.5, 99, 100, 1000, -1000, 2 ** 31 - 1, 2 ** 31, 2 ** 53 + 1, -2 ** 53 - 1, 2 ** 62 + 3, 0.25]
KIND_MODELS = {(_t, _sf): ref.Model(64130 + 8 * _i + _j, [P('A', _t, sf=_sf, access='rw')])
               for _i, _t in enumerate(('int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'enum16', 'bitfield32', 'acc32', 'count', 'float32'))
               for _j, _sf in enumerate((None, '-1', '-3', '1', '2'))}


def setup():
    rig.definitions(list(ALIKE_MODELS.values()) + list(KIND_MODELS.values()) + list(M16.values()) + list(WIDE.values()) + list(CONST.values()) + [HIST])


def wide_values(t, exact=False):
    bits, signed, un = ref.INT[t]
    lo, hi = ref.int_range(t)
    if bits == 64 and not exact:
        lo, hi = max(lo, -(1 << 50)), min(hi, 1 << 50)
    s = {0, 1, 2, 5, lo, lo + 1, hi, hi - 1}
    for k in range(bits):
        s |= {(1 << k) + d for d in (-2, -1, 0, 1, 2)}
    k = 1
    while k < hi:
        s |= {k + d for d in (-2, -1, 0, 1, 2)} | {5 * k, 7 * k, 3 * k - 1, 9 * k + 9}
        k *= 10
    if signed:
        s |= {-x for x in s}
    u = un - (1 << bits) if signed and un >> (bits - 1) else un
    return sorted(x for x in s if lo <= x <= hi and x != u)


def run_values(m, t, raws, sf):
    """One device holding these register values under one scale factor: read, compare, assign back, write, assign near."""
    n = len(raws)
    vals = {'p%d' % i: r for i, r in enumerate(raws)}

    def which(b, p, k):
        if p.type == 'sunssf':
            return ref.unimpl('sunssf') if sf is None else ref.encode('sunssf', sf)
        return ref.encode(p.type, vals[p.id]) if p.id in vals else ref.unimpl(p.type)
    sim = SimDevice(ref.image(BASE, [(m.id, m.len, ref.fill(m, 0, 0, which))]))
    dev, mod = c03.scan(sim, 'tcp')
    dev.modbus_device.connect()
    expect_ok('read', mod.read_points)
    before = dict(sim.regs)
    f = math.pow(10, sf) if sf else 1
    for pid, raw in vals.items():
        p = mod.points[pid]
        dec = ref.decode(t, ref.encode(t, raw))
        check(core.same(p.value_base, dec), '%s register %r reads as %r' % (t, dec, p.value_base), 'register value')
        want = None if dec is None else dec * f
        got = p.value
        if want is None:
            check(got is None, '%s unimplemented with scale factor %r reads as %r' % (t, sf, got), 'unimplemented value')
            continue
        check(got is not None and (ref.close(got, want) if sf else core.same(got, want)), '%s register %d with scale factor %r has value %r, expected %r' % (
            t, dec, sf, got, want), 'scaled value')
        p.value = got
        check(p.value_base == dec, '%s register %d with scale factor %r: assigning back %r stores %r' % (t, dec, sf, got, p.value_base),
              'assigned back')
    expect_ok('write', mod.write_points)
    check(sim.regs == before, 'assigning back the values read changed the registers', 'assigned back')
    if sf is not None:
        for delta in ((0.4, -0.4) if sf else (0,)):
            for pid, raw in vals.items():
                p = mod.points[pid]
                if p.value is None:
                    continue
                v = (raw + delta) * f
                if abs(raw) > 1 << 45 and delta:
                    continue
                p.value = v if (raw % 2 or not sf) else repr(v)
                check(p.value_base == raw and p.value is not None and ref.close(p.value, raw * f),
                      '%s with scale factor %r: assigning %r stores %r, nearest is %r' % (t, sf, v, p.value_base, raw), 'nearest')
    # a value assigned to an unimplemented point
    for p in mod.points_list:
        if p.value is None and p.point_type.id not in vals:
            for whole in (3, 7):
                p.value = whole * f
                check(p.value_base == whole and ref.close(p.value, whole * f),
                      'unimplemented %s with scale factor %r: assigning %r stores %r' % (t, sf, whole * f, p.value_base),
                      'assigned to unimplemented')
            break
    dev.close()


def families(tier):
    def all_cases():
        for t in M16:
            if t == 'count' and tier == 'quick':
                continue
            for sf in SFS + [None]:
                for lo in range(0, 65536, NUM - 1):
                    yield [t, sf, lo, 'point']
        if tier == 'thorough':
            for sf in SFS:
                for lo in range(0, 65536, NUM - 1):
                    yield ['int16', sf, lo, 'const']

    def all_run(c):
        t, sf, lo, how = c
        raws = [r - 65536 if ref.INT[t][1] and r > 32767 else r for r in range(lo, min(lo + NUM - 1, 65536))]
        run_values(CONST[sf] if how == 'const' else M16[t], t, raws, sf)
        return Obs(steps=len(raws), execs=len(raws), outcomes=[(t, sf, how, r) for r in raws])

    def wide_cases():
        for t in WIDE:
            for sf in SFS + [None]:
                vs = wide_values(t, not sf)
                for lo in range(0, len(vs), 29):
                    yield [t, sf, vs[lo:lo + 29], 'point']
        for t in ('int16', 'count'):
            vs = wide_values(t)
            for sf in SFS:
                for lo in range(0, len(vs), 29):
                    yield [t, sf, vs[lo:lo + 29], 'const' if t == 'int16' else 'point']

    def wide_run(c):
        t, sf, vs, how = c
        run_values(CONST[sf] if how == 'const' else WIDE.get(t) or M16[t], t, vs, sf)
        return Obs(steps=len(vs), execs=len(vs), outcomes=[(t, sf, r) for r in vs])

    depth = 4 if tier == 'quick' else 5
    OPS = ['A-2', 'A3', 'Au', 'A0', 'B-1', 'Bu', 'C2', 'read', 'asg', 'write']

    def hist_cases():
        for h in itertools.product(OPS, repeat=depth):
            if 'read' in h[:-1] or 'asg' in h:
                yield list(h)

    def hist_run(c):
        """The device changes its scale factors; the client reads, assigns and writes. Scaling follows the last read."""
        m, repeats = HIST, 2
        sfv = {'A': -1, 'B': 2, 'C': -3}          # A_SF, B_SF of the fixed block, B_SF of the repeating blocks

        def which(b, p, k):
            if p.type == 'sunssf':
                v = sfv['A' if p.id == 'A_SF' else 'B' if b == 0 else 'C']
                return ref.unimpl('sunssf') if v is None else ref.encode('sunssf', v)
            return ref.encode(p.type, 100 + k)
        sim = SimDevice(ref.image(BASE, [(m.id, m.length(repeats), ref.fill(m, repeats, 0, which))]))
        dev, mod = c03.scan(sim, 'tcp')
        dev.modbus_device.connect()
        expect_ok('read', mod.read_points)
        known = m.expect(sim.regs, BASE + 4, repeats)
        pend, n = {}, 0
        addr_of = {(b, p.id): (off, p) for b, p, off in m.value_points(repeats)}
        for op in c:
            if op == 'read':
                expect_ok('read', mod.read_points)
                known = m.expect(sim.regs, BASE + 4, repeats)
                pend = {}
            elif op == 'asg':
                n += 1
                for (b, pid), (raw, sf, v) in list(known.items()):
                    q = mod.blocks[b].points[pid]
                    new = raw + 10 + n
                    q.value = new * math.pow(10, sf) if sf else new
                    pend[b, pid] = new
                    known[b, pid] = (new, sf, ref.scaled(new, sf))
            elif op == 'write':
                expect_ok('write', mod.write_points)
                for key, raw in pend.items():
                    off, p = addr_of[key]
                    got = ref.decode(p.type, ref.unwords([sim.regs[BASE + 4 + off + i] for i in range(p.len)]))
                    eq('register of %r after write (history %r)' % (key, c), got, raw)
                pend = {}
            else:
                sfv[op[0]] = None if op[1:] == 'u' else int(op[1:])
                ws = ref.fill(m, repeats, 0, which)
                for b, p, off in m.points(repeats):
                    if p.type == 'sunssf':
                        sim.regs[BASE + 4 + off] = ws[off]
            for key, (raw, sf, v) in known.items():
                q = mod.blocks[key[0]].points[key[1]]
                check(q.value_base == raw and ref.close(q.value, v), 'after %s of history %r: point %r is %r (%r), expected %r (%r)' % (
                    op, c, key, q.value_base, q.value, raw, v), 'value after history')
        dev.close()
        return Obs(steps=len(c), outcome=c)

    def alike_cases():
        for t in ALIKE_TYPES:
            for sf in ((None, '-1') if t in ref.INT else (None,)):
                for values in itertools.product(range(len(ALIKE)), repeat=3 if tier == 'thorough' else 2):
                    yield [t, sf, list(values)]

    def alike_run(c):
        """Values that compare equal, or look the same, without being the same."""
        t, sf, values = c
        m = ALIKE_MODELS[t, sf]
        sim = SimDevice(ref.image(BASE, [(m.id, m.length(0), [7] * m.length(0))]))
        dev, mod = c03.scan(sim, 'tcp')
        expect_ok('read', mod.read_points)
        for i in values:
            v = ALIKE[i]
            if t == 'string':
                want = str(v).encode().ljust(16, b'\0')
            elif t.startswith('float'):
                want = struct.pack('>f' if t == 'float32' else '>d', float(v))
            else:
                n = int(round(float(v) * 10)) if sf else int(v)
                if n < 0 and not ref.INT[t][1]:
                    continue
                want = ref.encode(t, n)
            mod.points['A'].value = v
            expect_ok('write', mod.write_points)
            eq('registers of a %s (scale factor %s) after %r was assigned, in %r' % (t, sf, v, [ALIKE[j] for j in values]),
               ref.unwords([sim.regs[BASE + 4 + j] for j in range(m.length(0))]), want)
        dev.close()
        return Obs(steps=len(values), outcome=c)

    def kind_cases():
        for t, sf in KIND_MODELS:
            if sf is None or t in ref.INT and t != 'bitfield32':
                for k in range(len(KINDS)):
                    yield [t, sf, k]

    def kind_run(c):
        """Numbers of every kind Python has, and of kinds it does not have: what counts is the number."""
        t, sf, k = c
        what, fractional, make = KINDS[k]
        m = KIND_MODELS[t, sf]
        sim = SimDevice(ref.image(BASE, [(m.id, m.length(0), [7] * m.length(0))]))
        dev, mod = c03.scan(sim, 'tcp')
        expect_ok('read', mod.read_points)
        out = []
        for v in KIND_VALUES:
            if v != int(v) and not fractional or what == 'bool' and v not in (0, 1) or 'float' in what and float(v) != v:
                continue
            if t in ('float32', 'float64'):
                want = struct.pack('>f' if t == 'float32' else '>d', float(v))
            else:
                if sf is None:
                    if v != int(v):
                        continue
                    n = v
                else:
                    if abs(v) > 2 ** 40:
                        continue
                    n = fractions.Fraction(v) * fractions.Fraction(10) ** -int(sf)
                    if n.denominator != 1:
                        continue
                    n = int(n)
                lo, hi = ref.int_range(t)
                if not lo <= n <= hi or n < 0 and not ref.INT[t][1]:
                    continue
                want = ref.encode(t, int(n))
            p = mod.points['A']
            expect_ok('assigning the %s %r to a %s (scale factor %s)' % (what, v, t, sf), setattr, p, 'value', make(v))
            expect_ok('write', mod.write_points)
            eq('registers of a %s (scale factor %s) after the %s %r was assigned' % (t, sf, what, v), ref.unwords([sim.regs[BASE + 4 + j] for j in range(m.length(0))]), want)
            check(ref.close(p.value, float(v)) or t == 'float32' and abs(p.value - v) <= abs(v) * 1e-6, 'value of a %s (scale factor %s) after the %s %r was assigned: %r' % (t, sf, what, v, p.value), 'value')
            out.append(v)
        dev.close()
        return Obs(steps=len(out), outcome=[c, out])

    return [
        Family('kinds of numbers', kind_cases, kind_run, setup, what='numbers of 15 kinds, assigned to points of every numeric type'),
        Family('look-alikes', alike_cases, alike_run, setup, what='assignments of values that are equal or look the same without being the same'),
        Family('values16', all_cases, all_run, setup, what='every value of 16-bit points under every scale factor'),
        Family('wide', wide_cases, wide_run, setup, what='boundary values of 32- and 64-bit points under every scale factor'),
        Family('histories', hist_cases, hist_run, setup, what='every history of scale factor changes, reads, assignments and writes'),
    ]
